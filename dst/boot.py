"""
Process bootstrap: put /repo's working tree on sys.path, install *pure* speed-ups
(memoised Decimal power / square root: same value, same context precision), silence
the code under test, and register the seams.

Nothing here changes what the code under test computes.
"""
import os
import sys

REPO = os.environ.get("CARBON_REPO", "/repo")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

CARBON_DIR = os.path.join(REPO, "carbon") + os.sep


def _memo_decimal():
    """memoise two pure Decimal operations that dominate the run time under PyPy"""
    import decimal
    try:
        import _pydecimal as mod
    except ImportError:
        return
    if decimal.Decimal is not mod.Decimal:
        return
    D = mod.Decimal
    real_pow, real_sqrt = D.__pow__, D.sqrt
    cache = {}

    def _key(ctx):
        return (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax)

    def pow_(self, other, modulo=None, context=None):
        if modulo is not None or type(other) is not D or type(self) is not D:
            return real_pow(self, other, modulo, context)
        ctx = context or mod.getcontext()
        k = ("p", self._sign, self._int, self._exp, self._is_special,
             other._sign, other._int, other._exp, other._is_special, _key(ctx))
        r = cache.get(k)
        if r is None:
            r = real_pow(self, other, modulo, context)
            if len(cache) > 50000:
                cache.clear()
            cache[k] = r
        return r

    def sqrt_(self, context=None):
        ctx = context or mod.getcontext()
        k = ("s", self._sign, self._int, self._exp, self._is_special, _key(ctx))
        r = cache.get(k)
        if r is None:
            r = real_sqrt(self, context)
            if len(cache) > 50000:
                cache.clear()
            cache[k] = r
        return r

    D.__pow__ = pow_
    D.sqrt = sqrt_


_memo_decimal()

import warnings  # noqa: E402
warnings.filterwarnings("ignore")
import logging   # noqa: E402
logging.disable(logging.CRITICAL)
