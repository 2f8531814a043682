"""
Randomness seam: every generator the code obtains from numpy is a proxy that delegates
to the stream the simulator installed, wherever and whenever it was created.
"""
import random as _random
import numpy as _np

_real = _np.random.default_rng
_cur = _real(0)
hits = 0


class Proxy:
    def __getattr__(self, name):
        global hits
        hits += 1
        return getattr(_cur, name)


def default_rng(seed=None):
    return Proxy() if seed is None else _real(seed)


def install():
    _np.random.default_rng = default_rng


def use(gen, seed=0):
    """the stream all generators draw from, from now on"""
    global _cur
    _cur = gen
    _np.random.seed(seed % (2 ** 32))
    _random.seed(seed)


def real(seed):
    return _real(seed)


install()
