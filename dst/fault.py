"""
Fault seam at source-line granularity.

`sys.settrace`, restricted to files of the code under test, numbers the line events
executed inside one operation.  A fault (ordinal, exception) makes the running
operation fail exactly there - a failing allocation, a user interrupt, a broken
stdout, an exhausted stack.  Numbering is deterministic, so a fault replays exactly.
"""
import os
import sys
from .boot import CARBON_DIR


class InjectedFault(Exception):
    pass


class StepBudget(BaseException):
    """raised when an operation exceeds its step budget (no progress)"""


EXC = {
    "MemoryError": lambda: MemoryError("injected: allocation failed"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("injected: user interrupt"),
    "OSError": lambda: OSError(28, "injected: No space left on device"),
    "BrokenPipe": lambda: BrokenPipeError(32, "injected: Broken pipe"),
    "RecursionError": lambda: RecursionError("injected: maximum recursion depth exceeded"),
    "SystemExit": lambda: SystemExit("injected: kernel shutdown"),
    "RuntimeError": lambda: RuntimeError("injected: internal failure"),
}


class Tracer:
    def __init__(self, dirs=None, at=None, exc=None, record=False, budget=None, prefix_skip=()):
        self.dirs = tuple(dirs or (CARBON_DIR,))
        self.at = at
        self.exc = exc
        self.n = 0
        self.record = record
        self.sites = []
        self.fired = None
        self.budget = budget
        self._cache = {}

    def _mine(self, fn):
        r = self._cache.get(fn)
        if r is None:
            r = fn.startswith(self.dirs) and "/tests/" not in fn
            self._cache[fn] = r
        return r

    def _global(self, frame, event, arg):
        if self.fired is not None and not self.budget:
            return None
        if event == "call" and self._mine(frame.f_code.co_filename):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event != "line":
            return self._local
        self.n += 1
        if self.record:
            self.sites.append((frame.f_code.co_name, frame.f_lineno))
        if self.budget and self.n > self.budget:
            raise StepBudget(f"operation still running after {self.budget} source lines")
        if self.at is not None and self.n == self.at and self.fired is None:
            co = frame.f_code
            self.fired = (os.path.basename(co.co_filename), co.co_name, frame.f_lineno)
            raise EXC[self.exc]()
        return self._local

    def __enter__(self):
        self._old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self._old)
        return False


class NullOut:
    """stdout of the code under test: discards; optionally breaks at the n-th write"""

    def __init__(self, break_at=None, exc="BrokenPipe"):
        self.n = 0
        self.break_at = break_at
        self.exc = exc
        self.fired = None
        self.encoding = "utf-8"

    def write(self, s):
        self.n += 1
        if self.break_at is not None and self.n == self.break_at and not self.fired:
            self.fired = True
            raise EXC[self.exc]()
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def pick_site(rng, sites):
    """choose a fault ordinal: distinct source line first, then one of its occurrences"""
    if not sites:
        return None
    by = {}
    for i, s in enumerate(sites):
        by.setdefault(s, []).append(i + 1)
    keys = sorted(by)
    occ = by[keys[rng.randrange(len(keys))]]
    r = rng.random()
    if r < 0.35:
        return occ[0]
    if r < 0.6:
        return occ[-1]
    return occ[rng.randrange(len(occ))]
