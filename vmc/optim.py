"""Puts scipy.optimize.minimize under the explorer's control.

Import this module before the code under test.  With no hook set the real
optimizer runs; with a hook the explorer chooses the outcome, so the code
behind the optimizer is explored for every outcome of a grid instead of for the
single point the numeric search happens to return.
"""
import contextlib

import scipy.optimize
import scipy.optimize as _so

_real = getattr(_so.minimize, "_vmc_real", _so.minimize)
_hook = None
calls = []


class Outcome:
    def __init__(self, x, fun=0.0):
        import numpy as np

        self.x = np.array(x, dtype=float)
        self.fun = fun
        self.success = True
        self.status = 0
        self.message = "explorer"
        self.nit = self.nfev = 1


def minimize(fun, x0, *args, **kwargs):
    if _hook is not None:
        out = _hook(fun, x0, *args, **kwargs)
        if out is not None:
            calls.append(len(x0))
            return out
    return _real(fun, x0, *args, **kwargs)


minimize._vmc_real = _real
_so.minimize = minimize


@contextlib.contextmanager
def outcomes(hook):
    global _hook
    old, _hook = _hook, hook
    calls.clear()
    try:
        yield calls
    finally:
        _hook = old
