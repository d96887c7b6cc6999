"""A numpy Generator whose draws follow a script.

The methods the code under test may reasonably use are scripted, also in their
vectorised forms; every draw is recorded with its parameters.
"""
import numpy as np


class Scripted(np.random.Generator):
    def __new__(cls, **kw):
        return super().__new__(cls, np.random.PCG64(1))

    def __init__(self, poisson=(), gamma=(), zipf=(), order=None):
        super().__init__(np.random.PCG64(1))
        self.scripts = {"poisson": list(poisson), "gamma": list(gamma), "zipf": list(zipf)}
        self.used = {"poisson": [], "gamma": [], "zipf": []}
        self.order = order
        self.shuffles = 0

    def _draw(self, kind, params):
        k = len(self.used[kind])
        self.used[kind].append(tuple(float(p) for p in params))
        script = self.scripts[kind]
        return script[k] if k < len(script) else script[k % len(script)]

    def _many(self, kind, params, size):
        if size is None:
            shape = np.broadcast(*[np.asarray(p) for p in params]).shape if len(params) > 1 else np.asarray(params[0]).shape
            if shape == ():
                return self._draw(kind, params)
        else:
            shape = (size,) if np.isscalar(size) else tuple(size)
        arrs = [np.broadcast_to(np.asarray(p, dtype=float), shape).ravel() for p in params]
        out = [self._draw(kind, [a[i] for a in arrs]) for i in range(int(np.prod(shape)))]
        return np.array(out).reshape(shape)

    def poisson(self, lam=1.0, size=None):
        return self._many("poisson", [lam], size)

    def gamma(self, shape, scale=1.0, size=None):
        return self._many("gamma", [shape, scale], size)

    def zipf(self, a, size=None):
        return self._many("zipf", [a], size)

    def _perm(self, n):
        self.shuffles += 1
        if self.order is None:
            return list(range(n))
        if callable(self.order):
            return list(self.order(n))
        return list(self.order)

    def shuffle(self, x, axis=0):
        old = list(x)
        for i, j in enumerate(self._perm(len(old))):
            x[i] = old[j]

    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            return np.array(self._perm(int(x)))
        old = list(x)
        return np.array([old[j] for j in self._perm(len(old))])
