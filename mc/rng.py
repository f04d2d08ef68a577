"""A scripted random generator: the explorer, not chance, resolves every random choice.

ScriptedRNG(qs) is a numpy Generator whose every elementary draw consumes the next quantile of the script
(cyclically), so enumerating scripts enumerates the outcomes the code under test can be handed.
"""

import numpy as np


class ScriptedRNG(np.random.Generator):
    def __init__(self, quantiles):
        super().__init__(np.random.PCG64(0))
        self._qs = [float(q) for q in quantiles]
        self._i = 0

    def _next(self, size):
        def one():
            q = self._qs[self._i % len(self._qs)]
            self._i += 1
            return q

        if size is None:
            return one()
        shape = (size,) if np.ndim(size) == 0 else tuple(size)
        return np.array([one() for _ in range(int(np.prod(shape)))]).reshape(shape)

    def random(self, size=None, dtype=np.float64, out=None):
        return self._next(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (np.asarray(high) - low) * self._next(size)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        span = high - low + (1 if endpoint else 0)
        v = np.floor(np.asarray(self._next(size)) * span).astype(dtype) + low
        return v if np.ndim(v) else dtype(v)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = int(a) if np.ndim(a) == 0 else len(a)
        p = np.full(n, 1.0 / n) if p is None else np.asarray(p, dtype=float)
        if len(p) != n or np.any(p < 0) or abs(p.sum() - 1) > 1e-6:
            raise ValueError("probabilities do not sum to 1")
        cdf = np.cumsum(p)
        cdf = cdf / cdf[-1]
        q = np.asarray(self._next(size))
        idx = np.searchsorted(cdf, q, side="right")
        idx = np.minimum(idx, n - 1)
        if np.ndim(a) == 0:
            return idx if np.ndim(idx) else np.int64(idx)
        return np.asarray(a)[idx]

    def normal(self, loc=0.0, scale=1.0, size=None):
        from scipy.special import ndtri

        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return np.asarray(loc) + np.asarray(scale) * ndtri(np.clip(self._next(size), 1e-12, 1 - 1e-12))

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self.normal(0.0, 1.0, size)
