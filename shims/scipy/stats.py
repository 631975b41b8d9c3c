"""Stand-in for scipy.stats: truncnorm.rvs by inverse transform on
np.random.random (so that a checker that owns np.random owns this too)."""
import math

import numpy as np
from _shimlib import ShimUnsupported


def _cdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def _ppf(u, a, b):
    """Quantile of the standard normal truncated to [a, b]."""
    if u <= 0:
        return float(a)
    if u >= 1:
        return float(b)
    fa, fb = _cdf(a), _cdf(b)
    target = fa + u * (fb - fa)
    lo, hi = float(a), float(b)
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        if _cdf(mid) < target:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


class _Truncnorm:
    #: replaced by a checker: callable (a, b, count) -> list of z values
    source = None
    calls = []

    def rvs(self, a, b, loc=0.0, scale=1.0, size=1, random_state=None):
        shape = (size,) if np.isscalar(size) else tuple(size)
        n = 1
        for s in shape:
            n *= int(s)
        if not a < b:
            raise ValueError('Domain error in arguments.')
        sc = np.asarray(scale, dtype=float)
        if (sc < 0).any():
            raise ValueError('Domain error in arguments.')
        if self.source is not None:
            z = self.source(float(a), float(b), n)
        else:
            rng = np.random if random_state is None else \
                np.random.RandomState(random_state)
            z = [_ppf(float(rng.random_sample()), float(a), float(b))
                 for _ in range(n)]
        return np.asarray(loc) + sc * np.array(z, float).reshape(shape)

    def __getattr__(self, name):
        raise ShimUnsupported('scipy.stats.truncnorm.' + name)


truncnorm = _Truncnorm()


def __getattr__(name):
    raise ShimUnsupported('scipy.stats.' + name)
