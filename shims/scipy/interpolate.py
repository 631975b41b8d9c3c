import numpy as np
from _shimlib import ShimUnsupported


class NearestNDInterpolator:
    def __init__(self, x, y, rescale=False, tree_options=None):
        self.points = np.asarray(x, dtype=float)
        self.values = np.asarray(y)
        if self.points.ndim != 2 or len(self.points) != len(self.values):
            raise ValueError('different number of values and points')
        if len(self.points) == 0:
            raise ValueError('No points given')

    def __call__(self, *args):
        if len(args) == 1 and isinstance(args[0], tuple):
            args = args[0]
        if len(args) > 1:
            xi = np.stack([np.asarray(a, dtype=float) for a in args], axis=-1)
        else:
            xi = np.asarray(args[0], dtype=float)
        flat = xi.reshape(-1, xi.shape[-1])
        out = np.empty(len(flat), dtype=self.values.dtype)
        for k in range(len(flat)):
            d = ((self.points - flat[k]) ** 2).sum(axis=1)
            out[k] = self.values[int(np.argmin(d))]
        return out.reshape(xi.shape[:-1])


def __getattr__(name):
    raise ShimUnsupported('scipy.interpolate.' + name)
