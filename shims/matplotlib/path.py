import numpy as np
from _shimlib import ShimUnsupported


class Path:
    def __init__(self, vertices, codes=None, *args, **kwargs):
        self.vertices = np.array(vertices, dtype=float)
        if self.vertices.ndim != 2 or self.vertices.shape[1] != 2:
            raise ValueError("'vertices' must be a 2D list or array with shape Nx2")

    def contains_point(self, point, *args, **kwargs):
        return bool(self.contains_points([point])[0])

    def contains_points(self, points, transform=None, radius=0.0):
        pts = np.asarray(points)
        if pts.dtype.names is not None:
            raise TypeError('Cannot cast structured array to float64')
        pts = pts.astype(float)
        if pts.ndim != 2 or pts.shape[1] != 2:
            raise ValueError('points must be an Nx2 array')
        v = self.vertices.tolist()
        if v[0] != v[-1]:
            v = v + [v[0]]
        out = np.zeros(len(pts), dtype=bool)
        for k, (x, y) in enumerate(pts.tolist()):
            inside = False
            for (x0, y0), (x1, y1) in zip(v[:-1], v[1:]):
                if (y0 > y) != (y1 > y):
                    if x < (x1 - x0) * (y - y0) / (y1 - y0) + x0:
                        inside = not inside
            out[k] = inside
        return out

    def __getattr__(self, name):
        raise ShimUnsupported('Path.' + name)


def __getattr__(name):
    raise ShimUnsupported('matplotlib.path.' + name)
