from _shimlib import ShimUnsupported
from .qhull import Delaunay, Voronoi, ConvexHull, QhullError  # noqa: F401


def __getattr__(name):
    raise ShimUnsupported('scipy.spatial.' + name)
