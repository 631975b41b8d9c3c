from shapely._impl import unary_union, linemerge  # noqa: F401
from _shimlib import ShimUnsupported
cascaded_union = unary_union


def __getattr__(name):
    raise ShimUnsupported('shapely.ops.' + name)
