from shapely._impl import *  # noqa
from shapely._impl import (  # noqa: F401
    BaseGeometry, BaseMultipartGeometry, Point, LineString, LinearRing,
    Polygon, MultiPoint, MultiLineString, MultiPolygon, GeometryCollection,
    mapping, shape, box)
from _shimlib import ShimUnsupported
asShape = shape


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise ShimUnsupported('shapely.geometry.' + name)
