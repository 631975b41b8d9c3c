from shapely._impl import (  # noqa: F401
    BaseGeometry, BaseMultipartGeometry, Point, LineString, LinearRing,
    Polygon, MultiPoint, MultiLineString, MultiPolygon, GeometryCollection,
    mapping, shape, box)
