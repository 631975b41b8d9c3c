class ShapelyError(Exception):
    pass


class TopologicalError(ShapelyError):
    pass


class ReadingError(ShapelyError):
    pass
