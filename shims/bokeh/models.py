class Range1d:
    def __init__(self, start=0.0, end=1.0, **kwargs):
        self.start, self.end = start, end
        self.kwargs = kwargs


class _Any:
    """Something whose attributes can be set and read."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        new = _Any()
        object.__setattr__(self, name, new)
        return new
