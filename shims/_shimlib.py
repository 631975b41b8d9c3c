"""Common parts of the stand-ins for packages this sandbox lacks."""


class ShimUnsupported(AttributeError, NotImplementedError):
    """The code asked a stand-in for something it does not model.

    The runner treats a case ending in this as *inconclusive*, never as a
    violation."""
