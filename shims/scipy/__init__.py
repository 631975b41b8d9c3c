from _shimlib import ShimUnsupported
from . import stats, spatial, interpolate  # noqa: F401
__version__ = '0.0.shim'


def __getattr__(name):
    raise ShimUnsupported('scipy.' + name)
