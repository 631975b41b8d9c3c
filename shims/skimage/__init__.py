from _shimlib import ShimUnsupported
from . import draw, segmentation  # noqa: F401
__version__ = '0.0.shim'


def __getattr__(name):
    raise ShimUnsupported('skimage.' + name)
