from _shimlib import ShimUnsupported
__version__ = '0.0.shim'


def __getattr__(name):
    raise ShimUnsupported('matplotlib.' + name)
