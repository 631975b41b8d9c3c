"""Stand-in for numba: functions run as plain Python (same semantics as
``NUMBA_DISABLE_JIT=1``), types are inert descriptions."""
import functools
import types as _pytypes

import numpy as np

from . import types
from .types import (  # noqa: F401
    f4, f8, i1, i2, i4, i8, u1, u2, u4, u8, b1, float32, float64, int8, int16,
    int32, int64, uint8, uint16, uint32, uint64, boolean, void, none, optional,
    intp, uintp, c8, c16, complex64, complex128, int_, float_, uint)
from .typing.typeof import typeof  # noqa: F401
from _shimlib import ShimUnsupported

__version__ = '0.0.shim'
prange = range


def _is_func(x):
    return isinstance(x, (_pytypes.FunctionType, functools.partial,
                          _pytypes.BuiltinFunctionType, staticmethod))


def jit(*args, **kwargs):
    if args and _is_func(args[0]):
        return _attach(args[0])
    return _attach


def _attach(func):
    try:
        func.py_func = func
    except Exception:
        pass
    return func


njit = jit
autojit = jit


def vectorize(*args, **kwargs):
    def deco(func):
        @functools.wraps(func)
        def wrapper(*a, **kw):
            kw.pop('dtype', None)
            out = kw.pop('out', None)
            arrs = [np.asarray(x) for x in a]
            if all(x.ndim == 0 for x in arrs):
                res = func(*[x.item() for x in arrs], **kw)
                return np.float64(res) if isinstance(res, float) else res
            bc = np.broadcast(*arrs) if len(arrs) > 1 else None
            shape = bc.shape if bc is not None else arrs[0].shape
            full = [np.broadcast_to(x, shape).ravel() for x in arrs]
            vals = [func(*[c.item() for c in row]) for row in zip(*full)]
            res = np.array(vals).reshape(shape) if vals else np.zeros(shape)
            if out is not None:
                out[...] = res
                return out
            return res
        wrapper.py_func = func
        return wrapper
    if args and _is_func(args[0]):
        return deco(args[0])
    return deco


def guvectorize(*args, **kwargs):
    raise ShimUnsupported('guvectorize')


def _type_of(value):
    if isinstance(value, (bool, np.bool_)):
        return types.Boolean('boolean')
    if isinstance(value, (float, np.floating)):
        return types.Float('float64')
    if isinstance(value, (int, np.integer)):
        return types.Integer('int64')
    if isinstance(value, np.ndarray):
        if value.ndim == 0:
            return types.Float('float64')
        return types.Array(types.f8, value.ndim, 'C')
    if isinstance(value, tuple):
        return types.Tuple([_type_of(v) for v in value])
    return types.Opaque(type(value).__name__)


def generated_jit(*args, **kwargs):
    def deco(func):
        @functools.wraps(func)
        def wrapper(*a, **kw):
            impl = func(*[_type_of(x) for x in a],
                        **{k: _type_of(v) for k, v in kw.items()})
            return impl(*a, **kw)
        wrapper.py_func = func
        return wrapper
    if args and _is_func(args[0]):
        return deco(args[0])
    return deco


def jitclass(*args, **kwargs):
    def deco(cls):
        return cls
    if args and isinstance(args[0], type):
        return deco(args[0])
    return deco


class _Config:
    DISABLE_JIT = 1

    def __getattr__(self, name):
        return None


config = _Config()


class _Errors:
    class NumbaError(Exception):
        pass

    class TypingError(NumbaError):
        pass

    class NumbaWarning(Warning):
        pass

    class NumbaPerformanceWarning(NumbaWarning):
        pass

    class NumbaDeprecationWarning(NumbaWarning):
        pass


errors = _Errors()


def __getattr__(name):
    raise ShimUnsupported('numba.' + name)
