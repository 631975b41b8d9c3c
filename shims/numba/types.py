from _shimlib import ShimUnsupported


class Type:
    def __init__(self, name='type', *args):
        self.name = name

    def __getitem__(self, item):
        n = len(item) if isinstance(item, tuple) else 1
        return Array(self, n, 'A')

    def __call__(self, *args):
        return Signature(self, args)

    def __repr__(self):
        return self.name


class Opaque(Type):
    pass


class Number(Type):
    pass


class Integer(Number):
    pass


class Float(Number):
    pass


class Complex(Number):
    pass


class Boolean(Type):
    pass


class NoneType(Opaque):
    pass


class Record(Type):
    pass


class Signature:
    def __init__(self, restype, args):
        self.return_type = restype
        self.args = args


class Array(Type):
    def __init__(self, dtype=None, ndim=1, layout='A', *args, **kwargs):
        super().__init__('array')
        self.dtype, self.ndim, self.layout = dtype, ndim, layout


class BaseTuple(Type):
    pass


class Tuple(BaseTuple):
    def __init__(self, types=()):
        super().__init__('tuple')
        self.types = tuple(types)


class UniTuple(BaseTuple):
    def __init__(self, dtype=None, count=0):
        super().__init__('unituple')
        self.dtype, self.count = dtype, count


class Optional(Type):
    def __init__(self, tp=None):
        super().__init__('optional')


def optional(tp):
    return Optional(tp)


f4 = float32 = Float('float32')
f8 = float64 = float_ = double = Float('float64')
i1 = int8 = Integer('int8')
i2 = int16 = Integer('int16')
i4 = int32 = Integer('int32')
i8 = int64 = int_ = intp = Integer('int64')
u1 = uint8 = Integer('uint8')
u2 = uint16 = Integer('uint16')
u4 = uint32 = Integer('uint32')
u8 = uint64 = uintp = uint = Integer('uint64')
c8 = complex64 = Complex('complex64')
c16 = complex128 = Complex('complex128')
b1 = boolean = bool_ = Boolean('bool')
void = none = NoneType('none')
unicode_type = string = Opaque('unicode')


def List(*a, **k):
    return Type('list')


def __getattr__(name):
    raise ShimUnsupported('numba.types.' + name)
