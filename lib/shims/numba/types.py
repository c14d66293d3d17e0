import numpy as _np


class Type:
    def __init__(self, name=''):
        self.name = name

    def __getitem__(self, k):
        return Array(self, 1 if not isinstance(k, tuple) else len(k), 'A')

    def __call__(self, *a):
        np_t = getattr(_np, self.name, None)
        if len(a) == 1 and np_t is not None and not isinstance(a[0], Type):
            return np_t(a[0])
        return self

    def __repr__(self):
        return self.name


class Number(Type):
    pass


class Integer(Number):
    pass


class IntegerLiteral(Integer):
    pass


class Float(Number):
    pass


class Boolean(Type):
    pass


class NoneType(Type):
    pass


class Optional(Type):
    def __init__(self, typ):
        self.type = typ
        self.name = 'optional'


class Omitted(Type):
    def __init__(self, value):
        self.value = value
        self.name = 'omitted'


class Array(Type):
    def __init__(self, dtype, ndim, layout='C'):
        self.dtype = dtype
        self.ndim = ndim
        self.layout = layout
        self.name = 'array'


class UniTuple(Type):
    def __init__(self, dtype, count):
        self.dtype = dtype
        self.count = count
        self.name = 'unituple'


class Tuple(Type):
    def __init__(self, t):
        self.types = t
        self.name = 'tuple'


BaseTuple = Tuple
boolean = bool_ = Boolean('bool_')
int8, int16, int32, int64, intp = [Integer(n) for n in ('int8', 'int16', 'int32', 'int64', 'intp')]
uint8, uint16, uint32, uint64 = [Integer(n) for n in ('uint8', 'uint16', 'uint32', 'uint64')]
float32, float64 = Float('float32'), Float('float64')
none = NoneType('none')
void = none


def typeof(v):
    if v is None:
        return none
    if isinstance(v, (bool, _np.bool_)):
        return boolean
    if isinstance(v, (int, _np.integer)):
        return int64
    if isinstance(v, (float, _np.floating)):
        return float64
    if isinstance(v, _np.ndarray):
        k = v.dtype.kind
        return Array(boolean if k == 'b' else float64 if k == 'f' else int64, v.ndim)
    return Type(type(v).__name__)
