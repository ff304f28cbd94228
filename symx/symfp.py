"""Bit-exact IEEE floats (z3 floating-point theory), for the few places where the neighbour of a float matters."""
import struct
import numpy as rnp
import z3
from .core import SymBool, SymNum, Unsupported, eng

F32, F64 = z3.Float32(), z3.Float64()
RNE = z3.RNE()


def conv(x, sort):
    if isinstance(x, SymFP):
        return x.expr if x.expr.sort() == sort else z3.fpToFP(RNE, x.expr, sort)
    if isinstance(x, SymNum):
        raise Unsupported("mixing exact floats and reals")
    return z3.FPVal(float(x), sort)


def _wide(a, b):
    """result type of an operation of numpy scalars (numpy 1.x: a Python number makes it a double)"""
    for v in (a, b):
        if isinstance(v, SymFP):
            if v.expr.sort() == F64:
                return F64
        elif not isinstance(v, (rnp.float32, rnp.float16, rnp.int8, rnp.int16)):
            return F64
    return F32


class SymFP(object):
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, expr):
        self.expr = expr

    def to(self, sort):
        return SymFP(conv(self, sort))

    def toreal(self):
        return self.to(F64)

    def item(self):
        return self.to(F64)

    @property
    def dtype(self):
        return rnp.dtype("float32" if self.expr.sort() == F32 else "float64")

    def _op(self, o, f, swap=False):
        s = _wide(self, o)
        a, b = conv(self, s), conv(o, s)
        return SymFP(f(RNE, b, a) if swap else f(RNE, a, b))

    def __add__(self, o): return self._op(o, z3.fpAdd)
    def __radd__(self, o): return self._op(o, z3.fpAdd, True)
    def __sub__(self, o): return self._op(o, z3.fpSub)
    def __rsub__(self, o): return self._op(o, z3.fpSub, True)
    def __mul__(self, o): return self._op(o, z3.fpMul)
    def __rmul__(self, o): return self._op(o, z3.fpMul, True)
    def __truediv__(self, o): return self._op(o, z3.fpDiv)
    def __rtruediv__(self, o): return self._op(o, z3.fpDiv, True)
    def __neg__(self): return SymFP(z3.fpNeg(self.expr))
    def __abs__(self): return SymFP(z3.fpAbs(self.expr))

    def _cmp(self, o, f):
        s = _wide(self, o)
        return SymBool(f(conv(self, s), conv(o, s)))

    def __lt__(self, o): return self._cmp(o, z3.fpLT)
    def __le__(self, o): return self._cmp(o, z3.fpLEQ)
    def __gt__(self, o): return self._cmp(o, z3.fpGT)
    def __ge__(self, o): return self._cmp(o, z3.fpGEQ)
    def __eq__(self, o): return self._cmp(o, z3.fpEQ)
    def __ne__(self, o): return self._cmp(o, z3.fpNEQ)
    __hash__ = None

    def __bool__(self):
        return bool(self._cmp(0.0, z3.fpNEQ))

    def __float__(self):
        raise Unsupported("float() of an exact symbolic float")

    def __deepcopy__(self, memo):
        return self

    def symx_eval(self, m):
        v = m.eval(z3.fpToIEEEBV(self.expr), model_completion=True).as_long()
        return struct.unpack("<f", struct.pack("<I", v))[0] if self.expr.sort() == F32 else struct.unpack("<d", struct.pack("<Q", v))[0]


def nextafter(a, b, dtype=None):
    if dtype is not None:
        sort = F32 if rnp.dtype(getattr(dtype, "base_dtype", dtype)) == rnp.float32 else F64
    else:
        sort = _wide(a, b)
    a, b = conv(a, sort), conv(b, sort)
    n = sort.ebits() + sort.sbits()
    one = z3.BitVecVal(1, n)
    bits = z3.fpToIEEEBV(a)
    tiny = z3.If(z3.fpGT(b, a), z3.BitVecVal(1, n), z3.BitVecVal((1 << (n - 1)) + 1, n))
    away = z3.fpGT(b, a) == z3.Not(z3.fpIsNegative(a))
    r = z3.If(z3.fpIsZero(a), tiny, z3.If(away, bits + one, bits - one))
    res = z3.If(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)), z3.fpNaN(sort), z3.If(z3.fpEQ(a, b), b, z3.fpBVToFP(r, sort)))
    return SymFP(res)


def fresh32(name):
    """any finite single-precision number; the input is its bit pattern"""
    e = eng()
    nm = e._fresh(name)
    v = z3.BitVec(nm, 32)
    e.declared[nm] = v
    x = z3.fpBVToFP(v, F32)
    e.assume_z3(z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x))))
    return SymFP(x)


def from_bits(v):
    return rnp.array([v], dtype=rnp.uint32).view(rnp.float32)[0]
