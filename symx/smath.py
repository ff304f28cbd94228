"""`math` for the code under test: the real functions on plain numbers, the symbolic ones on symbolic values."""
import math as rmath, types
import numpy as rnp
from .core import SymNum, SymBool, Unsupported, is_sym, mk, _trunc, sym_ite


def _v(x):
    if isinstance(x, SymBool):
        return x.as_num()
    if isinstance(x, rnp.ndarray) and x.dtype == object and x.size == 1:
        return _v(x.reshape(-1)[0])
    return x


def _dom(x):
    raise ValueError("math domain error")


def sqrt(x):
    x = _v(x)
    if not is_sym(x):
        return rmath.sqrt(x)
    return _dom(x) if bool(x < 0) else x.toreal().sqrt()


def pow_(x, y):
    x, y = _v(x), _v(y)
    if not (is_sym(x) or is_sym(y)):
        return rmath.pow(x, y)
    x, y = (v.toreal() if is_sym(v) and v is x else v for v in (x, y))
    return x ** y


def log(x, base=None):
    x = _v(x)
    if not is_sym(x):
        return rmath.log(x) if base is None else rmath.log(x, base)
    if bool(x <= 0):
        _dom(x)
    if base is None:
        return x.toreal().log()
    return x.toreal().log2() if base == 2 else x.toreal().log2() / rmath.log2(base)


def log2(x):
    x = _v(x)
    return log(x, 2) if is_sym(x) else rmath.log2(x)


def log10(x):
    x = _v(x)
    return log(x, 10) if is_sym(x) else rmath.log10(x)


def exp2(x):
    x = _v(x)
    return x.exp2() if is_sym(x) else rmath.exp2(x)


def fabs(x):
    x = _v(x)
    return abs(x.toreal()) if is_sym(x) else rmath.fabs(x)


def _pred(f, sym):
    def g(x):
        x = _v(x)
        return sym if is_sym(x) else f(x)
    return g


def fsum(it):
    vs = [_v(v) for v in it]
    if not any(is_sym(v) for v in vs):
        return rmath.fsum(vs)
    r = 0.0
    for v in vs:
        r = v + r
    return r


def prod(it, start=1):
    r = start
    for v in it:
        r = _v(v) * r
    return r


def trunc(x):
    x = _v(x)
    return (x if x.is_int else mk(_trunc(x.expr))) if is_sym(x) else rmath.trunc(x)


def copysign(x, y):
    x, y = _v(x), _v(y)
    if not (is_sym(x) or is_sym(y)):
        return rmath.copysign(x, y)
    a = abs(x)
    if is_sym(y):
        return a if bool(y >= 0) else -a
    return a if rmath.copysign(1, y) > 0 else -a


def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    a, b = _v(a), _v(b)
    if not (is_sym(a) or is_sym(b)):
        return rmath.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d, m = abs(a - b), abs(a)
    n = abs(b)
    m = sym_ite(m > n, m, n) * rel_tol
    return (d <= m) | (d <= abs_tol)


def module():
    m = types.ModuleType("math")
    m.__dict__.update({k: v for k, v in rmath.__dict__.items() if not k.startswith("__")})
    m.__dict__.update(sqrt=sqrt, pow=pow_, log=log, log2=log2, log10=log10, fabs=fabs, fsum=fsum, prod=prod, trunc=trunc,
                      copysign=copysign, isclose=isclose, isnan=_pred(rmath.isnan, False), isinf=_pred(rmath.isinf, False),
                      isfinite=_pred(rmath.isfinite, True))
    if hasattr(rmath, "exp2"):
        m.exp2 = exp2
    return m
