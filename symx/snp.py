"""Façade over the real numpy: float arrays become object arrays that can hold symbolic scalars.

Everything not overridden here is the real numpy function, working on object arrays.
Nondeterministic stubs: argsort/sort order of ties, random permutations/choices, empty()/ndarray()
contents are fresh symbols ("uninitialised").
"""
import types, builtins
import numpy as rnp
import numpy as np
from .core import (SymNum, SymBool, Unsupported, eng, is_sym, any_sym, sym_ite, sym_and, sym_or, mk,
                   num_expr, is_int_term, to_real, _trunc, PathAbort, SymBool, LONG, long_perm, long_draws)
import z3


class _DTMeta(type):
    def __call__(cls, x=0, *a, **k):
        return cast_scalar(x, cls)

    def __instancecheck__(cls, x):
        if cls.kind == "f":
            return isinstance(x, cls.rtype) or (isinstance(x, SymNum) and not x.is_int)
        return isinstance(x, cls.rtype)

    def __eq__(cls, o):
        if isinstance(o, _DTMeta):
            return cls.dtype == o.dtype
        try:
            return cls.dtype == rnp.dtype(o)
        except TypeError:
            return False

    def __ne__(cls, o):
        return not cls.__eq__(o)

    def __hash__(cls):
        return hash(cls.dtype)

    def __getattr__(cls, name):
        return getattr(cls.rtype, name)

    def __subclasscheck__(cls, sub):
        return issubclass(getattr(sub, "rtype", sub), cls.rtype)


def _mkdt(name, rtype):
    dt = rnp.dtype(rtype)
    return _DTMeta(name, (), dict(rtype=rtype, dtype=dt, kind=dt.kind))


FLOAT_DTS = {n: _mkdt(n, getattr(rnp, n)) for n in ("float32", "float64", "float16", "longdouble")}
INT_DTS = {n: _mkdt(n, getattr(rnp, n)) for n in ("int8", "int16", "int32", "int64", "uint8", "uint16",
                                                  "uint32", "uint64", "intp", "uintp", "intc")}
FLOAT_DTS["float_"] = FLOAT_DTS["double"] = FLOAT_DTS["float64"]
FLOAT_DTS["single"] = FLOAT_DTS["float32"]
INT_DTS["int_"] = INT_DTS["int64"]
INT_DTS["short"] = INT_DTS["int16"]
INT_DTS["longlong"] = INT_DTS["int64"]
BOOL_DT = _mkdt("bool_", rnp.bool_)


def real_dtype(dt):
    """np.dtype for anything a caller may pass, or None."""
    if dt is None:
        return None
    if isinstance(dt, _DTMeta):
        return dt.dtype
    from .loader import SymFloat, SymInt, SymBoolType
    if dt is SymFloat:
        return rnp.dtype(float)
    if dt is SymInt:
        return rnp.dtype(int)
    if dt is SymBoolType:
        return rnp.dtype(bool)
    if isinstance(dt, TaggedDType):
        return dt.real
    return rnp.dtype(dt)


class TaggedDType(object):
    """What `.dtype` of a symbolic float array reports: equal to the float dtype it stands for."""
    def __init__(self, real):
        self.real = real

    def __eq__(self, o):
        try:
            return self.real == real_dtype(o)
        except TypeError:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.real)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __repr__(self):
        return repr(self.real)


def int_range(dt):
    ii = rnp.iinfo(dt)
    return int(ii.min), int(ii.max)


def wrap_int(x, dt):
    """C-style wrap of an integer (symbolic or not) into integer dtype dt."""
    lo, hi = int_range(dt)
    if is_sym(x):
        e = num_expr(x)
        if not is_int_term(e):
            e = _trunc(e)
        m = hi - lo + 1
        inside = sym_and(mk(e) >= lo, mk(e) <= hi)
        if bool(inside):
            return mk(e, getattr(x, "lo", None), getattr(x, "hi", None))
        return mk((e - lo) % m + lo)
    x = int(x)
    return (x - lo) % (hi - lo + 1) + lo


def _is_fp(x):
    return type(x).__name__ == "SymFP"


def cast_scalar(x, dt):
    """np.float32(x), np.int32(x), astype element conversion."""
    d = real_dtype(dt)
    if isinstance(x, rnp.ndarray):
        return facade.array(x, dtype=d)
    if not is_sym(x):
        if isinstance(x, str):
            from .loader import SymFloat, SymInt
            x = SymFloat(x) if d.kind == "f" else SymInt(x) if d.kind in "iu" else x
            if _is_fp(x):
                return cast_scalar(x, d)
            if not is_sym(x):
                return d.type(x)
        elif _is_fp(x):
            from . import symfp
            if d == rnp.dtype("float32") or d == rnp.dtype("float64"):
                return x.to(symfp.F32 if d.itemsize == 4 else symfp.F64)
            raise Unsupported("cast of an exact float to %s" % d)
        else:
            return d.type(x)
    if d.kind == "f":
        return x.toreal() if isinstance(x, SymNum) else x.as_num().toreal()
    if d.kind in "iu":
        return wrap_int(x, d)
    if d.kind == "b":
        return bool(x)
    if d.kind == "O":
        return x
    if d.kind == "S" and SymNum.FORMAT_HOOK is not None:
        t = str(x).encode()
        if d.itemsize and len(t) > d.itemsize:
            raise Unsupported("text of a number cut to %d characters" % d.itemsize)
        return t
    raise Unsupported("cast to %s" % d)


def _fbits(d, v):
    """Value stored in a float array: concrete numbers become Python floats (rounded to float32 never:
    float rounding is outside the claims)."""
    if is_sym(v):
        return v.toreal() if isinstance(v, SymNum) else v.as_num().toreal()
    return v


class NPFloat(float):
    """a concrete element taken out of a float array: has the methods of a NumPy scalar"""
    __slots__ = ()

    def astype(self, dtype, *a, **k):
        d = real_dtype(dtype)
        return d.type(float(self)) if d.kind in "iub" else NPFloat(cast_scalar(float(self), d))

    def item(self):
        return float(self)

    def tolist(self):
        return float(self)

    def round(self, decimals=0):
        return NPFloat(rnp.round(float(self), decimals))

    def __truediv__(self, o):
        return NPFloat(_sdiv(self, o)) if type(o) in (float, int, NPFloat) else float.__truediv__(self, o)

    def __rtruediv__(self, o):
        return NPFloat(_sdiv(o, self)) if type(o) in (float, int, NPFloat) else float.__rtruediv__(self, o)

    shape = ()
    ndim = 0
    size = 1


class SymArray(rnp.ndarray):
    """Object-dtype array standing for a float array (possibly with symbolic entries)."""
    _sdt = None
    keep_ints = False       # conversions to an integer dtype stay symbolic

    def __array_finalize__(self, obj):
        if obj is not None:
            self._sdt = getattr(obj, "_sdt", None)
            if getattr(obj, "keep_ints", False):
                self.keep_ints = True

    def astype(self, dtype, *a, **k):
        d = real_dtype(dtype)
        if d.kind == "O":
            return self.copy()
        if d.kind == "f":
            r = self.copy(order=k.get("order", "K"))
            r._sdt = d
            return _norm_float(r)
        if d.kind in "iu" and self._sdt is not None and self._sdt.kind in "iu":
            # symbolic integers stay symbolic
            r = self.copy(order=k.get("order", "K"))
            r._sdt = d
            f = _raw(r).reshape(-1)
            for i in range(f.size):
                f[i] = wrap_int(f[i], d)
            return r
        if d.kind in "iu" and self.keep_ints:
            r = self.copy(order=k.get("order", "K"))
            r._sdt = d
            f = _raw(r).reshape(-1)
            for i in range(f.size):
                f[i] = wrap_int(f[i].trunc() if is_sym(f[i]) else int(f[i]), d)
            return r
        if d.kind in "iub":
            out = rnp.empty(self.shape, dtype=d)
            it = rnp.nditer(out, flags=["multi_index", "refs_ok", "zerosize_ok"], op_flags=["readwrite"])
            for c in it:
                v = self[it.multi_index]
                v = cast_scalar(v, d)
                c[...] = int(v) if d.kind != "b" else bool(v)
            return out
        raise Unsupported("astype %s" % d)

    def __getitem__(self, k):
        r = rnp.ndarray.__getitem__(self, k)
        return NPFloat(r) if type(r) is float and self._sdt is not None and self._sdt.kind == "f" else r

    def __setitem__(self, k, v):
        if type(v) is str and self._sdt is not None and self._sdt.kind == "f":
            from .loader import SymFloat
            v = SymFloat(v)
        if _is_fp(v) and self._sdt is not None:
            v = cast_scalar(v, self._sdt)
        rnp.ndarray.__setitem__(self, k, v)

    @property
    def flags(self):
        return rnp.ndarray.flags.__get__(self)

    @property
    def dtype(self):
        if self._sdt is not None:
            return TaggedDType(self._sdt)
        return rnp.ndarray.dtype.__get__(self)

    def argsort(self, axis=-1, kind=None, order=None):
        return facade.argsort(self, axis=axis, kind=kind)

    def round(self, decimals=0, out=None):
        return facade.round(self, decimals)

    def mean(self, *a, **k):
        k.pop("dtype", None)
        return _demote(rnp.ndarray.mean(self.view(rnp.ndarray), *a, **k), self)

    def sum(self, *a, **k):
        k.pop("dtype", None)
        return _demote(rnp.ndarray.sum(self.view(rnp.ndarray), *a, **k), self)

    def cumsum(self, *a, **k):
        k.pop("dtype", None)
        return _demote(rnp.ndarray.cumsum(self.view(rnp.ndarray), *a, **k), self)

    def std(self, *a, **k):
        return facade.std(self, *a, **k)

    def var(self, *a, **k):
        return facade.var(self, *a, **k)

    def max(self, axis=None, out=None, **k):
        return facade.max(self, axis=axis, **k)

    def min(self, axis=None, out=None, **k):
        return facade.min(self, axis=axis, **k)

    def dot(self, b):
        return _demote(rnp.dot(_raw(self), _raw(b)), self)

    def any(self, *a, **k):
        return _raw_bool(self).any(*a, **k)

    def all(self, *a, **k):
        return _raw_bool(self).all(*a, **k)

    def tobytes(self, order="C"):
        return SymBytes(self, order)

    @property
    def data(self):
        return SymBytes(self, "C")

    def sort(self, axis=-1, kind=None, order=None):
        self[...] = facade.sort(self, axis=axis)

    def __deepcopy__(self, memo):
        r = self.copy()
        r._sdt = self._sdt
        return r

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def fill(self, v):
        self[...] = v

    def view(self, *a, **k):
        if a and (a[0] is rnp.ndarray):
            return rnp.ndarray.view(self, rnp.ndarray)
        if a and not (isinstance(a[0], type) and issubclass(a[0], rnp.ndarray)):
            raise Unsupported("view as %r" % (a,))
        return rnp.ndarray.view(self, *a, **k)


class SymBytes(object):
    """Stands for the bytes of a symbolic array (only comparable/hashable through the hash model)."""
    def __init__(self, arr, order="C"):
        if order in ("A", "K"):
            order = "F" if arr.flags.f_contiguous and not arr.flags.c_contiguous else "C"
        self.arr = arr.copy()
        self.order = order

    def tobytes(self, order="C"):
        return self

    def __hash__(self):
        from . import hashmodel
        return hashmodel.sym_hash(self)

    def __eq__(self, o):
        from . import hashmodel
        return isinstance(o, SymBytes) and hashmodel.same(hashmodel.content(self), hashmodel.content(o))


def _raw(x):
    return x.view(rnp.ndarray) if isinstance(x, SymArray) else x


def _raw_bool(a):
    out = rnp.empty(a.shape, dtype=bool)
    for i in rnp.ndindex(a.shape):
        out[i] = bool(a[i])
    return out


def _demote(r, like):
    if isinstance(r, rnp.ndarray) and r.dtype == object:
        r = r.view(SymArray)
        r._sdt = like._sdt
    return r


def _norm_float(arr):
    """ints/bools stored in an object array standing for floats become floats."""
    flat = arr.reshape(-1) if arr.flags.c_contiguous else None
    if flat is not None and flat.base is not None or flat is arr:
        for i in range(flat.size):
            flat[i] = _tofloat(flat[i])
    else:
        for i in rnp.ndindex(arr.shape):
            arr[i] = _tofloat(arr[i])
    return arr


def _tofloat(v):
    if isinstance(v, SymNum):
        if v.is_int:
            r = v.toreal()
            if v.lo is not None:
                r.lo, r.hi = v.lo, v.hi
            return r
        return v
    if isinstance(v, SymBool):
        return v.as_num().toreal()
    if isinstance(v, float):
        return v
    if isinstance(v, (int, rnp.integer, rnp.floating, rnp.bool_)):
        return float(v)
    return v


def symarray(data, dt=rnp.float64, shape=None):
    """Build a symbolic float array from nested lists."""
    d = real_dtype(dt)
    if isinstance(data, rnp.ndarray):
        a = data.astype(object) if not isinstance(data, SymArray) else data.copy()
        a = a.view(SymArray)
    else:
        a = _obj_from(data).view(SymArray)
    if shape is not None:
        a = a.reshape(shape)
    a._sdt = d
    return _norm_float(a)


def _obj_from(data):
    """np.array(data, dtype=object) with numpy's ragged check (as for numeric arrays)."""
    if isinstance(data, (SymNum, SymBool)):
        a = rnp.empty((), dtype=object)
        a[()] = data
        return a

    def shape_of(x):
        if isinstance(x, rnp.ndarray):
            return x.shape
        if isinstance(x, (list, tuple)):
            if len(x) == 0:
                return (0,)
            s0 = shape_of(x[0])
            for y in x[1:]:
                if shape_of(y) != s0:
                    raise ValueError("setting an array element with a sequence. The requested array has an "
                                     "inhomogeneous shape after 1 dimensions.")
            return (len(x),) + s0
        return ()
    shp = shape_of(data)
    a = rnp.empty(shp, dtype=object)

    def put(x, idx):
        if isinstance(x, rnp.ndarray):
            for j in rnp.ndindex(x.shape):
                a[idx + j] = x[j]
        elif isinstance(x, (list, tuple)):
            for i, y in enumerate(x):
                put(y, idx + (i,))
        else:
            a[idx] = x
    put(data, ())
    return a


def contains_sym(x):
    if is_sym(x) or isinstance(x, SymArray):
        return True
    if isinstance(x, rnp.ndarray):
        return x.dtype == object and any_sym(x)
    if isinstance(x, (list, tuple)):
        return builtins.any(contains_sym(v) for v in x)
    return False


def _default_sdt(x):
    if isinstance(x, SymArray) and x._sdt is not None:
        return x._sdt
    if isinstance(x, (list, tuple)):
        for v in x:
            if isinstance(v, SymArray) and v._sdt is not None:
                return v._sdt
    return rnp.dtype(float)


def _all_int(x):
    a = rnp.asarray(_obj_from(x) if not isinstance(x, rnp.ndarray) else _raw(x), dtype=object)
    return builtins.all((isinstance(v, SymNum) and v.is_int) or isinstance(v, (int, rnp.integer)) for v in a.ravel())


class Random(types.ModuleType):
    """np.random: every permutation / draw the documented contract allows."""
    def __init__(self):
        super().__init__("numpy.random")
        self.calls = []

        class RandomState(object):
            def __init__(s, seed=None):
                s.seed_ = seed

            def __getattr__(s, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                return getattr(self, n)
        self.RandomState = RandomState
        self.Generator = RandomState
        self.mtrand = types.SimpleNamespace(_rand=RandomState())

    def default_rng(self, seed=None):
        return self.RandomState(seed)

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        raise Unsupported("np.random.%s has no model" % n)

    def permutation(self, x):
        if isinstance(x, (int, rnp.integer)):
            x = rnp.arange(x)
        x = rnp.array(x)
        return self._log("permutation", x[nondet_perm(len(x))])

    def _log(self, kind, v):
        self.calls.append((kind, v))
        return v

    def shuffle(self, x):
        p = nondet_perm(len(x))
        if isinstance(x, rnp.ndarray):
            x[...] = x[p].copy()
        else:
            x[:] = [x[i] for i in p]

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        n = 1 if size is None else int(rnp.prod(size))
        v = [k + low for k in nondet_draws(n, high - low, "randint")]
        return self._log("randint", v[0] if size is None else rnp.array(v).reshape(size))
    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, rnp.integer)):
            a = rnp.arange(a)
        n = 1 if size is None else int(rnp.prod(size))
        if replace:
            idx = nondet_draws(n, len(a), "choice")
        else:
            idx = nondet_perm(len(a))[:n]
        if size is None:
            return self._log("choice", a[idx[0]])
        return self._log("choice", rnp.asarray(a)[idx].reshape(size))

    def rand(self, *shape):
        n = int(rnp.prod(shape)) if shape else 1
        v = []
        for _ in range(n):
            r = eng().fresh_real("!rand", 0)
            eng().assume_z3(r.expr < 1)
            v.append(r)
        return self._log("rand", v[0] if not shape else symarray(v).reshape(shape))

    def random_sample(self, size=None):
        return self.rand(*((size,) if isinstance(size, int) else size or ()))
    random = random_sample


def nondet_draws(n, m, label):
    E = eng()
    if n <= LONG:
        return [E.choose(m, label) for _ in range(n)]
    if "draws" not in E.divcache:
        E.divcache["draws"] = [E.choose(3, "draws"), 0]
    E.divcache["draws"][1] += 1
    return long_draws(E.divcache["draws"][0], E.divcache["draws"][1], n, m)


def nondet_perm(n):
    if n > LONG:
        E = eng()
        if "perms" not in E.divcache:
            E.divcache["perms"] = [E.choose(5, "perms"), -1]
        E.divcache["perms"][1] += 1
        return rnp.array(long_perm(n, sum(E.divcache["perms"]) % 5), dtype=rnp.intp)
    rest = list(range(n))
    out = []
    while rest:
        k = eng().choose(len(rest), "perm")
        out.append(rest.pop(k))
    return rnp.array(out, dtype=rnp.intp)


class Facade(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__.update(FLOAT_DTS)
        self.__dict__.update(INT_DTS)
        self.bool_ = BOOL_DT
        self.random = Random()
        self.ndarray = _NdarrayFacade
        from . import smath
        self.math = smath.module()
        self.r_, self.c_ = _RClass(False), _RClass(True)
        B = lambda v: bool(v)
        for n, op in dict(add=lambda x, y: x + y, subtract=lambda x, y: x - y, multiply=lambda x, y: x * y, divide=lambda x, y: _sdiv(x, y),
                          maximum=lambda x, y: _ext2(x, y, True), minimum=lambda x, y: _ext2(x, y, False),
                          fmax=lambda x, y: _ext2(x, y, True, True), fmin=lambda x, y: _ext2(x, y, False, True),
                          power=lambda x, y: x ** y, logical_and=lambda x, y: B(x) and B(y), logical_or=lambda x, y: B(x) or B(y)).items():
            setattr(self, n, _UFunc(n, getattr(Facade, n).__get__(self), op))
        self.true_divide = self.divide
        self.float_power = self.power

    def __getattr__(self, name):
        v = getattr(rnp, name)      # AttributeError exactly as the real numpy
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, rnp.ufunc)) or callable(v) and not isinstance(v, type):
            return _wrapf(v)
        return v

    # ---- creation
    def array(self, obj, dtype=None, copy=True, order="K", ndmin=0, subok=False):
        d = real_dtype(dtype)
        if type(obj).__name__ == "DataArray":
            obj = obj.values
        if hasattr(obj, "__next__") or isinstance(obj, range) or isinstance(obj, (set, frozenset)):
            if not isinstance(obj, (set, frozenset)):
                pass
        if isinstance(obj, (list, tuple)) or is_sym(obj):
            if contains_sym(obj):
                if d is not None and d.kind in "iu":
                    return symarray_int(obj, d)
                if d is not None and d.kind == "b":
                    return _raw_bool(_obj_from(obj))
                if d is not None and d.kind == "O":
                    return _obj_from(obj)
                if d is None and _all_int(obj):
                    return symarray_int(obj, rnp.dtype(int))
                return symarray(obj, d if d is not None else _default_sdt(obj))
            if d is not None and d.kind in "f" and _has_str(obj):
                from .loader import SymFloat
                return symarray(_map_nested(SymFloat, obj), d)
            if d is not None and d.kind in "iu" and _has_str(obj):
                from .loader import SymInt
                return symarray_int(_map_nested(SymInt, obj), d)
        if isinstance(obj, SymArray):
            if d is None or d.kind == "f":
                r = rnp.array(obj, copy=copy, order=order, ndmin=ndmin, subok=True)
                if d is not None:
                    if r is obj:
                        r = r[...]
                    r._sdt = d
                return r
            if d.kind == "O":
                return _raw(obj).copy()
            return obj.astype(d)
        if isinstance(obj, rnp.ndarray) and obj.dtype == object:
            if d is None or d.kind == "O":
                return rnp.array(obj, dtype=object, copy=copy, order=order, ndmin=ndmin)
            return obj.view(SymArray).astype(d)
        r = rnp.array(obj, dtype=d, copy=copy, order=order, ndmin=ndmin)
        if r.dtype.kind == "f":
            return symarray(r, r.dtype)
        return r

    def asarray(self, obj, dtype=None, order=None, **k):
        d = real_dtype(dtype)
        if isinstance(obj, rnp.ndarray) and (d is None or obj.dtype == d):
            if order in ("C",) and not obj.flags.c_contiguous:
                return obj.copy(order="C")
            if order in ("F",) and not obj.flags.f_contiguous:
                return obj.copy(order="F")
            return obj
        return self.array(obj, dtype=dtype, order=order or "K")
    asanyarray = asarray

    def ascontiguousarray(self, obj, dtype=None):
        r = self.asarray(obj, dtype=dtype)
        return r if r.flags.c_contiguous else r.copy(order="C")

    def asfortranarray(self, obj, dtype=None):
        r = self.asarray(obj, dtype=dtype)
        return r if r.flags.f_contiguous else r.copy(order="F")

    def copy(self, a, order="K", subok=False):
        return self.array(a, order=order)

    def _filled(self, shape, val, dtype, order="C"):
        d = real_dtype(dtype) if dtype is not None else rnp.dtype(float)
        if is_sym(shape) or isinstance(shape, (tuple, list)) and builtins.any(is_sym(s) for s in shape):
            shape = int(shape) if is_sym(shape) else tuple(int(s) for s in shape)
        if d.kind == "f":
            a = rnp.empty(shape, dtype=object, order=order).view(SymArray)
            a._sdt = d
            a[...] = _tofloat(val)
            return a
        if is_sym(val) and d.kind in "iu":
            val = int(wrap_int(val, d))
        return rnp.full(shape, val, dtype=d, order=order)

    def zeros(self, shape, dtype=None, order="C"):
        return self._filled(shape, 0, dtype, order)

    def ones(self, shape, dtype=None, order="C"):
        return self._filled(shape, 1, dtype, order)

    def full(self, shape, fill_value, dtype=None, order="C"):
        if dtype is None:
            if is_sym(fill_value):
                dtype = float if not fill_value.is_int else int
            else:
                dtype = rnp.asarray(fill_value).dtype
        return self._filled(shape, fill_value, dtype, order)

    def empty(self, shape, dtype=None, order="C"):
        d = real_dtype(dtype) if dtype is not None else rnp.dtype(float)
        a = self._filled(shape, 0, dtype, order)
        if d.kind == "f":
            for i in rnp.ndindex(a.shape):
                a[i] = eng().fresh_real("!uninit")
        elif d.kind in "iu":
            a[...] = 77 if d.itemsize == 1 else 7777     # an arbitrary garbage value
        return a

    def zeros_like(self, a, dtype=None, **k):
        return self.zeros(rnp.shape(a), dtype=dtype if dtype is not None else _dt_of(a))

    def ones_like(self, a, dtype=None, **k):
        return self.ones(rnp.shape(a), dtype=dtype if dtype is not None else _dt_of(a))

    def empty_like(self, a, dtype=None, **k):
        return self.empty(rnp.shape(a), dtype=dtype if dtype is not None else _dt_of(a))

    def full_like(self, a, v, dtype=None, **k):
        return self.full(rnp.shape(a), v, dtype=dtype if dtype is not None else _dt_of(a))

    def fromiter(self, it, dtype=None, count=-1):
        return self.array(list(it), dtype=dtype)

    def fromstring(self, s, dtype=float, count=-1, sep=""):
        toks = s.split(sep) if sep.strip() else s.split()
        return self.array([t for t in toks if t], dtype=dtype)

    def arange(self, *a, **k):
        a = [int(v) if is_sym(v) else v for v in a]
        if "dtype" in k:
            k["dtype"] = real_dtype(k["dtype"])
        r = rnp.arange(*a, **k)
        return r

    def linspace(self, start, stop, num=50, endpoint=True, retstep=False, dtype=None, **k):
        for x in (start, stop):
            if getattr(x, "sx_opaque", False):
                return x
        if not is_sym(start) and not is_sym(stop) and not contains_sym([start, stop]):
            return symarray(rnp.linspace(start, stop, num, endpoint=endpoint, dtype=real_dtype(dtype) if dtype is not None else None), rnp.float64 if dtype is None else dtype)
        if dtype is not None or retstep or k:
            raise Unsupported("linspace options")
        num = int(num)
        div = num - 1 if endpoint else num
        vals = [start + (stop - start) * i / div if i else start for i in range(num)]
        if endpoint and num > 1:
            vals[-1] = stop
        return symarray(vals, rnp.float64)

    def nanmin(self, a, axis=None, **k):
        return self._nanext(a, axis, False)

    def nanmax(self, a, axis=None, **k):
        return self._nanext(a, axis, True)

    def _nanext(self, a, axis, mx):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if axis is not None:
            raise Unsupported("nanmin/nanmax over an axis")
        vals = [v for v in _o(a).ravel() if not bool(self.isnan(v))]
        if not vals:
            return float("nan")
        return (self.max if mx else self.min)(self.array(vals))

    def dtype(self, d, *a):
        return real_dtype(d) if not isinstance(d, (list, dict)) else rnp.dtype(d)

    def issubdtype(self, a, b):
        return rnp.issubdtype(real_dtype(a), getattr(b, "rtype", b))

    def finfo(self, d):
        return rnp.finfo(real_dtype(d))

    def iinfo(self, d):
        return rnp.iinfo(real_dtype(d))

    # ---- ordering
    def argsort(self, a, axis=-1, kind=None, order=None):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if a.ndim != 1:
            if a.ndim == 2 and axis in (-1, 1):
                return rnp.array([self.argsort(r, kind=kind) for r in a])
            if a.ndim == 2 and axis == 0:
                return rnp.array([self.argsort(c, kind=kind) for c in a.T]).T
            raise Unsupported("argsort over %d dims" % a.ndim)
        if a.dtype != object and not isinstance(a, SymArray):
            if kind in ("stable", "mergesort") or len(set(a.tolist())) == len(a):
                return rnp.argsort(a, kind=kind)
        return order_perm(list(a), stable=kind in ("stable", "mergesort"))

    def lexsort(self, keys, axis=-1):
        keys = [list(k) for k in keys]
        n = len(keys[0])

        def lt(i, j):
            for k in reversed(keys):
                if bool(k[i] < k[j]):
                    return True
                if bool(k[j] < k[i]):
                    return False
            return False
        return rnp.array(_stable_sort(n, lt), dtype=rnp.intp)

    def sort(self, a, axis=-1, kind=None, order=None):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if not (isinstance(a, SymArray) or a.dtype == object):
            return rnp.sort(a, axis=axis, kind=kind)
        if a.ndim == 1:
            return a[order_perm(list(a), stable=True)]
        if axis in (-1, a.ndim - 1):
            r = a.copy()
            for i in range(a.shape[0]):
                r[i] = self.sort(a[i])
            return r
        raise Unsupported("sort axis")

    def argmax(self, a, axis=None):
        return self._argext(a, axis, lambda x, y: x > y)

    def nanargmax(self, a, axis=None):
        return self._nanargext(a, axis, lambda x, y: x > y)

    def nanargmin(self, a, axis=None):
        return self._nanargext(a, axis, lambda x, y: x < y)

    def _nanargext(self, a, axis, better):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if axis is not None:
            raise Unsupported("nanargmax along an axis")
        best = None
        for i, v in enumerate(_raw(a).ravel()):
            if not bool(self.isnan(v)) and (best is None or bool(better(v, best[0]))):
                best = (v, i)
        if best is None:
            raise ValueError("All-NaN slice encountered")
        return rnp.intp(best[1])

    def argmin(self, a, axis=None):
        return self._argext(a, axis, lambda x, y: x < y)

    def _argext(self, a, axis, better):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if axis is None:
            a = a.ravel()
        elif a.ndim == 2:
            return rnp.array([self._argext(r, None, better) for r in (a if axis in (1, -1) else a.T)])
        best = 0
        if len(a) == 0:
            raise ValueError("attempt to get argmax of an empty sequence")
        for i in range(1, len(a)):
            if bool(better(a[i], a[best])):
                best = i
        return rnp.intp(best)

    def unique(self, a, return_index=False, return_inverse=False, return_counts=False, axis=None):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if not (isinstance(a, SymArray) or a.dtype == object):
            return rnp.unique(a, return_index=return_index, return_inverse=return_inverse,
                              return_counts=return_counts, axis=axis)
        flat = list(a.ravel())
        perm = list(order_perm(flat, stable=True))
        reps, idx, inv, cnt = [], [], [0] * len(flat), []
        for p in perm:
            if reps and bool(flat[p] == reps[-1]):
                cnt[-1] += 1
            else:
                reps.append(flat[p])
                idx.append(p)
                cnt.append(1)
            inv[p] = len(reps) - 1
        out = [symarray(reps, _default_sdt(a)) if reps else symarray([], _default_sdt(a))]
        if return_index:
            out.append(rnp.array(idx, dtype=rnp.intp))
        if return_inverse:
            out.append(rnp.array(inv, dtype=rnp.intp))
        if return_counts:
            out.append(rnp.array(cnt, dtype=rnp.intp))
        return out[0] if len(out) == 1 else tuple(out)

    def max(self, a, axis=None, **k):
        return self._ext(a, axis, True, k)

    def min(self, a, axis=None, **k):
        return self._ext(a, axis, False, k)
    amax, amin = max, min

    def _ext(self, a, axis, mx, k):
        k = dict(k)
        if k.pop("keepdims", False):
            r = self._ext(a, axis, mx, k)
            return rnp.expand_dims(r, axis) if axis is not None else _sa(rnp.reshape(_o(_UFunc._arr(r)), (1,) * rnp.ndim(a)))
        if "initial" in k and contains_sym(a):
            init = k.pop("initial")
            return (self.maximum if mx else self.minimum)(self._ext(a, axis, mx, k), init) if rnp.size(a) else init
        if k.get("where", True) is not True and contains_sym(a):
            raise Unsupported("max/min with where")
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if not (isinstance(a, SymArray) or a.dtype == object):
            return (rnp.max if mx else rnp.min)(a, axis=axis, **k)
        if axis is not None and a.ndim > 1:
            if a.ndim == 2:
                rows = a if axis in (1, -1) else a.T
                return symarray([self._ext(r, None, mx, {}) for r in rows], a._sdt)
            raise Unsupported("max over axis of %dd" % a.ndim)
        vals = list(a.ravel())
        if not vals:
            if "initial" in k:
                return k["initial"]
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        r = vals[0]
        for v in vals[1:]:
            r = _ext2(r, v, mx)
        return r

    def maximum(self, a, b, out=None):
        return self._ext_bin(a, b, True)

    def minimum(self, a, b, out=None):
        return self._ext_bin(a, b, False)

    def _ext_bin(self, a, b, mx):
        if not (contains_sym(a) or contains_sym(b)):
            return (rnp.maximum if mx else rnp.minimum)(a, b)
        f = rnp.frompyfunc(lambda x, y: _ext2(x, y, mx), 2, 1)
        return _sa(f(_o(a), _o(b)))

    def fmax(self, a, b):
        if not (contains_sym(a) or contains_sym(b)):
            return rnp.fmax(a, b)
        return _sa(rnp.frompyfunc(lambda x, y: _ext2(x, y, True, True), 2, 1)(_o(a), _o(b)))

    def fmin(self, a, b):
        if not (contains_sym(a) or contains_sym(b)):
            return rnp.fmin(a, b)
        return _sa(rnp.frompyfunc(lambda x, y: _ext2(x, y, False, True), 2, 1)(_o(a), _o(b)))

    def clip(self, a, lo, hi, **k):
        r = a
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        return r

    # ---- elementwise
    def isnan(self, a):
        return self._pred(a, lambda v: False if is_sym(v) else bool(v != v), rnp.isnan)

    def isinf(self, a):
        return self._pred(a, lambda v: False if is_sym(v) else bool(rnp.isinf(float(v))), rnp.isinf)

    def isposinf(self, a):
        return self._pred(a, lambda v: False if is_sym(v) else float(v) == float("inf"), rnp.isposinf)

    def isneginf(self, a):
        return self._pred(a, lambda v: False if is_sym(v) else float(v) == float("-inf"), rnp.isneginf)

    def isfinite(self, a):
        return self._pred(a, lambda v: True if is_sym(v) else bool(rnp.isfinite(float(v))), rnp.isfinite)

    def _pred(self, a, f, rf):
        if is_sym(a):
            return f(a)
        if isinstance(a, (list, tuple)):
            a = self.array(a)
        if isinstance(a, rnp.ndarray) and (isinstance(a, SymArray) or a.dtype == object):
            out = rnp.empty(a.shape, dtype=bool)
            for i in rnp.ndindex(a.shape):
                out[i] = f(a[i])
            return out
        return rf(a)

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if contains_sym(a) or contains_sym(b):
            d = self.abs(a - b)
            return d <= (atol + rtol * self.abs(b))
        return rnp.isclose(_num(a), _num(b), rtol=rtol, atol=atol, equal_nan=equal_nan)

    def allclose(self, a, b, **k):
        return bool(rnp.all(self.isclose(a, b, **k)))

    def array_equal(self, a, b, **k):
        a, b = self.asarray(a), self.asarray(b)
        if a.shape != b.shape:
            return False
        return bool(rnp.asarray(a == b).astype(bool).all()) if a.size else True

    def abs(self, a):
        return self._el(a, lambda v: abs(v), rnp.abs)
    absolute = fabs = abs

    def sqrt(self, a, **k):
        return self._el(a, lambda v: v.sqrt() if is_sym(v) else float(rnp.sqrt(v)), rnp.sqrt)

    def exp2(self, a, **k):
        return self._el(a, lambda v: v.exp2() if is_sym(v) else float(rnp.exp2(v)), rnp.exp2)

    def log2(self, a, **k):
        return self._el(a, lambda v: v.log2() if is_sym(v) else float(rnp.log2(v)), rnp.log2)

    def log(self, a, **k):
        return self._el(a, lambda v: v.log() if is_sym(v) else float(rnp.log(v)), rnp.log)

    def log10(self, a, **k):
        return self._el(a, lambda v: v.log10() if is_sym(v) else float(rnp.log10(v)), rnp.log10)

    def log1p(self, a, **k):
        return self.log(self.add(a, 1)) if contains_sym(a) else rnp.log1p(_num(a))

    def exp(self, a, **k):
        return self._el(a, lambda v: v.exp() if is_sym(v) else float(rnp.exp(v)), rnp.exp)

    def square(self, a, **k):
        return self._el(a, lambda v: v * v, rnp.square)

    def sign(self, a, **k):
        return self._el(a, lambda v: (sym_ite(v > 0, 1.0, sym_ite(v < 0, -1.0, 0.0))) if is_sym(v) else float(rnp.sign(v)), rnp.sign)

    def floor(self, a, **k):
        return self._el(a, lambda v: v.floor() if is_sym(v) else float(rnp.floor(v)), rnp.floor)

    def ceil(self, a, **k):
        return self._el(a, lambda v: v.ceil() if is_sym(v) else float(rnp.ceil(v)), rnp.ceil)

    def rint(self, a, **k):
        return self._el(a, lambda v: v.rint() if is_sym(v) else float(rnp.rint(v)), rnp.rint)

    def trunc(self, a, **k):
        return self._el(a, lambda v: v.trunc() if is_sym(v) else float(rnp.trunc(v)), rnp.trunc)

    def round(self, a, decimals=0, **k):
        return self._el(a, lambda v: (v.rint() if decimals == 0 else v.__round__(decimals)) if is_sym(v) else float(rnp.round(v, decimals)),
                        lambda x: rnp.round(x, decimals))
    around = round_ = round

    def nextafter(self, a, b, dtype=None, **k):
        from . import symfp
        if isinstance(a, symfp.SymFP) or isinstance(b, symfp.SymFP):
            return symfp.nextafter(a, b, None if dtype is None else real_dtype(dtype))
        if is_sym(a) or is_sym(b):
            # reals: the neighbour is closer than 1/64 (harnesses that use it keep other values further away)
            p = eng().fresh_real("!nextafter")
            e = mk(num_expr(p))
            eng().assume(sym_or(sym_and(b < a, e < a, e > a - 0.015625), sym_and(b > a, e > a, e < a + 0.015625), sym_and(b == a, e == a)))
            return e
        if contains_sym(a) or contains_sym(b):
            raise Unsupported("nextafter on symbolic arrays")
        if dtype is not None:
            k["dtype"] = real_dtype(dtype)
        return rnp.nextafter(a, b, **k)

    def _el(self, a, f, rf):
        if is_sym(a):
            return f(a)
        if type(a).__name__ == "DataArray" and hasattr(a, "_bin"):
            return a._bin(lambda x, _: self._el(x, f, rf), None)
        if isinstance(a, (list, tuple)):
            a = self.array(a)
        if isinstance(a, rnp.ndarray) and (isinstance(a, SymArray) or a.dtype == object):
            out = rnp.empty(a.shape, dtype=object)
            for i in rnp.ndindex(a.shape):
                out[i] = f(a[i])
            return _sa(out, getattr(a, "_sdt", None))
        return rf(a)

    def power(self, a, b, **k):
        if contains_sym(a) or contains_sym(b):
            f = rnp.frompyfunc(lambda x, y: x ** y, 2, 1)
            return _sa(f(_o(a), _o(b)))
        return rnp.power(_num(a), _num(b))

    def logical_and(self, a, b, **k):
        return rnp.logical_and(_bool(a), _bool(b))

    def logical_or(self, a, b, **k):
        return rnp.logical_or(_bool(a), _bool(b))

    def logical_not(self, a, **k):
        return rnp.logical_not(_bool(a))

    def where(self, c, *xy):
        if isinstance(c, SymBool):
            if xy:
                x, y = xy
                if not isinstance(x, rnp.ndarray) and not isinstance(y, rnp.ndarray):
                    return sym_ite(c, x, y)
            c = bool(c)
        c = _bool(c)
        r = rnp.where(c, *[_o(v) if contains_sym(v) else v for v in xy])
        if xy and isinstance(r, rnp.ndarray) and r.dtype == object:
            r = _sa(r)
        return r

    def nonzero(self, a):
        return rnp.nonzero(_bool(a))

    def count_nonzero(self, a, axis=None, **k):
        return rnp.count_nonzero(_bool(a), axis=axis, **k)

    def flatnonzero(self, a):
        return rnp.flatnonzero(_bool(a))

    def argwhere(self, a):
        return rnp.argwhere(_bool(a))

    def any(self, a, *r, **k):
        return rnp.any(_bool(a), *r, **k)

    def all(self, a, *r, **k):
        return rnp.all(_bool(a), *r, **k)

    # ---- reductions
    def sum(self, a, axis=None, dtype=None, **k):
        if isinstance(a, types.GeneratorType):
            a = list(a)
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if isinstance(a, SymArray):
            w, init = k.pop("where", True), k.pop("initial", None)
            if w is not True:
                a = self.where(w, a, 0.0)
            r = a.sum(axis=axis, **k)
            return r if init is None else r + init
        return rnp.sum(a, axis=axis, **k)

    def mean(self, a, axis=None, dtype=None, **k):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if a.size == 0 and axis is None:
            return float("nan")
        if isinstance(a, SymArray):
            if "where" in k:
                raise Unsupported("mean with where")
            return a.mean(axis=axis, **k)
        return rnp.mean(a, axis=axis, **k)

    def nansum(self, a, axis=None, **k):
        return self.sum(self._nan_to(a, 0.0), axis=axis)

    def nanmean(self, a, axis=None, **k):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if not isinstance(a, SymArray):
            return rnp.nanmean(a, axis=axis)
        ok = ~self.isnan(a)
        s = self.sum(self._nan_to(a, 0.0), axis=axis)
        n = ok.sum(axis=axis)
        if axis is None:
            return s / float(n) if n else float("nan")
        out = rnp.empty(n.shape, dtype=object)
        for i in rnp.ndindex(n.shape):
            out[i] = s[i] / float(n[i]) if n[i] else float("nan")
        return _sa(out, a._sdt)

    def _nan_to(self, a, v):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        a = a.copy()
        m = self.isnan(a)
        if m.any():
            a[m] = v
        return a

    def nan_to_num(self, a, copy=True, nan=0.0, **k):
        return self._nan_to(a, nan)

    def var(self, a, axis=None, ddof=0, **k):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if not isinstance(a, SymArray):
            return rnp.var(a, axis=axis, ddof=ddof)
        if axis is None:
            a = a.reshape(-1)
            m = a.sum() / a.size
            return ((a - m) * (a - m)).sum() / (a.size - ddof)
        n = a.shape[axis]
        m = rnp.expand_dims(_raw(a).sum(axis=axis) / n, axis)
        d = _raw(a) - m
        return _sa((d * d).sum(axis=axis) / (n - ddof), a._sdt)

    def std(self, a, axis=None, ddof=0, **k):
        return self.sqrt(self.var(a, axis=axis, ddof=ddof))

    def cumsum(self, a, axis=None, **k):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        return a.cumsum(axis=axis)

    def dot(self, a, b):
        if contains_sym(a) or contains_sym(b):
            r = rnp.dot(_o(a), _o(b))
            return _sa(r) if isinstance(r, rnp.ndarray) else r
        return rnp.dot(a, b)
    matmul = dot

    def average(self, a, axis=None, weights=None, **k):
        a = a if isinstance(a, rnp.ndarray) else self.array(a)
        if weights is None:
            return self.mean(a, axis=axis)
        if axis is None:
            w = weights if isinstance(weights, rnp.ndarray) else self.array(weights)
            return self.sum(a * w) / self.sum(w)
        raise Unsupported("np.average with weights and axis")

    def bincount(self, x, weights=None, minlength=0):
        if weights is not None and contains_sym(weights) or contains_sym(x):
            xi = [int(v) for v in rnp.asarray(x)]
            n = builtins.max([minlength] + [v + 1 for v in xi])
            out = self.zeros(n)
            for k, v in enumerate(xi):
                out[v] = out[v] + (1 if weights is None else weights[k])
            return out
        return rnp.bincount(x, weights=weights, minlength=minlength)

    def in1d(self, a, b, assume_unique=False, invert=False, **k):
        if contains_sym(a) or contains_sym(b):
            aa, bb = list(_o(a).ravel()), list(_o(b).ravel())
            r = rnp.array([builtins.any(bool(x == y) for y in bb) for x in aa], dtype=bool)
            return ~r if invert else r
        return rnp.in1d(_num(a), _num(b), assume_unique=assume_unique, invert=invert)

    def isin(self, a, b, assume_unique=False, invert=False, **k):
        if contains_sym(a) or contains_sym(b):
            return self.in1d(a, b, invert=invert).reshape(rnp.shape(a))
        return rnp.isin(_num(a), _num(b), assume_unique=assume_unique, invert=invert)

    def searchsorted(self, a, v, side="left", sorter=None):
        if not contains_sym(a) and not contains_sym(v):
            return rnp.searchsorted(_num(a), _num(v), side=side, sorter=sorter)
        a = list(a)

        def one(x):
            k = 0
            for y in a:
                if bool(y < x) if side == "left" else bool(y <= x):
                    k += 1
                else:
                    break
            return k
        if isinstance(v, (rnp.ndarray, list, tuple)):
            return rnp.array([one(x) for x in v], dtype=rnp.intp)
        return one(v)

    def digitize(self, x, bins, right=False):
        if not contains_sym(x) and not contains_sym(bins):
            return rnp.digitize(_num(x), _num(bins), right=right)
        return self.searchsorted(bins, x, side="left" if right else "right")

    def histogram(self, a, bins=10, range=None, weights=None, density=None):
        if not contains_sym(a) and not contains_sym(bins) and not (range is not None and contains_sym(list(range))):
            return rnp.histogram(_num(a), bins=bins, range=range, weights=weights, density=density)
        if weights is not None or density:
            raise Unsupported("weighted histogram")
        vals = list(_o(a).ravel())
        if isinstance(bins, (int, rnp.integer)):
            if range is None:
                lo = self.min(a)
                hi = self.max(a)
            else:
                lo, hi = range
            if bool(lo == hi):
                lo, hi = lo - 0.5, hi + 0.5
            edges = [lo + (hi - lo) * (float(i) / bins) for i in builtins.range(bins)] + [hi]
        else:
            edges = list(bins)
        nb = len(edges) - 1
        cnt = rnp.zeros(nb, dtype=int)
        nan = lambda v: bool(self.isnan(v))
        if builtins.any(nan(e) for e in edges):
            # as numpy counts: not-a-number sorts after every number
            pos = []
            for e in edges[:-1]:
                pos.append(builtins.sum(1 for v in vals if not nan(v) and (nan(e) or bool(v < e))))
            e = edges[-1]
            pos.append(len(vals) if nan(e) else builtins.sum(1 for v in vals if not nan(v) and bool(v <= e)))
            return rnp.diff(pos), (symarray(edges) if contains_sym(edges) else rnp.array(edges))
        for v in vals:
            if nan(v):
                continue
            if bool(v < edges[0]) or bool(v > edges[-1]):
                continue
            k = nb - 1
            for i in builtins.range(1, nb):
                if bool(v < edges[i]):
                    k = i - 1
                    break
            cnt[k] += 1
        return cnt, (symarray(edges) if contains_sym(edges) else rnp.array(edges))

    def interp(self, *a, **k):
        if contains_sym(list(a)):
            raise Unsupported("np.interp on symbolic values")
        return rnp.interp(*[_num(v) for v in a], **k)

    def append(self, arr, values, axis=None):
        return self._joined(rnp.append, arr, values, axis=axis)

    def _joined(self, f, *a, **k):
        r = f(*a, **k)
        if isinstance(r, rnp.ndarray) and r.dtype == object and not isinstance(r, SymArray):
            r = _sa(r, _default_sdt(list(a)))
        return r

    def concatenate(self, arrs, axis=0, **k):
        arrs = [x if isinstance(x, rnp.ndarray) else self.array(x) for x in arrs]
        return self._join(rnp.concatenate, arrs, axis=axis)

    def hstack(self, arrs):
        return self._join(rnp.hstack, [x if isinstance(x, rnp.ndarray) else self.array(x) for x in arrs])

    def vstack(self, arrs):
        return self._join(rnp.vstack, [x if isinstance(x, rnp.ndarray) else self.array(x) for x in arrs])

    def column_stack(self, arrs):
        return self._join(rnp.column_stack, [x if isinstance(x, rnp.ndarray) else self.array(x) for x in arrs])

    def stack(self, arrs, axis=0):
        return self._join(rnp.stack, [x if isinstance(x, rnp.ndarray) else self.array(x) for x in arrs], axis=axis)

    def _join(self, f, arrs, **k):
        sd = _default_sdt(arrs)
        r = f([_raw(a) for a in arrs], **k)
        if r.dtype == object:
            r = _sa(r, sd)
        return r

    def hypot(self, a, b):
        return self.sqrt(self.asarray(a) * a + self.asarray(b) * b) if contains_sym(a) or contains_sym(b) else rnp.hypot(a, b)

    def _tri(self, f, m, k=0):
        m = self.asarray(m)
        if not contains_sym(m):
            return f(_num(m), k)
        return self.where(f(rnp.ones(m.shape, dtype=bool), k), m, 0)

    def triu(self, m, k=0):
        return self._tri(rnp.triu, m, k)

    def tril(self, m, k=0):
        return self._tri(rnp.tril, m, k)

    def setdiff1d(self, a, b, assume_unique=False):
        if not (contains_sym(a) or contains_sym(b)):
            return rnp.setdiff1d(_num(self.asarray(a)), _num(self.asarray(b)), assume_unique)
        a = self.asarray(a).reshape(-1) if assume_unique else self.unique(a)
        return a[self.in1d(a, b, invert=True)]

    def intersect1d(self, a, b, assume_unique=False, **k):
        if not (contains_sym(a) or contains_sym(b)):
            return rnp.intersect1d(_num(self.asarray(a)), _num(self.asarray(b)), assume_unique, **k)
        if k:
            raise Unsupported("intersect1d with indices")
        a = self.unique(a)
        return a[self.in1d(a, b)]

    def union1d(self, a, b):
        return self.unique(self.concatenate([self.asarray(a).reshape(-1), self.asarray(b).reshape(-1)]))

    def median(self, a, axis=None, **k):
        a = self.asarray(a)
        if not contains_sym(a):
            return rnp.median(_num(a), axis=axis, **k)
        if axis is not None and a.ndim > 1 or k or not a.size:
            raise Unsupported("median of part of a symbolic array")
        v = self.sort(a.reshape(-1))
        n = len(v)
        return (v[(n - 1) // 2] + v[n // 2]) / 2

    def nanvar(self, a, axis=None, ddof=0, **k):
        return self.var(self._no_nan(a, axis), axis=axis, ddof=ddof) if contains_sym(a) else rnp.nanvar(a, axis=axis, ddof=ddof)

    def nanstd(self, a, axis=None, ddof=0, **k):
        return self.std(self._no_nan(a, axis), axis=axis, ddof=ddof) if contains_sym(a) else rnp.nanstd(a, axis=axis, ddof=ddof)

    def nanmedian(self, a, axis=None, **k):
        return self.median(self._no_nan(a, axis), axis=axis) if contains_sym(a) else rnp.nanmedian(a, axis=axis)

    def _no_nan(self, a, axis):
        a = self.asarray(a)
        bad = self.isnan(a)
        if axis is not None and a.ndim > 1 and bad.any():
            raise Unsupported("nan-ignoring reduction along an axis")
        return a if axis is not None and a.ndim > 1 else a[~bad]

    def add(self, a, b):
        return _o(a) + _o(b) if not (is_sym(a) or is_sym(b)) else a + b

    def subtract(self, a, b):
        return self.asarray(a) - b if not is_sym(a) else a - b

    def multiply(self, a, b):
        return self.asarray(a) * b if not is_sym(a) else a * b

    def divide(self, a, b):
        return a / b if isinstance(a, rnp.ndarray) or isinstance(b, rnp.ndarray) or is_sym(a) or is_sym(b) else rnp.divide(a, b)


class _UFunc(object):
    """a binary ufunc of the façade: elementwise on symbolic data, with reduce, accumulate, outer, reduceat, at, out and where"""
    def __init__(self, name, whole, op):
        self.__name__, self.real, self.whole, self.op = name, getattr(rnp, name), whole, op
        self.u = rnp.frompyfunc(op, 2, 1)

    def _sym(self, *a):
        return builtins.any(contains_sym(v) for v in a)

    def _res(self, r, *a):
        if self.real(1, 1).dtype.kind == "b":
            return _bool(r) if isinstance(r, rnp.ndarray) and not any_sym(r) else r
        return _sa(r, _default_sdt(list(a))) if isinstance(r, rnp.ndarray) else r

    def __call__(self, a, b, out=None, where=True, dtype=None, casting=None):
        if isinstance(out, tuple):
            out = out[0]
        if out is None and where is True:
            if not self._sym(a, b):
                return self.real(_num(a), _num(b))
            return self.whole(a, b)
        if not self._sym(a, b, out, where):
            return self.real(a, b, out=out, where=where)
        A, B, W = rnp.broadcast_arrays(*[_o(self._arr(v)) for v in (a, b, where)])
        if out is None:
            out = facade.empty(A.shape)
        for i in rnp.ndindex(A.shape):
            if bool(W[i]):
                out[i] = self.op(A[i], B[i])
        return out

    @staticmethod
    def _arr(v):
        if isinstance(v, rnp.ndarray):
            return v
        if is_sym(v):
            o = rnp.empty((), dtype=object)
            o[()] = v
            return o
        return facade.asarray(v)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **k):
        if not self._sym(a):
            return self.real.reduce(_num(facade.asarray(a)), axis=axis, keepdims=keepdims, **k)
        if out is not None or k:
            raise Unsupported("ufunc.reduce with out, initial or where")
        a = _o(facade.asarray(a))
        if axis is None or a.ndim == 1 and axis in (0, -1):
            f = a.reshape(-1).tolist()
            if not f:
                return self.real.reduce(rnp.zeros(0))
            r = f[0]
            for v in f[1:]:
                r = self.op(r, v)
            return r
        return self._res(self.u.reduce(a, axis=axis, dtype=object, keepdims=keepdims), a)

    def accumulate(self, a, axis=0, dtype=None, out=None):
        if not self._sym(a):
            return self.real.accumulate(_num(facade.asarray(a)), axis=axis)
        a = _o(facade.asarray(a))
        return self._res(self.u.accumulate(a, axis=axis, dtype=object), a)

    def outer(self, a, b, **k):
        if not self._sym(a, b):
            return self.real.outer(_num(facade.asarray(a)), _num(facade.asarray(b)), **k)
        return self._res(self.u.outer(_o(facade.asarray(a)), _o(facade.asarray(b))), a, b)

    def reduceat(self, a, indices, axis=0, dtype=None, out=None):
        if not self._sym(a):
            return self.real.reduceat(_num(facade.asarray(a)), indices, axis=axis)
        a = _o(facade.asarray(a))
        return self._res(self.u.reduceat(a, rnp.asarray(indices), axis=axis, dtype=object), a)

    def at(self, a, indices, b=None):
        if not self._sym(a, b):
            return self.real.at(a, indices, b)
        if not isinstance(a, rnp.ndarray) or isinstance(indices, tuple) or a.ndim != 1:
            raise Unsupported("ufunc.at on several dimensions")
        idx = rnp.asarray(indices).reshape(-1)
        if idx.dtype.kind == "b":
            idx = rnp.flatnonzero(idx)
        vals = rnp.broadcast_to(_o(self._arr(b)), idx.shape)
        for i, v in zip(idx.tolist(), vals.tolist()):
            a[i] = self.op(a[i], v)


class _RClass(object):
    def __init__(self, columns):
        self.columns = columns

    def __getitem__(self, k):
        items = []
        for v in k if isinstance(k, tuple) else (k,):
            if isinstance(v, str):
                raise Unsupported("np.r_ directives")
            if isinstance(v, slice):
                v = rnp.arange(v.start or 0, v.stop, v.step or 1)
            items.append(v if isinstance(v, rnp.ndarray) and v.ndim else facade.array([v] if not isinstance(v, (list, tuple)) else v))
        return facade.column_stack(items) if self.columns else facade.concatenate(items)


def _sdiv(x, y):
    if is_sym(x) or is_sym(y):
        return x / y
    with rnp.errstate(all="ignore"):
        return float(rnp.divide(float(x), float(y)))


def _ext2(x, y, mx, ignore_nan=False):
    for v, o in ((x, y), (y, x)):
        if isinstance(v, float) and v != v:
            return o if ignore_nan else v
    if not is_sym(x) and not is_sym(y):
        return (max if mx else min)(x, y)
    c = (x >= y) if mx else (x <= y)
    if not isinstance(c, SymBool):
        return x if c else y
    r = sym_ite(c, x, y)
    if isinstance(r, SymNum):
        lx, ly = getattr(x, "lo", None), getattr(y, "lo", None)
        hx, hy = getattr(x, "hi", None), getattr(y, "hi", None)
        if None not in (lx, ly, hx, hy):
            r.lo, r.hi = min(lx, ly), max(hx, hy)
    return r


def _has_str(x):
    if isinstance(x, (str, bytes)):
        return True
    if isinstance(x, (list, tuple)):
        return builtins.any(_has_str(v) for v in x)
    return False


def _map_nested(f, x):
    if isinstance(x, (list, tuple)):
        return [_map_nested(f, v) for v in x]
    return f(x)


def symarray_int(obj, d):
    o = _obj_from(obj)
    out = rnp.empty(o.shape, dtype=d)
    for i in rnp.ndindex(o.shape):
        out[i] = int(wrap_int(o[i], d)) if is_sym(o[i]) else o[i]
    return out


def _dt_of(a):
    if isinstance(a, SymArray):
        return a._sdt if a._sdt is not None else float
    if isinstance(a, rnp.ndarray):
        return a.dtype if a.dtype != object else float
    return facade.array(a).dtype if not isinstance(a, (int, float)) else type(a)


def _o(a):
    if isinstance(a, rnp.ndarray):
        return _raw(a)
    if isinstance(a, (list, tuple)):
        return _raw(facade.array(a))
    return a


def _num(a):
    """object array without symbolic content -> real float array (for functions that need it)."""
    if isinstance(a, rnp.ndarray) and (isinstance(a, SymArray) or a.dtype == object):
        if any_sym(a):
            raise Unsupported("numpy function without a symbolic model")
        return rnp.array(_raw(a).tolist(), dtype=getattr(a, "_sdt", None) or float).reshape(a.shape)
    return a


def _sa(r, sd=None):
    if isinstance(r, rnp.ndarray) and r.dtype == object:
        r = r.view(SymArray)
        r._sdt = sd or getattr(r, "_sdt", None) or rnp.dtype(float)
    return r


def _bool(a):
    if is_sym(a):
        return bool(a)
    if isinstance(a, (list, tuple)):
        a = facade.array(a)
    if isinstance(a, rnp.ndarray) and (isinstance(a, SymArray) or a.dtype == object):
        return _raw_bool(a)
    return a


def _stable_sort(n, lt):
    out = []
    for i in range(n):
        k = len(out)
        while k > 0 and lt(i, out[k - 1]):
            k -= 1
        out.insert(k, i)
    return out


def order_perm(vals, stable=False):
    """A permutation sorting vals ascending: stable, or any order among equal values."""
    n = len(vals)
    nan = [i for i in range(n) if not is_sym(vals[i]) and vals[i] != vals[i]]
    idx = [i for i in range(n) if i not in nan]
    if stable:
        o = _stable_sort(len(idx), lambda i, j: bool(vals[idx[i]] < vals[idx[j]]))
        return rnp.array([idx[i] for i in o] + nan, dtype=rnp.intp)
    out = []
    rest = list(idx)
    E = eng()
    # argsort is a function of its input: the same input gets the same order (also among ties)
    key = ("argsort",) + tuple(v.expr.get_id() if is_sym(v) else ("c", float(v)) for v in vals)
    hit = E.divcache.get(key)
    if hit is not None:
        return hit[0].copy()
    if builtins.any(is_sym(v) for v in vals):
        for i in range(len(idx)):
            for j in range(i):
                if not is_sym(vals[idx[i]]) and not is_sym(vals[idx[j]]):
                    continue
                c = vals[idx[i]] != vals[idx[j]]
                if isinstance(c, SymBool):
                    E.noties.append(c.expr)
    sym = [i for i in rest if is_sym(vals[i])]
    conc = sorted((i for i in rest if not is_sym(vals[i])), key=lambda i: vals[i])
    # ties among more than 8 numbers, or when asked for: all in file order or all in reverse order
    few = len(idx) > 8 or getattr(E, "few_ties", False)
    if few and builtins.any(vals[a] == vals[b] for a, b in zip(conc, conc[1:])):
        if "tiemode" not in E.divcache:
            E.divcache["tiemode"] = E.choose(2, "tie")
        if E.divcache["tiemode"]:
            conc = sorted(reversed(sorted(conc)), key=lambda i: vals[i])
    ci = 0
    while sym or ci < len(conc):
        if not sym and (few or ci == len(conc) - 1):
            out.append(conc[ci])
            ci += 1
            continue
        head = []
        if ci < len(conc):
            head = [conc[ci]]
            if not few:
                k = ci + 1
                while k < len(conc) and vals[conc[k]] == vals[conc[ci]]:
                    head.append(conc[k])
                    k += 1
                head.sort()
        cand = sorted(head + sym) if not few else head + sym
        others = sym + head[:1]
        conds = []
        for i in cand:
            cs = []
            for j in others:
                if j != i:
                    c = vals[i] <= vals[j]
                    cs.append(c.expr if isinstance(c, SymBool) else z3.BoolVal(bool(c)))
            conds.append(z3.simplify(z3.And(*cs)) if cs else z3.BoolVal(True))
        live = [k for k, c in enumerate(conds) if not z3.is_false(c)]
        k = live[0] if len(live) == 1 else live[E.decide([conds[k] for k in live])]
        i = cand[k]
        out.append(i)
        if is_sym(vals[i]):
            sym.remove(i)
        else:
            conc.remove(i)
            conc.insert(ci, i)
            ci += 1
    rest = []
    res = rnp.array(out + rest + nan, dtype=rnp.intp)
    E.divcache[key] = (res, list(vals))
    return res.copy()


class _NdMeta(type):
    def __call__(cls, shape=None, dtype=float, *a, **k):
        return facade.empty(shape, dtype=dtype, order=k.get("order") or "C")

    def __instancecheck__(cls, x):
        return isinstance(x, rnp.ndarray)

    def __getattr__(cls, n):
        return getattr(rnp.ndarray, n)


class _NdarrayFacade(metaclass=_NdMeta):
    pass


_wrapcache = {}


def _wrapf(f):
    """Pass a numpy function through, translating façade dtypes; symbolic arrays travel as object arrays."""
    w = _wrapcache.get(id(f))
    if w is not None:
        return w

    def call(*a, **k):
        if "dtype" in k and k["dtype"] is not None:
            k["dtype"] = real_dtype(k["dtype"])
            if k["dtype"].kind == "f" and contains_sym(list(a)):
                del k["dtype"]
        try:
            return f(*a, **k)
        except (TypeError, AttributeError) as e:
            if contains_sym(list(a)) or contains_sym(list(k.values())):
                try:
                    return f(*[_num(x) for x in a], **k)
                except Unsupported:
                    raise Unsupported("numpy.%s on symbolic data: %s" % (getattr(f, "__name__", f), e))
            raise
    call.__name__ = getattr(f, "__name__", "numpy_function")
    for attr in ("reduce", "accumulate", "outer", "at", "reduceat"):
        if hasattr(f, attr) and isinstance(f, rnp.ufunc):
            setattr(call, attr, getattr(f, attr))
    _wrapcache[id(f)] = call
    call._keep = f
    return call


facade = Facade()
