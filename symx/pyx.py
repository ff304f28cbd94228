"""Interprets the typed syntax tree that Cython's own front end produces for a .pyx file of /repo.

Cython parses the current source and performs its declaration and expression analysis, so every node carries
its C type; this interpreter executes those nodes on symbolic values with C semantics: integer wrap of the
declared widths, memoryview element types, unchecked indexing (an index outside the buffer is reported as a
memory fault), prange iterations with private scalars and per-iteration access logs (conflicting accesses of
two iterations are reported as a data race).
"""
import os, re, types, operator
import numpy as rnp
import z3
from .core import (SymNum, SymBool, Unsupported, MemoryFault, is_sym, eng, mk, sym_ite, num_expr, _trunc,
                   is_int_term, sym_and)
from . import snp

_TREES = {}


def typed_tree(path, fullname):
    """Cython's typed tree of a .pyx file (cached per process)."""
    key = (path, os.path.getmtime(path))
    if key in _TREES:
        return _TREES[key]
    from Cython.Compiler import Pipeline, Main, Errors
    from Cython.Compiler.Main import Context, CompilationOptions, default_options
    inc = os.path.dirname(os.path.dirname(rnp.__file__))
    opts = CompilationOptions(default_options, include_path=[inc], language_level=3)
    opts.compiler_directives = {}
    ctx = Context.from_options(opts)
    src = Main.CompilationSource(Main.FileSourceDescriptor(path, os.path.basename(path)), fullname,
                                 os.path.dirname(path))
    res = Main.create_default_resultobj(src, opts)
    pipe = []
    for s in Pipeline.create_pyx_pipeline(ctx, opts, res):
        if s is None:
            continue
        pipe.append(s)
        if type(s).__name__ == "AnalyseExpressionsTransform":
            break
    else:
        raise Unsupported("this Cython has no AnalyseExpressionsTransform")
    with open(os.devnull, "w") as dn:
        import sys
        so, sys.stderr = sys.stderr, dn
        try:
            err, tree = Pipeline.run_pipeline(pipe, src)
        finally:
            sys.stderr = so
    if err is not None or tree is None:
        raise Unsupported("Cython cannot analyse %s: %r" % (path, err))
    _TREES[key] = tree
    return tree


# ------------------------------------------------------------------ C types
_SIZES = {"char": 1, "signed char": 1, "short": 2, "int": 4, "long": 8, "PY_LONG_LONG": 8, "long long": 8,
          "Py_ssize_t": 8, "size_t": 8, "npy_intp": 8, "bint": 4, "Py_hash_t": 8, "ptrdiff_t": 8}


class CInt(object):
    __slots__ = ("size", "signed", "bint", "lo", "hi")

    def __init__(self, size, signed, bint=False):
        self.size, self.signed, self.bint = size, signed, bint
        self.lo = -(1 << (8 * size - 1)) if signed else 0
        self.hi = (1 << (8 * size - 1)) - 1 if signed else (1 << (8 * size)) - 1

    def wrap(self, v, arithmetic=False):
        if isinstance(v, Uninit):
            v.use()
        if self.bint:
            if isinstance(v, (SymNum, SymBool)):
                return 1 if bool(v) else 0
            return 1 if v else 0
        if isinstance(v, SymBool):
            v = v.as_num()
        if isinstance(v, SymNum):
            e = v.expr if v.is_int else _trunc(v.expr)
            inside = SymBool(z3.And(e >= self.lo, e <= self.hi))
            if bool(inside):
                return mk(e, v.lo, v.hi)
            if arithmetic and self.signed and self.size >= 4:
                raise MemoryFault("signed integer overflow")
            m = 1 << (8 * self.size)
            return mk((e - self.lo) % m + self.lo)
        if isinstance(v, (float, rnp.floating)):
            if v != v or v in (float("inf"), float("-inf")):
                raise MemoryFault("conversion of a non-finite float to an integer")
        v = int(v)
        if self.lo <= v <= self.hi:
            return v
        if arithmetic and self.signed and self.size >= 4:
            raise MemoryFault("signed integer overflow")
        return (v - self.lo) % (1 << (8 * self.size)) + self.lo


_ctypes = {}


def cint(t):
    """CInt of a Cython integer type, or None."""
    r = _ctypes.get(id(t))
    if r is not None:
        return r[0]
    u = t.resolve() if getattr(t, "is_typedef", False) else t
    res = None
    if getattr(u, "is_int", False) or getattr(u, "is_enum", False):
        nm = u.empty_declaration_code() if hasattr(u, "empty_declaration_code") else str(u)
        nm = nm.replace("const ", "").strip()
        if str(t) == "bint" or str(t) == "bool" or type(u).__name__ == "CBIntType":
            res = CInt(4, True, True)
        else:
            base = nm.replace("unsigned ", "").replace("signed ", "").strip()
            tdn = str(t)
            size = {"intp_t": 8, "npy_intp": 8, "Py_intptr_t": 8}.get(tdn) or _SIZES.get(base)
            if tdn.endswith("_t") and tdn[:-2].lstrip("u").lstrip("int").isdigit():
                size = int(tdn[:-2].lstrip("u").lstrip("int")) // 8
            if size is None:
                raise Unsupported("C integer type %s" % t)
            signed = not (nm.startswith("unsigned") or tdn.startswith("u") or base == "size_t" or
                          getattr(u, "signed", 1) == 0)
            res = CInt(size, signed)
    _ctypes[id(t)] = (res, t)
    return res


class Uninit(object):
    """A private scalar of a parallel loop that this iteration has not assigned yet, or an unset C variable."""
    def __init__(self, name):
        self.name = name

    def use(self):
        raise MemoryFault("use of the uninitialised variable %s" % self.name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        self.use()


RACE = None       # access log of the innermost parallel loop: {"iter": i, "cells": {cell: (writers, readers)}}
PRANGE_ORDER = None   # callable(n) -> order of iterations


def _log(mv, idx, write):
    if RACE is None:
        return
    cell = (mv.cell_id, idx)
    d = RACE["cells"].get(cell)
    it = RACE["iter"]
    if d is None:
        d = RACE["cells"][cell] = (set(), set())
    (d[0] if write else d[1]).add(it)
    if write:
        if len(d[0]) > 1 or (d[1] - {it}):
            RACE["conflicts"].append("two iterations of a parallel loop access the same element of a buffer and one writes it")
    elif d[0] - {it}:
        RACE["conflicts"].append("two iterations of a parallel loop access the same element of a buffer and one writes it")


_KINDS = {("f", 4): "float", ("f", 8): "double"}


class MV(object):
    """A typed memoryview."""
    def __init__(self, arr, ctype_elem, boundscheck=False, elem=None):
        self.arr = arr
        self.et = ctype_elem
        base = arr
        while isinstance(base, rnp.ndarray) and isinstance(base.base, rnp.ndarray):
            base = base.base
        self.cell_id = id(base)
        self._keep = base
        self.elem_float = elem

    @property
    def shape(self):
        return self.arr.shape

    @property
    def size(self):
        return self.arr.size

    def _index(self, idx, boundscheck, wraparound):
        if len(idx) != self.arr.ndim:
            raise Unsupported("partial memoryview index")
        out = []
        for k, i in enumerate(idx):
            n = self.arr.shape[k]
            if isinstance(i, Uninit):
                i.use()
            if is_sym(i):
                if not bool(sym_and(i >= (-n if wraparound else 0), i < n)):
                    self._oob(boundscheck, k, n, "symbolic")
                i = int(i)
            i = int(i)
            if i < 0 and wraparound:
                i += n
            if not 0 <= i < n:
                self._oob(boundscheck, k, n, i)
            out.append(i)
        return tuple(out)

    def _oob(self, boundscheck, k, n, i):
        if boundscheck:
            raise IndexError("Out of bounds on buffer access (axis %d)" % k)
        raise MemoryFault("index %s outside a buffer axis of length %d" % (i, n))

    def _cell(self, ix):
        if self.arr.flags.c_contiguous or self.arr.ndim == 0:
            pass
        off = sum(i * s for i, s in zip(ix, self.arr.strides))
        return self.arr.__array_interface__["data"][0] + off

    def get(self, idx, bc, wr):
        ix = self._index(idx, bc, wr)
        if RACE is not None:
            _log(self, self._cell(ix), False)
        v = self.arr[ix]
        if isinstance(v, rnp.generic):
            v = v.item()
        return v

    def set(self, idx, v, bc, wr):
        ix = self._index(idx, bc, wr)
        if RACE is not None:
            _log(self, self._cell(ix), True)
        if self.et is not None:
            v = self.et.wrap(v)
            if is_sym(v):
                v = int(v)
            self.arr[ix] = v
        else:
            self.arr[ix] = tofloat(v)


def tofloat(v):
    if isinstance(v, Uninit):
        v.use()
    if isinstance(v, SymNum):
        return v.toreal() if v.is_int else v
    if isinstance(v, SymBool):
        return v.as_num().toreal()
    return float(v)


class CArr(object):
    def __init__(self, vals):
        self.vals = list(vals)

    def get(self, i):
        if isinstance(i, Uninit):
            i.use()
        if is_sym(i):
            if not bool(sym_and(i >= 0, i < len(self.vals))):
                raise MemoryFault("index outside a C array of length %d" % len(self.vals))
        i = int(i)
        if not 0 <= i < len(self.vals):
            raise MemoryFault("index %d outside a C array of length %d" % (i, len(self.vals)))
        return self.vals[i]

    def set(self, i, v):
        self.get(i)
        self.vals[int(i)] = v


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


def coerce(v, t):
    """Conversion of value v to C type t on assignment / argument passing."""
    if t is None or getattr(t, "is_pyobject", False):
        return v
    if isinstance(v, Uninit):
        v.use()
    ci = cint(t)
    if ci is not None:
        return ci.wrap(v)
    if getattr(t, "is_float", False):
        return tofloat(v)
    return v


class Frame(object):
    __slots__ = ("vars", "types", "dirs")

    def __init__(self, dirs):
        self.vars = {}
        self.types = {}
        self.dirs = dirs


class Interp(object):
    def __init__(self, tree, modname, loader):
        self.mod = types.ModuleType(modname)
        self.mod.__package__ = modname.rpartition(".")[0]
        self.g = self.mod.__dict__
        self.loader = loader
        self.bi = loader.builtins
        self.cfuncs = {}
        self.natives = {}
        fr = Frame({})
        self.top = fr
        self.declare_funcs(tree.body, {})
        self.stat(tree.body, fr)

    # ---- functions
    def declare_funcs(self, n, dirs):
        k = type(n).__name__
        if k == "CompilerDirectivesNode":
            self.declare_funcs(n.body, n.directives)
        elif k == "StatListNode":
            for s in n.stats:
                self.declare_funcs(s, dirs)
        elif k == "CFuncDefNode":
            d = n.declarator
            while not hasattr(d, "args"):
                d = d.base
            self.cfuncs[n.entry.name] = (n, [a.name for a in n.args], [a.type for a in n.args], dirs)
        elif k == "DefNode":
            self.cfuncs[n.name] = (n, [a.name for a in n.args], [a.type for a in n.args], dirs)

    def pyfunc(self, name):
        n, names, ts, dirs = self.cfuncs[name]
        defaults = {}
        for a in n.args:
            if a.default is not None:
                d = a.default
                if type(d).__name__ == "DefaultLiteralArgNode":
                    d = d.arg
                defaults[a.name] = self.ex(d, self.top)

        def f(*args, **kw):
            vals = dict(defaults)
            if len(args) > len(names):
                raise TypeError("%s() takes %d arguments" % (name, len(names)))
            vals.update(zip(names, args))
            for k in kw:
                if k not in names:
                    raise TypeError("%s() got an unexpected keyword argument %r" % (name, k))
            vals.update(kw)
            missing = [x for x in names if x not in vals]
            if missing:
                raise TypeError("%s() missing arguments %s" % (name, missing))
            return self.call(name, [self.arg_from_py(vals[x], t, dirs) for x, t in zip(names, ts)])
        f.__name__ = name
        f.__qualname__ = name
        return f

    def arg_from_py(self, v, t, dirs):
        if t is not None and getattr(t, "is_memoryviewslice", False):
            return self.memview(v, t)
        return coerce(v, t)

    def call(self, name, args):
        n, names, ts, dirs = self.cfuncs[name]
        note_function(self.mod.__name__, name)
        fr = Frame(dirs)
        for x, t, v in zip(names, ts, args):
            fr.vars[x] = coerce(v, t)
        self.declare_locals(n, fr)
        try:
            self.stat(n.body, fr)
        except _Return as r:
            rt = getattr(n, "return_type", None)
            return coerce(r.v, rt) if rt is not None else r.v
        rt = getattr(n, "return_type", None)
        if rt is not None and (getattr(rt, "is_int", False) or getattr(rt, "is_float", False)):
            return 0
        return None

    def declare_locals(self, n, fr):
        scope = getattr(n, "local_scope", None)
        for nm, e in (scope.entries.items() if scope is not None else ()):
            fr.types[nm] = e.type

    # ---- statements
    def stat(self, n, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("Cython statement %s" % type(n).__name__)
        return m(n, fr)

    def s_StatListNode(self, n, fr):
        for s in n.stats:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Unsupported("Cython statement %s" % type(s).__name__)
            m(s, fr)

    def s_CompilerDirectivesNode(self, n, fr):
        old = fr.dirs
        fr.dirs = n.directives
        try:
            self.stat(n.body, fr)
        finally:
            fr.dirs = old

    def s_CFuncDefNode(self, n, fr):
        pass

    def s_DefNode(self, n, fr):
        self.g[n.name] = self.pyfunc(n.name)

    def _skip(self, n, fr):
        pass
    s_CImportStatNode = s_FromCImportStatNode = s_PassStatNode = s_CVarDefNode = s_CTypeDefNode = _skip
    s_GILExitNode = s_CDefExternNode = s_CStructOrUnionDefNode = s_CEnumDefNode = _skip

    def s_ExprStatNode(self, n, fr):
        self.ex(n.expr, fr)

    def s_SingleAssignmentNode(self, n, fr):
        if type(n.rhs).__name__ == "PyCFunctionNode":
            return
        self.assign(n.lhs, self.ex(n.rhs, fr), fr)

    def s_CascadedAssignmentNode(self, n, fr):
        v = self.ex(n.rhs, fr)
        for l in n.lhs_list:
            self.assign(l, v, fr)

    def s_ParallelAssignmentNode(self, n, fr):
        vals = [self.ex(s.rhs, fr) for s in n.stats]
        for s, v in zip(n.stats, vals):
            self.assign(s.lhs, v, fr)

    def s_InPlaceAssignmentNode(self, n, fr):
        lhs = n.lhs
        k = type(lhs).__name__
        if k == "MemoryViewIndexNode":
            mv = self.ex(lhs.base, fr)
            idx = [self.ex(i, fr) for i in lhs.indices]
            bc, wr = self.flags(fr)
            cur = mv.get(idx, bc, wr)
            v = self.binop(n.operator, cur, self.ex(n.rhs, fr), lhs.type)
            mv.set(idx, v, bc, wr)
            return
        cur = self.ex(lhs, fr)
        rhs = self.ex(n.rhs, fr)
        if getattr(lhs.type, "is_pyobject", False):
            v = self.pyop(n.operator, cur, rhs, inplace=True)
        else:
            v = self.binop(n.operator, cur, rhs, lhs.type)
        self.assign(lhs, v, fr)

    def s_IfStatNode(self, n, fr):
        for c in n.if_clauses:
            if self.truth(self.ex(c.condition, fr)):
                self.stat(c.body, fr)
                return
        if n.else_clause is not None:
            self.stat(n.else_clause, fr)

    def s_WhileStatNode(self, n, fr):
        while n.condition is None or self.truth(self.ex(n.condition, fr)):
            try:
                self.stat(n.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        if n.else_clause is not None:
            self.stat(n.else_clause, fr)

    def s_ForInStatNode(self, n, fr):
        it = n.iterator
        seq = self.ex(it.sequence if hasattr(it, "sequence") else it, fr)
        item = n.item
        for v in self.iterate(seq):
            t = n.target.type
            tn = type(item).__name__
            self.assign(n.target, coerce(v, t) if not getattr(t, "is_memoryviewslice", False) else self.memview(v, t), fr)
            try:
                self.stat(n.body, fr)
            except _Break:
                return
            except _Continue:
                continue
        if n.else_clause is not None:
            self.stat(n.else_clause, fr)

    def iterate(self, seq):
        if isinstance(seq, MV):
            return [seq.get((i,), False, False) for i in range(seq.shape[0])] if seq.arr.ndim == 1 else \
                [MV(seq.arr[i], seq.et) for i in range(seq.shape[0])]
        if isinstance(seq, CArr):
            return list(seq.vals)
        return seq

    def s_ForFromStatNode(self, n, fr):
        a, b = self.ex(n.bound1, fr), self.ex(n.bound2, fr)
        step = self.ex(n.step, fr) if n.step is not None else 1
        v = a + (0 if n.relation1 == "<=" else 1) if n.relation1 in ("<", "<=") else a - (0 if n.relation1 == ">=" else 1)
        cmpf = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[n.relation2]
        down = n.relation1 in (">", ">=")
        while self.truth(cmpf(v, b)):
            self.assign(n.target, v, fr)
            try:
                self.stat(n.body, fr)
            except _Break:
                return
            except _Continue:
                pass
            v = self.ex(n.target, fr)
            v = v - step if down else v + step
        if n.else_clause is not None:
            self.stat(n.else_clause, fr)

    def s_ReturnStatNode(self, n, fr):
        v = None
        if n.value is not None:
            v = self.ex(n.value, fr)
            if isinstance(v, Uninit):
                v.use()
        raise _Return(v)

    def s_BreakStatNode(self, n, fr):
        raise _Break()

    def s_ContinueStatNode(self, n, fr):
        raise _Continue()

    def s_GILStatNode(self, n, fr):
        self.stat(n.body, fr)
    s_ParallelWithBlockNode = s_NogilTryFinallyStatNode = s_GILStatNode

    def s_TryFinallyStatNode(self, n, fr):
        try:
            self.stat(n.body, fr)
        finally:
            self.stat(n.finally_clause, fr)

    def s_RaiseStatNode(self, n, fr):
        e = self.ex(n.exc_type, fr)
        if n.exc_value is not None:
            raise e(self.ex(n.exc_value, fr))
        raise e

    def s_AssertStatNode(self, n, fr):
        c = n.condition if hasattr(n, "condition") else n.cond
        if not self.truth(self.ex(c, fr)):
            raise AssertionError()

    def s_FromImportStatNode(self, n, fr):
        m = self.ex(n.module, fr)
        for name, target in n.items:
            self.assign(target, getattr(m, name), fr)

    def s_DelStatNode(self, n, fr):
        pass

    def s_ParallelRangeNode(self, n, fr):
        global RACE
        args = [self.ex(a, fr) for a in n.args]
        vals = list(range(*[int(a) for a in args]))
        private, inplace = assigned_names(n.body)
        order = list(range(len(vals)))
        if PRANGE_ORDER is not None and len(vals) > 1:
            order = [int(i) for i in PRANGE_ORDER(len(vals))]
        outer = RACE
        RACE = dict(iter=None, cells={}, conflicts=[])
        log = RACE
        last = {}
        try:
            for k in order:
                RACE["iter"] = k
                for p in private:
                    if p not in inplace:
                        fr.vars[p] = Uninit(p)
                self.assign(n.target, vals[k], fr)
                try:
                    self.stat(n.body, fr)
                except _Continue:
                    pass
                except _Break:
                    break
                if k == len(vals) - 1:
                    last = {p: fr.vars.get(p) for p in private}
        finally:
            RACE = outer
        for p, v in last.items():
            if p not in inplace:
                fr.vars[p] = v
        if log["conflicts"]:
            note_race(log["conflicts"][0])

    # ---- assignment
    def assign(self, lhs, v, fr):
        k = type(lhs).__name__
        if k == "NameNode":
            t = lhs.type
            v = coerce(v, t) if not getattr(t, "is_memoryviewslice", False) else v
            if fr is self.top or lhs.entry is not None and lhs.entry.scope.is_module_scope:
                self.g[lhs.name] = v
            else:
                fr.vars[lhs.name] = v
        elif k == "MemoryViewIndexNode":
            bc, wr = self.flags(fr)
            self.ex(lhs.base, fr).set([self.ex(i, fr) for i in lhs.indices], v, bc, wr)
        elif k in ("MemoryViewSliceNode", "MemoryCopyScalar", "MemoryCopySlice"):
            if k != "MemoryViewSliceNode":
                lhs = lhs.dst
            mv = self.ex(lhs, fr)
            if isinstance(v, MV):
                src = v.arr.copy()
                for ix in rnp.ndindex(mv.arr.shape):
                    mv.set(ix, src[ix], False, False)
            else:
                for ix in rnp.ndindex(mv.arr.shape):
                    mv.set(ix, v, False, False)
        elif k == "IndexNode":
            b = self.ex(lhs.base, fr)
            i = self.ex(lhs.index, fr)
            if isinstance(b, CArr):
                b.set(i, coerce(v, lhs.type))
            elif isinstance(b, MV):
                b.set((i,), v, *self.flags(fr))
            else:
                b[i if not is_sym(i) else int(i)] = v
        elif k == "AttributeNode":
            setattr(self.ex(lhs.obj, fr), lhs.attribute, v)
        elif k in ("TupleNode", "ListNode"):
            vs = list(v)
            if len(vs) != len(lhs.args):
                raise ValueError("unpacking")
            for a, x in zip(lhs.args, vs):
                self.assign(a, x, fr)
        elif k in ("CoerceToTempNode", "CoerceToPyTypeNode", "CoerceFromPyTypeNode"):
            self.assign(lhs.arg, v, fr)
        else:
            raise Unsupported("Cython assignment target %s" % k)

    def flags(self, fr):
        d = fr.dirs or {}
        return d.get("boundscheck", True), d.get("wraparound", True)

    # ---- expressions
    def truth(self, v):
        if isinstance(v, Uninit):
            v.use()
        return bool(v)

    def ex(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            if hasattr(n, "operand1") and hasattr(n, "operator"):
                return self.e_binary(n, fr)
            raise Unsupported("Cython expression %s" % type(n).__name__)
        return m(n, fr)

    def e_NameNode(self, n, fr):
        nm = n.name
        if nm in fr.vars:
            v = fr.vars[nm]
            return v
        if nm in self.g:
            return self.g[nm]
        if nm in self.cfuncs:
            return self.pyfunc(nm)
        e = n.entry
        if e is not None and e.is_variable and not e.type.is_pyobject and nm in fr.types:
            return Uninit(nm)
        if nm == "xrange":
            return self.bi["range"]
        if nm in self.bi:
            return self.bi[nm]
        if e is not None and getattr(e, "is_cfunction", False):
            return _extern(nm)
        raise NameError("name %r is not defined" % nm)

    def e_IntNode(self, n, fr):
        v = int(str(n.value).rstrip("uUlL").replace("_", ""), 0) if not isinstance(n.value, int) else n.value
        return coerce(v, n.type)

    def e_FloatNode(self, n, fr):
        return float(n.value)

    def e_BoolNode(self, n, fr):
        return bool(n.value)

    def e_NoneNode(self, n, fr):
        return None

    def e_UnicodeNode(self, n, fr):
        return str(n.value)
    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n, fr):
        v = n.value
        return v.byteencode() if hasattr(v, "byteencode") else v

    def e_AttributeNode(self, n, fr):
        o = self.ex(n.obj, fr)
        if isinstance(o, MV):
            if n.attribute == "shape":
                return o.shape
            if n.attribute == "size":
                return o.size
            if n.attribute in ("T", "base", "ndim", "copy"):
                raise Unsupported("memoryview attribute " + n.attribute)
        return getattr(o, n.attribute)

    def e_IndexNode(self, n, fr):
        b, i = self.ex(n.base, fr), self.ex(n.index, fr)
        if isinstance(b, CArr):
            return b.get(i)
        if isinstance(b, MV):
            return b.get((i,), *self.flags(fr))
        if isinstance(i, Uninit):
            i.use()
        if is_sym(i):
            i = int(i)
        return b[i]

    def e_SliceIndexNode(self, n, fr):
        b = self.ex(n.base, fr)
        a = self.ex(n.start, fr) if n.start is not None else None
        z = self.ex(n.stop, fr) if n.stop is not None else None
        if isinstance(b, MV):
            return MV(b.arr[slice(a, z)], b.et)
        return b[a:z]

    def e_MemoryViewIndexNode(self, n, fr):
        mv = self.ex(n.base, fr)
        if mv is None:
            raise MemoryFault("access to a None memoryview")
        if isinstance(mv, Uninit):
            mv.use()
        bc, wr = self.flags(fr)
        return mv.get([self.ex(i, fr) for i in n.indices], bc, wr)

    def e_MemoryViewSliceNode(self, n, fr):
        mv = self.ex(n.base, fr)
        idx = []
        for i in (n.indices if n.indices else n.original_indices):
            k = type(i).__name__
            if k == "SliceNode":
                g = lambda x: None if x is None or type(x).__name__ == "NoneNode" else int(self.ex(x, fr))
                s = slice(g(i.start), g(i.stop), g(i.step))
                idx.append(s)
            elif k == "EllipsisNode":
                idx.append(Ellipsis)
            else:
                v = self.ex(i, fr)
                v = int(v)
                nax = len(idx)
                if not 0 <= v < mv.arr.shape[nax]:
                    mv._oob(self.flags(fr)[0], nax, mv.arr.shape[nax], v)
                idx.append(v)
        return MV(mv.arr[tuple(idx)], mv.et)

    def e_SliceNode(self, n, fr):
        g = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.ex(x, fr)
        return slice(g(n.start), g(n.stop), g(n.step))

    def e_SimpleCallNode(self, n, fr):
        f = n.function
        args = n.args if n.args is not None else n.arg_tuple.args
        vals = [self.ex(a, fr) for a in args]
        if type(f).__name__ == "NameNode" and f.name in self.cfuncs and f.name not in fr.vars:
            cn, names, ts, dirs = self.cfuncs[f.name]
            if type(cn).__name__ == "CFuncDefNode":
                return self.call(f.name, vals)
        if type(f).__name__ == "NameNode" and f.name == "import_array":
            return 0
        cname = f.name if type(f).__name__ == "NameNode" else getattr(f, "attribute", None)
        ent = getattr(f, "entry", None)
        if ent is not None and getattr(ent, "is_cfunction", False):
            if cname in ("PyArray_DATA", "PyArray_BYTES"):
                if not isinstance(vals[0], rnp.ndarray):
                    raise TypeError("Cannot convert %s to numpy.ndarray" % type(vals[0]).__name__)
                return DataPtr(vals[0])
            if cname not in fr.vars and cname not in self.g and cname not in EXTERN:
                return coerce(self.native(cname, [coerce(v, a.type) for v, a in zip(vals, args)]), n.type)
        fn = self.ex(f, fr)
        return coerce(fn(*[self.topy(v) for v in vals]), n.type)

    def native(self, name, vals):
        """call of a C++ function compiled from the sources next to the module"""
        import os
        from . import llir, llnative
        if name not in self.natives:
            d = os.path.dirname(self.mod.__file__)
            for f in sorted(os.listdir(d)):
                if not f.endswith((".cpp", ".cc", ".cxx")):
                    continue
                src = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
                if src.startswith("/* Generated by Cython") or not re.search(r"\b%s\s*\(" % re.escape(name), src):
                    continue
                m = llir.module(os.path.relpath(os.path.join(d, f), llir.REPO), openmp=True)
                fn = llnative.function(m, name)
                if fn is not None:
                    self.natives[name] = (m, fn)
                    break
            else:
                raise Unsupported("C function %s" % name)
        m, fn = self.natives[name]
        M = llir.Machine(m)
        M.lines = []
        args = [llnative.array_ptr(M, v.arr) if isinstance(v, DataPtr) else v for v in vals]
        try:
            return M.call(fn, args)
        except llir.CxxThrow as e:
            raise MemoryFault("a C++ exception (%s) leaves %s" % (e.tinfo, name))

    def e_GeneralCallNode(self, n, fr):
        fn = self.ex(n.function, fr)
        pos = self.ex(n.positional_args, fr)
        kw = self.ex(n.keyword_args, fr) if n.keyword_args is not None else {}
        return fn(*[self.topy(v) for v in pos], **{k: self.topy(v) for k, v in kw.items()})

    def topy(self, v):
        if isinstance(v, MV):
            return v.arr
        if isinstance(v, Uninit):
            v.use()
        return v

    def e_TupleNode(self, n, fr):
        return tuple(self.ex(a, fr) for a in n.args)

    def e_ListNode(self, n, fr):
        v = [self.ex(a, fr) for a in n.args]
        return CArr(v) if getattr(n.type, "is_array", False) or getattr(n.type, "is_ptr", False) else v

    def e_CArrayNode(self, n, fr):
        return CArr([coerce(self.ex(a, fr), n.type.base_type) for a in n.args])

    def e_DictNode(self, n, fr):
        return {self.ex(i.key, fr): self.ex(i.value, fr) for i in n.key_value_pairs}

    def _arg(self, n, fr):
        return self.ex(n.arg, fr)
    e_BoolBinopResultNode = e_ProxyNode = e_CloneNode = e_PyTypeTestNode = e_NoneCheckNode = _arg
    e_DefaultLiteralArgNode = _arg

    def e_CoerceToTempNode(self, n, fr):
        return self.ex(n.arg, fr)

    def e_CoerceToBooleanNode(self, n, fr):
        v = self.ex(n.arg, fr)
        if isinstance(v, Uninit):
            v.use()
        if is_sym(v):
            return v != 0 if isinstance(v, SymNum) else v
        return bool(v)

    def e_CoerceToPyTypeNode(self, n, fr):
        v = self.ex(n.arg, fr)
        t = n.arg.type
        ci = cint(t)
        if ci is not None and ci.bint and not is_sym(v):
            return bool(v)
        return self.topy(v)
    e_CoerceIntToBytesNode = e_CoerceToPyTypeNode

    def e_CoerceFromPyTypeNode(self, n, fr):
        v = self.ex(n.arg, fr)
        t = n.type
        ci = cint(t)
        if ci is not None:
            if ci.bint:
                return 1 if self.truth(v) else 0
            if isinstance(v, (float, rnp.floating)) or isinstance(v, SymNum) and not v.is_int:
                raise TypeError("an integer is required")
            if not is_sym(v):
                v = operator.index(v)
                if not ci.lo <= v <= ci.hi:
                    raise OverflowError("value too large to convert")
            return v
        return coerce(v, t)

    def e_CoerceToMemViewSliceNode(self, n, fr):
        v = self.ex(n.arg, fr)
        return self.memview(v, n.type)

    def memview(self, v, t):
        if isinstance(v, MV):
            v = v.arr
        if v is None:
            return None
        if not isinstance(v, rnp.ndarray):
            raise TypeError("a bytes-like object is required, not %r" % type(v).__name__)
        et = t.dtype
        if v.ndim != t.ndim:
            raise ValueError("Buffer has wrong number of dimensions (expected %d, got %d)" % (t.ndim, v.ndim))
        ci = cint(et)
        dt = v._sdt if isinstance(v, snp.SymArray) and v._sdt is not None else v.dtype
        dt = rnp.dtype(dt) if not isinstance(dt, snp.TaggedDType) else dt.real
        if ci is not None:
            if dt.kind not in "iu" or dt.itemsize != ci.size or (dt.kind == "i") != ci.signed:
                raise ValueError("Buffer dtype mismatch, expected '%s' but got '%s'" % (et, dt))
        elif getattr(et, "is_float", False):
            size = 4 if "float" in str(et.resolve() if et.is_typedef else et) or str(et).endswith("32_t") else 8
            if dt.kind != "f" or dt.itemsize != size:
                raise ValueError("Buffer dtype mismatch, expected '%s' but got '%s'" % (et, dt))
        elif not et.is_pyobject:
            raise Unsupported("memoryview of %s" % et)
        for k, (acc, pk) in enumerate(getattr(t, "axes", ())):
            if pk == "contig" and not (v.flags.c_contiguous or v.flags.f_contiguous):
                raise ValueError("ndarray is not contiguous")
        if not v.flags.writeable and not getattr(et, "is_const", False):
            raise ValueError("buffer source array is read-only")
        return MV(v, ci)

    def e_CondExprNode(self, n, fr):
        if self.truth(self.ex(n.condition if hasattr(n, "condition") else n.test, fr)):
            return coerce(self.ex(n.true_val, fr), n.type) if not n.type.is_memoryviewslice else self.ex(n.true_val, fr)
        return coerce(self.ex(n.false_val, fr), n.type) if not n.type.is_memoryviewslice else self.ex(n.false_val, fr)

    def e_EvalWithTempExprNode(self, n, fr):
        d = getattr(self, "_temps", None)
        if d is None:
            d = self._temps = {}
        ref = n.lazy_temp
        d.setdefault(id(ref), []).append(self.ex(n.temp_expression, fr))
        try:
            return self.ex(n.subexpression, fr)
        finally:
            d[id(ref)].pop()

    def e_ResultRefNode(self, n, fr):
        d = getattr(self, "_temps", {})
        if d.get(id(n)):
            return d[id(n)][-1]
        if n.expression is not None:
            return self.ex(n.expression, fr)
        raise Unsupported("result reference")

    def e_TypecastNode(self, n, fr):
        return coerce(self.ex(n.operand, fr), n.type)

    def e_NotNode(self, n, fr):
        v = self.ex(n.operand, fr)
        if isinstance(v, SymBool):
            return v.logical_not()
        return not self.truth(v)

    def e_UnaryMinusNode(self, n, fr):
        v = -self.use(self.ex(n.operand, fr))
        ci = cint(n.type)
        return ci.wrap(v, True) if ci is not None else v

    def e_UnaryPlusNode(self, n, fr):
        return self.ex(n.operand, fr)

    def e_TildeNode(self, n, fr):
        return coerce(~int(self.use(self.ex(n.operand, fr))), n.type)

    def use(self, v):
        if isinstance(v, Uninit):
            v.use()
        return v

    def e_BoolBinopNode(self, n, fr):
        a = self.ex(n.operand1, fr)
        if n.operator == "and":
            return self.ex(n.operand2, fr) if self.truth(a) else a
        return a if self.truth(a) else self.ex(n.operand2, fr)

    _CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt,
            ">=": operator.ge, "is": operator.is_, "is_not": operator.is_not}

    def compare(self, op, a, b, pyobj):
        self.use(a), self.use(b)
        if op == "in":
            return a in b
        if op == "not_in":
            return a not in b
        if isinstance(a, SymBool):
            a = a.as_num()
        if isinstance(b, SymBool):
            b = b.as_num()
        return self._CMP[op](a, b)

    def e_PrimaryCmpNode(self, n, fr):
        a, b = self.ex(n.operand1, fr), self.ex(n.operand2, fr)
        t1, t2 = cint(n.operand1.type), cint(n.operand2.type)
        if t1 is not None and t2 is not None and not n.operand1.type.is_pyobject:
            a, b = usual(a, t1, b, t2)
        r = self.compare(n.operator, a, b, n.type.is_pyobject)
        if n.cascade is not None:
            if not self.truth(r):
                return r
            return self.cascade(n.cascade, b, fr)
        return r

    def cascade(self, c, left, fr):
        b = self.ex(c.operand2, fr)
        r = self.compare(c.operator, left, b, False)
        if c.cascade is not None and self.truth(r):
            return self.cascade(c.cascade, b, fr)
        return r

    def e_binary(self, n, fr):
        a, b = self.ex(n.operand1, fr), self.ex(n.operand2, fr)
        if n.type.is_pyobject:
            return self.pyop(n.operator, a, b)
        return self.binop(n.operator, a, b, n.type, cdivision=(fr.dirs or {}).get("cdivision", False))

    def pyop(self, op, a, b, inplace=False):
        self.use(a), self.use(b)
        f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
             "%": operator.mod, "**": operator.pow, "&": operator.and_, "|": operator.or_, "^": operator.xor,
             "<<": operator.lshift, ">>": operator.rshift}[op]
        if inplace and isinstance(a, rnp.ndarray):
            f = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv}.get(op, f)
        return f(a, b)

    def binop(self, op, a, b, t, cdivision=False):
        self.use(a), self.use(b)
        ci = cint(t)
        if isinstance(a, (bool, rnp.bool_)):
            a = int(a)
        if isinstance(b, (bool, rnp.bool_)):
            b = int(b)
        if ci is not None:
            if op in ("&", "|", "^", "<<", ">>"):
                a, b = int(a), int(b)     # concretises
                if op == "<<" and not 0 <= b < 8 * ci.size or op == ">>" and not 0 <= b < 8 * ci.size:
                    raise MemoryFault("shift count out of range")
                r = {"&": operator.and_, "|": operator.or_, "^": operator.xor, "<<": operator.lshift,
                     ">>": operator.rshift}[op](ci.wrap(a), ci.wrap(b) if op not in ("<<", ">>") else b)
                return ci.wrap(r)
            if op in ("/", "//", "%") and not is_sym(b) and b == 0 and cdivision:
                raise MemoryFault("integer division by zero")
            if op in ("/", "//"):
                r = a // b if not cdivision else _cdiv(a, b)
            elif op == "%":
                r = a % b if not cdivision else a - _cdiv(a, b) * b
            elif op == "**":
                r = a ** int(b)
            else:
                r = {"+": operator.add, "-": operator.sub, "*": operator.mul}[op](a, b)
            return ci.wrap(r, True)
        if op == "/" and not is_sym(b) and b == 0:
            if not cdivision:
                raise ZeroDivisionError("float division")
            raise Unsupported("float division by zero")
        a, b = tofloat(a), tofloat(b)
        return {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
                "//": operator.floordiv, "%": operator.mod, "**": operator.pow}[op](a, b)

    def e_ImportNode(self, n, fr):
        name = str(n.module_name.value)
        lst = [str(x.value) for x in n.imported_names] if n.imported_names is not None else ()
        level = n.level if n.level is not None and n.level > 0 else 0
        if level:
            # analysed names are already absolute in some versions
            if name.split(".")[0] == self.mod.__name__.split(".")[0]:
                level = 0
        m = self.loader._import(name, dict(__package__=self.mod.__package__), None, tuple(lst), level)
        top = getattr(n, "get_top_level_module", False) or getattr(n, "is_import_as_name", None) is False
        if "." in name and not lst and getattr(n, "is_import_as_name", False):
            for p in name.split(".")[1:]:
                m = getattr(m, p)
        return m


EXTERN = {"fabs": abs, "abs": abs, "fabsf": abs, "sqrt": lambda v: v.sqrt() if is_sym(v) else float(rnp.sqrt(v)),
          "fmax": max, "fmin": min}


class DataPtr(object):
    """the address of an array's first element"""
    def __init__(self, arr):
        self.arr = arr


def _extern(nm):
    if nm in EXTERN:
        return EXTERN[nm]

    def f(*a):
        raise Unsupported("C function %s" % nm)
    return f


def _cdiv(a, b):
    if is_sym(a) or is_sym(b):
        raise Unsupported("C division of symbolic integers")
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def usual(a, t1, b, t2):
    """C's usual arithmetic conversions for a comparison of two integers."""
    size = max(t1.size, t2.size, 4)
    s1 = t1.signed or t1.size < size
    s2 = t2.signed or t2.size < size
    if s1 and s2:
        return a, b
    u = CInt(size, False)
    return u.wrap(a), u.wrap(b)


def assigned_names(body):
    """(assigned scalar names, names assigned in place only) in a prange body."""
    priv, inpl = set(), set()

    def walk(n):
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                walk(x)
            return
        k = type(n).__name__
        if k == "SingleAssignmentNode" and type(n.lhs).__name__ == "NameNode":
            priv.add(n.lhs.name)
        elif k == "CascadedAssignmentNode":
            for l in n.lhs_list:
                if type(l).__name__ == "NameNode":
                    priv.add(l.name)
        elif k == "InPlaceAssignmentNode" and type(n.lhs).__name__ == "NameNode":
            inpl.add(n.lhs.name)
        elif k in ("ForInStatNode", "ForFromStatNode", "ParallelRangeNode") and type(n.target).__name__ == "NameNode":
            priv.add(n.target.name)
        for a in (n.child_attrs or ()):
            walk(getattr(n, a, None))
    walk(body)
    return priv | inpl, inpl - priv


FUNCS_SEEN = set()


def note_function(mod, name):
    FUNCS_SEEN.add("%s:%s" % (mod.replace(".", "/") + ".pyx", name))


def note_race(what):
    E = eng()
    E.races = getattr(E, "races", [])
    E.races.append(what)


def load(name, path, loader):
    tree = typed_tree(path, name)
    it = Interp(tree, name, loader)
    it.mod.__file__ = path
    return it.mod
