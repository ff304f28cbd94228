"""Executes the LLVM IR that clang produces from the C++ sources of /repo, on symbolic values.

The module is compiled from the current source at every run (clang -O0, then LLVM's mem2reg), with the header
part of libstdc++ (vector, string, algorithms) compiled into it, so those run as real code.  Memory is a set of
bounded blocks with typed cells: an access outside a block, to a freed block or of a value never written is a
memory fault.  Integers wrap at their declared width (signed overflow is a fault), C++ exceptions unwind through
the landing pads.  What the module only declares (streams, sscanf, the Python and NumPy C API) is modelled in
llnative.py.
"""
import os, re, shutil, struct, subprocess, sysconfig, tempfile
import numpy as rnp
import z3
from .core import SymNum, SymBool, Unsupported, MemoryFault, is_sym, eng, mk, sym_ite, sym_and, sym_or, sym_not, _trunc
from .loader import REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class _Undef(object):
    def __repr__(self):
        return "undef"

    def __bool__(self):
        raise MemoryFault("branch on a value that was never written")


UNDEF = _Undef()


# ------------------------------------------------------------------ values
class Ptr(object):
    __slots__ = ("b", "o")

    def __init__(self, b, o):
        self.b, self.o = b, o

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.b, self.o)


NULL = Ptr(None, 0)


class Fn(object):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "@" + self.name


class PInt(object):
    """a pointer converted to an integer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class CxxThrow(Exception):
    def __init__(self, ptr, tinfo):
        Exception.__init__(self, "C++ exception %s" % tinfo)
        self.ptr, self.tinfo = ptr, tinfo


def wrap_s(v, n, nsw=False):
    """canonical (signed) value of the n-bit integer congruent to v"""
    h = 1 << (n - 1)
    if type(v) is int:
        if -h <= v < h:
            return v
        if nsw:
            raise MemoryFault("signed integer overflow")
        return ((v + h) & ((1 << n) - 1)) - h
    if v is UNDEF or isinstance(v, PInt):
        return v
    if isinstance(v, SymBool):
        v = v.as_num()
    if isinstance(v, SymNum):
        if v.lo is not None and v.hi is not None and v.lo >= -h and v.hi < h:
            return v
        e = v.expr
        c = z3.simplify(e)
        if z3.is_int_value(c):
            return wrap_s(c.as_long(), n, nsw)
        if bool(SymBool(z3.And(e >= -h, e < h))):
            return v
        if nsw:
            raise MemoryFault("signed integer overflow")
        return mk((e + h) % (1 << n) - h)
    return wrap_s(int(v), n, nsw)


def to_u(v, n):
    if type(v) is int:
        return v & ((1 << n) - 1)
    if isinstance(v, SymNum):
        if v.lo is not None and v.lo >= 0:
            return v
        if bool(v >= 0):
            return v
        return v + (1 << n)
    if isinstance(v, SymBool):
        return v.as_num()
    return v


# ------------------------------------------------------------------ memory
class Block(object):
    __slots__ = ("size", "cells", "freed", "kind", "name", "const", "obj", "log")

    def __init__(self, size, kind, name=""):
        self.size, self.cells, self.freed, self.kind, self.name = size, {}, False, kind, name
        self.const = False
        self.obj = None
        self.log = None

    def __repr__(self):
        return "%s:%s[%s]" % (self.kind, self.name, self.size)

    # cells: offset -> (size, value)
    def get(self, off, sz, fl):
        c = self.cells.get(off)
        if c is not None and c[0] == sz:
            return c[1]
        return self.assemble(off, sz, fl)

    def assemble(self, off, sz, fl):
        bs = [self.byte_at(off + k) for k in range(sz)]
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(type(b) is int for b in bs):
            raw = bytes(b & 255 for b in bs)
            if fl == "ptr":
                if not any(raw):
                    return NULL
                raise Unsupported("pointer assembled from bytes")
            if fl == "f":
                return struct.unpack("<f" if sz == 4 else "<d", raw)[0]
            return int.from_bytes(raw, "little", signed=True)
        if fl == "i":
            acc = 0
            for k, b in enumerate(bs):
                acc = acc + to_u(b, 8) * (1 << (8 * k))
            return wrap_s(acc, 8 * sz)
        raise Unsupported("value assembled from symbolic bytes")

    def byte_at(self, o):
        for back in range(0, 16):
            c = self.cells.get(o - back)
            if c is not None:
                if c[0] <= back:
                    return UNDEF
                v = c[1]
                if c[0] == 1:
                    return v
                if type(v) is int:
                    return int.from_bytes(((v >> (8 * back)) & 255).to_bytes(1, "little"), "little", signed=True)
                if type(v) is float:
                    return struct.pack("<f" if c[0] == 4 else "<d", v)[back]
                if v is NULL or (type(v) is Ptr and v.b is None and v.o == 0):
                    return 0
                if v is UNDEF:
                    return UNDEF
                raise Unsupported("part of a symbolic or pointer value read as bytes")
        return UNDEF

    def put(self, off, sz, v):
        cells = self.cells
        c = cells.get(off)
        if c is not None and c[0] == sz:
            cells[off] = (sz, v)
            return
        self.clear(off, sz)
        cells[off] = (sz, v)

    def clear(self, off, sz):
        """remove [off, off+sz), keeping the outside bytes of partly covered cells"""
        cells = self.cells
        for o in range(off - 15, off + sz):
            c = cells.get(o)
            if c is None or o + c[0] <= off:
                continue
            keep = [(b, self.byte_at(b)) for b in range(o, o + c[0]) if not (off <= b < off + sz)] \
                if (o < off or o + c[0] > off + sz) else []
            del cells[o]
            for b, v in keep:
                if v is not UNDEF:
                    cells[b] = (1, v)


class ArrayBlock(Block):
    """the memory of a numpy array of the harness"""
    __slots__ = ("flat", "item", "dt", "sym", "writes")

    def __init__(self, flat, dt, name):
        Block.__init__(self, len(flat) * dt.itemsize, "array", name)
        self.flat, self.item, self.dt = flat, dt.itemsize, dt
        self.sym = flat.dtype == object

    def get(self, off, sz, fl):
        want = "f" if self.dt.kind == "f" else "i"
        if sz != self.item or off % sz or fl != want:
            raise MemoryFault("memory of a %s array read as %d-byte %s" % (self.dt, sz, "floats" if fl == "f" else "values"))
        v = self.flat[off // sz]
        if want == "f":
            return v if is_sym(v) else float(v)
        if is_sym(v):
            return wrap_s(v, 8 * sz)
        v = int(v)
        return v if self.dt.kind != "u" else wrap_s(v, 8 * sz)

    def put(self, off, sz, v):
        want = "f" if self.dt.kind == "f" else "i"
        if sz != self.item or off % sz:
            raise MemoryFault("memory of a %s array written as %d-byte values" % (self.dt, sz))
        if v is UNDEF:
            raise Unsupported("an indeterminate value stored in an array")
        if want == "i":
            if self.dt.kind == "u":
                v = to_u(v, 8 * sz)
            if not self.sym:
                v = int(v)
        self.flat[off // sz] = v

    def clear(self, off, sz):
        raise Unsupported("raw bytes written into an array")


class LazyBlock(Block):
    """cells produced on demand (tables of an external library)"""
    __slots__ = ("maker",)

    def get(self, off, sz, fl):
        if off not in self.cells:
            self.cells[off] = (sz, self.maker(off))
        return self.cells[off][1]


# ------------------------------------------------------------------ types
class T(object):
    __slots__ = ("k", "n", "el", "size", "align", "offs")

    def __init__(self, k, n=0, el=None):
        self.k, self.n, self.el = k, n, el
        self.size = None
        self.offs = None

    def __repr__(self):
        return "%s%s" % (self.k, self.n or "")


TOK = re.compile(r'''\s*(?:
  (c"(?:[^"])*") | ([%@!](?:"[^"]*"|[-\w.$]+)) | (\#\d+) | ("(?:[^"])*") | (0x[KLMHR]?[0-9A-Fa-f]+) |
  (-?\d+\.\d*(?:e[+-]?\d+)?) | (-?\d+) | ([A-Za-z_][\w.]*) | (\.\.\.) | ([(){}\[\]<>=,*:|!])
)''', re.X)


def lex(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise Unsupported("IR token: %r" % s[i:i + 40])
        if m.end() == i:
            break
        out.append(m.group(0).strip())
        i = m.end()
        while i < n and s[i] == " ":
            i += 1
        if i < n and s[i] == ";":
            break
    return out


PARAM_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext",
               "immarg", "returned", "nofree", "dead_on_unwind", "writable", "inreg", "nest", "swiftself", "allocptr",
               "allocalign", "noreturn"}
PARAM_ATTRS_ARG = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca", "elementtype",
                   "preallocated", "nofpclass", "range", "memory"}


class P(object):
    """token cursor"""
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported("IR: expected %s at %s" % (x, " ".join(self.t[max(0, self.i - 5):self.i + 5])))

    def type(self):
        x = self.next()
        m = self.mod
        if x == "ptr":
            t = m.ty("ptr")
        elif x in ("void", "float", "double", "label", "metadata", "token", "x86_fp80", "half"):
            t = m.ty(x)
        elif x[0] == "i" and x[1:].isdigit():
            t = m.ty("i", int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.need("x")
            el = self.type()
            self.need("]")
            t = T("arr", n, el)
        elif x == "{":
            t = T("struct", 0, self._fields("}"))
        elif x == "<":
            if self.peek() == "{":
                self.next()
                t = T("struct", 1, self._fields("}"))
                self.need(">")
            else:
                n = int(self.next())
                self.need("x")
                el = self.type()
                self.need(">")
                t = T("vec", n, el)
        elif x[0] == "%":
            t = m.named(x)
        else:
            raise Unsupported("IR type %r" % x)
        while self.peek() == "(" and t.k in ("void", "i", "ptr", "float", "double", "struct", "arr", "vec"):
            # function type
            self.next()
            d = 1
            while d:
                y = self.next()
                d += (y == "(") - (y == ")")
            t = T("fn", 0, t)
        return t

    def _fields(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            out.append(self.type())
            if self.eat(end):
                return out
            self.need(",")

    def attrs(self):
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
            elif x in PARAM_ATTRS_ARG:
                self.next()
                if self.eat("("):
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == "(") - (y == ")")
            elif x == "align":
                self.next()
                if self.eat("("):
                    self.next()
                    self.need(")")
                else:
                    self.next()
            elif x is not None and x[0] == "#":
                self.next()
            elif x is not None and x[0] == '"':
                self.next()
                if self.eat("="):
                    self.next()
            else:
                return


def sizeof(t):
    if t.size is not None:
        return t.size
    k = t.k
    if k == "i":
        t.size = t.align = {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.n) or (_ for _ in ()).throw(Unsupported("i%d" % t.n))
    elif k == "float":
        t.size = t.align = 4
    elif k == "double" or k == "ptr":
        t.size = t.align = 8
    elif k == "x86_fp80":
        t.size = t.align = 16
    elif k == "arr":
        s = sizeof(t.el)
        t.align = t.el.align
        t.size = s * t.n
    elif k == "vec":
        t.size = t.align = sizeof(t.el) * t.n
    elif k == "struct":
        off, al, offs = 0, 1, []
        for f in t.el:
            s = sizeof(f)
            a = 1 if t.n else f.align
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        t.offs = offs
        t.align = al
        t.size = (off + al - 1) // al * al
    else:
        raise Unsupported("size of %r" % t)
    return t.size


def flavour(t):
    return "ptr" if t.k == "ptr" else "f" if t.k in ("float", "double", "x86_fp80") else "i"


# ------------------------------------------------------------------ module
_MODS = {}


def compile_ir(path, std="c++11", openmp=False):
    """LLVM IR text of a C++ source file of the repository"""
    inc = ["-I" + os.path.join(VERIF, "symx", "shim"), "-I" + os.path.dirname(path),
           "-I" + sysconfig.get_paths()["include"], "-I" + rnp.get_include()]
    d = tempfile.mkdtemp(prefix="vllir_")
    try:
        a, b = os.path.join(d, "a.ll"), os.path.join(d, "b.ll")
        cmd = ["clang++", "-std=" + std, "-w", "-DNDEBUG", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone",
               "-fno-discard-value-names"] + (["-fopenmp"] if openmp else []) + inc + ["-o", a, path]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode:
            raise Unsupported("clang cannot compile %s: %s" % (path, r.stdout.decode(errors="replace")[-400:]))
        opt = shutil.which("opt") or "/usr/lib/llvm-18/bin/opt"
        r = subprocess.run([opt, "-S", "-passes=mem2reg", a, "-o", b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if r.returncode:
            raise Unsupported("opt failed: %s" % r.stdout.decode(errors="replace")[-400:])
        return open(b, encoding="utf-8").read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def module(rel, openmp=False, repo=None):
    path = os.path.join(repo or REPO, rel)
    key = (path, os.path.getmtime(path), openmp)
    if key not in _MODS:
        _MODS[key] = Module(compile_ir(path, openmp=openmp), rel)
    return _MODS[key]


class Module(object):
    def __init__(self, text, rel):
        self.rel = rel
        self.tcache = {}
        self.named_src, self.named_t = {}, {}
        self.gsrc, self.fsrc, self.decl = {}, {}, set()
        self.fns = {}
        self.aliases = {}
        self.nat = {}
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                nm, _, ty = l.partition(" = type ")
                self.named_src[nm.strip()] = ty
            elif l.startswith("@"):
                m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', l)
                rest = m.group(2)
                if re.search(r"\balias\b", rest.split("ptr")[0]):
                    self.aliases[m.group(1)] = re.findall(r'@(?:"[^"]*"|[-\w.$]+)', rest)[-1]
                else:
                    self.gsrc[m.group(1)] = rest
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                nm = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l).group(1)
                self.fsrc[nm] = (l, lines[i + 1:j])
                i = j
            elif l.startswith("declare"):
                self.decl.add(re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l).group(1))
            i += 1
        names = sorted(set(self.fsrc) | self.decl | set(self.gsrc))
        r = subprocess.run(["c++filt"], input="\n".join(x[1:] for x in names).encode(), stdout=subprocess.PIPE)
        self.dem = {}
        for a, b in zip(names, r.stdout.decode().split("\n")):
            self.dem[a] = norm_name(b)
        self.seen = set()

    def ty(self, k, n=0):
        t = self.tcache.get((k, n))
        if t is None:
            t = self.tcache[(k, n)] = T(k, n)
        return t

    def named(self, nm):
        t = self.named_t.get(nm)
        if t is None:
            src = self.named_src.get(nm)
            if src is None:
                raise Unsupported("unknown IR type %s" % nm)
            if src.strip() == "opaque":
                t = T("opaque")
            else:
                t = T("struct", 0, None)
                self.named_t[nm] = t
                u = P(lex(src), self).type()
                t.k, t.n, t.el = u.k, u.n, u.el
            self.named_t[nm] = t
        return t

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            if name not in self.fsrc:
                return None
            f = self.fns[name] = Function(self, name, *self.fsrc[name])
        return f


_N = [("std::__cxx11::", "std::"), ("[abi:cxx11]", ""),
      ("std::basic_string<char, std::char_traits<char>, std::allocator<char> >", "string"),
      ("std::basic_ostringstream<char, std::char_traits<char>, std::allocator<char> >", "ostringstream"),
      ("std::basic_istringstream<char, std::char_traits<char>, std::allocator<char> >", "istringstream"),
      ("std::basic_stringstream<char, std::char_traits<char>, std::allocator<char> >", "stringstream"),
      ("std::basic_ostream<char, std::char_traits<char> >", "ostream"),
      ("std::basic_istream<char, std::char_traits<char> >", "istream"),
      ("std::basic_iostream<char, std::char_traits<char> >", "iostream"),
      ("std::basic_ios<char, std::char_traits<char> >", "ios")]


def norm_name(s):
    for a, b in _N:
        s = s.replace(a, b)
    return s


# ------------------------------------------------------------------ functions
class Frame(object):
    __slots__ = ("R", "M", "prev", "exc", "allocas", "va", "fn")


class Function(object):
    def __init__(self, mod, name, head, body):
        self.mod, self.name = mod, name
        self.reg = {}
        p = P(lex(head[head.index(name):]), mod)
        p.next()
        p.need("(")
        self.params = []
        self.vararg = False
        self.byval = {}
        if not p.eat(")"):
            k = 0
            while True:
                if p.eat("..."):
                    self.vararg = True
                else:
                    t = p.type()
                    at = p.i
                    p.attrs()
                    seg = p.t[at:p.i]
                    if "byval" in seg:
                        q = P(seg[seg.index("byval") + 2:], mod)
                        self.byval[len(self.params)] = q.type()
                    nm = p.next() if p.peek() and p.peek()[0] == "%" else "%%%d" % k
                    self.params.append(self.slot(nm))
                    k += 1
                if p.eat(")"):
                    break
                p.need(",")
        self.body = body
        self.blocks = None

    def slot(self, nm):
        k = self.reg.get(nm)
        if k is None:
            k = self.reg[nm] = len(self.reg)
        return k

    def build(self):
        ins, label = [], None
        blocks, order = {}, []
        first = True
        cur = None
        joined = []
        for l in self.body:
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            if l[0] not in " \t":
                joined.append(l)
            elif l.startswith("    ") or l.startswith("  ]"):
                joined[-1] += " " + l.strip()
            else:
                joined.append(l)
        nlabel = len(self.params)
        for l in joined:
            if l[0] not in " \t":
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                label = "%" + m.group(1)
                cur = blocks[label] = [[], [], None, label]
                order.append(label)
                continue
            if cur is None:
                label = "%%%d" % nlabel
                cur = blocks[label] = [[], [], None, label]
                order.append(label)
            cur[1].append(l)
        self.blocks = {}
        for lb in order:
            phis, body, term = [], [], None
            for l in blocks[lb][1]:
                c = Compiler(self, l)
                kind, f = c.instr()
                if kind == "phi":
                    phis.append(f)
                elif kind == "term":
                    term = f
                elif f is not None:
                    body.append(f)
            self.blocks[lb] = (phis, body, term)
        self.entry = order[0]

    def run(self, M, args, va=()):
        if self.blocks is None:
            self.build()
        F = Frame()
        F.M, F.fn, F.va = M, self, va
        F.R = [UNDEF] * len(self.reg)
        F.allocas = []
        F.exc = None
        for s, (k, v) in zip(self.params, enumerate(args)):
            if k in self.byval:
                sz = sizeof(self.byval[k])
                b = Block(sz, "stack", "byval")
                M.copy(Ptr(b, 0), v, sz)
                v = Ptr(b, 0)
            F.R[s] = v
        M.depth += 1
        if M.depth > 400:
            raise MemoryFault("stack overflow (recursion)")
        lb = self.entry
        prev = None
        blocks = self.blocks
        try:
            while True:
                phis, body, term = blocks[lb]
                if phis:
                    vals = [f(F, prev) for f in phis]
                    for (k, v) in vals:
                        F.R[k] = v
                for f in body:
                    f(F)
                nx = term(F)
                if nx.__class__ is tuple:
                    return nx[0]
                prev, lb = lb, nx
        finally:
            M.depth -= 1
            for b in F.allocas:
                b.freed = True


class Compiler(object):
    def __init__(self, fn, line):
        self.fn, self.mod = fn, fn.mod
        self.line = line
        self.p = P(lex(line), fn.mod)

    # operands -----------------------------------------------------
    def value(self, t):
        """compile an operand of type t: a getter of the frame"""
        p = self.p
        x = p.peek()
        if x[0] == "%":
            p.next()
            k = self.fn.slot(x)
            return lambda F: F.R[k]
        c = self.const(t)
        if isinstance(c, LateConst):
            g = c.f
            return lambda F: g(F.M)
        return lambda F: c

    def const(self, t):
        return parse_const(self.p, t)

    def tv(self):
        t = self.p.type()
        self.p.attrs()
        return t, self.value(t)

    # instructions -------------------------------------------------
    def instr(self):
        p = self.p
        dst = None
        if p.peek(1) == "=" and p.peek()[0] == "%":
            dst = self.fn.slot(p.next())
            p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        m = getattr(self, "op_" + op, None)
        if m is None:
            if op in BIN:
                return "body", self.binop(op, dst)
            if op in FBIN:
                return "body", self.fbinop(op, dst)
            if op in CASTS:
                return "body", self.cast(op, dst)
            line = self.line

            def bad(F):
                raise Unsupported("IR instruction: %s" % line.strip()[:80])
            return ("term" if op in ("indirectbr", "callbr") else "body"), bad
        return m(dst)

    def op_ret(self, dst):
        p = self.p
        if p.peek() == "void":
            return "term", lambda F: (None,)
        t, v = self.tv()
        return "term", lambda F: (v(F),)

    def op_unreachable(self, dst):
        def f(F):
            raise MemoryFault("unreachable code is reached in %s" % F.M.mod.dem.get(F.fn.name, F.fn.name))
        return "term", f

    def op_br(self, dst):
        p = self.p
        if p.eat("label"):
            l = p.next()
            return "term", lambda F: l
        t, c = self.tv()
        p.need(",")
        p.need("label")
        a = p.next()
        p.need(",")
        p.need("label")
        b = p.next()

        def f(F):
            return a if c(F) else b
        return "term", f

    def op_switch(self, dst):
        p = self.p
        t, c = self.tv()
        p.need(",")
        p.need("label")
        dflt = p.next()
        p.need("[")
        cases = []
        while not p.eat("]"):
            ct = p.type()
            cv = self.const(ct)
            p.need(",")
            p.need("label")
            cases.append((cv, p.next()))

        def f(F):
            v = c(F)
            if v is UNDEF:
                bool(v)
            for cv, l in cases:
                if v == cv:
                    return l
            return dflt
        return "term", f

    def op_alloca(self, dst):
        p = self.p
        t = p.type()
        sz = sizeof(t)
        cnt = None
        if p.eat(","):
            if p.peek() != "align":
                ct, cnt = self.tv()
        nm = [k for k, v in self.fn.reg.items() if v == dst][0]

        def f(F):
            n = sz
            if cnt is not None:
                n = sz * int(cnt(F))
            b = Block(n, "stack", nm)
            F.allocas.append(b)
            F.R[dst] = Ptr(b, 0)
        return "body", f

    def op_load(self, dst):
        p = self.p
        while p.peek() in ("volatile", "atomic"):
            p.next()
        t = p.type()
        p.need(",")
        pt, a = self.tv()
        g = loader_of(t)

        def f(F):
            F.R[dst] = g(F.M, a(F))
        return "body", f

    def op_store(self, dst):
        p = self.p
        while p.peek() in ("volatile", "atomic"):
            p.next()
        t, v = self.tv()
        p.need(",")
        pt, a = self.tv()
        g = storer_of(t)

        def f(F):
            g(F.M, a(F), v(F))
        return "body", f

    def op_getelementptr(self, dst):
        p = self.p
        while p.peek() in ("inbounds", "nuw", "nusw", "inrange"):
            p.next()
        t = p.type()
        p.need(",")
        bt, base = self.tv()
        idx = []
        while p.eat(","):
            if p.peek()[0] == "!":
                break
            it, iv = self.tv()
            idx.append(iv)
        if len(idx) == 1:
            sz = sizeof(t)
            i0 = idx[0]

            def f1(F):
                b = base(F)
                if type(b) is not Ptr:
                    raise Unsupported("address arithmetic on %r" % (b,))
                k = i0(F)
                F.R[dst] = b if (type(k) is int and k == 0) else Ptr(b.b, b.o + k * sz)
            return "body", f1

        def f(F):
            b = base(F)
            if type(b) is not Ptr:
                raise Unsupported("address arithmetic on %r" % (b,))
            F.R[dst] = Ptr(b.b, b.o + gep_off(t, [g(F) for g in idx]))
        return "body", f

    def op_phi(self, dst):
        p = self.p
        t = p.type()
        inc = {}
        while True:
            p.need("[")
            v = self.value(t)
            p.need(",")
            inc[p.next()] = v
            p.need("]")
            if not p.eat(","):
                break
            if p.peek()[0] == "!":
                break
        return "phi", lambda F, prev: (dst, inc[prev](F))

    def op_select(self, dst):
        p = self.p
        while p.peek() in FMF:
            p.next()
        ct, c = self.tv()
        p.need(",")
        t, a = self.tv()
        p.need(",")
        t2, b = self.tv()

        def f(F):
            cv = c(F)
            x, y = a(F), b(F)
            if isinstance(cv, SymBool):
                if t.k == "i" and t.n == 1:
                    F.R[dst] = sym_or(sym_and(cv, x), sym_and(sym_not(cv), y))
                    return
                if isinstance(x, (int, float, SymNum)) and isinstance(y, (int, float, SymNum)) and not (
                        _inf(x) or _inf(y)):
                    F.R[dst] = sym_ite(cv, x, y)
                    return
            F.R[dst] = x if cv else y
        return "body", f

    def op_icmp(self, dst):
        p = self.p
        if p.peek() == "samesign":
            p.next()
        pred = p.next()
        t = p.type()
        a = self.value(t)
        p.need(",")
        b = self.value(t)
        if t.k == "ptr":
            def f(F):
                F.R[dst] = ptr_cmp(pred, a(F), b(F))
            return "body", f
        n = t.n
        uns = pred[0] == "u"
        base = pred[-2:]

        def f(F):
            x, y = a(F), b(F)
            if x is UNDEF or y is UNDEF:
                F.R[dst] = UNDEF
                return
            if isinstance(x, PInt) or isinstance(y, PInt):
                F.R[dst] = ptr_cmp(pred, _topt(x), _topt(y))
                return
            if n == 1:
                x, y = _num01(x), _num01(y)
            if uns:
                x, y = to_u(x, n), to_u(y, n)
            if pred == "eq":
                r = x == y
            elif pred == "ne":
                r = x != y
            elif base == "lt":
                r = x < y
            elif base == "le":
                r = x <= y
            elif base == "gt":
                r = x > y
            else:
                r = x >= y
            F.R[dst] = r
        return "body", f

    def op_fcmp(self, dst):
        p = self.p
        while p.peek() in FMF:
            p.next()
        pred = p.next()
        t = p.type()
        a = self.value(t)
        p.need(",")
        b = self.value(t)

        def f(F):
            x, y = a(F), b(F)
            if x is UNDEF or y is UNDEF:
                F.R[dst] = UNDEF
                return
            nan = (type(x) is float and x != x) or (type(y) is float and y != y)
            if pred == "true" or pred == "false":
                F.R[dst] = pred == "true"
            elif pred == "ord":
                F.R[dst] = not nan
            elif pred == "uno":
                F.R[dst] = nan
            elif nan:
                F.R[dst] = pred[0] == "u"
            else:
                k = pred[1:]
                F.R[dst] = (x == y if k == "eq" else x != y if k == "ne" else x < y if k == "lt" else
                            x <= y if k == "le" else x > y if k == "gt" else x >= y)
        return "body", f

    def op_fneg(self, dst):
        p = self.p
        while p.peek() in FMF:
            p.next()
        t, a = self.tv()

        def f(F):
            v = a(F)
            F.R[dst] = UNDEF if v is UNDEF else -v
        return "body", f

    def op_freeze(self, dst):
        t, a = self.tv()

        def f(F):
            F.R[dst] = a(F)
        return "body", f

    def op_extractvalue(self, dst):
        p = self.p
        t, a = self.tv()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))

        def f(F):
            v = a(F)
            for i in idx:
                if v is UNDEF:
                    break
                v = v[i]
            F.R[dst] = v
        return "body", f

    def op_insertvalue(self, dst):
        p = self.p
        t, a = self.tv()
        p.need(",")
        t2, b = self.tv()
        idx = []
        while p.eat(","):
            idx.append(int(p.next()))
        u = t

        def f(F):
            v = a(F)
            F.R[dst] = _insert(v, u, idx, b(F))
        return "body", f

    def op_landingpad(self, dst):
        p = self.p
        p.type()
        clauses = []
        while p.peek() is not None:
            x = p.next()
            if x == "cleanup":
                clauses.append(None)
            elif x == "catch":
                t = p.type()
                y = p.next()
                clauses.append("*" if y == "null" else y)
            elif x == "filter":
                clauses.append("filter")
                break
            else:
                break

        def f(F):
            e = F.exc
            sel = 0
            for c in clauses:
                if c is None:
                    continue
                if c == "*":
                    sel = F.M.typeid("*")
                    break
                if c == "filter":
                    raise Unsupported("exception specification")
                if F.M.is_subtype(e.tinfo, c):
                    sel = F.M.typeid(c)
                    break
            F.R[dst] = [e.ptr, sel]
        return "body", f

    def op_resume(self, dst):
        t, a = self.tv()

        def f(F):
            v = a(F)
            raise CxxThrow(v[0], F.M.exc_type[id(v[0].b)])
        return "term", f

    def call_parts(self):
        p = self.p
        while p.peek() in FMF or p.peek() in ("fastcc", "ccc", "coldcc"):
            p.next()
        p.attrs()
        t = p.type()
        p.attrs()
        cal = p.next()
        if cal == "asm":
            def bad(F):
                raise Unsupported("inline assembly")
            return t, bad, []
        p.need("(")
        args = []
        if not p.eat(")"):
            while True:
                at = p.type()
                if at.k == "metadata":
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        y = p.next()
                        d += (y in "({") - (y in ")}") if len(y) == 1 else 0
                    args.append(lambda F: None)
                else:
                    p.attrs()
                    args.append(self.value(at))
                if p.eat(")"):
                    break
                p.need(",")
        rt = t.el if t.k == "fn" else t
        p.attrs()
        if cal[0] == "@":
            def get(F, cal=cal):
                return cal
        else:
            k = self.fn.slot(cal)

            def get(F):
                v = F.R[k]
                if isinstance(v, Fn):
                    return v.name
                if v is UNDEF or (type(v) is Ptr and v.b is None):
                    raise MemoryFault("call through a null or indeterminate pointer")
                raise Unsupported("call through %r" % (v,))
        return rt, get, args

    def op_call(self, dst):
        rt, get, args = self.call_parts()

        def f(F):
            r = F.M.call(get(F), [g(F) for g in args], F)
            if dst is not None:
                F.R[dst] = r
        return "body", f

    def op_invoke(self, dst):
        rt, get, args = self.call_parts()
        p = self.p
        p.need("to")
        p.need("label")
        ok = p.next()
        p.need("unwind")
        p.need("label")
        bad = p.next()

        def f(F):
            try:
                r = F.M.call(get(F), [g(F) for g in args], F)
            except CxxThrow as e:
                F.exc = e
                F.M.exc_type[id(e.ptr.b)] = e.tinfo
                return bad
            if dst is not None:
                F.R[dst] = r
            return ok
        return "term", f

    def op_fence(self, dst):
        return "body", None

    def op_atomicrmw(self, dst):
        p = self.p
        while p.peek() == "volatile":
            p.next()
        op = p.next()
        pt, a = self.tv()
        p.need(",")
        t, v = self.tv()
        ld, st = loader_of(t), storer_of(t)

        def f(F):
            ptr = a(F)
            F.M.atomic += 1
            old = ld(F.M, ptr)
            x = v(F)
            if op == "add":
                new = wrap_s(old + x, t.n)
            elif op == "sub":
                new = wrap_s(old - x, t.n)
            elif op == "fadd":
                new = old + x
            elif op == "fsub":
                new = old - x
            elif op == "xchg":
                new = x
            else:
                raise Unsupported("atomicrmw " + op)
            st(F.M, ptr, new)
            F.M.atomic -= 1
            F.R[dst] = old
        return "body", f

    def op_cmpxchg(self, dst):
        p = self.p
        while p.peek() in ("weak", "volatile"):
            p.next()
        pt, a = self.tv()
        p.need(",")
        t, c = self.tv()
        p.need(",")
        t2, n = self.tv()
        ld, st = loader_of(t), storer_of(t)

        def f(F):
            ptr = a(F)
            F.M.atomic += 1
            old = ld(F.M, ptr)
            ok = old == c(F)
            if ok:
                st(F.M, ptr, n(F))
            F.M.atomic -= 1
            F.R[dst] = [old, bool(ok)]
        return "body", f

    def binop(self, op, dst):
        p = self.p
        nsw = False
        while p.peek() in ("nuw", "nsw", "exact", "disjoint"):
            nsw |= p.next() == "nsw"
        t = p.type()
        a = self.value(t)
        p.need(",")
        b = self.value(t)
        if t.k != "i":
            raise Unsupported("%s on %r" % (op, t))
        n = t.n
        g = BIN[op]
        if n == 1:
            def f1(F):
                F.R[dst] = bool_op(op, a(F), b(F))
            return f1
        nsw = nsw and n >= 32

        def f(F):
            x, y = a(F), b(F)
            if x is UNDEF or y is UNDEF:
                F.R[dst] = UNDEF
                return
            if isinstance(x, PInt) or isinstance(y, PInt):
                F.R[dst] = pint_op(op, x, y)
                return
            F.R[dst] = g(x, y, n, nsw)
        return f

    def fbinop(self, op, dst):
        p = self.p
        while p.peek() in FMF:
            p.next()
        t = p.type()
        a = self.value(t)
        p.need(",")
        b = self.value(t)
        g = FBIN[op]

        def f(F):
            x, y = a(F), b(F)
            if x is UNDEF or y is UNDEF:
                F.R[dst] = UNDEF
                return
            F.R[dst] = g(x, y)
        return f

    def cast(self, op, dst):
        p = self.p
        while p.peek() in ("nneg", "nuw", "nsw") or p.peek() in FMF:
            p.next()
        t = p.type()
        a = self.value(t)
        p.need("to")
        u = p.type()
        g = CASTS[op]

        def f(F):
            v = a(F)
            F.R[dst] = v if v is UNDEF else g(v, t, u)
        return f


FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "reassoc", "afn"}


def _inf(x):
    return type(x) is float and (x != x or x in (float("inf"), float("-inf")))


def _num01(x):
    return x.as_num() if isinstance(x, SymBool) else (1 if x is True else 0 if x is False else x)


def _topt(x):
    if isinstance(x, PInt):
        return x.p
    if type(x) is int and x == 0:
        return NULL
    raise Unsupported("comparison of a pointer with an integer")


def _insert(v, t, idx, x):
    n = len(t.el) if t.k == "struct" else t.n
    v = [UNDEF] * n if v is UNDEF else list(v)
    if len(idx) == 1:
        v[idx[0]] = x
    else:
        v[idx[0]] = _insert(v[idx[0]], t.el[idx[0]] if t.k == "struct" else t.el, idx[1:], x)
    return v


def gep_off(t, idx):
    off = idx[0] * sizeof(t)
    for k in idx[1:]:
        if t.k == "struct":
            sizeof(t)
            off = off + t.offs[k]
            t = t.el[k]
        elif t.k in ("arr", "vec"):
            t = t.el
            off = off + k * sizeof(t)
        else:
            raise Unsupported("address of a part of %r" % t)
    return off


_ORDER = {}
_ORDER_KEEP = []


def _order(b):
    k = _ORDER.get(id(b))
    if k is None:
        k = _ORDER[id(b)] = len(_ORDER_KEEP)
        _ORDER_KEEP.append(b)      # kept alive, so that an id is never reused
    return k


def ptr_cmp(pred, x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if isinstance(x, Fn) or isinstance(y, Fn):
        same = isinstance(x, Fn) and isinstance(y, Fn) and x.name == y.name
        if pred in ("eq", "ne"):
            return same == (pred == "eq")
        raise Unsupported("order of function pointers")
    if x.b is not y.b:
        if pred == "eq":
            return False
        if pred == "ne":
            return True
        if x.b is None or y.b is None:
            lt = x.b is None
        else:
            # one consistent order (the library's aliasing checks only ask whether a pointer lies in [a, b))
            lt = _order(x.b) < _order(y.b)
        return lt == (pred[-2] == "l")
    a, b = x.o, y.o
    k = pred[-2:]
    return (a == b if k == "eq" else a != b if k == "ne" else a < b if k == "lt" else a <= b if k == "le" else
            a > b if k == "gt" else a >= b)


def pint_op(op, x, y):
    if op == "sub" and isinstance(x, PInt) and isinstance(y, PInt):
        if x.p.b is y.p.b:
            return x.p.o - y.p.o
        raise MemoryFault("difference of pointers to different objects")
    if op == "sub" and isinstance(x, PInt):
        return PInt(Ptr(x.p.b, x.p.o - y))
    if op == "add":
        if isinstance(x, PInt) and not isinstance(y, PInt):
            return PInt(Ptr(x.p.b, x.p.o + y))
        if isinstance(y, PInt) and not isinstance(x, PInt):
            return PInt(Ptr(y.p.b, y.p.o + x))
    if op == "sub" and isinstance(y, PInt) and y.p.b is None:
        return x - y.p.o
    raise Unsupported("integer arithmetic on a pointer")


def bool_op(op, x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if op == "and":
        return sym_and(x, y) if isinstance(x, SymBool) or isinstance(y, SymBool) else bool(x) and bool(y)
    if op == "or":
        return sym_or(x, y) if isinstance(x, SymBool) or isinstance(y, SymBool) else bool(x) or bool(y)
    if op in ("xor", "add", "sub"):
        if isinstance(x, SymBool) or isinstance(y, SymBool):
            if not isinstance(y, SymBool):
                return sym_not(x) if y else x
            if not isinstance(x, SymBool):
                return sym_not(y) if x else y
            return x != y
        return bool(x) != bool(y)
    raise Unsupported("i1 " + op)


def _sdiv(x, y, n, nsw):
    if y == 0:
        raise MemoryFault("integer division by zero")
    if type(x) is int and type(y) is int:
        q = abs(x) // abs(y)
        return wrap_s(q if (x < 0) == (y < 0) else -q, n, True)
    neg = bool(x < 0) if is_sym(x) else x < 0
    ny = bool(y < 0) if is_sym(y) else y < 0
    q = (-x if neg else x) // (-y if ny else y)
    return wrap_s(q if neg == ny else -q, n, True)


def _srem(x, y, n, nsw):
    q = _sdiv(x, y, n, nsw)
    return wrap_s(x - q * y, n)


def _udiv(x, y, n, nsw):
    x, y = to_u(x, n), to_u(y, n)
    if y == 0:
        raise MemoryFault("integer division by zero")
    return wrap_s(x // y, n)


def _urem(x, y, n, nsw):
    x, y = to_u(x, n), to_u(y, n)
    if y == 0:
        raise MemoryFault("integer division by zero")
    return wrap_s(x % y, n)


def _shift(y, n):
    y = int(y)
    if not 0 <= y < n:
        raise MemoryFault("shift count out of range")
    return y


def _and(x, y, n, nsw):
    if type(x) is int and type(y) is int:
        return x & y
    if type(x) is int:
        x, y = y, x
    if type(y) is int:
        if y == 0:
            return 0
        if y == -1:
            return x
        if y > 0 and (y & (y + 1)) == 0:
            return wrap_s(to_u(x, n) % (y + 1), n)
        if y > 0 and (y & (y - 1)) == 0:
            return wrap_s((to_u(x, n) // y) % 2 * y, n)
    return wrap_s(int(x) & int(y), n)


def _or(x, y, n, nsw):
    if type(x) is int and x == 0:
        return y
    if type(y) is int and y == 0:
        return x
    return wrap_s(int(x) | int(y), n)


def _xor(x, y, n, nsw):
    if type(y) is int and y == -1:
        return -x - 1
    if type(y) is int and y == 0:
        return x
    return wrap_s(int(x) ^ int(y), n)


BIN = {
    "add": lambda x, y, n, nsw: wrap_s(x + y, n, nsw),
    "sub": lambda x, y, n, nsw: wrap_s(x - y, n, nsw),
    "mul": lambda x, y, n, nsw: wrap_s(x * y, n, nsw),
    "sdiv": _sdiv, "srem": _srem, "udiv": _udiv, "urem": _urem,
    "shl": lambda x, y, n, nsw: wrap_s(x * (1 << _shift(y, n)), n),
    "lshr": lambda x, y, n, nsw: wrap_s(to_u(x, n) // (1 << _shift(y, n)), n),
    "ashr": lambda x, y, n, nsw: wrap_s(x // (1 << _shift(y, n)), n),
    "and": _and, "or": _or, "xor": _xor}


def _fdiv(x, y):
    if type(x) is float and type(y) is float:
        if y == 0:
            if x == 0 or x != x:
                return float("nan")
            import math
            return math.copysign(float("inf"), x) * math.copysign(1.0, y)
        return x / y
    if not is_sym(y):
        if y == 0:
            y = rnp.float64(0)
        return x / y
    if y == 0:
        if isinstance(x, float) and (x == 0 or x != x):
            return float("nan")
        return float("inf") if x > 0 else float("-inf") if x < 0 else float("nan")
    return x / y


def _fmul(x, y):
    if (_inf(x) and is_sym(y)) or (_inf(y) and is_sym(x)):
        a, s = (x, y) if _inf(x) else (y, x)
        if a != a or s == 0:
            return float("nan")
        return a if s > 0 else -a
    return x * y


def _frem(x, y):
    import math
    if is_sym(x) or is_sym(y):
        raise Unsupported("fmod of symbolic values")
    return math.fmod(x, y)


FBIN = {"fadd": lambda x, y: x + y, "fsub": lambda x, y: x - y, "fmul": _fmul, "fdiv": _fdiv, "frem": _frem}


def _fptoi(signed):
    def f(v, t, u):
        if is_sym(v):
            e = mk(_trunc(v.expr)) if not v.is_int else v
            lo = -(1 << (u.n - 1)) if signed else 0
            hi = (1 << (u.n - 1)) - 1 if signed else (1 << u.n) - 1
            if not bool(sym_and(e >= lo, e <= hi)):
                raise MemoryFault("conversion of an out-of-range float to an integer")
            return wrap_s(e, u.n)
        if v != v or v in (float("inf"), float("-inf")):
            raise MemoryFault("conversion of a non-finite float to an integer")
        i = int(v)
        lo = -(1 << (u.n - 1)) if signed else 0
        hi = (1 << (u.n - 1)) - 1 if signed else (1 << u.n) - 1
        if not lo <= i <= hi:
            raise MemoryFault("conversion of an out-of-range float to an integer")
        return wrap_s(i, u.n)
    return f


FLT_MAX = float(rnp.finfo(rnp.float32).max)


def _fptrunc(v, t, u):
    if type(v) is float and u.k == "float" and abs(v) > FLT_MAX and v == v:
        return float(rnp.float32(v))
    return v


def _trunc_i(v, t, u):
    if isinstance(v, PInt):
        raise Unsupported("truncated pointer")
    if u.n == 1:
        if isinstance(v, SymNum):
            if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi <= 1:
                return v == 1
            return (v % 2) == 1
        if isinstance(v, SymBool):
            return v
        return bool(v & 1)
    return wrap_s(v, u.n)


def _zext(v, t, u):
    if t.n == 1:
        if isinstance(v, SymBool):
            r = v.as_num()
            r.lo, r.hi = 0, 1
            return r
        return 1 if v else 0
    return to_u(v, t.n)


def _sext(v, t, u):
    if t.n == 1:
        return -_zext(v, t, u)
    return v


def _itof(signed):
    def f(v, t, u):
        if t.n == 1:
            v = _zext(v, t, u)
        elif not signed:
            v = to_u(v, t.n)
        return v.toreal() if is_sym(v) else float(v)
    return f


def _ptrtoint(v, t, u):
    if type(v) is Ptr and v.b is None:
        return v.o if is_sym(v.o) or v.o else 0
    return PInt(v)


def _inttoptr(v, t, u):
    if isinstance(v, PInt):
        return v.p
    return Ptr(None, v) if not (type(v) is int and v == 0) else NULL


def _bitcast(v, t, u):
    if flavour(t) == flavour(u):
        return v
    if not is_sym(v):
        if u.k in ("float", "double"):
            return struct.unpack("<f" if u.k == "float" else "<d", (v & ((1 << t.n) - 1)).to_bytes(t.n // 8, "little"))[0]
        return wrap_s(int.from_bytes(struct.pack("<f" if t.k == "float" else "<d", v), "little"), u.n)
    return FBits(v, t.k, u) if u.k == "i" else (v.v if isinstance(v, FBits) else _uns("bits of a symbolic value"))


def _uns(s):
    raise Unsupported(s)


class FBits(object):
    """the bit pattern of a symbolic float (only converted back)"""
    def __init__(self, v, k, u):
        self.v = v


CASTS = {"trunc": _trunc_i, "zext": _zext, "sext": _sext, "fptrunc": _fptrunc, "fpext": lambda v, t, u: v,
         "fptosi": _fptoi(True), "fptoui": _fptoi(False), "sitofp": _itof(True), "uitofp": _itof(False),
         "ptrtoint": _ptrtoint, "inttoptr": _inttoptr, "bitcast": _bitcast, "addrspacecast": lambda v, t, u: v}


# ------------------------------------------------------------------ constants
class LateConst(object):
    """a constant that depends on the machine (addresses of globals)"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Zero(object):
    def __init__(self, t):
        self.t = t


class Agg(object):
    def __init__(self, t, els):
        self.t, self.els = t, els


class CStr(object):
    def __init__(self, b):
        self.b = b


def zero_of(t):
    return NULL if t.k == "ptr" else 0.0 if flavour(t) == "f" else False if (t.k == "i" and t.n == 1) else 0


def parse_const(p, t):
    x = p.next()
    if x == "null":
        return NULL
    if x in ("undef", "poison"):
        return UNDEF
    if x == "true":
        return True
    if x == "false":
        return False
    if x == "zeroinitializer" or x == "none":
        if t.k in ("struct", "arr"):
            return [parse_zero(e) for e in (t.el if t.k == "struct" else [t.el] * t.n)] if sizeof(t) <= 256 else Zero(t)
        return zero_of(t)
    if x[0] == "@":
        return LateConst(lambda M: M.address(x))
    if x[:2] == 'c"':
        return CStr(unescape(x[2:-1]))
    if x[:2] == "0x":
        if x[2] in "KLMHR":
            raise Unsupported("extended float constant")
        return struct.unpack("<d", int(x, 16).to_bytes(8, "little"))[0]
    if t.k == "i" and re.match(r"-?\d+$", x):
        v = int(x)
        return (v != 0) if t.n == 1 else wrap_s(v, t.n)
    if re.match(r"-?\d", x):
        return float(x)
    if x in ("getelementptr",):
        while p.peek() in ("inbounds", "nuw", "nusw") or p.peek() == "inrange":
            if p.next() == "inrange" and p.eat("("):
                while p.next() != ")":
                    pass
        p.need("(")
        et = p.type()
        p.need(",")
        bt = p.type()
        base = parse_const(p, bt)
        idx = []
        while p.eat(","):
            p.eat("inrange")
            it = p.type()
            idx.append(parse_const(p, it))
        p.need(")")

        def f(M):
            b = base.f(M) if isinstance(base, LateConst) else base
            return Ptr(b.b, b.o + gep_off(et, [i.f(M) if isinstance(i, LateConst) else i for i in idx]))
        return LateConst(f)
    if x in CASTS:
        p.need("(")
        st = p.type()
        v = parse_const(p, st)
        p.need("to")
        ut = p.type()
        p.need(")")
        g = CASTS[x]
        if isinstance(v, LateConst):
            return LateConst(lambda M: g(v.f(M), st, ut))
        return g(v, st, ut)
    if x in BIN:
        while p.peek() in ("nuw", "nsw", "exact"):
            p.next()
        p.need("(")
        at = p.type()
        a = parse_const(p, at)
        p.need(",")
        bt = p.type()
        b = parse_const(p, bt)
        p.need(")")
        ev = lambda M, c: c.f(M) if isinstance(c, LateConst) else c

        def h(M):
            u, v = ev(M, a), ev(M, b)
            if isinstance(u, PInt) or isinstance(v, PInt):
                return pint_op(x, u, v)
            return BIN[x](u, v, at.n, False)
        return LateConst(h)
    if x in ("{", "[", "<"):
        packed = x == "<" and p.eat("{")
        end = {"{": "}", "[": "]", "<": "}" if packed else ">"}[x]
        els = []
        if not p.eat(end):
            while True:
                et = p.type()
                els.append((et, parse_const(p, et)))
                if p.eat(end):
                    break
                p.need(",")
        if packed:
            p.need(">")
        return Agg(t, els)
    raise Unsupported("IR constant %r" % x)


def parse_zero(t):
    if t.k in ("struct", "arr"):
        return [parse_zero(e) for e in (t.el if t.k == "struct" else [t.el] * t.n)]
    return zero_of(t)


def unescape(s):
    return re.sub(rb"\\([0-9A-Fa-f]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode("latin-1"))


# ------------------------------------------------------------------ loads and stores
def loader_of(t):
    if t.k in ("struct", "arr"):
        sizeof(t)
        if t.k == "struct":
            parts = [(o, loader_of(e)) for o, e in zip(t.offs, t.el)]
        else:
            parts = [(i * sizeof(t.el), loader_of(t.el)) for i in range(t.n)]
        return lambda M, a: [g(M, Ptr(a.b, a.o + o)) for o, g in parts]
    if t.k == "vec":
        g = loader_of(t.el)
        s = sizeof(t.el)
        return lambda M, a: [g(M, Ptr(a.b, a.o + i * s)) for i in range(t.n)]
    sz = sizeof(t)
    fl = flavour(t)
    if t.k == "i" and t.n == 1:
        return lambda M, a: _trunc_i(M.load(a, 1, "i"), None, t)
    return lambda M, a: M.load(a, sz, fl)


def storer_of(t):
    if t.k in ("struct", "arr"):
        sizeof(t)
        if t.k == "struct":
            parts = [(o, storer_of(e)) for o, e in zip(t.offs, t.el)]
        else:
            parts = [(i * sizeof(t.el), storer_of(t.el)) for i in range(t.n)]

        def f(M, a, v):
            if isinstance(v, Agg):
                M.init_mem(a, t, v)
                return
            for i, (o, g) in enumerate(parts):
                g(M, Ptr(a.b, a.o + o), UNDEF if v is UNDEF else v[i])
        return f
    if t.k == "vec":
        g = storer_of(t.el)
        s = sizeof(t.el)
        return lambda M, a, v: [g(M, Ptr(a.b, a.o + i * s), v[i]) for i in range(t.n)] and None
    sz = sizeof(t)
    if t.k == "i" and t.n == 1:
        return lambda M, a, v: M.store(a, 1, _zext(v, t, None) if v is not UNDEF else v)
    return lambda M, a, v: M.store(a, sz, v)


STD_PARENTS = {"@_ZTISt16invalid_argument": "@_ZTISt11logic_error", "@_ZTISt12out_of_range": "@_ZTISt11logic_error",
               "@_ZTISt12length_error": "@_ZTISt11logic_error", "@_ZTISt12domain_error": "@_ZTISt11logic_error",
               "@_ZTISt11logic_error": "@_ZTISt9exception", "@_ZTISt13runtime_error": "@_ZTISt9exception",
               "@_ZTISt11range_error": "@_ZTISt13runtime_error", "@_ZTISt14overflow_error": "@_ZTISt13runtime_error",
               "@_ZTISt15underflow_error": "@_ZTISt13runtime_error", "@_ZTISt9bad_alloc": "@_ZTISt9exception",
               "@_ZTISt20bad_array_new_length": "@_ZTISt9bad_alloc", "@_ZTISt8bad_cast": "@_ZTISt9exception",
               "@_ZTISt12system_error": "@_ZTISt13runtime_error",
               "@_ZTINSt8ios_base7failureB5cxx11E": "@_ZTISt12system_error"}

FUNCS_SEEN = set()


class Machine(object):
    """one run of the module: its memory"""
    def __init__(self, mod):
        from . import llnative
        self.nat = llnative
        self.mod = mod
        self.globals = {}
        self.depth = 0
        self.exc_type = {}
        self.typeids = {}
        self.state = {}          # model state of library objects: id(block) -> object
        self.keep = []
        self.heap = []
        self.caught = []
        self.pyerr = None
        self.pyobjs = {}
        self.atomic = 0
        self.thread = None
        self.log = None
        self.team = None

    # memory
    def _addr(self, a, sz, write):
        if type(a) is not Ptr:
            if a is UNDEF:
                raise MemoryFault("access through an indeterminate pointer")
            raise Unsupported("access through %r" % (a,))
        b = a.b
        if b is None:
            raise MemoryFault("access through a null pointer")
        if b.freed:
            raise MemoryFault("access to freed memory (%s)" % b)
        o = a.o
        if type(o) is not int:
            if isinstance(o, SymNum):
                if not bool(sym_and(o >= 0, o <= b.size - sz)):
                    raise MemoryFault("access outside of %s" % b)
                o = eng().concretise_int(o)
            else:
                o = int(o)
        if o < 0 or o + sz > b.size:
            raise MemoryFault("access outside of %s: offset %d, %d bytes" % (b, o, sz))
        if write and b.const:
            raise MemoryFault("write to constant memory %s" % b)
        if self.log is not None and not self.atomic:
            self.log(b, o, sz, write)
        return b, o

    def load(self, a, sz, fl):
        b, o = self._addr(a, sz, False)
        v = b.get(o, sz, fl)
        if fl == "f" and type(v) is int:
            raw = (v & ((1 << (8 * sz)) - 1)).to_bytes(sz, "little")
            return struct.unpack("<f" if sz == 4 else "<d", raw)[0]
        if fl == "i" and type(v) is float:
            raw = struct.pack("<f" if sz == 4 else "<d", v)
            return int.from_bytes(raw, "little", signed=True)
        if fl == "i" and type(v) is Ptr:
            return _ptrtoint(v, None, None)
        if fl == "ptr" and type(v) is int:
            return _inttoptr(v, None, None)
        if fl == "ptr" and isinstance(v, PInt):
            return v.p
        if fl == "i" and isinstance(v, SymNum) and not v.is_int:
            raise Unsupported("bits of a symbolic float")
        return v

    def store(self, a, sz, v):
        b, o = self._addr(a, sz, True)
        b.put(o, sz, v)

    def copy(self, dst, src, n):
        n = int(n)
        if n == 0:
            return
        sb, so = self._addr(src, n, False)
        db, do = self._addr(dst, n, True)
        if isinstance(sb, ArrayBlock) or isinstance(db, ArrayBlock):
            it = sb.item if isinstance(sb, ArrayBlock) else db.item
            fl = "f" if (sb if isinstance(sb, ArrayBlock) else db).dt.kind == "f" else "i"
            if n % it:
                raise Unsupported("partial copy of an array")
            vals = [self.load(Ptr(sb, so + k), it, fl) for k in range(0, n, it)]
            for k, v in enumerate(vals):
                self.store(Ptr(db, do + k * it), it, v)
            return
        items, o = [], so
        while o < so + n:
            c = sb.cells.get(o)
            if c is not None and o + c[0] <= so + n and not (o == so and self._inside(sb, o)):
                items.append((o - so, c[0], c[1]))
                o += c[0]
            else:
                v = sb.byte_at(o)
                if v is not UNDEF:
                    items.append((o - so, 1, v))
                o += 1
        db.clear(do, n)
        for k, s, v in items:
            db.cells[do + k] = (s, v)

    @staticmethod
    def _inside(b, o):
        return False

    def fill(self, dst, byte, n):
        n = int(n)
        if n == 0:
            return
        b, o = self._addr(dst, n, True)
        if isinstance(b, ArrayBlock):
            if byte != 0 or n % b.item:
                raise Unsupported("memset of an array")
            for k in range(0, n, b.item):
                b.put(o + k, b.item, 0.0 if b.dt.kind == "f" else 0)
            return
        b.clear(o, n)
        k = 0
        if type(byte) is int and byte == 0:
            while k + 8 <= n and (o + k) % 8 == 0:
                b.cells[o + k] = (8, 0)
                k += 8
        while k < n:
            b.cells[o + k] = (1, byte)
            k += 1

    def malloc(self, n, kind="heap", name=""):
        b = Block(int(n), kind, name)
        self.heap.append(b)
        return Ptr(b, 0)

    def free(self, p, what="heap"):
        if type(p) is Ptr and p.b is None:
            return
        if type(p) is not Ptr:
            raise MemoryFault("release of an indeterminate pointer")
        if p.b.freed:
            raise MemoryFault("double release of %s" % p.b)
        if p.b.kind != what or p.o != 0:
            raise MemoryFault("release of %s+%s, which was not allocated this way" % (p.b, p.o))
        p.b.freed = True

    def cstring(self, p, limit=100000):
        """the characters (ints or symbolic) of a C string, without the terminator"""
        out = []
        k = 0
        while True:
            c = self.load(Ptr(p.b, p.o + k), 1, "i")
            if c is UNDEF:
                raise MemoryFault("read of uninitialised memory")
            if c == 0:
                return out
            out.append(c)
            k += 1

    def text(self, p):
        return plain(self.cstring(p))

    def new_cstring(self, chars, name="str"):
        b = Block(len(chars) + 1, "const", name)
        for k, c in enumerate(chars):
            b.cells[k] = (1, c)
        b.cells[len(chars)] = (1, 0)
        return Ptr(b, 0)

    # globals
    def address(self, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.fsrc or name in self.mod.decl:
            return Fn(name)
        p = self.globals.get(name)
        if p is None:
            p = self.globals[name] = self.make_global(name)
        return p

    def make_global(self, name):
        src = self.mod.gsrc.get(name)
        if src is None:
            raise Unsupported("unknown global %s" % name)
        x = self.nat.global_model(self, name)
        if x is not None:
            return x
        m = re.match(r"(.*?)\b(global|constant) (.*)", src)
        pre, kind, rest = m.groups()
        p = P(lex(rest), self.mod)
        t = p.type()
        if re.search(r"\bexternal\b|\bextern_weak\b", pre):
            raise Unsupported("external variable %s" % name)
        b = Block(sizeof(t), "global", name)
        ptr = Ptr(b, 0)
        self.globals[name] = ptr
        v = parse_const(p, t)
        self.init_mem(ptr, t, v)
        b.const = kind == "constant"
        return ptr

    def init_mem(self, a, t, v):
        if isinstance(v, LateConst):
            v = v.f(self)
        if isinstance(v, Zero):
            self.fill(a, 0, sizeof(v.t))
        elif isinstance(v, CStr):
            for k, c in enumerate(v.b):
                a.b.cells[a.o + k] = (1, c - 256 if c > 127 else c)
        elif isinstance(v, Agg):
            o = 0
            if t.k == "struct":
                sizeof(t)
                for off, (et, ev) in zip(t.offs, v.els):
                    self.init_mem(Ptr(a.b, a.o + off), et, ev)
            else:
                for i, (et, ev) in enumerate(v.els):
                    self.init_mem(Ptr(a.b, a.o + i * sizeof(et)), et, ev)
        elif isinstance(v, list):
            els = t.el if t.k == "struct" else [t.el] * t.n
            sizeof(t)
            for i, ev in enumerate(v):
                off = t.offs[i] if t.k == "struct" else i * sizeof(t.el)
                self.init_mem(Ptr(a.b, a.o + off), els[i], ev)
        elif v is UNDEF:
            pass
        else:
            storer_of(t)(self, a, v)

    # exceptions
    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def parents(self, t):
        src = self.mod.gsrc.get(t)
        out = []
        if src is not None and "external" not in src.split("constant")[0].split("global")[0]:
            out = [x for x in re.findall(r'@(?:"[^"]*"|[-\w.$]+)', src) if x.startswith("@_ZTI")]
        if t in STD_PARENTS:
            out.append(STD_PARENTS[t])
        return out

    def is_subtype(self, t, c):
        if t == c:
            return True
        return any(self.is_subtype(u, c) for u in self.parents(t))

    # calls
    def call(self, name, args, F=None):
        name = self.mod.aliases.get(name, name)
        n = self.mod.nat.get(name, 0)
        if n == 0:
            n = self.mod.nat[name] = self.nat.find(name, self.mod.dem.get(name, norm_name(name[1:])))
        if n is not None:
            return n(self, args)
        f = self.mod.fn(name)
        if f is None:
            raise Unsupported("external function %s" % self.mod.dem.get(name, name))
        if name not in self.mod.seen:
            self.mod.seen.add(name)
            d = self.mod.dem.get(name, name)
            if not d.startswith(("std::", "__gnu_cxx", "operator", "string")) and " std::" not in d.split("(")[0] \
                    and " __gnu_cxx" not in d.split("(")[0] and "__clang" not in d and " string " not in d.split("(")[0]:
                FUNCS_SEEN.add("%s:%s" % (self.mod.rel, d.split("(")[0]))
        np_ = len(f.params)
        return f.run(self, args[:np_], args[np_:])


def plain(chars):
    """text of concrete characters"""
    if any(is_sym(c) for c in chars):
        return None
    return bytes(c & 255 for c in chars).decode("latin-1")
