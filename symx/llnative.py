"""Models of what the C++ code of /repo calls in binary libraries: C and C++ runtime, iostreams, sscanf, and the
Python and NumPy C API (by their documented behaviour)."""
import math, re, types
import numpy as rnp
import z3
from .core import SymNum, SymBool, Unsupported, MemoryFault, is_sym, eng, mk, sym_ite, sym_and, sym_or
from . import loader, snp
from .llir import (Ptr, NULL, Fn, UNDEF, Block, ArrayBlock, LazyBlock, CxxThrow, Machine, module, wrap_s, to_u, plain,
                   PInt, FLT_MAX)

EXACT, PATTERNS = {}, []


def nat(*names):
    def deco(f):
        for n in names:
            EXACT[n] = f
        return f
    return deco


def natp(*pats):
    def deco(f):
        for p in pats:
            PATTERNS.append((re.compile(p), f))
        return f
    return deco


def find(name, dem):
    if name[0] != "@":
        dem = name
    f = EXACT.get(name[1:]) or EXACT.get(name) or EXACT.get(dem)
    if f is not None:
        return f
    for p, f in PATTERNS:
        if p.search(dem):
            return f
    return None


# ------------------------------------------------------------------ memory, strings, maths
@natp(r"^llvm\.(memcpy|memmove)\.", r"^(memcpy|memmove)$")
def _memcpy(M, a):
    if a[0].b is a[1].b and a[0].b is not None and a[0].o == a[1].o and type(a[0].o) is int:
        M._addr(a[0], int(a[2]), True) if int(a[2]) else None
        return a[0]
    M.copy(a[0], a[1], a[2])
    return a[0]


@natp(r"^llvm\.memset\.", r"^memset$")
def _memset(M, a):
    M.fill(a[0], a[1], a[2])
    return a[0]


@natp(r"^llvm\.(dbg|lifetime|assume|donothing|stacksave|stackrestore|experimental\.noalias|prefetch|va_end)")
def _nothing(M, a):
    return None


@natp(r"^llvm\.expect")
def _expect(M, a):
    return a[0]


@nat("llvm.trap", "abort", "std::terminate()", "__clang_call_terminate", "std::__terminate()", "exit", "_exit")
def _abort(M, a):
    raise MemoryFault("the process is terminated (abort / std::terminate)")


@nat("__assert_fail")
def _assert(M, a):
    raise MemoryFault("assertion fails: %s" % M.text(a[0]))


@natp(r"^operator new(\[\])?\(unsigned long\)$")
def _new(M, a):
    n = to_u(a[0], 64)
    if is_sym(n):
        n = int(n)
    if n > (1 << 40):
        throw_std(M, "@_ZTISt9bad_alloc", None)
    return M.malloc(n)


@natp(r"^operator delete(\[\])?\(void\*(, unsigned long)?\)$")
def _delete(M, a):
    M.free(a[0])


@nat("malloc")
def _malloc(M, a):
    return M.malloc(int(a[0]), "malloc")


@nat("calloc")
def _calloc(M, a):
    p = M.malloc(int(a[0]) * int(a[1]), "malloc")
    M.fill(p, 0, p.b.size)
    return p


@nat("free")
def _free(M, a):
    M.free(a[0], "malloc")


@nat("strlen")
def _strlen(M, a):
    return len(M.cstring(a[0]))


@nat("memchr")
def _memchr(M, a):
    c = wrap_s(a[1], 8)
    for k in range(int(a[2])):
        v = M.load(Ptr(a[0].b, a[0].o + k), 1, "i")
        if v is UNDEF:
            raise MemoryFault("read of uninitialised memory")
        if v == c:
            return Ptr(a[0].b, a[0].o + k)
    return NULL


@nat("strchr", "index")
def _strchr(M, a):
    c = wrap_s(a[1], 8)
    k = 0
    while True:
        v = M.load(Ptr(a[0].b, a[0].o + k), 1, "i")
        if v == c:
            return Ptr(a[0].b, a[0].o + k)
        if v == 0:
            return NULL
        k += 1


def _cmp(M, p, q, n, stop):
    for k in range(n):
        x = M.load(Ptr(p.b, p.o + k), 1, "i")
        y = M.load(Ptr(q.b, q.o + k), 1, "i")
        if x is UNDEF or y is UNDEF:
            raise MemoryFault("read of uninitialised memory")
        if x == y:
            if stop and x == 0:
                return 0
            continue
        return -1 if to_u(x, 8) < to_u(y, 8) else 1
    return 0


@nat("memcmp", "bcmp")
def _memcmp(M, a):
    return _cmp(M, a[0], a[1], int(a[2]), False)


@nat("strcmp")
def _strcmp(M, a):
    return _cmp(M, a[0], a[1], 1 << 30, True)


@nat("strncmp")
def _strncmp(M, a):
    return _cmp(M, a[0], a[1], int(a[2]), True)


def _isx(*rs):
    def f(M, a):
        c = a[0]
        if is_sym(c):
            return 1 if bool(sym_or(*[sym_and(c >= lo, c <= hi) for lo, hi in rs])) else 0
        return 1 if any(lo <= c <= hi for lo, hi in rs) else 0
    return f


EXACT["isdigit"] = _isx((48, 57))
EXACT["isspace"] = _isx((9, 13), (32, 32))
EXACT["isalpha"] = _isx((65, 90), (97, 122))
EXACT["isalnum"] = _isx((48, 57), (65, 90), (97, 122))
EXACT["isblank"] = _isx((9, 9), (32, 32))


def _powf(x, y):
    if is_sym(x) or is_sym(y):
        if not is_sym(y) and float(y) == int(y) and 0 <= int(y) <= 8:
            r = 1.0
            for _ in range(int(y)):
                r = r * x if type(r) is not float or r != 1.0 else x
            return r
        if not is_sym(y) and y == 0.5:
            return snp.facade.sqrt(x)
        return x ** y
    try:
        return float(x) ** float(y)
    except (ZeroDivisionError, OverflowError):
        return float("inf")


@natp(r"^(pow|powf|llvm\.pow\..*|__powf_finite|__pow_finite)$", r"^llvm\.powi\.")
def _pow(M, a):
    return UNDEF if a[0] is UNDEF or a[1] is UNDEF else _powf(a[0], a[1])


@natp(r"^(sqrt|sqrtf|llvm\.sqrt\..*)$")
def _sqrt(M, a):
    x = a[0]
    if is_sym(x):
        if bool(x < 0):
            return float("nan")
        return x.sqrt()
    return math.sqrt(x) if x >= 0 else float("nan")


@natp(r"^(fabs|fabsf|llvm\.fabs\..*)$")
def _fabs(M, a):
    return abs(a[0])


@natp(r"^(floor|floorf|llvm\.floor\..*)$")
def _floor(M, a):
    x = a[0]
    return x.floor() if is_sym(x) else float(math.floor(x)) if math.isfinite(x) else x


@natp(r"^(ceil|ceilf|llvm\.ceil\..*)$")
def _ceil(M, a):
    x = a[0]
    return x.ceil() if is_sym(x) else float(math.ceil(x)) if math.isfinite(x) else x


@natp(r"^llvm\.fmuladd\.", r"^llvm\.fma\.", r"^fmaf?$")
def _fma(M, a):
    from .llir import _fmul
    return UNDEF if any(x is UNDEF for x in a[:3]) else _fmul(a[0], a[1]) + a[2]


@natp(r"^llvm\.(s|u)(max|min)\.i(\d+)")
def _minmax(M, a):
    raise Unsupported("integer min/max intrinsic")


@natp(r"^llvm\.(maxnum|minnum)\.", r"^f(max|min)f?$")
def _fminmax(M, a):
    raise Unsupported("fmin/fmax")


@natp(r"^llvm\.(is\.constant|objectsize)")
def _isconst(M, a):
    return False


@natp(r"^llvm\.(sadd|ssub|smul|uadd|usub|umul)\.with\.overflow")
def _ovf(M, a):
    raise Unsupported("overflow intrinsic")


# ------------------------------------------------------------------ C++ exceptions
@nat("__cxa_allocate_exception")
def _exc_alloc(M, a):
    p = M.malloc(int(a[0]), "exception")
    return p


@nat("__cxa_free_exception")
def _exc_free(M, a):
    M.free(a[0], "exception")


@nat("__cxa_throw")
def _throw(M, a):
    t = a[1].b.name
    M.exc_type[id(a[0].b)] = t
    M.keep.append(a[0].b)
    raise CxxThrow(a[0], t)


@nat("__cxa_begin_catch", "__cxa_get_exception_ptr")
def _begin(M, a):
    M.caught.append([a[0], M.exc_type[id(a[0].b)], False])
    return a[0]


@nat("__cxa_end_catch")
def _end(M, a):
    e = M.caught.pop()
    if not e[2] and not any(x[0].b is e[0].b for x in M.caught):
        e[0].b.freed = True


@nat("__cxa_rethrow")
def _rethrow(M, a):
    if not M.caught:
        raise MemoryFault("throw; outside of a handler")
    e = M.caught[-1]
    e[2] = True
    raise CxxThrow(e[0], e[1])


@natp(r"^llvm\.eh\.typeid\.for")
def _typeid(M, a):
    return M.typeid(a[0].b.name) if a[0].b is not None else M.typeid("*")


STD_CLASS = {"exception": "@_ZTISt9exception", "bad_alloc": "@_ZTISt9bad_alloc", "logic_error": "@_ZTISt11logic_error",
             "runtime_error": "@_ZTISt13runtime_error", "invalid_argument": "@_ZTISt16invalid_argument",
             "out_of_range": "@_ZTISt12out_of_range", "length_error": "@_ZTISt12length_error",
             "domain_error": "@_ZTISt12domain_error", "range_error": "@_ZTISt11range_error",
             "overflow_error": "@_ZTISt14overflow_error", "underflow_error": "@_ZTISt15underflow_error",
             "bad_array_new_length": "@_ZTISt20bad_array_new_length"}


def std_vtable(M, cls):
    key = "vtable of std::" + cls
    p = M.globals.get(key)
    if p is None:
        b = Block(64, "global", key)
        b.cells[0] = (8, 0)
        b.cells[8] = (8, NULL)
        b.cells[16] = (8, Fn("std_dtor"))
        b.cells[24] = (8, Fn("std_dtor"))
        b.cells[32] = (8, Fn("std_what_" + cls))
        p = M.globals[key] = Ptr(b, 0)
    return p


@nat("std_dtor")
def _std_dtor(M, a):
    return None


@nat("std_what_exception")
def _what_exc(M, a):
    return M.new_cstring([ord(c) for c in "std::exception"])


@nat("std_what_bad_alloc")
def _what_ba(M, a):
    return M.new_cstring([ord(c) for c in "std::bad_alloc"])


@nat("std_what_bad_array_new_length")
def _what_ban(M, a):
    return M.new_cstring([ord(c) for c in "std::bad_array_new_length"])


@natp(r"^std_what_", r"^std::(logic_error|runtime_error)::what\(\) const$")
def _what(M, a):
    return M.load(Ptr(a[0].b, a[0].o + 8), 8, "ptr")


@natp(r"^std::(exception|bad_alloc)::what\(\) const$")
def _what2(M, a):
    return M.new_cstring([ord(c) for c in "std::exception"])


def make_std(M, cls, this, chars):
    v = std_vtable(M, cls)
    M.store(this, 8, Ptr(v.b, 16))
    if chars is not None:
        M.store(Ptr(this.b, this.o + 8), 8, M.new_cstring(chars, "message"))


CLS = "|".join(STD_CLASS)


@natp(r"^std::(%s)::(%s)\((char const\*|string const&)\)$" % (CLS, CLS))
def _std_ctor(M, a):
    raise Unsupported("replaced at lookup")


def throw_std(M, tinfo, msg):
    cls = [c for c, t in STD_CLASS.items() if t == tinfo][0]
    p = M.malloc(16 if msg is not None else 8, "exception")
    make_std(M, cls, p, None if msg is None else [ord(c) for c in msg])
    M.exc_type[id(p.b)] = tinfo
    M.keep.append(p.b)
    raise CxxThrow(p, tinfo)


def _ctor_for(cls, arg):
    def f(M, a):
        if arg == "char const*":
            if a[1].b is None:
                raise MemoryFault("null message")
            chars = M.cstring(a[1])
        elif arg == "string const&":
            chars = string_get(M, a[1])
        elif arg.startswith("std::"):
            src = M.load(Ptr(a[1].b, a[1].o + 8), 8, "ptr") if cls not in ("exception", "bad_alloc") else None
            chars = M.cstring(src) if src is not None else None
        else:
            chars = None
        make_std(M, cls, a[0], chars)
    return f


_find0 = find


def find(name, dem):
    m = re.match(r"^std::(%s)::\1\((.*)\)$" % CLS, dem)
    if m:
        return _ctor_for(m.group(1), m.group(2))
    m = re.match(r"^std::(%s)::~\1\(\)$" % CLS, dem)
    if m:
        return _std_dtor
    m = re.match(r"^std::(%s)::operator=\(" % CLS, dem)
    if m:
        return _uns("assignment of exceptions")
    return _find0(name, dem)


def _uns(w):
    def f(M, a):
        raise Unsupported(w)
    return f


for _n, _t in (("std::__throw_length_error(char const*)", "length_error"), ("std::__throw_logic_error(char const*)", "logic_error"),
               ("std::__throw_out_of_range(char const*)", "out_of_range"), ("std::__throw_invalid_argument(char const*)", "invalid_argument"),
               ("std::__throw_runtime_error(char const*)", "runtime_error")):
    EXACT[_n] = (lambda t: lambda M, a: throw_std(M, STD_CLASS[t], M.text(a[0])))(_t)
EXACT["std::__throw_bad_alloc()"] = lambda M, a: throw_std(M, "@_ZTISt9bad_alloc", None)
EXACT["std::__throw_bad_array_new_length()"] = lambda M, a: throw_std(M, "@_ZTISt20bad_array_new_length", None)
EXACT["std::__throw_bad_cast()"] = lambda M, a: throw_std(M, "@_ZTISt9bad_alloc", None)


@nat("std::__throw_out_of_range_fmt(char const*, ...)")
def _oor(M, a):
    throw_std(M, STD_CLASS["out_of_range"], M.text(a[0]))


@natp(r"^std::__glibcxx_assert_fail")
def _gassert(M, a):
    raise MemoryFault("library assertion fails")


def global_model(M, name):
    n = name[1:]
    src = M.mod.gsrc[name]
    ext = re.match(r".*?\bexternal\b", src) is not None
    if not ext:
        return None
    m = re.match(r"PyExc_(\w+)$", n)
    if m:
        import builtins
        b = Block(8, "global", n)
        cls = getattr(builtins, m.group(1), None)
        if cls is None:
            raise Unsupported(n)
        b.cells[0] = (8, pyobj(M, cls))
        return Ptr(b, 0)
    if n == "_Py_NoneStruct":
        return pyobj(M, None)
    if n == "_Py_TrueStruct":
        return pyobj(M, True)
    if n == "_Py_FalseStruct":
        return pyobj(M, False)
    m = re.match(r"Py(\w+)_Type$", n)
    if m:
        return pytype(M, m.group(1))
    m = re.match(r"_ZTVSt(\d+)(\w+)$", n)
    if m:
        cls = m.group(2)
        if cls in STD_CLASS:
            return std_vtable(M, cls)
    if n.startswith("_ZTVN10__cxxabiv1") or n.startswith("_ZTI") or n.startswith("_ZTS") or n == "__dso_handle":
        return Ptr(Block(64, "global", name), 0)
    if n in ("_ZSt4cout", "_ZSt4cerr", "_ZSt4clog", "_ZSt3cin"):
        p = Ptr(Block(300, "global", name), 0)
        stream_init(M, p, [])
        return p
    if n in ("stdout", "stderr"):
        b = Block(8, "global", n)
        b.cells[0] = (8, Ptr(Block(8, "global", n + " FILE"), 0))
        return Ptr(b, 0)
    return None


# ------------------------------------------------------------------ std::string layout
def string_get(M, p):
    """characters of a std::string"""
    d = M.load(p, 8, "ptr")
    n = int(M.load(Ptr(p.b, p.o + 8), 8, "i"))
    out = []
    for k in range(n):
        c = M.load(Ptr(d.b, d.o + k), 1, "i")
        if c is UNDEF:
            raise MemoryFault("read of uninitialised memory")
        out.append(c)
    return out


def string_init(M, p, chars):
    n = len(chars)
    if n <= 15:
        d = Ptr(p.b, p.o + 16)
    else:
        d = M.malloc(n + 1)
        M.store(Ptr(p.b, p.o + 16), 8, n)
    M.store(p, 8, d)
    M.store(Ptr(p.b, p.o + 8), 8, n)
    for k, c in enumerate(chars):
        M.store(Ptr(d.b, d.o + k), 1, c)
    M.store(Ptr(d.b, d.o + n), 1, 0)


def string_set(M, p, chars):
    d = M.load(p, 8, "ptr")
    if not (d.b is p.b and d.o == p.o + 16):
        M.free(d)
    string_init(M, p, chars)


@natp(r"^(string )?std::to_string\((int|unsigned int|long|unsigned long|long long|unsigned long long)\)$")
def _to_string(M, a):
    string_init(M, a[0], num_chars(M, a[1], True))


@natp(r"^(string )?std::to_string\((float|double)\)$")
def _to_string_f(M, a):
    string_init(M, a[0], float_chars(a[1], "f", 6, 64))


def _text_chars(s):
    return [b - 256 if b > 127 else b for b in s.encode("latin-1")]


def num_chars(M, v, signed, bits=32):
    if not signed:
        v = to_u(v, bits)
    if not is_sym(v):
        return _text_chars(str(int(v)))
    return _text_chars(token(v))


def token(v):
    k = len(loader.TOKENS) + 1
    if v.is_int:
        if bool(v < 0):
            t = "-9%06d" % k
        else:
            t = "9%06d" % k
    else:
        t = "9%04d.000017" % k
    loader.TOKENS[t] = v
    return t


def float_chars(v, kind, prec, bits):
    """printf of a floating value"""
    if v is UNDEF:
        raise MemoryFault("output of an indeterminate value")
    if not is_sym(v):
        if v != v:
            return _text_chars("nan")
        if v in (float("inf"), float("-inf")):
            return _text_chars("inf" if v > 0 else "-inf")
        return _text_chars(("%%.%d%s" % (prec, kind)) % v)
    need = 9 if bits == 32 else 17
    v = v.toreal()
    if kind in "gG" and max(prec, 1) >= need or kind in "eE" and prec + 1 >= need:
        return _text_chars(token(v))
    if kind in "gGeE":
        digits = max(prec, 1) if kind in "gG" else prec + 1
        p = eng().fresh_real("!fmt")
        lim = abs(v) * (5.0 * 10.0 ** -digits)
        eng().assume(sym_and(p - v <= lim, v - p <= lim))
        return _text_chars(token(p))
    if prec > 30:
        return _text_chars(token(v))
    sc = 10 ** prec
    r = mk(z3.ToReal(z3.ToInt(v.expr * sc + z3.RealVal("1/2"))) / sc)
    return _text_chars(token(r))


# ------------------------------------------------------------------ character classes
def ceq(c, k):
    return bool(c == k)


def isdig(c):
    if is_sym(c):
        return bool(sym_and(c >= 48, c <= 57))
    return 48 <= c <= 57


def isspc(c):
    if is_sym(c):
        return bool(sym_or(sym_and(c >= 9, c <= 13), c == 32))
    return 9 <= c <= 13 or c == 32


def inset(c, s):
    return any(ceq(c, ord(x)) for x in s)


_DEC = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
_SPECIAL = re.compile(r"[+-]?(?:inf(?:inity)?|nan)", re.I)
_HEX = re.compile(r"[+-]?0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?\d+)?")


def strtod(chars):
    """(value, characters used) of the longest numeric prefix; value None if there is none"""
    t = plain(chars)
    if t is not None:
        if t in loader.TOKENS:
            v = loader.TOKENS[t]
            return (v.toreal() if is_sym(v) else float(v)), len(t)
        for p in (_HEX, _SPECIAL, _DEC):
            m = p.match(t)
            if m:
                s = m.group(0)
                if s in loader.TOKENS:
                    v = loader.TOKENS[s]
                    return (v.toreal() if is_sym(v) else float(v)), len(s)
                if p is _HEX:
                    return float.fromhex(s), len(s)
                return float(s), len(s)
        return None, 0
    i, n = 0, len(chars)
    sign = 1
    if i < n and inset(chars[i], "+-"):
        sign = -1 if ceq(chars[i], 45) else 1
        i += 1
    m, nd, frac, dot = 0, 0, 0, False
    while i < n:
        c = chars[i]
        if isdig(c):
            m = m * 10 + (c - 48)
            nd += 1
            frac += dot
            i += 1
        elif not dot and ceq(c, 46):
            dot = True
            i += 1
        else:
            break
    if nd == 0:
        if i < n and not dot and (inset(chars[i], "iI") or inset(chars[i], "nN")):
            full = bytes(int(c) & 255 for c in chars)
            return strtod(list(full))
        return None, 0
    if nd == 1 and i < n and not dot and inset(chars[i], "xX") and ceq(chars[i - 1], 48):
        full = bytes(int(c) & 255 for c in chars)
        return strtod(list(full))
    used = i
    exp = 0
    if i < n and inset(chars[i], "eE"):
        j = i + 1
        es = 1
        if j < n and inset(chars[j], "+-"):
            es = -1 if ceq(chars[j], 45) else 1
            j += 1
        k0 = j
        while j < n and isdig(chars[j]):
            exp = exp * 10 + (int(chars[j]) - 48)
            j += 1
        if j > k0:
            used = j
            exp *= es
        else:
            exp = 0
    e10 = exp - frac
    v = m * sign
    if is_sym(v):
        v = v.toreal()
    else:
        v = float(v)
    if e10:
        if abs(e10) > 300:
            if is_sym(v):
                v = float(int(m)) * sign
            v = float("%re%d" % (v, e10)) if v else v
            return v, used
        from fractions import Fraction
        v = mk(v.expr * z3.Q((Fraction(10) ** e10).numerator, (Fraction(10) ** e10).denominator)) if is_sym(v) else float(Fraction(v) * Fraction(10) ** e10)
    return v, used


def scan_digits(chars, i):
    """decimal digits from i: (number or None, end)"""
    n = len(chars)
    j = i
    while j < n and isdig(chars[j]):
        j += 1
    if j == i:
        return None, i
    seg = chars[i:j]
    t = plain(seg)
    if t is not None:
        v = loader.TOKENS.get(t)
        return (int(t) if v is None else v), j
    m = 0
    for c in seg:
        m = m * 10 + (c - 48)
    return m, j


def scan_int(chars, i):
    """[sign] digits: (value, end) or (None, i)"""
    n = len(chars)
    neg = False
    j = i
    if j < n and inset(chars[j], "+-"):
        neg = ceq(chars[j], 45)
        j += 1
    full = None
    v, k = scan_digits(chars, j)
    if v is None:
        return None, i
    if neg:
        t = plain(chars[i:k])
        if t is not None and t in loader.TOKENS:
            return loader.TOKENS[t], k
        v = -v
    return v, k


def scan_float_field(chars, i):
    """what glibc's scanf collects for %f: end of the field"""
    n = len(chars)
    j = i
    if j < n and inset(chars[j], "+-"):
        j += 1
    if j < n and (inset(chars[j], "nN") or inset(chars[j], "iI")):
        word = "nan" if inset(chars[j], "nN") else "inf"
        for ch in word:
            if j < n and inset(chars[j], ch + ch.upper()):
                j += 1
            else:
                return None
        if word == "inf" and j < n and inset(chars[j], "iI"):
            for ch in "inity":
                if j < n and inset(chars[j], ch + ch.upper()):
                    j += 1
                else:
                    return None
        return j
    digs = 0
    hexa = False
    if j + 1 < n and ceq(chars[j], 48) and inset(chars[j + 1], "xX"):
        hexa = True
        j += 2
    dot = exp = False
    while j < n:
        c = chars[j]
        if isdig(c):
            digs += 1
            j += 1
        elif hexa and not exp and inset(c, "abcdefABCDEF"):
            digs += 1
            j += 1
        elif exp and inset(chars[j - 1], "pP" if hexa else "eE") and inset(c, "+-"):
            j += 1
        elif digs and not exp and inset(c, "pP" if hexa else "eE"):
            exp = dot = True
            j += 1
        elif not dot and ceq(c, 46):
            dot = True
            j += 1
        else:
            break
    return j


@nat("__isoc99_sscanf", "__isoc23_sscanf", "sscanf")
def _sscanf(M, a):
    s = M.cstring(a[0])
    fmt = M.text(a[1])
    args = list(a[2:])
    i, n, done = 0, len(s), 0
    k = 0
    while k < len(fmt):
        f = fmt[k]
        if f in " \t\n":
            while i < n and isspc(s[i]):
                i += 1
            k += 1
            continue
        if f != "%":
            if i >= n:
                return done if done else -1
            if not ceq(s[i], ord(f)):
                return done
            i += 1
            k += 1
            continue
        m = re.match(r"%(\*?)(\d*)(hh|h|ll|l|L|z)?([diuxfeEgGscn%])", fmt[k:])
        if not m:
            raise Unsupported("sscanf format %r" % fmt)
        star, width, ln, cv = m.groups()
        k += m.end()
        if width or cv == "x":
            raise Unsupported("sscanf format %r" % fmt)
        if cv not in "cn%":
            while i < n and isspc(s[i]):
                i += 1
        if cv == "%":
            if i >= n:
                return done if done else -1
            if not ceq(s[i], 37):
                return done
            i += 1
            continue
        if cv == "n":
            M.store(args.pop(0), 4, i)
            continue
        if i >= n:
            return done if done else -1
        if cv in "diu":
            if cv == "i" and ceq(s[i], 48):
                raise Unsupported("sscanf %i with a base prefix")
            v, e = scan_int(s, i)
            if v is None:
                return done
            big = (1 << 64) - 1
            if cv == "u":
                v = _sat_u(v)
            else:
                v = _sat(v, -(1 << 63), (1 << 63) - 1)
            if not star:
                sz = {"hh": 1, "h": 2, "l": 8, "ll": 8, "z": 8}.get(ln, 4)
                M.store(args.pop(0), sz, wrap_s(v, 8 * sz))
                done += 1
            i = e
        elif cv in "feEgG":
            e = scan_float_field(s, i)
            if e is None:
                return done
            v, used = strtod(s[i:e])
            if v is None:
                return done
            if not star:
                if ln == "l":
                    M.store(args.pop(0), 8, v)
                else:
                    if not is_sym(v) and abs(v) > FLT_MAX and v == v:
                        v = math.copysign(float("inf"), v)
                    M.store(args.pop(0), 4, v)
                done += 1
            i = e
        elif cv == "s":
            e = i
            while e < n and not isspc(s[e]):
                e += 1
            if not star:
                p = args.pop(0)
                for q, c in enumerate(s[i:e]):
                    M.store(Ptr(p.b, p.o + q), 1, c)
                M.store(Ptr(p.b, p.o + e - i), 1, 0)
                done += 1
            i = e
        elif cv == "c":
            if not star:
                M.store(args.pop(0), 1, s[i])
                done += 1
            i += 1
    return done


def _sat(v, lo, hi):
    if is_sym(v):
        if bool(v > hi):
            return hi
        if bool(v < lo):
            return lo
        return v
    return min(max(v, lo), hi)


def _sat_u(v):
    """strtoul: a sign negates modulo 2^64, too large saturates"""
    big = (1 << 64) - 1
    if is_sym(v):
        if bool(v > big) or bool(v < -big):
            return big
        return v
    return big if abs(v) > big else v


def _strto(M, a, conv):
    s = M.cstring(a[0])
    i = 0
    while i < len(s) and isspc(s[i]):
        i += 1
    v, e = conv(s, i)
    if a[1].b is not None:
        M.store(a[1], 8, Ptr(a[0].b, a[0].o + (e if v is not None else 0)))
    return v


@natp(r"^(strtol|strtoll|__isoc23_strtol|__isoc23_strtoll)$")
def _strtol(M, a):
    if a[2] != 10:
        raise Unsupported("strtol base")
    v = _strto(M, a, scan_int)
    return 0 if v is None else _sat(v, -(1 << 63), (1 << 63) - 1)


@natp(r"^(strtoul|strtoull|__isoc23_strtoul|__isoc23_strtoull)$")
def _strtoul(M, a):
    if a[2] != 10:
        raise Unsupported("strtoul base")
    v = _strto(M, a, scan_int)
    return 0 if v is None else wrap_s(_sat_u(v), 64)


def _sd(s, i):
    v, u = strtod(s[i:])
    return v, i + u


@natp(r"^(strtod|strtof)$")
def _strtod(M, a):
    v = _strto(M, a, _sd)
    return 0.0 if v is None else v


@nat("atoi")
def _atoi(M, a):
    s = M.cstring(a[0])
    i = 0
    while i < len(s) and isspc(s[i]):
        i += 1
    v, e = scan_int(s, i)
    return 0 if v is None else wrap_s(_sat(v, -(1 << 63), (1 << 63) - 1), 32)


@nat("atof")
def _atof(M, a):
    s = M.cstring(a[0])
    i = 0
    while i < len(s) and isspc(s[i]):
        i += 1
    v, u = strtod(s[i:])
    return 0.0 if v is None else v


@nat("__errno_location")
def _errno(M, a):
    p = M.globals.get("errno")
    if p is None:
        b = Block(4, "global", "errno")
        b.cells[0] = (4, 0)
        p = M.globals["errno"] = Ptr(b, 0)
    return p


# ------------------------------------------------------------------ streams
BAD, EOFB, FAIL = 1, 2, 4


class Stream(object):
    def __init__(self, data):
        self.data, self.pos, self.st, self.mask = list(data), 0, 0, 0
        self.out = []
        self.prec, self.kind, self.width = 6, "g", 0
        self.flags = 0x1002      # skipws | dec


def stream_init(M, p, data):
    s = Stream(data)
    M.state[id(p.b)] = s
    M.keep.append(p.b)
    vt = M.globals.get("stream vtable")
    if vt is None:
        b = LazyBlock(512, "global", "stream vtable")
        b.maker = lambda off: 0
        vt = M.globals["stream vtable"] = Ptr(b, 256)
    p.b.cells[p.o] = (8, vt)
    return s


def stream(M, p):
    if type(p) is not Ptr or p.b is None:
        raise MemoryFault("stream operation through a null pointer")
    if p.b.freed:
        raise MemoryFault("use of a destroyed stream")
    s = M.state.get(id(p.b))
    if s is None:
        raise Unsupported("unknown stream object")
    return s


def setstate(M, s, bits):
    s.st |= bits
    if s.st & s.mask:
        raise Unsupported("ios_base::failure thrown")


@natp(r"^(std::)?(istringstream|stringstream|ostringstream)::(basic_)?\2\(")
def _ss_ctor(M, a):
    data = []
    if len(a) > 1 and type(a[1]) is Ptr:
        data = string_get(M, a[1])
    stream_init(M, a[0], data)


@natp(r"^(std::)?(istringstream|stringstream|ostringstream)::~(basic_)?\2\(\)")
def _ss_dtor(M, a):
    M.state.pop(id(a[0].b), None)


@natp(r"^ios::exceptions\(std::_Ios_Iostate\)$")
def _ios_exc(M, a):
    stream(M, a[0]).mask = int(a[1])


@natp(r"^ios::operator!\(\) const$", r"^ios::fail\(\) const$")
def _ios_not(M, a):
    return bool(stream(M, a[0]).st & (FAIL | BAD))


@natp(r"^ios::operator bool\(\) const$")
def _ios_bool(M, a):
    return not (stream(M, a[0]).st & (FAIL | BAD))


@natp(r"^ios::good\(\) const$")
def _ios_good(M, a):
    return stream(M, a[0]).st == 0


@natp(r"^ios::eof\(\) const$")
def _ios_eof(M, a):
    return bool(stream(M, a[0]).st & EOFB)


@natp(r"^ios::bad\(\) const$")
def _ios_bad(M, a):
    return bool(stream(M, a[0]).st & BAD)


@natp(r"^ios::rdstate\(\) const$")
def _ios_rd(M, a):
    return stream(M, a[0]).st


@natp(r"^ios::(clear|setstate)\(std::_Ios_Iostate\)$")
def _ios_clear(M, a):
    s = stream(M, a[0])
    s.st = int(a[1])


@natp(r"^ios::setstate\(")
def _ios_setstate(M, a):
    s = stream(M, a[0])
    setstate(M, s, int(a[1]))


@natp(r"^ios::imbue\(", r"^std::locale::", r"^std::ios_base::Init::")
def _ios_imbue(M, a):
    return None


@natp(r"^std::ios_base::precision\(")
def _prec(M, a):
    s = stream(M, a[0])
    old = s.prec
    if len(a) > 1:
        s.prec = int(a[1])
    return old


@natp(r"^std::ios_base::width\(")
def _width(M, a):
    s = stream(M, a[0])
    old = s.width
    if len(a) > 1:
        s.width = int(a[1])
    return old


@natp(r"^std::fixed\(")
def _fixed(M, a):
    stream(M, a[0]).kind = "f"
    return a[0]


@natp(r"^std::scientific\(")
def _sci(M, a):
    stream(M, a[0]).kind = "e"
    return a[0]


@natp(r"^std::defaultfloat\(")
def _deff(M, a):
    stream(M, a[0]).kind = "g"
    return a[0]


@natp(r"^std::(skipws|dec|left|right|unitbuf|nounitbuf|noshowpoint|noshowpos|nouppercase|noboolalpha)\(")
def _manip0(M, a):
    return a[0]


@natp(r"^std::ios_base::(setf|unsetf|flags)\(")
def _setf(M, a):
    raise Unsupported("stream flags")


def _skip(s):
    while s.pos < len(s.data) and isspc(s.data[s.pos]):
        s.pos += 1


def _sentry(M, s):
    if s.st:
        setstate(M, s, FAIL)
        return False
    _skip(s)
    if s.pos >= len(s.data):
        setstate(M, s, FAIL | EOFB)
        return False
    return True


def num_get_float(s):
    """libstdc++ num_get: the characters accumulated, then converted as a whole"""
    d, i, n = s.data, s.pos, len(s.data)
    buf = []
    if i < n and inset(d[i], "+-"):
        buf.append(d[i])
        i += 1
    mant = dec = sci = False
    while i < n:
        c = d[i]
        if isdig(c):
            mant = True
        elif not dec and not sci and ceq(c, 46):
            dec = True
        elif not sci and mant and inset(c, "eE"):
            sci = True
            buf.append(c)
            i += 1
            if i < n and inset(d[i], "+-"):
                buf.append(d[i])
                i += 1
            continue
        else:
            break
        buf.append(c)
        i += 1
    s.pos = i
    return buf


@natp(r"^istream::operator>>\((float|double)&\)$", r"^istream& std::istream::_M_extract<(float|double)>", r"istream::_M_extract<(float|double)>")
def _in_float(M, a):
    return _in_f(M, a, 8)


def _in_f(M, a, size):
    s = stream(M, a[0])
    if not _sentry(M, s):
        return a[0]
    buf = num_get_float(s)
    v, used = strtod(buf) if buf else (None, 0)
    if s.pos >= len(s.data):
        s.st |= EOFB
    if v is None or used != len(buf):
        M.store(a[1], size, 0.0)
        setstate(M, s, FAIL)
        return a[0]
    lim = FLT_MAX if size == 4 else float(rnp.finfo(float).max)
    if not is_sym(v) and abs(v) > lim:
        M.store(a[1], size, math.copysign(lim, v))
        setstate(M, s, FAIL)
        return a[0]
    M.store(a[1], size, v)
    return a[0]


EXACT["istream::operator>>(float&)"] = lambda M, a: _in_f(M, a, 4)
EXACT["istream::operator>>(double&)"] = lambda M, a: _in_f(M, a, 8)


def _in_int(size, signed):
    def f(M, a):
        s = stream(M, a[0])
        if not _sentry(M, s):
            return a[0]
        v, e = scan_int(s.data, s.pos)
        if v is None:
            if s.pos < len(s.data) and inset(s.data[s.pos], "+-"):
                s.pos += 1
            if s.pos >= len(s.data):
                s.st |= EOFB
            M.store(a[1], size, 0)
            setstate(M, s, FAIL)
            return a[0]
        s.pos = e
        if e >= len(s.data):
            s.st |= EOFB
        bits = 8 * size
        if signed:
            lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
            w = _sat(v, lo, hi)
        else:
            hi = (1 << bits) - 1
            w = v
            if (abs(v) if not is_sym(v) else v) > hi:
                w = hi
        bad = bool(w != v) if (is_sym(v) or is_sym(w)) else w != v
        M.store(a[1], size, wrap_s(w, bits))
        if bad:
            setstate(M, s, FAIL)
        return a[0]
    return f


for _t, _z, _s in (("int", 4, True), ("unsigned int", 4, False), ("long", 8, True), ("unsigned long", 8, False),
                   ("short", 2, True), ("unsigned short", 2, False), ("long long", 8, True), ("unsigned long long", 8, False)):
    EXACT["istream::operator>>(%s&)" % _t] = _in_int(_z, _s)


@natp(r"^istream& std::operator>><char, .*>\(istream&, string&\)$")
def _in_string(M, a):
    s = stream(M, a[0])
    if s.st:
        setstate(M, s, FAIL)
        return a[0]
    _skip(s)
    if s.pos >= len(s.data):
        setstate(M, s, FAIL | EOFB)
        return a[0]
    out = []
    while s.pos < len(s.data) and not isspc(s.data[s.pos]):
        out.append(s.data[s.pos])
        s.pos += 1
    string_set(M, a[1], out)
    if s.pos >= len(s.data):
        s.st |= EOFB
    if not out:
        setstate(M, s, FAIL)
    return a[0]


@natp(r"^istream& std::operator>><char, .*>\(istream&, char&\)$", r"^istream& std::operator>> ?<std::char_traits<char> >\(istream&, char&\)$")
def _in_char(M, a):
    s = stream(M, a[0])
    if not _sentry(M, s):
        return a[0]
    M.store(a[1], 1, s.data[s.pos])
    s.pos += 1
    return a[0]


@natp(r"^istream& std::getline<.*>\(istream&, string&(, char)?\)$")
def _getline(M, a):
    s = stream(M, a[0])
    delim = a[2] if len(a) > 2 else 10
    out = []
    if s.st:
        setstate(M, s, FAIL)
        return a[0]
    found = False
    while s.pos < len(s.data):
        c = s.data[s.pos]
        s.pos += 1
        if bool(c == delim):
            found = True
            break
        out.append(c)
    string_set(M, a[1], out)
    if not found:
        s.st |= EOFB
        if not out:
            setstate(M, s, FAIL)
    return a[0]


@natp(r"^istream::get\(\)$")
def _get(M, a):
    s = stream(M, a[0])
    if s.st or s.pos >= len(s.data):
        setstate(M, s, FAIL | (0 if s.st else EOFB))
        return -1
    c = s.data[s.pos]
    s.pos += 1
    return to_u(c, 8)


@natp(r"^istream::peek\(\)$")
def _peek(M, a):
    s = stream(M, a[0])
    if s.st or s.pos >= len(s.data):
        s.st |= EOFB
        return -1
    return to_u(s.data[s.pos], 8)


def _emit(s, chars):
    if s.width > len(chars):
        chars = [32] * (s.width - len(chars)) + list(chars)
    s.width = 0
    if not s.st:
        s.out.extend(chars)


def _out_int(signed, bits):
    def f(M, a):
        if a[1] is UNDEF:
            raise MemoryFault("output of an indeterminate value")
        _emit(stream(M, a[0]), num_chars(M, a[1], signed, bits))
        return a[0]
    return f


for _t, _z, _s in (("int", 32, True), ("unsigned int", 32, False), ("long", 64, True), ("unsigned long", 64, False),
                   ("short", 16, True), ("unsigned short", 16, False), ("long long", 64, True), ("unsigned long long", 64, False)):
    EXACT["ostream::operator<<(%s)" % _t] = _out_int(_s, _z)
EXACT["ostream::operator<<(bool)"] = lambda M, a: (_emit(stream(M, a[0]), [49 if a[1] else 48]), a[0])[1]


def _out_float(bits):
    def f(M, a):
        s = stream(M, a[0])
        prec = s.prec
        if s.kind == "g" and prec == 0:
            prec = 1
        _emit(s, float_chars(a[1], s.kind, prec, bits))
        return a[0]
    return f


EXACT["ostream::operator<<(float)"] = _out_float(32)
EXACT["ostream::operator<<(double)"] = _out_float(64)


@natp(r"^ostream& std::operator<< ?<.*>\(ostream&, char const\*\)$")
def _out_cstr(M, a):
    if a[1].b is None:
        stream(M, a[0]).st |= BAD
        return a[0]
    _emit(stream(M, a[0]), M.cstring(a[1]))
    return a[0]


@natp(r"^ostream& std::operator<< ?<.*>\(ostream&, string const&\)$")
def _out_str(M, a):
    _emit(stream(M, a[0]), string_get(M, a[1]))
    return a[0]


@natp(r"^ostream& std::operator<< ?<.*>\(ostream&, (signed |unsigned )?char\)$", r"^ostream::put\(char\)$")
def _out_char(M, a):
    _emit(stream(M, a[0]), [a[1]])
    return a[0]


@natp(r"^ostream::write\(char const\*, long\)$")
def _out_write(M, a):
    s = stream(M, a[0])
    s.out.extend(M.load(Ptr(a[1].b, a[1].o + k), 1, "i") for k in range(int(a[2])))
    return a[0]


@natp(r"^ostream& std::endl<")
def _endl(M, a):
    _emit(stream(M, a[0]), [10])
    return a[0]


@natp(r"^ostream& std::(flush|ends)<", r"^ostream::flush\(\)$")
def _flush(M, a):
    return a[0]


@natp(r"^(ostream|istream)::operator(<<|>>)\((ostream|istream|std::ios_base|ios)& \(\*\)\(")
def _manip(M, a):
    if not isinstance(a[1], Fn):
        raise Unsupported("stream manipulator")
    M.call(a[1].name, [a[0]])
    return a[0]


@natp(r"^(istringstream|stringstream|ostringstream)::str\(\) const$")
def _str_get(M, a):
    s = stream(M, a[1])
    string_init(M, a[0], s.out if not s.data else s.data)


@natp(r"^(istringstream|stringstream|ostringstream)::str\(string const&\)$")
def _str_set(M, a):
    s = stream(M, a[0])
    d = string_get(M, a[1])
    s.pos = 0
    if d and s.out is not None and not s.data and False:
        pass
    s.data = d
    s.out = []


# ------------------------------------------------------------------ Python objects
class SymText(object):
    """the bytes of a symbolic file line"""
    def __init__(self, chars):
        self.chars = list(chars)


def pytype(M, n):
    key = "type " + n
    p = M.globals.get(key)
    if p is None:
        b = Block(416, "pytype", n)
        b.cells[0] = (8, 1 << 40)
        M.fill(Ptr(b, 8), 0, 408)
        M.store(Ptr(b, 168), 8, {"Bytes": 1 << 27, "Unicode": 1 << 28, "List": 1 << 25, "Tuple": 1 << 26}.get(n, 0))
        p = M.globals[key] = Ptr(b, 0)
    return p


def pyobj(M, o):
    """reference to a Python object"""
    e = M.pyobjs.get(id(o))
    if e is not None:
        return Ptr(e[0], 0)
    if isinstance(o, (bytes, SymText)):
        chars = _text_chars(o.decode("latin-1")) if isinstance(o, bytes) else o.chars
        b = Block(33 + len(chars), "bytes", "bytes object")
        b.cells[16] = (8, len(chars))
        b.cells[24] = (8, -1)
        for k, c in enumerate(chars):
            b.cells[32 + k] = (1, c)
        b.cells[32 + len(chars)] = (1, 0)
        b.cells[8] = (8, pytype(M, "Bytes"))
    elif isinstance(o, rnp.ndarray):
        b = Block(96, "ndarray", "array object")
        b.cells[8] = (8, pytype(M, "Array"))
        dims = Block(max(8, 8 * o.ndim), "dims", "dims")
        strides = Block(max(8, 8 * o.ndim), "strides", "strides")
        it = dt_of(o).itemsize
        for k, d in enumerate(o.shape):
            dims.cells[8 * k] = (8, d)
            strides.cells[8 * k] = (8, o.strides[k] // (rnp.ndarray.dtype.__get__(o).itemsize) * it)
        b.cells[16] = (8, array_ptr(M, o))
        b.cells[24] = (4, o.ndim)
        b.cells[32] = (8, Ptr(dims, 0))
        b.cells[40] = (8, Ptr(strides, 0))
        b.cells[48] = (8, NULL)
        b.cells[64] = (4, (1 if o.flags.c_contiguous else 0) | (2 if o.flags.f_contiguous else 0) | 0x400)
    else:
        b = Block(64, "pyobject", type(o).__name__)
        b.cells[8] = (8, pytype(M, type(o).__name__))
    b.cells[0] = (8, 1)
    b.obj = o
    M.pyobjs[id(o)] = (b, o)
    return Ptr(b, 0)


def dt_of(o):
    return snp.real_dtype(o.dtype) if isinstance(o, snp.SymArray) else rnp.ndarray.dtype.__get__(o)


def array_ptr(M, o):
    """address of the first element of an array"""
    dt = dt_of(o)
    if dt.kind == "O":
        raise MemoryFault("raw memory of an array of Python objects")
    base = o
    while isinstance(base.base, rnp.ndarray):
        base = base.base
    key = ("array", id(base))
    e = M.pyobjs.get(key)
    if e is None:
        raw = base.view(rnp.ndarray) if isinstance(base, snp.SymArray) else base
        flat = raw.ravel(order="K")
        if raw.size and not rnp.shares_memory(flat, raw):
            raise Unsupported("memory of a non-contiguous array")
        e = M.pyobjs[key] = (ArrayBlock(flat, dt, "array"), base, flat)
    blk = e[0]
    if blk.dt != dt:
        raise Unsupported("one memory, two element types")
    step = base.view(rnp.ndarray).itemsize
    off = (o.__array_interface__["data"][0] - base.__array_interface__["data"][0]) // step if o.size else 0
    return Ptr(blk, off * dt.itemsize)


NPY = {0: "bool", 1: "int8", 2: "uint8", 3: "int16", 4: "uint16", 5: "int32", 6: "uint32", 7: "int64", 8: "uint64",
       9: "int64", 10: "uint64", 11: "float32", 12: "float64"}


def from_py(M, p):
    """the Python value of a reference"""
    if p.b is None:
        raise MemoryFault("null object reference")
    if p.b.freed:
        raise MemoryFault("use of a released object")
    if p.b.kind == "newarray":
        b = p.b
        if b.obj is None:
            nd = M.load(Ptr(b, 24), 4, "i")
            dims = M.load(Ptr(b, 32), 8, "ptr")
            shape = tuple(int(M.load(Ptr(dims.b, dims.o + 8 * k), 8, "i")) for k in range(nd))
            data = M.load(Ptr(b, 16), 8, "ptr")
            dt = rnp.dtype(NPY[int(b.log)])
            n = 1
            for s in shape:
                n *= s
            fl = "f" if dt.kind == "f" else "i"
            vals = []
            for k in range(n):
                v = M.load(Ptr(data.b, data.o + k * dt.itemsize), dt.itemsize, fl)
                if v is UNDEF:
                    raise MemoryFault("array element never written")
                vals.append(v if dt.kind != "u" else to_u(v, 8 * dt.itemsize))
            if dt.kind == "f":
                b.obj = snp.symarray([float(v) if not is_sym(v) else v for v in vals], dt).reshape(shape) if vals else \
                    snp.facade.zeros(shape, dtype=dt)
            else:
                if any(is_sym(v) for v in vals):
                    a = rnp.empty(len(vals), dtype=object)
                    for k, v in enumerate(vals):
                        a[k] = v
                    b.obj = a.view(snp.SymArray)
                    b.obj._sdt = dt
                else:
                    b.obj = rnp.array(vals, dtype=dt)
                b.obj = b.obj.reshape(shape)
        return b.obj
    if p.b.kind == "tuple":
        return tuple(from_py(M, q) for q in p.b.obj)
    if p.b.kind in ("bytes", "ndarray", "pyobject"):
        return p.b.obj
    raise Unsupported("object %s returned to Python" % p.b)


def guarded(f):
    def g(M, a):
        try:
            return f(M, a)
        except (CxxThrow, Unsupported):
            raise
        except Exception as e:
            M.pyerr = e
            return NULL
    return g


@nat("PyArg_ParseTuple")
def _parse_tuple(M, a):
    args = a[0].b.obj
    fmt = M.text(a[1]).split(":")[0].split(";")[0]
    outs = list(a[2:])
    k = 0
    i = 0
    opt = False
    need = len(re.findall(r"[A-Za-z]", fmt.split("|")[0]))
    total = len(re.findall(r"[A-Za-z]", fmt))
    if not need <= len(args) <= total:
        M.pyerr = TypeError("function takes %d arguments (%d given)" % (need, len(args)))
        return 0
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c == "|":
            opt = True
            continue
        if k >= len(args):
            break
        v = args[k]
        k += 1
        if c == "O":
            if i < len(fmt) and fmt[i] == "!":
                i += 1
                t = outs.pop(0)
                ok = {"Array": rnp.ndarray, "List": list, "Tuple": tuple, "Dict": dict, "Bytes": (bytes, SymText)}.get(t.b.name)
                if ok is None:
                    raise Unsupported("type check against %s" % t.b.name)
                if not isinstance(v, ok):
                    M.pyerr = TypeError("argument %d must be %s, not %s" % (k, t.b.name, type(v).__name__))
                    return 0
            M.store(outs.pop(0), 8, pyobj(M, v))
        elif c in "iIlLnkKhHbBp":
            if isinstance(v, float):
                M.pyerr = TypeError("integer argument expected, got float")
                return 0
            sz = {"i": 4, "I": 4, "p": 4, "h": 2, "H": 2, "b": 1, "B": 1}.get(c, 8)
            w = int(v) if not is_sym(v) else v
            if c == "p":
                w = 1 if v else 0
            elif not is_sym(w) and not -(1 << (8 * sz - 1)) <= w < (1 << (8 * sz - 1)):
                M.pyerr = OverflowError("Python int too large to convert to C int")
                return 0
            M.store(outs.pop(0), sz, wrap_s(w, 8 * sz))
        elif c in "fd":
            M.store(outs.pop(0), 4 if c == "f" else 8, v if is_sym(v) else float(v))
        elif c in "sy":
            if not isinstance(v, str if c == "s" else bytes):
                M.pyerr = TypeError("wrong argument type")
                return 0
            M.store(outs.pop(0), 8, M.new_cstring(_text_chars(v if c == "s" else v.decode("latin-1"))))
        else:
            raise Unsupported("PyArg_ParseTuple format %r" % fmt)
    return 1


@nat("PyFile_GetLine")
@guarded
def _getpyline(M, a):
    f = from_py(M, a[0])
    if f is None and a[0].b is None:
        raise SystemError("bad internal call")
    r = f.readline() if int(a[1]) <= 0 else f.readline(int(a[1]))
    if isinstance(r, str):
        b = Block(64, "strobject", "str object (not bytes)")
        b.cells[0] = (8, 1)
        b.cells[8] = (8, pytype(M, "Unicode"))
        b.obj = r
        M.keep.append(r)
        M.lines = getattr(M, "lines", [])
        return Ptr(b, 0)
    if not isinstance(r, (bytes, SymText)):
        raise TypeError("object.readline() returned non-string")
    if int(a[1]) < 0:
        raise Unsupported("PyFile_GetLine with a negative size")
    if isinstance(r, bytes):
        r = SymText(_text_chars(r.decode("latin-1")))
    p = pyobj(M, r)
    M.lines.append(p.b)
    return p


@nat("PyObject_CallMethod", "PyObject_CallFunction", "PyObject_GetAttrString", "PyImport_ImportModule", "PyObject_Call")
def _pycall(M, a):
    raise Unsupported("call back into Python")


@nat("PyFile_WriteString")
def _writestr(M, a):
    chars = M.cstring(a[0])
    t = plain(chars)
    if t is None:
        raise Unsupported("symbolic characters written to a file")
    try:
        from_py(M, a[1]).write(t.encode("latin-1").decode("utf-8"))
    except (CxxThrow, Unsupported):
        raise
    except Exception as e:
        M.pyerr = e
        return -1
    return 0


@nat("PyErr_SetString")
def _seterr(M, a):
    cls = a[0].b.obj
    chars = M.cstring(a[1])
    t = plain(chars)
    try:
        M.pyerr = cls(printable(chars) if t is None else t.encode("latin-1").decode("utf-8"))
    except UnicodeDecodeError as e:
        M.pyerr = e


@nat("PyErr_Format")
def _errfmt(M, a):
    M.pyerr = a[0].b.obj(M.text(a[1]))
    return NULL


@nat("PyErr_SetNone")
def _errnone(M, a):
    M.pyerr = a[0].b.obj()


@nat("PyErr_NoMemory")
def _errmem(M, a):
    M.pyerr = MemoryError()
    return NULL


@nat("PyErr_Occurred")
def _errocc(M, a):
    return pyobj(M, type(M.pyerr)) if M.pyerr is not None else NULL


@nat("PyErr_Clear")
def _errclear(M, a):
    M.pyerr = None


def printable(chars):
    return "".join(chr(c & 255) if not is_sym(c) else "?" for c in chars)


@nat("PyBytes_AsString")
def _bytes_as(M, a):
    if a[0].b.kind != "bytes":
        M.pyerr = TypeError("expected bytes")
        return NULL
    return Ptr(a[0].b, 32)


@nat("PyBytes_Size")
def _bytes_size(M, a):
    if a[0].b.kind != "bytes":
        M.pyerr = TypeError("expected bytes")
        return -1
    return M.load(Ptr(a[0].b, 16), 8, "i")


@nat("PyBytes_AsStringAndSize")
def _bytes_ass(M, a):
    if a[0].b.kind != "bytes":
        M.pyerr = TypeError("expected bytes")
        return -1
    M.store(a[1], 8, Ptr(a[0].b, 32))
    if a[2].b is not None:
        M.store(a[2], 8, M.load(Ptr(a[0].b, 16), 8, "i"))
    return 0


@nat("PyType_IsSubtype")
def _issub(M, a):
    return 1 if a[0].b is a[1].b else 0


@nat("PyType_GetFlags")
def _tpflags(M, a):
    n = a[0].b.name
    return {"Bytes": 1 << 27, "Unicode": 1 << 28, "List": 1 << 25, "Tuple": 1 << 26}.get(n, 0)


def incref(M, p):
    M.store(p, 8, M.load(p, 8, "i") + 1)


def decref(M, p):
    v = M.load(p, 8, "i") - 1
    M.store(p, 8, v)
    if v == 0:
        _dealloc(M, [p])


@nat("Py_IncRef")
def _incref(M, a):
    if a[0].b is not None:
        incref(M, a[0])


@nat("Py_DecRef")
def _decref(M, a):
    if a[0].b is not None:
        decref(M, a[0])


@nat("_Py_Dealloc")
def _dealloc(M, a):
    b = a[0].b
    if b.freed:
        raise MemoryFault("double release of %s" % b)
    if b.kind == "pynew":
        t = M.load(Ptr(b, 8), 8, "ptr")
        d = M.load(Ptr(t.b, 48), 8, "ptr")
        if isinstance(d, Fn):
            M.call(d.name, [a[0]])
        b.freed = True
    elif b.kind == "newarray":
        base = M.load(Ptr(b, 48), 8, "ptr")
        b.freed = True
        if base.b is not None:
            decref(M, base)
    elif b.kind == "tuple":
        b.freed = True
        for q in b.obj:
            decref(M, q)
    else:
        b.freed = True
        if b.obj is not None:
            M.pyobjs.pop(id(b.obj), None)


@natp(r"^(PyObject_Free|PyObject_Del|PyMem_Free)$")
def _pyfree(M, a):
    a[0].b.freed = True


@nat("_PyObject_New")
def _pynew(M, a):
    n = int(M.load(Ptr(a[0].b, a[0].o + 32), 8, "i"))
    if n < 16:
        raise MemoryFault("object smaller than its header")
    b = Block(n, "pynew", "object")
    b.cells[0] = (8, 1)
    b.cells[8] = (8, a[0])
    return Ptr(b, 0)


@nat("PyType_Ready")
def _ready(M, a):
    f = M.load(Ptr(a[0].b, a[0].o + 320), 8, "ptr")
    if type(f) is Ptr and f.b is None:
        M.store(Ptr(a[0].b, a[0].o + 320), 8, Fn("PyObject_Free"))
    return 0


@nat("PyModule_Create2")
def _modcreate(M, a):
    d = a[0]
    t = M.load(Ptr(d.b, d.o + 64), 8, "ptr")
    M.methods = {}
    k = 0
    while True:
        nm = M.load(Ptr(t.b, t.o + k), 8, "ptr")
        if nm.b is None:
            break
        M.methods[M.text(nm)] = M.load(Ptr(t.b, t.o + k + 8), 8, "ptr")
        k += 32
    return Ptr(Block(64, "pyobject", "module"), 0)


@natp(r"^_import_array\(\)$")
def _import_array(M, a):
    b = LazyBlock(8 * 400, "global", "PyArray_API")

    def maker(off):
        if off == 16:
            return pytype(M, "Array")
        return Fn("PyArray_API#%d" % (off // 8))
    b.maker = maker
    for g in M.mod.gsrc:
        if re.search(r"PyArray_API", g):
            M.store(M.address(g), 8, Ptr(b, 0))
    return 0


@nat("PyArray_API#93")
def _array_new(M, a):
    sub, nd, dims, typenum, strides, data, itemsize, flags, obj = a
    nd, typenum = int(nd), int(typenum)
    if typenum not in NPY:
        raise Unsupported("array type number %d" % typenum)
    dt = rnp.dtype(NPY[typenum])
    shape = [int(M.load(Ptr(dims.b, dims.o + 8 * k), 8, "i")) for k in range(nd)]
    n = 1
    for s in shape:
        if s < 0:
            M.pyerr = ValueError("negative dimensions are not allowed")
            return NULL
        n *= s
    if strides.b is not None:
        raise Unsupported("array with explicit strides")
    b = Block(96, "newarray", "array object")
    dcopy = Block(max(8, 8 * nd), "dims", "dims")
    for k, s in enumerate(shape):
        dcopy.cells[8 * k] = (8, s)
    if data.b is None:
        d = Block(n * dt.itemsize, "arraydata", "array data")
        data = Ptr(d, 0)
    b.cells[0] = (8, 1)
    b.cells[8] = (8, pytype(M, "Array"))
    b.cells[16] = (8, data)
    b.cells[24] = (4, nd)
    b.cells[32] = (8, Ptr(dcopy, 0))
    b.cells[40] = (8, NULL)
    b.cells[48] = (8, NULL)
    b.cells[56] = (8, NULL)
    b.cells[64] = (4, 0x400)
    b.log = typenum
    return Ptr(b, 0)


@nat("PyArray_API#282")
def _setbase(M, a):
    M.store(Ptr(a[0].b, 48), 8, a[1])
    return 0


def _tuple(M, items):
    b = Block(64, "tuple", "tuple")
    b.cells[0] = (8, 1)
    b.cells[8] = (8, pytype(M, "Tuple"))
    b.obj = items
    return Ptr(b, 0)


@nat("Py_BuildValue")
def _build(M, a):
    fmt = M.text(a[0])
    out = []
    for c, v in zip([c for c in fmt if c not in "(), "], a[1:]):
        if c in "ON":
            if v.b is None:
                if M.pyerr is None:
                    M.pyerr = SystemError("NULL object passed to Py_BuildValue")
                return NULL
            if c == "O":
                incref(M, v)
            out.append(v)
        elif c in "ilnkIh":
            out.append(pyobj(M, v if is_sym(v) else int(v)))
        elif c in "fd":
            out.append(pyobj(M, v))
        else:
            raise Unsupported("Py_BuildValue %r" % fmt)
    if len(out) == 1 and "(" not in fmt:
        return out[0]
    return _tuple(M, out)


@nat("PyTuple_Pack")
def _pack(M, a):
    for v in a[1:]:
        incref(M, v)
    return _tuple(M, list(a[1:]))


# ------------------------------------------------------------------ entry points
def extension(rel, init, repo=None):
    """the Python module implemented by a C++ source file: its functions run in the interpreter"""
    mod = module(rel, repo=repo)
    M = Machine(mod)
    M.lines = []
    M.methods = {}
    if M.mod.fn("@" + init) is None:
        raise Unsupported("no %s in %s" % (init, rel))
    r = M.call("@" + init, [])
    m = types.ModuleType(init)
    m.machine = M

    def wrap(fn):
        def call(*args):
            M.pyerr = None
            tup = Block(64, "tuple", "arguments")
            tup.cells[0] = (8, 1)
            tup.obj = args
            try:
                r = M.call(fn.name, [NULL, Ptr(tup, 0)])
            except CxxThrow as e:
                raise MemoryFault("a C++ exception (%s) leaves the extension" % e.tinfo)
            if r.b is None:
                if M.pyerr is None:
                    raise SystemError("returned NULL without setting an exception")
                e, M.pyerr = M.pyerr, None
                raise e
            if M.pyerr is not None:
                raise SystemError("returned a result with an exception set")
            return from_py(M, r)
        return call
    for n, fn in M.methods.items():
        setattr(m, n, wrap(fn))
    return m


def function(mod, dem_prefix):
    """mangled name of a function by its unqualified name"""
    for n in mod.fsrc:
        d = mod.dem[n]
        if re.match(r"(.* )?%s\(" % re.escape(dem_prefix), d):
            return n
    return None


# ------------------------------------------------------------------ OpenMP
THREADS = [1]        # number of threads of a parallel region
PERMUTE = [False]    # whether their order is a symbolic choice


@nat("__kmpc_fork_call")
def _fork(M, a):
    fn, args = a[2], list(a[3:])
    nested = M.team is not None
    T = 1 if nested else max(1, THREADS[0])
    old = (M.team, M.thread, M.log)
    reads, writes = {}, {}
    clash = []
    order = list(range(T))
    if T > 1 and PERMUTE[0]:
        from .snp import nondet_perm
        order = [int(v) for v in nondet_perm(T)]
    for t in order:
        if not nested:
            M.team, M.thread = T, t
            M.dispatch = None
            if T > 1:
                def log(b, o, sz, write, t=t):
                    for k in range(o, o + sz):
                        key = (id(b), k)
                        if write:
                            if writes.get(key, t) != t or any(u != t for u in reads.get(key, ())):
                                clash.append(b)
                            writes[key] = t
                        else:
                            if writes.get(key, t) != t:
                                clash.append(b)
                            s = reads.get(key)
                            if s is None:
                                reads[key] = {t}
                            else:
                                s.add(t)
                    M.keep.append(b)
                M.log = log
        ids = []
        for v in (t, 0):
            b = Block(4, "stack", "thread id")
            b.cells[0] = (4, v)
            ids.append(Ptr(b, 0))
        M.call(fn.name, ids + args)
    M.team, M.thread, M.log = old
    if clash:
        from .pyx import note_race
        note_race("two threads access %s" % (clash[0],))


@nat("__kmpc_global_thread_num", "omp_get_thread_num")
def _gtid(M, a):
    return M.thread or 0


@nat("omp_get_num_threads")
def _nthreads(M, a):
    return M.team or 1


@nat("omp_get_max_threads", "omp_get_num_procs")
def _maxthreads(M, a):
    return max(1, THREADS[0])


@natp(r"^(__kmpc_push_num_threads|omp_set_num_threads|omp_set_dynamic|__kmpc_for_static_fini|__kmpc_dispatch_fini_\w+)$")
def _omp_none(M, a):
    return None


def _share(M, lo, hi, st):
    """iterations of the current thread: at most ceil(n/T) consecutive ones"""
    n = (hi - lo) // st + 1 if (hi >= lo) == (st > 0) else 0
    T, t = M.team or 1, M.thread or 0
    k = -(-n // T) if n else 0
    a, b = t * k, min(n, (t + 1) * k)
    return a, b, n


@natp(r"^__kmpc_for_static_init_[48]u?$")
def _static(M, a):
    raise Unsupported("replaced at lookup")


def _static_for(sz, signed):
    def f(M, a):
        sched = int(a[2])
        if sched not in (33, 34):
            raise Unsupported("OpenMP schedule %d" % sched)
        lo, hi = M.load(a[4], sz, "i"), M.load(a[5], sz, "i")
        if not signed:
            lo, hi = to_u(lo, 8 * sz), to_u(hi, 8 * sz)
        lo, hi, st = int(lo), int(hi), int(a[7])
        x, y, n = _share(M, lo, hi, st)
        if x >= y:
            # no iteration for this thread
            M.store(a[4], sz, wrap_s(hi + st, 8 * sz))
            M.store(a[5], sz, wrap_s(hi, 8 * sz))
            last = 0
        else:
            M.store(a[4], sz, wrap_s(lo + x * st, 8 * sz))
            M.store(a[5], sz, wrap_s(lo + (y - 1) * st, 8 * sz))
            last = 1 if y == n else 0
        M.store(a[3], 4, last)
        M.store(a[6], sz, wrap_s(max(1, n) * st, 8 * sz))
    return f


for _z in (4, 8):
    for _u in ("", "u"):
        EXACT["__kmpc_for_static_init_%d%s" % (_z, _u)] = _static_for(_z, not _u)


def _dispatch(sz, signed):
    def init(M, a):
        lo, hi = a[3], a[4]
        if not signed:
            lo, hi = to_u(lo, 8 * sz), to_u(hi, 8 * sz)
        M.dispatch = (int(lo), int(hi), int(a[5]))

    def nxt(M, a):
        if M.dispatch is None:
            return 0
        lo, hi, st = M.dispatch
        M.dispatch = None
        x, y, n = _share(M, lo, hi, st)
        if x >= y:
            return 0
        M.store(a[2], 4, 1 if y == n else 0)
        M.store(a[3], sz, wrap_s(lo + x * st, 8 * sz))
        M.store(a[4], sz, wrap_s(lo + (y - 1) * st, 8 * sz))
        M.store(a[5], sz, wrap_s(st, 8 * sz))
        return 1
    return init, nxt


for _z in (4, 8):
    for _u in ("", "u"):
        _i, _x = _dispatch(_z, not _u)
        EXACT["__kmpc_dispatch_init_%d%s" % (_z, _u)] = _i
        EXACT["__kmpc_dispatch_next_%d%s" % (_z, _u)] = _x


@natp(r"^__kmpc_(reduce_nowait|reduce)$")
def _reduce(M, a):
    M.atomic += 1
    return 1


@natp(r"^__kmpc_(end_reduce_nowait|end_reduce|end_critical)$")
def _end_reduce(M, a):
    M.atomic -= 1


@natp(r"^__kmpc_critical(_with_hint)?$")
def _critical(M, a):
    M.atomic += 1


@natp(r"^__kmpc_(barrier|single|master)$")
def _barrier(M, a):
    if (M.team or 1) > 1:
        raise Unsupported("OpenMP barrier inside a parallel region")
    return 1
