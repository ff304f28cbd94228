"""Loads rankeval's real source from the repository into an isolated module namespace in which numpy is
the façade, chosen modules are stubs, and a few builtins understand symbolic values."""
import builtins, types, os, sys, importlib, hashlib, ast, re
import numpy as rnp
from .core import (SymNum, SymBool, Unsupported, is_sym, mk, _trunc, num_expr, is_int_term, eng, sym_ite)
from . import snp

REPO = os.environ.get("VERIF_REPO", "/repo")

# ------------------------------------------------------------------ builtins
TOKENS = {}      # text token -> symbolic value (per path; filled by text harnesses)


def _tok(s):
    if isinstance(s, bytes):
        try:
            s = s.decode()
        except UnicodeDecodeError:
            return None
    if isinstance(s, str):
        return TOKENS.get(s.strip())
    return None


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, (str, bytes)):
            t = _tok(x)
            if t is not None:
                return t.toreal()
            return builtins.float(x)
        if isinstance(x, SymNum):
            return x.toreal()
        if isinstance(x, SymBool):
            return x.as_num().toreal()
        if isinstance(x, rnp.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.reshape(-1)[0])
        return builtins.float(x)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, SymNum) and not x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)

    def __getattr__(cls, n):
        return getattr(builtins.float, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=_FloatMeta):
    dtype = rnp.dtype(float)


class _IntMeta(type):
    def __call__(cls, x=0, *base):
        if isinstance(x, (str, bytes)):
            t = _tok(x)
            if t is not None and not base:
                if not t.is_int:
                    raise Unsupported("int() of a token that stands for a real")
                return t
            return builtins.int(x, *base)
        if isinstance(x, SymNum):
            return x if x.is_int else mk(_trunc(x.expr))
        if isinstance(x, SymBool):
            return x.as_num()
        if isinstance(x, rnp.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.reshape(-1)[0])
        return builtins.int(x, *base)

    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, SymNum) and x.is_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __getattr__(cls, n):
        return getattr(builtins.int, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class SymInt(metaclass=_IntMeta):
    dtype = rnp.dtype(int)


class _BoolMeta(type):
    def __call__(cls, x=False):
        return builtins.bool(x)

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is builtins.bool

    def __hash__(cls):
        return hash(builtins.bool)


class SymBoolType(metaclass=_BoolMeta):
    dtype = rnp.dtype(bool)


def sym_range(*a):
    return range(*[int(v) if is_sym(v) else v for v in a])


def sym_pow(a, b, mod=None):
    if is_sym(a) or is_sym(b):
        return a ** b
    return pow(a, b) if mod is None else pow(a, b, mod)


def sym_print(*a, **k):
    pass


def base_builtins(imp, extra=None):
    from . import hashmodel
    d = dict(builtins.__dict__)
    d.update(float=SymFloat, int=SymInt, bool=SymBoolType, range=sym_range, pow=sym_pow, print=sym_print,
             __import__=imp, hash=hashmodel.sym_hash, __sym_mod__=sym_strmod)
    if extra:
        d.update(extra)
    return d


_CODE = {}     # compiled source of this process's run (each check is a fresh process)


class _ModOp(ast.NodeTransformer):
    """a % b -> __sym_mod__(a, b): text formatting of symbolic numbers (C-level % formatting cannot be overloaded)."""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.Name, ast.Attribute, ast.JoinedStr, ast.BinOp, ast.Call)) and \
                not (isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str)):
            return ast.copy_location(ast.Call(ast.Name("__sym_mod__", ast.Load()), [n.left, n.right], []), n)
        return n


_CONV = re.compile(r"%(\((\w+)\))?([-+ #0]*)(\d*)(\.\d+)?([diouxXeEfFgGcrsa%])")


def sym_strmod(fmt, args):
    if not isinstance(fmt, str) or SymNum.FORMAT_HOOK is None:
        return fmt % args
    a = args if isinstance(args, tuple) else (args,)
    if isinstance(args, dict) or not builtins.any(isinstance(v, SymNum) for v in a):
        return fmt % args
    out, pos, k = [], 0, 0
    for m in _CONV.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(6) == "%":
            out.append("%")
            continue
        v = a[k]
        k += 1
        if isinstance(v, SymNum):
            if m.group(6) in "di":
                v = v if v.is_int else mk(_trunc(v.expr))
            spec = (m.group(5) or "") + m.group(6)
            out.append(SymNum.FORMAT_HOOK(v, {"s": "r", "a": "r", "d": "d", "i": "d"}.get(m.group(6), spec)))
        else:
            out.append(m.group(0) % (v,))
    out.append(fmt[pos:])
    return "".join(out)


class NotStubbed(object):
    pass


class LazyModule(types.ModuleType):
    """A real third-party module, imported on first use (most harnesses never touch it)."""
    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__version__",):
            raise AttributeError(n)
        m = importlib.import_module(self.__name__)
        try:
            return getattr(m, n)
        except AttributeError:
            return importlib.import_module(self.__name__ + "." + n)


LAZY = ["scipy", "scipy.stats", "xarray", "pandas", "sklearn", "matplotlib", "seaborn"]


EXT_STUBS = {"rankeval.dataset._svmlight_format": ["_load_svmlight_file", "_dump_svmlight_file"],
             "rankeval.scoring._efficient_scoring": ["basic_scoring", "detailed_scoring"],
             "rankeval.analysis._efficient_feature": ["eff_feature_importance", "eff_feature_importance_tree"],
             "rankeval.analysis._efficient_topological": ["efficient_topological_analysis"]}


def _ext_missing(n, a):
    def f(*args, **k):
        raise Unsupported("%s.%s called without a model in this harness" % (n, a))
    return f


class Loader(object):
    """One isolated universe of rankeval modules."""
    def __init__(self, stubs=None, builtins_extra=None, repo=None, pyx=None):
        self.repo = repo or REPO
        self.mods = {}
        self.stubs = {"numpy": snp.facade, "numpy.random": snp.facade.random}
        from . import hashmodel
        self.stubs["hashlib"] = hashmodel.module()
        from . import smath
        self.stubs["math"] = smath.module()
        for n, attrs in EXT_STUBS.items():
            self.stubs[n] = stub_module(n, **{a: _ext_missing(n, a) for a in attrs})
        for n in LAZY:
            self.stubs[n] = LazyModule(n)
        from . import xrstub
        self.stubs["xarray"] = xrstub.module()
        self.stubs.update(stubs or {})
        self.stubs = {k: v for k, v in self.stubs.items() if v is not None}
        for n, v in list(self.stubs.items()):
            parent, _, leaf = n.rpartition(".")
            if parent in self.stubs and isinstance(self.stubs[parent], types.ModuleType) and parent != "numpy":
                setattr(self.stubs[parent], leaf, v)
        self.pyx = pyx or {}
        self.builtins = base_builtins(self._import, builtins_extra)
        self.sources = {}

    def _path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.stubs:
            return self.stubs[name]
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, is_pkg = self._path(name)
        if not os.path.exists(path):
            if name in self.pyx or os.path.exists(path[:-3] + ".pyx"):
                from . import pyx
                m = pyx.load(name, path[:-3] + ".pyx", self)
                self.mods[name] = m
                self._bind(name, m)
                return m
            raise ModuleNotFoundError("No module named %r" % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        code = _CODE.get(path)
        if code is None:
            src = open(path, encoding="utf-8").read()
            tree = _ModOp().visit(ast.parse(src, path))
            ast.fix_missing_locations(tree)
            code = _CODE[path] = compile(tree, path, "exec")
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        self._bind(name, m)
        return m

    def _bind(self, name, m):
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            if parent in self.mods:
                setattr(self.mods[parent], leaf, m)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - level + 1])
            name = base + ("." + name if name else "")
        if name in self.stubs or name.split(".")[0] == "rankeval" or name in self.mods:
            m = self.load(name)
            if not fromlist:
                if name in self.stubs and "." not in name:
                    return m
                return self.load(name.split(".")[0])
            for f in fromlist:
                if f == "*":
                    continue
                sub = name + "." + f
                if sub in self.stubs:
                    if isinstance(m, types.ModuleType) and m is not snp.facade:
                        setattr(m, f, self.stubs[sub])
                    continue
                if not hasattr(m, f):
                    if hasattr(m, "__path__"):
                        try:
                            self.load(sub)
                        except ModuleNotFoundError:
                            pass
            return m
        top = name.split(".")[0]
        if top in self.stubs and name != top:
            # a submodule of a stubbed package
            if not fromlist:
                return self.stubs[top]
            m = self.stubs[top]
            for part in name.split(".")[1:]:
                m = getattr(m, part)
            return m
        return builtins.__import__(name, globals, locals, fromlist, 0)


def stub_module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m
