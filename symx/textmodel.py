"""Numbers in text: a symbolic number is spelled as a unique numeral that the loaders' float()/int() map back."""
import os, atexit, shutil, tempfile
import z3
from . import loader
from .core import SymNum, Unsupported, is_sym, mk, eng, sym_and

_DIR = None


def make_dir():
    """the scratch folder of this run; worker processes inherit it and the main process removes it"""
    global _DIR
    if _DIR is None:
        _DIR = tempfile.mkdtemp(prefix="vtext_")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_DIR, ignore_errors=True))


def tmpfile(name, text=None):
    if _DIR is None:
        make_dir()
    p = os.path.join(_DIR, "%d_%s" % (os.getpid(), name))
    if text is None:
        if os.path.exists(p):
            os.unlink(p)
    else:
        with open(p, "w" if isinstance(text, str) else "wb") as f:
            f.write(text)
    return p


def token(E, v, style="plain"):
    k = len(loader.TOKENS) + 1
    t = "9%04d.000017" % k if not getattr(v, "is_int", False) else "9%06d" % k
    if style == "neg":
        E.assume(v < 0)
        t = "-" + t
    elif style == "exp":
        t = "9.%04d00017e-05" % k
    elif style == "expneg":
        E.assume(v < 0)
        t = "-9.%04d00017E+12" % k
    elif style == "plain":
        pass
    else:
        raise ValueError(style)
    loader.TOKENS[t] = v
    return t


def conc_text(v, style):
    v = float(v)
    if style == "exp":
        return "%.12e" % v
    if style == "expneg":
        return "%.12E" % v
    if style == "neg":
        return repr(v)
    return repr(v)


def fmt(E, v, spec):
    """text the real code would produce for v under a format specification"""
    spec = spec.strip("<>^+- 0")
    if spec in ("", "r", "s", "d"):
        return token(E, v)
    kind = spec[-1]
    prec = spec[:-1].split(".")[-1] if "." in spec else ""
    d = int(prec) if prec else 6
    if kind in "fF":
        if d > 30:
            return token(E, v)
        sc = 10 ** d
        e = v.toreal().expr * sc
        r = mk(z3.ToReal(z3.ToInt(e + z3.RealVal("1/2"))) / sc)
        return token(E, r)
    if kind in "gGeE":
        digits = d if kind in "gG" else d + 1
        if digits >= 17:
            return token(E, v)
        p = eng().fresh_real("!fmt")
        a = abs(v)
        lim = a * (5.0 * 10.0 ** -digits)
        eng().assume(sym_and(p - v <= lim, v - p <= lim))
        return token(E, p)
    raise Unsupported("format %r of a symbolic number" % spec)
