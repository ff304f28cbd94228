"""Contract stubs of the scipy.stats functions rankeval delegates to (used during symbolic execution only;
replays use the real scipy).  The accepted arguments are those of the installed scipy."""
import types, inspect, math
from symx.core import Unsupported
import numpy as rnp


def _bind(real, a, k):
    inspect.signature(real).bind(*a, **k)      # TypeError exactly when the installed scipy would raise it


class _Res(object):
    def __init__(self, c, p=0.5):
        self.correlation = self.statistic = c
        self.pvalue = p

    def __iter__(self):
        return iter((self.correlation, self.pvalue))

    def __getitem__(self, i):
        return (self.correlation, self.pvalue)[i]


def _cmp(a, b):
    return -1 if bool(a < b) else (1 if bool(b < a) else 0)


def tau_b(x, y):
    n = len(x)
    P = Q = T = U = 0
    for i in range(n):
        for j in range(i):
            a, b = _cmp(x[i], x[j]), _cmp(y[i], y[j])
            if a * b > 0:
                P += 1
            elif a * b < 0:
                Q += 1
            elif a == 0 and b != 0:
                T += 1
            elif b == 0 and a != 0:
                U += 1
    d = (P + Q + T) * (P + Q + U)
    return (P - Q) / math.sqrt(d) if d else float("nan")


def avg_ranks(x):
    n = len(x)
    return [1 + sum(1 for j in range(n) if _cmp(x[j], x[i]) < 0) +
            0.5 * sum(1 for j in range(n) if j != i and _cmp(x[j], x[i]) == 0) for i in range(n)]


def pearson(a, b):
    n = len(a)
    ma, mb = sum(a) / n, sum(b) / n
    va, vb = sum((t - ma) ** 2 for t in a), sum((t - mb) ** 2 for t in b)
    if va == 0 or vb == 0:
        return float("nan")
    return sum((s - ma) * (t - mb) for s, t in zip(a, b)) / math.sqrt(va * vb)


def make():
    import scipy.stats as real
    m = types.ModuleType("scipy.stats")

    def kendalltau(*a, **k):
        _bind(real.kendalltau, a, k)
        b = inspect.signature(real.kendalltau).bind(*a, **k)
        for extra in b.arguments:
            if extra == "variant" and b.arguments[extra] != "b" or extra == "alternative" and False:
                raise Unsupported("kendalltau(%s=...)" % extra)
        x, y = list(b.arguments["x"]), list(b.arguments["y"])
        if len(x) != len(y):
            raise ValueError("All inputs to `kendalltau` must be of the same size")
        return _Res(tau_b(x, y))

    def spearmanr(*a, **k):
        _bind(real.spearmanr, a, k)
        b = inspect.signature(real.spearmanr).bind(*a, **k)
        if set(b.arguments) - {"a", "b", "nan_policy", "alternative"}:
            raise Unsupported("spearmanr arguments")
        return _Res(pearson(avg_ranks(list(b.arguments["a"])), avg_ranks(list(b.arguments["b"]))))

    def rankdata(a, method="average", **k):
        if method != "average":
            raise Unsupported("rankdata method")
        return rnp.array(avg_ranks(list(a)))
    m.kendalltau = kendalltau
    m.spearmanr = spearmanr
    m.rankdata = rankdata

    def _missing(n):
        def f(*a, **k):
            raise Unsupported("scipy.stats.%s has no model" % n)
        return f
    m.__getattr__ = lambda n: _missing(n) if hasattr(real, n) else (_ for _ in ()).throw(AttributeError(n))
    return m


def stubs(E):
    st = make()
    sp = types.ModuleType("scipy")
    sp.stats = st
    return {"scipy": sp, "scipy.stats": st}
