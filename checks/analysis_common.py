"""Shared by the analysis checks: models whose score of every document and tree is a free symbolic number, probe metrics, datasets."""
from .model_common import *
from .data_common import make_dataset

PRELOAD = ["rankeval.scoring._efficient_scoring"]


def selector(values):
    """a tree on feature 0 that gives document i (feature value i) values[i]"""
    n = len(values)
    if n > 12:
        def half(a, b):
            return values[a] if b - a == 1 else (0, (a + b) // 2 - 0.5, half(a, (a + b) // 2), half((a + b) // 2, b))
        return half(0, n)
    t = values[n - 1]
    for i in reversed(range(n - 1)):
        t = (0, i + 0.5, values[i], t)
    return t


def free_model(E, tag, n_trees, n_docs, lr=None, base=None, name=None, vals=None, weights=False):
    """(model, contributions[doc][tree]) with one free leaf value per document and tree"""
    vals = vals or [[E.real("%s_%d_%d" % (tag, k, i), -4, 4) for i in range(n_docs)] for k in range(n_trees)]
    w = [E.real("%sw%d" % (tag, k), 0, 2) for k in range(n_trees)] if weights else [1.0] * n_trees
    kw = dict(name=name or tag)
    if lr is not None:
        kw["learning_rate"] = lr
    if base is not None:
        kw["base_score"] = base
    m = make_model(E, [selector(v) for v in vals], w, **kw)
    con = [[vals[k][i] * w[k] * (1.0 if lr is None else lr) + (base if base is not None and k == 0 else 0.0) for k in range(n_trees)] for i in range(n_docs)]
    return m, con


def fixed_values(E, tag, n_trees, n_docs, free=1):
    """[tree][doc] fixed partial scores, free ones among them"""
    v = [[((k * 37 + i * 101 + (i * k) % 5) % 61) * 0.125 - 3.5 for i in range(n_docs)] for k in range(n_trees)]
    for f in range(free):
        v[(f * n_trees // free + n_trees // 2) % n_trees][(n_docs // 2 + f) % n_docs] = E.real("%s_free%d" % (tag, f), -4, 4)
    return v


def many_sizes(nq, big=0):
    return tuple(big if big and g == nq // 2 else 1 + (g * g) % 3 for g in range(nq))


def doc_dataset(E, sizes, y=None, name=None, first=5, ids=None, perm=None):
    """documents numbered by feature 0 (perm gives the numbers); queries of the given sizes with ids that are not 0..n-1"""
    n = sum(sizes)
    perm = perm or list(range(n))
    q = []
    for g, s in enumerate(sizes):
        q += [ids[g] if ids else first + 3 * (len(sizes) - g)] * s
    return make_dataset(E, [[float(perm[i]), 0.0] for i in range(n)], y or [0.0] * n, q, name=name)


def query_spans(sizes):
    out, o = [], 0
    for s in sizes:
        out.append((o, o + s))
        o += s
    return out


def probe_class(E):
    Metric = E.mod("rankeval.metrics").Metric

    class Probe(Metric):
        """a user-defined metric, linear in the scores"""
        def __init__(self, name="probe", a=1.0):
            super(Probe, self).__init__(name)
            self.a = a

        def eval(self, dataset, y_pred):
            return super(Probe, self).eval(dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            return self.value(list(y), list(y_pred))

        def value(self, y, s):
            t = 0.0
            for i in range(len(s)):
                t = t + s[i] * (self.a + 0.5 * i) + y[i] * 0.25
            return t / (len(s) + 1.0)

        def __str__(self):
            return self.name
    return Probe


def mean(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t / len(xs)


def coord(da, k):
    return list(da.coords[k].values)


def same_objects(E, got, want, what):
    E.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), what)


def is_nan(E, v):
    if type(v).__name__ == "SymNum":
        return False
    return float(v) != float(v)


def helper(mod, name, *a, **k):
    """an internal function, if the module (still) has one that takes these arguments; None otherwise"""
    import inspect
    f = getattr(mod, name, None)
    try:
        inspect.signature(f).bind(*a, **k)
    except TypeError:
        return None
    return f
