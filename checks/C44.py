"""Performance per query class."""
from symx.runner import Job
from .analysis_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..2 datasets of 1..4 queries, every assignment of up to 3 classes (numbers or names, as lists or arrays) to the queries, 1..2 models, 1..2 metrics, any score of every document, metrics undefined (not-a-number) on some queries; up to 130 queries and 20 classes with one symbolic score"
OUTSIDE = "single-precision rounding; classes of mixed types"
ASSUMPTIONS = ["xarray stores data and coordinates as given"]
CLASSES = {"int": [7, 0, 3], "str": ["nav", "info", "transact"]}


def h_class(E):
    c = E.cfg
    P = E.mod("rankeval.analysis.effectiveness")
    class Probe(probe_class(E)):
        def eval_per_query(self, y, y_pred):
            return float("nan") if y[0] < 0 else super(Probe, self).eval_per_query(y, y_pred)
    sizes = c["sizes"]
    n = [sum(s) for s in sizes]
    N = max(n)
    models, cons = [], []
    for k in range(c.get("models", 1)):
        m, con = free_model(E, "m%d" % k, 1, N)
        models.append(m)
        cons.append([r[0] for r in con])
    ds, undef = [], []
    for k, s in enumerate(sizes):
        u = [bool(c.get("undef")) and E.cbool("undef%d_%d" % (k, g)) for g in range(len(s))]
        undef.append(u)
        ds.append(doc_dataset(E, s, [-1.0 if v else 0.0 for v, g in zip(u, s) for _ in range(g)], "d%d" % k))
    metrics = [Probe("p%d" % k, 1.0 + k) for k in range(c.get("metrics", 1))]
    cl = [[E.pick("c%d_%d" % (a, q), CLASSES[c["kind"]][:c.get("nc", 3)]) for q in range(len(s))] for a, s in enumerate(sizes)]
    arg = [E.np.array(v) for v in cl] if c.get("arr") else cl
    da = P.query_class_performance(ds, models, metrics, arg, cache=c.get("cache", False))
    want = sorted(set(x for v in cl for x in v))
    E.check(tuple(da.dims) == ("dataset", "model", "metric", "classes") and da.values.shape == (len(ds), len(models), len(metrics), len(want)), "shape of the result")
    same_objects(E, coord(da, "dataset"), ds, "dataset labels")
    same_objects(E, coord(da, "model"), models, "model labels")
    same_objects(E, coord(da, "metric"), metrics, "metric labels")
    E.check([str(x) for x in coord(da, "classes")] == [str(x) for x in want], "classes listed")
    E.observe("perf", da.values)
    for a in range(len(ds)):
        for b in range(len(models)):
            for k, mt in enumerate(metrics):
                pq = [mt.value([0.0] * (q - p), cons[b][p:q]) for p, q in query_spans(sizes[a])]
                for x, w in enumerate(want):
                    sel = [pq[i] for i in range(len(pq)) if cl[a][i] == w and not undef[a][i]]
                    v = da.values[a][b][k][x]
                    if not sel:
                        E.check(is_nan(E, v), "a class without queries in the dataset (on which the metric is defined) has a value")
                    elif E.check(not is_nan(E, v), "the entry of a class is missing"):
                        E.close(v, mean(sel), "entry is not the mean metric of the queries of the class")


def h_large(E):
    """many queries and classes"""
    c = E.cfg
    P = E.mod("rankeval.analysis.effectiveness")
    mt = probe_class(E)("p", 1.0)
    N = max(sum(s) for s in c["sizes"])
    models, cons = [], []
    for k in range(c.get("models", 1)):
        m, con = free_model(E, "m%d" % k, 1, N, vals=fixed_values(E, "m%d" % k, 1, N))
        models.append(m)
        cons.append([r[0] for r in con])
    ds = [doc_dataset(E, s, None, "d%d" % k) for k, s in enumerate(c["sizes"])]
    nc = c["nc"]
    cl = [[(q * q + a) % nc * 3 - 5 for q in range(len(s))] for a, s in enumerate(c["sizes"])]
    if c["kind"] == "str":
        cl = [["c%d" % v for v in u] for u in cl]
    da = P.query_class_performance(ds, models, [mt], cl)
    want = sorted(set(x for v in cl for x in v))
    E.check([str(x) for x in coord(da, "classes")] == [str(x) for x in want] and da.values.shape == (len(ds), len(models), 1, len(want)), "classes listed")
    for a, sz in enumerate(c["sizes"]):
        for b in range(len(models)):
            pq = [mt.value([0.0] * (q - p), cons[b][p:q]) for p, q in query_spans(sz)]
            for x, w in enumerate(want):
                sel = [pq[i] for i in range(len(pq)) if cl[a][i] == w]
                v = da.values[a][b][0][x]
                if not sel:
                    E.check(is_nan(E, v), "a class without queries in the dataset (on which the metric is defined) has a value")
                elif E.check(not is_nan(E, v), "the entry of a class is missing"):
                    E.close(v, mean(sel), "entry is not the mean metric of the queries of the class")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda **c: out.append(Job(h_class, c, stubs=SCORING, needs_ext=True, weight=3 ** sum(len(s) for s in c["sizes"])))
    for kind in ("int", "str"):
        for arr in (False, True):
            J(sizes=[(1, 2, 1)], kind=kind, arr=arr)
            J(sizes=[(1, 1), (2,)], kind=kind, arr=arr, metrics=2)
    J(sizes=[(1,), (1, 1)], kind="str", models=2, cache=True)
    J(sizes=[(1, 1, 1, 1)], kind="int", nc=2)
    J(sizes=[(1, 1, 1)], kind="int", nc=2, undef=True)
    J(sizes=[(1, 2), (1,)], kind="str", nc=2, undef=True)
    if TH:
        J(sizes=[(1, 1, 1), (1, 1)], kind="str", arr=True)
        J(sizes=[(1, 1, 1, 1, 1)], kind="int", nc=3)
    L = lambda **c: out.append(Job(h_large, c, stubs=SCORING, needs_ext=True, weight=20))
    L(sizes=[many_sizes(90), many_sizes(20)], nc=40, kind="int")
    L(sizes=[many_sizes(60, 50), many_sizes(130)], nc=13, kind="str", models=2)
    return out
