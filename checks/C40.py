"""Model performance table."""
from symx.runner import Job
from .analysis_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..2 datasets of 1..3 queries, 1..3 models of 1..2 trees, 1..3 metrics (probe metrics linear in the scores, with different or the same name; NDCG, Precision, MRR, MSE), any score of every document, learning rate, base score, " \
         "cached or not, called twice; 60 queries, or 20 datasets, or 9 models and 6 metrics, with one score per model free"
OUTSIDE = "single-precision rounding; larger tables with all scores symbolic"
ASSUMPTIONS = ["xarray stores data and coordinates as given"]


def h_table(E):
    c = E.cfg
    cache = E.cbool("cache")
    Probe = probe_class(E)
    P = E.mod("rankeval.analysis.effectiveness")
    sizes = c["sizes"]
    n = [sum(s) for s in sizes]
    N = max(n)
    lr, base = E.real("lr", 0.125, 2), E.real("base", -4, 4)
    models, cons = [], []
    for k, t in enumerate(c["trees"]):
        m, con = free_model(E, "m%d" % k, t, N, lr if k == 1 else None, base if k == len(c["trees"]) - 1 else None)
        models.append(m)
        cons.append([sum(r[1:], r[0]) for r in con])
    perms = [list(range(N))[:n[0]], list(reversed(range(N)))[:n[-1]]]
    ds, ys = [], []
    for k, s in enumerate(sizes):
        y = [E.label("y%d_%d" % (k, i)) for i in range(n[k])]
        ys.append(y)
        ds.append(doc_dataset(E, s, y, "d%d" % k, perm=perms[k]))
    metrics = [Probe("p" if c.get("same") else "p%d" % k, 1.0 + k) for k in range(c["metrics"])]
    da = P.model_performance(ds, models, metrics, cache=cache)
    if c.get("twice"):
        da = P.model_performance(ds, models, metrics, cache=E.cbool("cache2"))
    E.check(tuple(da.dims) == ("dataset", "model", "metric") and da.values.shape == (len(ds), len(models), len(metrics)), "shape of the table")
    same_objects(E, coord(da, "dataset"), ds, "dataset labels")
    same_objects(E, coord(da, "model"), models, "model labels")
    same_objects(E, coord(da, "metric"), metrics, "metric labels")
    E.observe("table", da.values)
    for a in range(len(ds)):
        for b in range(len(models)):
            s = [cons[b][perms[a][i]] for i in range(n[a])]
            for k, mt in enumerate(metrics):
                ref = mean([mt.value(ys[a][p:q], s[p:q]) for p, q in query_spans(sizes[a])])
                E.close(da.values[a][b][k], ref, "table entry is not the metric of the model's scores on the dataset")


def h_large(E):
    """many queries, models, metrics; one score per model free"""
    c = E.cfg
    P = E.mod("rankeval.analysis.effectiveness")
    Probe = probe_class(E)
    N = max(sum(s) for s in c["sizes"])
    models, cons = [], []
    for k in range(c["models"]):
        m, con = free_model(E, "m%d" % k, 1, N, vals=fixed_values(E, "m%d" % k, 1, N, 1 if k % 4 == 0 else 0))
        if k % 4:
            m, con = free_model(E, "m%d" % k, 1, N, vals=[[v + k for v in fixed_values(E, "", 1, N, 0)[0]]])
        models.append(m)
        cons.append([r[0] for r in con])
    ys = [[float((i * i + a) % 5) for i in range(sum(s))] for a, s in enumerate(c["sizes"])]
    ds = [doc_dataset(E, s, ys[a], "d%d" % a) for a, s in enumerate(c["sizes"])]
    metrics = [Probe("p%d" % k, 1.0 + k) for k in range(c["metrics"])]
    da = P.model_performance(ds, models, metrics, cache=c.get("cache", False))
    E.check(tuple(da.dims) == ("dataset", "model", "metric") and da.values.shape == (len(ds), len(models), len(metrics)), "shape of the table")
    for a in range(len(ds)):
        for b in range(len(models)):
            for k, mt in enumerate(metrics):
                ref = mean([mt.value(ys[a][p:q], cons[b][p:q]) for p, q in query_spans(c["sizes"][a])])
                E.close(da.values[a][b][k], ref, "table entry is not the metric of the model's scores on the dataset")


def h_real(E):
    """real metrics: every entry is that metric's own value of the model's scores"""
    P = E.mod("rankeval.analysis.effectiveness")
    M = E.mod("rankeval.metrics")
    sizes = [(2, 1), (1, 2)]
    models, cons = [], []
    for k in range(2):
        m, con = free_model(E, "m%d" % k, 1, 3)
        models.append(m)
        cons.append([r[0] for r in con])
    metrics = {"rank": lambda: [M.NDCG(cutoff=2), M.Precision(cutoff=1)], "gain": lambda: [M.NDCG(cutoff=2, implementation="flat"), M.NDCG(cutoff=2, implementation="exp")], "rr": lambda: [M.MRR(), M.MSE()]}[E.cfg["which"]]()
    ds = []
    for k, s in enumerate(sizes):
        y = [E.label("y%d_%d" % (k, i), 0, 2) if i < 2 else 1.0 for i in range(3)] if k == 0 else [1.0, 0.0, 2.0]
        ds.append(doc_dataset(E, s, y, "d%d" % k))
    da = P.model_performance(ds, models, metrics)
    E.observe("table", da.values)
    for a in range(2):
        for b in range(2):
            for k, mt in enumerate(metrics):
                y = E.farray(cons[b][:3], "float32")
                for i in range(3):
                    for j in range(i):
                        E.assume(E.not_(y[i] == y[j]))
                ref = mt.eval(ds[a], y)[0]
                E.close(da.values[a][b][k], ref, "table entry differs from the metric's own evaluation")


def jobs(tier):
    out = []
    J = lambda **c: out.append(Job(h_table, c, stubs=SCORING, needs_ext=True))
    J(sizes=[(2, 1)], trees=[2, 1], metrics=2)
    J(sizes=[(1, 2), (2, 2)], trees=[1, 2, 1], metrics=1)
    J(sizes=[(3,), (1, 1)], trees=[2], metrics=3)
    J(sizes=[(2, 1), (1, 2)], trees=[1, 1], metrics=2, twice=True)
    J(sizes=[(1, 1, 1), (2,)], trees=[1, 2], metrics=1, twice=True)
    J(sizes=[(2, 1)], trees=[1, 1], metrics=2, same=True)
    for w in ("rank", "rr", "gain"):
        out.append(Job(h_real, dict(which=w), stubs=SCORING, needs_ext=True, weight=20))
    for c in (dict(sizes=[many_sizes(60), many_sizes(9, 60)], models=2, metrics=2), dict(sizes=[(2, 1)] * 5 + [(1, 2), (3,)], models=9, metrics=6, cache=True),
              dict(sizes=[(1, 1 + k % 2) for k in range(20)], models=2, metrics=1, cache=True)):
        out.append(Job(h_large, c, stubs=SCORING, needs_ext=True, weight=20))
    return out
