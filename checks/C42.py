"""Tree-wise average contribution."""
from symx.runner import Job
from .analysis_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..2 datasets of 1..3 documents, 1..3 models of 1..4 trees, any partial score (either sign) of every document and tree, weights, learning rate, base score; 300 trees or 400 documents with one symbolic partial score per model"
OUTSIDE = "single-precision rounding; larger ensembles and datasets with all scores symbolic"
ASSUMPTIONS = ["xarray stores data and coordinates as given"]


def h_avg(E):
    c = E.cfg
    P = E.mod("rankeval.analysis.effectiveness")
    sizes = c["sizes"]
    n = [sum(s) for s in sizes]
    N = max(n)
    models, cons = [], []
    for k, t in enumerate(c["trees"]):
        m, con = free_model(E, "m%d" % k, t, N, E.real("lr", 0.125, 2) if k == c.get("lr") else None, E.real("base", -4, 4) if k == c.get("base") else None, weights=c.get("weights", False))
        models.append(m)
        cons.append(con)
    ds = [doc_dataset(E, s, None, "d%d" % k) for k, s in enumerate(sizes)]
    cache = E.cbool("cache")
    if c.get("basic_first"):
        models[0].score(ds[0], cache=cache)
    da = P.tree_wise_average_contribution(ds, models, cache=cache)
    T = max(c["trees"])
    E.check(tuple(da.dims) == ("dataset", "model", "trees") and da.values.shape == (len(ds), len(models), T), "shape of the result")
    same_objects(E, coord(da, "dataset"), ds, "dataset labels")
    same_objects(E, coord(da, "model"), models, "model labels")
    E.check([int(v) for v in coord(da, "trees")] == list(range(T)), "tree labels")
    E.observe("avg", da.values)
    for a in range(len(ds)):
        for b in range(len(models)):
            for k in range(T):
                v = da.values[a][b][k]
                if k >= c["trees"][b]:
                    E.check(is_nan(E, v), "an entry beyond the last tree of a model is not empty")
                else:
                    E.close(v, mean([absval(E, cons[b][i][k]) for i in range(n[a])]), "average contribution of a tree is not the mean absolute partial score")


def h_large(E):
    c = E.cfg
    P = E.mod("rankeval.analysis.effectiveness")
    sizes, trees = c["sizes"], c["trees"]
    n = sum(sizes)
    models, cons = [], []
    for k, t in enumerate(trees):
        m, con = free_model(E, "m%d" % k, t, n, 0.5 if k else None, 1.5 if k == 0 else None, vals=fixed_values(E, "m%d" % k, t, n))
        models.append(m)
        cons.append(con)
    da = P.tree_wise_average_contribution([doc_dataset(E, sizes)], models, cache=c.get("cache", False))
    T = max(trees)
    E.check(da.values.shape == (1, len(models), T), "shape of the result")
    E.check([int(v) for v in coord(da, "trees")] == list(range(T)), "tree labels")
    for b in range(len(models)):
        for k in range(T):
            v = da.values[0][b][k]
            if k >= trees[b]:
                E.check(is_nan(E, v), "an entry beyond the last tree of a model is not empty")
            else:
                E.close(v, mean([absval(E, cons[b][i][k]) for i in range(n)]), "average contribution of a tree is not the mean absolute partial score")


def absval(E, v):
    return E.ite(v >= 0, v, -v)


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda **c: out.append(Job(h_avg, c, stubs=SCORING, needs_ext=True, weight=sum(c["trees"])))
    J(sizes=[(2, 1)], trees=[2])
    J(sizes=[(1,)], trees=[4, 1], base=0)
    J(sizes=[(3,), (1, 1)], trees=[1, 2], lr=1)
    J(sizes=[(2,)], trees=[1, 3, 2], weights=True, base=2)
    J(sizes=[(1, 1)], trees=[2, 2], basic_first=True)
    if TH:
        J(sizes=[(2, 3)], trees=[3])
        J(sizes=[(2, 1), (1, 1)], trees=[3, 5], base=1)
    L = lambda **c: out.append(Job(h_large, c, stubs=SCORING, needs_ext=True, weight=20))
    L(trees=[300, 30], sizes=(2, 1))
    L(trees=[3, 130], sizes=(1, 2), cache=True)
    L(trees=[4], sizes=many_sizes(70, 280))
    return out
