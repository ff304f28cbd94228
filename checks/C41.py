"""Tree-wise performance."""
from symx.runner import Job
from .analysis_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..2 datasets, 1..3 models of 1..7 trees (thorough 12), every step 1..9 (thorough 14), probe metrics linear in the scores, any partial score of every document and tree, weights, learning rate, base score; 300 trees, 70 queries for a few steps with one symbolic partial score per model"
OUTSIDE = "single-precision rounding; larger ensembles with all scores symbolic"
ASSUMPTIONS = ["xarray stores data and coordinates as given"]


def steps(n, step):
    s = list(range(step, n + 1, step))
    if not s or s[-1] != n:
        s.append(n)
    return s


def h_curve(E):
    c = E.cfg
    step = E.cint("step", 1, c["steps"])
    Probe = probe_class(E)
    P = E.mod("rankeval.analysis.effectiveness")
    sizes = c.get("sizes", [(2, 1)])
    n = [sum(s) for s in sizes]
    N = max(n)
    models, cons = [], []
    for k, t in enumerate(c["trees"]):
        m, con = free_model(E, "m%d" % k, t, N, E.real("lr", 0.125, 2) if k == c.get("lr") else None, E.real("base", -4, 4) if k == c.get("base") else None, weights=c.get("weights", False))
        models.append(m)
        cons.append(con)
    ys = [[E.label("y%d_%d" % (k, i)) for i in range(n[k])] for k in range(len(sizes))]
    ds = [doc_dataset(E, s, ys[k], "d%d" % k) for k, s in enumerate(sizes)]
    metrics = [Probe("p%d" % k, 1.0 + k) for k in range(c.get("metrics", 1))]
    da = P.tree_wise_performance(ds, models, metrics, step=step, cache=c.get("cache", False))
    want = steps(max(c["trees"]), step)
    E.check(tuple(da.dims) == ("dataset", "model", "k", "metric"), "dimensions")
    E.check([int(v) for v in coord(da, "k")] == want, "listed numbers of trees: every multiple of the step and the whole model")
    E.check(da.values.shape == (len(ds), len(models), len(want), len(metrics)), "shape of the result")
    same_objects(E, coord(da, "dataset"), ds, "dataset labels")
    same_objects(E, coord(da, "model"), models, "model labels")
    same_objects(E, coord(da, "metric"), metrics, "metric labels")
    E.observe("curve", da.values)
    for a in range(len(ds)):
        for b, T in enumerate(c["trees"]):
            for x, k in enumerate(want):
                kk = min(k, T)
                done = x > 0 and want[x - 1] >= T
                s = [sum(cons[b][i][1:kk], cons[b][i][0]) for i in range(n[a])]
                for j, mt in enumerate(metrics):
                    v = da.values[a][b][x][j]
                    if done:
                        E.check(is_nan(E, v), "an entry beyond the last tree of a model is not empty")
                    else:
                        ref = mean([mt.value(ys[a][p:q], s[p:q]) for p, q in query_spans(sizes[a])])
                        if E.check(not is_nan(E, v), "an entry is missing"):
                            E.close(v, ref, "entry is not the metric of the model truncated to its first k trees")


def h_large(E):
    """hundreds of trees"""
    c = E.cfg
    step = E.pick("step", c["steps"])
    P = E.mod("rankeval.analysis.effectiveness")
    sizes, trees = c["sizes"], c["trees"]
    n = sum(sizes)
    mt = probe_class(E)("p", 1.0)
    models, cons = [], []
    for k, t in enumerate(trees):
        m, con = free_model(E, "m%d" % k, t, n, 0.5 if k else None, 1.5 if k == 0 else None, vals=fixed_values(E, "m%d" % k, t, n))
        models.append(m)
        cons.append(con)
    y = [float(i % 3) for i in range(n)]
    d = doc_dataset(E, sizes, y)
    da = P.tree_wise_performance([d], models, [mt], step=step, cache=c.get("cache", False))
    want = steps(max(trees), step)
    E.check([int(v) for v in coord(da, "k")] == want, "listed numbers of trees: every multiple of the step and the whole model")
    E.check(da.values.shape == (1, len(models), len(want), 1), "shape of the result")
    for b, T in enumerate(trees):
        s, at, done = [0.0] * n, 0, False
        for x, k in enumerate(want):
            v = da.values[0][b][x][0]
            if done:
                E.check(is_nan(E, v), "an entry beyond the last tree of a model is not empty")
                continue
            while at < min(k, T):
                s = [s[i] + cons[b][i][at] for i in range(n)]
                at += 1
            done = k >= T
            if E.check(not is_nan(E, v), "an entry is missing"):
                E.close(v, mean([mt.value(y[p:q], s[p:q]) for p, q in query_spans(sizes)]), "entry is not the metric of the model truncated to its first k trees")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda **c: out.append(Job(h_curve, c, stubs=SCORING, needs_ext=True, weight=sum(c["trees"])))
    for t in range(1, 13 if TH else 8):
        J(trees=[t], steps=min(t + 2, 14), weights=t in (2, 3), base=0 if t % 2 else None, lr=0 if t % 3 == 1 else None)
    J(trees=[3, 5], steps=6, base=1)
    J(trees=[5, 1, 4], steps=6, lr=2, cache=True)
    J(trees=[2, 2], steps=3, sizes=[(1, 2), (2, 2)], metrics=2)
    if TH:
        J(trees=[7, 10], steps=11)
    L = lambda **c: out.append(Job(h_large, c, stubs=SCORING, needs_ext=True, weight=20))
    L(trees=[300], sizes=(2, 1), steps=[1, 10, 64, 299, 300, 1000])
    L(trees=[20, 130], sizes=(1, 2), steps=[7, 128, 13], cache=True)
    L(trees=[12], sizes=many_sizes(70, 40), steps=[1, 5])
    return out
