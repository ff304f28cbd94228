"""Document graded relevance: cumulative distribution of the scores of the documents of each label."""
from symx.runner import Job
from .analysis_common import *
from .C43 import check_cdf, minmax

PRELOAD_PYX = PRELOAD
BOUNDS = "1..2 datasets of 1..4 documents, every assignment of labels out of three values (not contiguous, not all integers), 1..2 models, any score of every document, 1..3 bins, any range or the default; up to 400 documents, 100 bins with fixed scores (any start of the range)"
OUTSIDE = "scores within 0.001 of an inner threshold may be counted on either side; single-precision rounding"
ASSUMPTIONS = ["xarray stores data and coordinates as given"]


def h_graded(E):
    c = E.cfg
    P = E.mod("rankeval.analysis.effectiveness")
    sizes = c["sizes"]
    n = [sum(s) for s in sizes]
    N = max(n)
    models, cons = [], []
    for k in range(c.get("models", 1)):
        m, con = free_model(E, "m%d" % k, 1, N)
        models.append(m)
        cons.append([r[0] for r in con])
    L = c.get("labels", [4.0, 0.0, 2.0])
    ys = [[E.pick("y%d_%d" % (a, i), L) for i in range(n[a])] for a in range(len(sizes))]
    ds = [doc_dataset(E, s, ys[a], "d%d" % a) for a, s in enumerate(sizes)]
    kw = {}
    rng = c.get("range", "")
    bins = c["bins"]
    all_s = [cons[b][i] for b in range(len(models)) for a in range(len(ds)) for i in range(n[a])]
    lo, hi = minmax(E, all_s)
    if rng:
        start, end = E.real("start", -4, 4), E.real("end", -4, 4)
        E.assume(end >= start + 0.5)
        if "s" in rng:
            kw["start"] = lo = start
        if "e" in rng:
            kw["end"] = hi = end
        E.assume(hi >= lo)
    da = P.document_graded_relevance(ds, models, bins=bins, cache=c.get("cache", False), **kw)
    want = sorted(set(v for y in ys for v in y))
    E.check(tuple(da.dims) == ("dataset", "model", "label", "bin") and da.values.shape == (len(ds), len(models), len(want), bins), "shape of the result")
    same_objects(E, coord(da, "dataset"), ds, "dataset labels")
    same_objects(E, coord(da, "model"), models, "model labels")
    E.check([float(v) for v in coord(da, "label")] == want, "relevance labels listed")
    for b, t in enumerate(coord(da, "bin")):
        E.close(t, lo + (hi - lo) * ((b + 1.0) / bins), "threshold listed for a bin")
    for a in range(len(ds)):
        for b in range(len(models)):
            for x, l in enumerate(want):
                s = [cons[b][i] for i in range(n[a]) if ys[a][i] == l]
                if not s:
                    E.check(all(is_nan(E, v) for v in da.values[a][b][x]), "a label that is not in the dataset has values")
                else:
                    check_cdf(E, da.values[a][b][x], s, lo, hi, bins, "graded relevance")


def h_large(E):
    """many documents"""
    c = E.cfg
    P = E.mod("rankeval.analysis.effectiveness")
    N = max(sum(s) for s in c["sizes"])
    models, cons = [], []
    for k in range(c.get("models", 1)):
        m, con = free_model(E, "m%d" % k, 1, N, vals=fixed_values(E, "m%d" % k, 1, N, 0))
        models.append(m)
        cons.append([r[0] for r in con])
    ys = [[float((i * i + a) % c["labels"]) for i in range(sum(s))] for a, s in enumerate(c["sizes"])]
    ds = [doc_dataset(E, s, ys[a], "d%d" % a) for a, s in enumerate(c["sizes"])]
    kw = {}
    bins = kw["bins"] = c["bins"]
    lo, hi = minmax(E, [cons[b][i] for b in range(len(models)) for a in range(len(ds)) for i in range(len(ys[a]))])
    if c.get("range"):
        lo = kw["start"] = E.real("start", -4.5, -2.5)
        hi = kw["end"] = 3.0
    da = P.document_graded_relevance(ds, models, **kw)
    want = sorted(set(v for y in ys for v in y))
    E.check([float(v) for v in coord(da, "label")] == want and da.values.shape == (len(ds), len(models), len(want), bins), "relevance labels listed")
    for b, t in enumerate(coord(da, "bin")):
        E.close(t, lo + (hi - lo) * ((b + 1.0) / bins), "threshold listed for a bin")
    for a in range(len(ds)):
        for b in range(len(models)):
            for x, l in enumerate(want):
                s = [cons[b][i] for i in range(len(ys[a])) if ys[a][i] == l]
                if not s:
                    E.check(all(is_nan(E, v) for v in da.values[a][b][x]), "a label that is not in the dataset has values")
                else:
                    check_cdf(E, da.values[a][b][x], s, lo, hi, bins, "graded relevance")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda **c: out.append(Job(h_graded, c, stubs=SCORING, needs_ext=True, weight=(3 * c["bins"]) ** sum(sum(s) for s in c["sizes"])))
    J(sizes=[(2, 1)], bins=2, labels=[4.0, 0.0])
    J(sizes=[(1, 1)], bins=3)
    J(sizes=[(2,)], bins=2, range="se")
    J(sizes=[(1, 1)], bins=2, range="s", labels=[1.0, 3.0])
    J(sizes=[(1, 1)], bins=2, range="e", labels=[1.0, 3.0])
    J(sizes=[(1, 1)], bins=2, labels=[0.5, 1.0, 0.25])
    J(sizes=[(1,), (1,)], bins=1, labels=[0.5, 0.75, 300.0])
    J(sizes=[(1,), (2,)], bins=2, labels=[3.0, 1.0])
    J(sizes=[(2,), (1, 1)], bins=1, labels=[0.0, 2.0])
    J(sizes=[(1, 1)], bins=2, models=2, cache=True, labels=[0.0, 2.0])
    if TH:
        J(sizes=[(2, 1)], bins=3)
        J(sizes=[(1, 1), (1,)], bins=3, labels=[4.0, 0.0])
    L = lambda **c: out.append(Job(h_large, c, stubs=SCORING, needs_ext=True, weight=20))
    L(sizes=[many_sizes(60), many_sizes(25)], models=2, labels=5, bins=100)
    L(sizes=[many_sizes(4, 400)], bins=3, labels=23)
    L(sizes=[many_sizes(30)], bins=4, range=True, labels=3)
    return out
