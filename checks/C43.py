"""Query-wise performance: cumulative distribution of the per-query metric scores."""
from symx.runner import Job
from .analysis_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..2 datasets of 1..3 queries, 1..2 models, 1..2 metrics, any per-query metric score, undefined (not-a-number) on some queries, 1..4 bins or the default, any range or the default, scores inside or outside of it; up to 300 queries and 150 bins with fixed scores (any start of the range)"
OUTSIDE = "scores within 0.001 of an inner threshold may be counted on either side; single-precision rounding"
ASSUMPTIONS = ["xarray stores data and coordinates as given"]
EPS = 1e-3


def cdf_bounds(E, scores, start, t, last):
    """(fewest, most) scores between start and t"""
    lo, hi = 0.0, 0.0
    for s in scores:
        inside = E.and_(s > start + EPS, s < t - EPS) if not last else E.and_(s > start + EPS, s <= t - EPS)
        lo = lo + E.ite(inside, 1.0, 0.0)
        hi = hi + E.ite(E.and_(s >= start - EPS, s <= t + EPS), 1.0, 0.0)
    return lo, hi


def check_cdf(E, got, scores, start, end, bins, what, total=None):
    n = float(total or len(scores))
    for b in range(bins):
        t = start + (end - start) * ((b + 1.0) / bins)
        lo, hi = cdf_bounds(E, scores, start, t, b == bins - 1)
        v = got[b]
        if not E.check(not is_nan(E, v), what + ": an entry is missing"):
            continue
        E.check(E.and_(v * n >= lo - 0.01, v * n <= hi + 0.01), what + ": entry is not the fraction with a score up to the threshold")


def minmax(E, xs):
    lo = hi = xs[0]
    for x in xs[1:]:
        lo = E.ite(x < lo, x, lo)
        hi = E.ite(x > hi, x, hi)
    return lo, hi


def h_cdf(E):
    c = E.cfg
    P = E.mod("rankeval.analysis.effectiveness")
    Metric = E.mod("rankeval.metrics").Metric

    class First(Metric):
        """score of the first document, scaled"""
        def __init__(self, name, a):
            super(First, self).__init__(name)
            self.a = a

        def eval(self, dataset, y_pred):
            return super(First, self).eval(dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            if y[0] < 0:
                return float("nan")
            return y_pred[0] * self.a
    sizes = c["sizes"]
    n = [sum(s) for s in sizes]
    N = max(n)
    models, cons = [], []
    for k in range(c.get("models", 1)):
        m, con = free_model(E, "m%d" % k, 1, N)
        models.append(m)
        cons.append([r[0] for r in con])
    ds = []
    undef = []
    for k, s in enumerate(sizes):
        u = [bool(c.get("undef")) and E.cbool("undef%d_%d" % (k, g)) for g in range(len(s))]
        undef.append(u)
        ds.append(doc_dataset(E, s, [-1.0 if v else 1.0 for v, g in zip(u, s) for _ in range(g)], "d%d" % k))
    if all(v for u in undef for v in u):
        return
    factors = [1.0, -2.0][:c.get("metrics", 1)]
    metrics = [First("p%d" % k, a) for k, a in enumerate(factors)]
    kw = {}
    rng = c.get("range")
    if rng:
        start = E.real("start", -4, 4)
        end = E.real("end", -4, 4)
        E.assume(end >= start + 0.5)
        if "s" in rng:
            kw["start"] = start
        if "e" in rng:
            kw["end"] = end
    if c.get("bins"):
        kw["bins"] = c["bins"]
    bins = c.get("bins") or max(len(s) for s in sizes)
    all_s = {}
    for a in range(len(ds)):
        for b in range(len(models)):
            for k, f in enumerate(factors):
                all_s[a, b, k] = [cons[b][p] * f for (p, q), u in zip(query_spans(sizes[a]), undef[a]) if not u]
    lo, hi = minmax(E, [s for v in all_s.values() for s in v])
    if "start" in kw:
        lo = start
    if "end" in kw:
        hi = end
    if len(kw) and not ("start" in kw and "end" in kw):
        E.assume(hi >= lo)
    if c.get("cache"):
        kw["cache"] = True
    da = P.query_wise_performance(ds, models, metrics, **kw)
    E.check(tuple(da.dims) == ("dataset", "model", "metric", "bin") and da.values.shape == (len(ds), len(models), len(metrics), bins), "shape of the result")
    same_objects(E, coord(da, "dataset"), ds, "dataset labels")
    same_objects(E, coord(da, "model"), models, "model labels")
    same_objects(E, coord(da, "metric"), metrics, "metric labels")
    for b, t in enumerate(coord(da, "bin")):
        E.close(t, lo + (hi - lo) * ((b + 1.0) / bins), "threshold listed for a bin")
    for (a, b, k), s in all_s.items():
        check_cdf(E, da.values[a][b][k], s, lo, hi, bins, "query-wise distribution", len(sizes[a]))


def h_large(E):
    """many queries"""
    c = E.cfg
    P = E.mod("rankeval.analysis.effectiveness")
    Metric = E.mod("rankeval.metrics").Metric

    class First(Metric):
        def __init__(self, name):
            super(First, self).__init__(name)

        def eval(self, dataset, y_pred):
            return super(First, self).eval(dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            return y_pred[0]
    models, cons = [], []
    N = max(sum(s) for s in c["sizes"])
    for k in range(c.get("models", 1)):
        v = fixed_values(E, "m%d" % k, 1, N, 0)
        m, con = free_model(E, "m%d" % k, 1, N, vals=v)
        models.append(m)
        cons.append([r[0] for r in con])
    ds = [doc_dataset(E, s, None, "d%d" % k) for k, s in enumerate(c["sizes"])]
    kw = {}
    bins = max(len(s) for s in c["sizes"])
    if c.get("bins"):
        bins = kw["bins"] = c["bins"]
    all_s = dict(((a, b), [cons[b][p] for p, q in query_spans(s)]) for a, s in enumerate(c["sizes"]) for b in range(len(models)))
    lo, hi = minmax(E, [s for v in all_s.values() for s in v])
    if c.get("range"):
        lo = kw["start"] = E.real("start", -4.5, -2.5)
        hi = kw["end"] = 3.0
    da = P.query_wise_performance(ds, models, [First("f")], **kw)
    E.check(da.values.shape == (len(ds), len(models), 1, bins), "shape of the result")
    for b, t in enumerate(coord(da, "bin")):
        E.close(t, lo + (hi - lo) * ((b + 1.0) / bins), "threshold listed for a bin")
    for (a, b), s in all_s.items():
        check_cdf(E, da.values[a][b][0], s, lo, hi, bins, "query-wise distribution", len(s))


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda **c: out.append(Job(h_cdf, c, stubs=SCORING, needs_ext=True, weight=len(c["sizes"][0]) * c.get("bins", 3)))
    J(sizes=[(2, 1)])
    J(sizes=[(1,)], bins=3)
    J(sizes=[(1, 1, 2)])
    J(sizes=[(1, 1)], bins=3, range="se")
    J(sizes=[(2, 1)], bins=2, range="s")
    J(sizes=[(2, 1)], bins=2, range="e")
    J(sizes=[(1,)], bins=4, range="se", metrics=2)
    J(sizes=[(2,), (1, 1)], bins=2)
    J(sizes=[(1,)], bins=2, models=2, cache=True)
    J(sizes=[(1, 1)], bins=1, metrics=2)
    J(sizes=[(1, 2)], bins=2, undef=True)
    J(sizes=[(1,), (1, 1)], undef=True)
    J(sizes=[(1, 1)], bins=2, undef=True, range="s")
    if TH:
        J(sizes=[(1, 1, 1)], bins=4)
        J(sizes=[(1, 1), (1, 1)], bins=2, range="se")
        J(sizes=[(1, 1)], bins=2, models=2, metrics=2)
    L = lambda **c: out.append(Job(h_large, c, stubs=SCORING, needs_ext=True, weight=20))
    L(sizes=[many_sizes(60), many_sizes(25)], models=2)
    L(sizes=[many_sizes(300)], bins=7)
    L(sizes=[many_sizes(40), many_sizes(70)], bins=150)
    L(sizes=[many_sizes(50)], bins=4, range=True)
    return out
