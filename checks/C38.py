"""Aggregation of per-query metric scores, and independence from the metric object's history."""
from symx.runner import Job
from .metrics_common import *
from .data_common import *
from . import scipy_stub as S

BOUNDS = "datasets of 1..3 queries, 1..2 documents each (total <= 4), query ids of any order; 50 queries, a query of 60 documents, and a history of 40 evaluations with fixed numbers, one label and one score free; histories of 1..2 earlier calls " \
         "(eval on another dataset that may differ in labels only, grouping only, or scores only; eval_per_query) on the same metric object"
OUTSIDE = "float rounding; longer histories; larger datasets"
ASSUMPTIONS = ["np.argsort is a function of its input that returns an order consistent with the values (ties in any order)",
               "hash digests do not collide"]

NAMES = ["DCG", "NDCG", "Precision", "Recall", "MRR", "MAP", "RBP", "ERR", "Pfound", "RMSE", "Kendalltau", "SpearmanRho"]


def mk(M, name, cut):
    if name in ("Kendalltau", "SpearmanRho"):
        return getattr(M, name)()
    return getattr(M, name)(cutoff=cut)


def num_same(E, a, b, what):
    na = (not E.symbolic or not hasattr(a, "expr")) and a != a
    nb = (not E.symbolic or not hasattr(b, "expr")) and b != b
    if na or nb:
        E.check(bool(na) and bool(nb), what)
    else:
        E.close(a, b, what)


def labels(E, tag, n):
    return [float(E.cint("%sy%d" % (tag, i), 0, E.cfg.get("L", 2))) for i in range(n)]


def scores(E, tag, n):
    return [E.real("%ss%d" % (tag, i), -8, 8) for i in range(n)]


def expand(ids, sizes):
    q = []
    for a, b in zip(ids, sizes):
        q += [a] * b
    return q


def h_agg(E):
    name, sizes = E.cfg["metric"], E.cfg["sizes"]
    n = sum(sizes)
    low = E.cfg.get("low", 0)
    ids = E.pick("ids", [[0, 1, 2], [5, 3, 9], [9, 2147483647, 4]])[:len(sizes)]
    y, s = [v + low for v in labels(E, "", n)], scores(E, "", n)
    M = E.mod("rankeval.metrics")
    d = make_dataset(E, [[0.0]] * n, y, expand(ids, sizes))
    sa = arr(E, s, "float32")
    ya = arr(E, y, "float32")
    avg, det = mk(M, name, E.cfg["cut"]).eval(d, sa)
    E.check(len(det) == len(sizes), "one score per query")
    for a, b, u, v in zip(rows(d.y), y, rows(sa), s):
        E.check(E.and_(a == b, u == v), "evaluating changed the labels or the scores")
    ya = arr(E, y, "float32")
    o, tot, cnt = 0, 0.0, 0
    for k, b in enumerate(sizes):
        ref = mk(M, name, E.cfg["cut"]).eval_per_query(ya[o:o + b], sa[o:o + b])
        num_same(E, det[k], ref, "per-query score of eval differs from the metric of that query's documents")
        if ref == ref:
            tot, cnt = tot + ref, cnt + 1
        o += b
    E.observe("avg", avg)
    num_same(E, avg, tot / cnt if cnt else float("nan"), "overall score is not the mean of the per-query scores")


def h_agg_large(E):
    """many queries, one label and one score free"""
    E.few_ties()
    name = E.cfg["metric"]
    X, y, q = large_rows(E, E.cfg["nq"], E.cfg.get("big", 0), 1)
    n = len(q)
    y = [float((i * i + i // 4) % 5) for i in range(n)]
    y[n // 2] = float(E.cint("y", 0, 4))
    s = [((i * 19) % 197) * 0.125 - 9.0 for i in range(n)]
    s[n // 3] = E.real("s", -20, 20)
    M = E.mod("rankeval.metrics")
    d = make_dataset(E, X, y, q)
    ya, sa = arr(E, y, "float32"), arr(E, s, "float32")
    g = groups(q)
    avg, det = mk(M, name, E.cfg["cut"]).eval(d, sa)
    E.check(len(det) == len(g), "one score per query")
    tot, cnt = 0.0, 0
    for k, (_, a, b) in enumerate(g):
        ref = mk(M, name, E.cfg["cut"]).eval_per_query(ya[a:b], sa[a:b])
        num_same(E, det[k], ref, "per-query score of eval differs from the metric of that query's documents")
        if ref == ref:
            tot, cnt = tot + ref, cnt + 1
    num_same(E, avg, tot / cnt if cnt else float("nan"), "overall score is not the mean of the per-query scores")


def h_hist_long(E):
    """the first dataset again after many others of the same size"""
    E.few_ties()
    name = E.cfg["metric"]
    M = E.mod("rankeval.metrics")
    steps = E.cfg["steps"]
    s = [E.real("s0", -8, 8), 1.0, 0.5, 2.0]
    m = mk(M, name, E.cfg["cut"])
    first = None
    free = E.cint("y", 0, 2)
    for k in range(steps):
        z = k % (steps - 1)
        y = [float(free if z == 0 else z % 3), float((z // 3) % 3), float((z // 9) % 3), float(z % 2)]
        d = make_dataset(E, [[0.0]] * 4, y, [1, 1, 2, 2] if z % 4 else [3, 4, 4, 4] if name not in ("Kendalltau", "SpearmanRho") else [3, 3, 4, 4])
        avg, det = m.eval(d, arr(E, s, "float32"))
        if z in (0, 1, 2, steps // 2, steps - 2) or k % 10 == 0:
            ravg, rdet = mk(M, name, E.cfg["cut"]).eval(d, arr(E, s, "float32"))
            num_same(E, avg, ravg, "eval depends on earlier evaluations of the metric object")
            for a, b in zip(det, rdet):
                num_same(E, a, b, "per-query scores depend on earlier evaluations of the metric object")


def h_hist(E):
    """the score of (d2, s2) after earlier use of the metric object equals that of a fresh object"""
    name, kind = E.cfg["metric"], E.cfg["kind"]
    M = E.mod("rankeval.metrics")
    n = 3
    y1, s1 = labels(E, "a", n), scores(E, "a", n)
    g1 = [1, 1, 2]
    y2, s2, g2 = y1, s1, g1
    if kind == "labels":
        y2 = labels(E, "b", n)
    elif kind == "scores":
        s2 = scores(E, "b", n)
    elif kind == "grouping":
        g2 = [1, 2, 2]
    elif kind == "size":
        y2, s2, g2 = y1[:2], s1[:2], [1, 2]
    d1 = make_dataset(E, [[0.0]] * n, y1, g1)
    d2 = make_dataset(E, [[0.0]] * len(y2), y2, g2)
    a1, a2 = arr(E, s1, "float32"), arr(E, s2, "float32")
    m = mk(M, name, E.cfg["cut"])
    m.eval(d1, a1)
    fresh = mk(M, name, E.cfg["cut"])
    if kind == "perquery":
        # a direct per-query call after eval
        got = m.eval_per_query(d1.y[0:2], a1[0:2])
        ref = fresh.eval_per_query(d1.y[0:2], a1[0:2])
        num_same(E, got, ref, "eval_per_query depends on an earlier eval")
        m.eval(d1, a1)
    avg, det = m.eval(d2, a2)
    ravg, rdet = fresh.eval(d2, a2)
    E.observe("avg", avg)
    num_same(E, avg, ravg, "eval depends on earlier evaluations of the metric object")
    E.check(len(det) == len(rdet), "eval depends on earlier evaluations (number of scores)")
    for x, r in zip(det, rdet):
        num_same(E, x, r, "per-query scores depend on earlier evaluations of the metric object")


def h_later(E):
    """results already returned are not changed by later evaluations of the same object"""
    name = E.cfg["metric"]
    M = E.mod("rankeval.metrics")
    y, s1, s2 = labels(E, "a", 3), scores(E, "a", 3), scores(E, "b", 3)
    d = make_dataset(E, [[0.0]] * 3, y, [1, 1, 2])
    m = mk(M, name, None)
    a1, a2 = arr(E, s1, "float32"), arr(E, s2, "float32")
    avg, det = m.eval(d, a1)
    keep = [v for v in det]
    m.eval(d, a2)
    d2 = make_dataset(E, [[0.0]] * 2, y[:2], [1, 1])
    m.eval(d2, a1[:2])
    E.check(len(det) == len(keep), "per-query scores already returned are changed by a later evaluation (number)")
    for x, r in zip(det, keep):
        num_same(E, x, r, "per-query scores already returned are changed by a later evaluation")


def jobs(tier):
    out = []
    T = tier != "quick"
    for name in NAMES:
        sz = [(1, 2), (2, 1, 1)] if name not in ("Kendalltau", "SpearmanRho") else [(2, 2), (2,)]
        for sizes in sz:
            out.append(Job(h_agg, dict(metric=name, sizes=sizes, cut=None, L=1 if sum(sizes) > 3 else 2), stubs=S.stubs, weight=len(sizes)))
        out.append(Job(h_agg, dict(metric=name, sizes=(2, 1) if name not in ("Kendalltau", "SpearmanRho") else (2,), cut=None, L=2, low=-1.0), stubs=S.stubs, weight=2))
        out.append(Job(h_later, dict(metric=name, L=1), stubs=S.stubs, weight=3))
        if T:
            out.append(Job(h_agg, dict(metric=name, sizes=(2, 2), cut=1, L=2), stubs=S.stubs, weight=4))
        for kind in ("labels", "scores", "grouping", "size", "perquery"):
            if name in ("Kendalltau", "SpearmanRho") and kind in ("grouping", "size"):
                continue
            out.append(Job(h_hist, dict(metric=name, kind=kind, cut=None, L=1), stubs=S.stubs, weight=3))
    for name in NAMES:
        out.append(Job(h_agg_large, dict(metric=name, nq=50, cut=None), stubs=S.stubs, weight=9))
        if name not in ("Kendalltau", "SpearmanRho"):
            out.append(Job(h_agg_large, dict(metric=name, nq=9, big=60, cut=10), stubs=S.stubs, weight=9))
        out.append(Job(h_hist_long, dict(metric=name, steps=40, cut=None), stubs=S.stubs, weight=9))
    return out
