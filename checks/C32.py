"""Precision, PrecisionMax and Recall per query."""
from symx.runner import Job
from .metrics_common import *

BOUNDS = "1..4 documents per query (5 thorough); labels, scores and the relevance threshold any real in bounded ranges; " \
         "ties anywhere; cutoff None or 1..n+1; value for queries without relevant documents any real in [0,1]" + BIG
OUTSIDE = "float rounding (reals with tolerance 1e-3); larger queries"
ASSUMPTIONS = ["np.argsort returns any permutation consistent with the order of the scores (ties in any order)"]


def h(E):
    n, cut, which = E.cfg["n"], E.cfg["cut"], E.cfg["metric"]
    y = [E.real("y%d" % i, 0, 4) for i in range(n)]
    s = [E.real("s%d" % i, -16, 16) for i in range(n)]
    thr = E.real("thr", 0, 4) if E.cfg["thr"] else 1
    for i in range(n):
        for j in range(i):
            E.prefer(E.not_(s[i] == s[j]))
    M = E.mod("rankeval.metrics")
    kw = dict(threshold=thr) if E.cfg["thr"] else {}
    if which == "P":
        m = M.Precision(cutoff=cut, **kw)
    elif which == "PMax":
        m = E.mod("rankeval.metrics.precision_max").PrecisionMax(cutoff=cut)
    else:
        nr = E.real("nr", 0, 1)
        m = M.Recall(cutoff=cut, no_relevant_results=nr, **kw)
    v = m.eval_per_query(arr(E, y, "float32"), arr(E, s, "float32"))
    E.observe("v", v)
    if which == "PMax":
        thr = y[0]
        for x in y[1:]:
            thr = E.ite(x > thr, x, thr)
    rel = [bool(x >= thr) for x in y]     # forks: decided exactly on every path
    k = n if cut is None else min(cut, n)

    def spec(o):
        hits = sum(1 for i in o[:k] if rel[i])
        if which != "R":
            return hits / float(k)
        if not any(rel):
            return nr
        return hits / float(sum(rel))
    E.check(matches_some_order(E, v, s, spec), "%s differs from its definition" % which)


def h_big(E):
    y, s, order, k, ya, sa = big_query(E)
    which = E.cfg["metric"]
    cut = E.cfg["cut"]
    nr = E.real("nr", 0, 1)
    M = E.mod("rankeval.metrics")
    thr = E.cfg.get("thr", 1)
    m = M.Precision(cutoff=cut, threshold=thr) if which == "P" else M.Recall(cutoff=cut, no_relevant_results=nr, threshold=thr) if which == "R" else \
        E.mod("rankeval.metrics.precision_max").PrecisionMax(cutoff=cut)
    v = m.eval_per_query(ya, sa)
    E.observe("v", v)
    thr = max(y) if which == "PMax" else thr
    hits, rel = sum(1 for i in order[:k] if y[i] >= thr), sum(1 for x in y if x >= thr)
    E.close(v, hits / float(k) if which != "R" else hits / float(rel) if rel else nr, "%s differs from its definition" % which)


def jobs(tier):
    out = []
    for which in ("P", "R", "PMax"):
        for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)):
            for cut in (None,) + tuple(range(1, n + 2)):
                if n == 4 and tier == "quick" and cut not in (None, 2, 3):
                    continue
                for thr in (0, 1):
                    if thr == 0 and n > 3 and which != "PMax" or thr and which == "PMax":
                        continue
                    out.append(Job(h, dict(n=n, cut=cut, metric=which, thr=thr), weight=n))
    for c in big_configs(tier):
        for which, thr in (("P", 1), ("R", 1), ("R", 2), ("PMax", 1)):
            out.append(Job(h_big, dict(c, metric=which, thr=thr), weight=8))
    return out
