"""MRR and MAP per query."""
from symx.runner import Job
from .metrics_common import *

BOUNDS = "1..4 documents per query (5 thorough); non-negative labels, scores and the relevance threshold (MRR) any real in " \
         "bounded ranges; ties anywhere; cutoff None or 1..n+1" + BIG
OUTSIDE = "float rounding (reals with tolerance 1e-3); larger queries"
ASSUMPTIONS = ["np.argsort returns any permutation consistent with the order of the scores (ties in any order)"]


def h(E):
    n, cut, which = E.cfg["n"], E.cfg["cut"], E.cfg["metric"]
    y = [E.real("y%d" % i, 0, 4) for i in range(n)]
    s = [E.real("s%d" % i, -16, 16) for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.prefer(E.not_(s[i] == s[j]))
    M = E.mod("rankeval.metrics")
    if which == "MRR":
        thr = E.real("thr", 0, 4) if E.cfg["thr"] else 1
        m = M.MRR(cutoff=cut, threshold=thr) if E.cfg["thr"] else M.MRR(cutoff=cut)
        rel = [bool(x >= thr) for x in y]
    else:
        nr = E.real("nr", 0, 1)
        m = M.MAP(cutoff=cut, no_relevant_results=nr)
        rel = [bool(x > 0) for x in y]
    v = m.eval_per_query(arr(E, y, "float32"), arr(E, s, "float32"))
    E.observe("v", v)
    k = n if cut is None else min(cut, n)

    def spec(o):
        if which == "MRR":
            for r, i in enumerate(o[:k]):
                if rel[i]:
                    return 1.0 / (r + 1)
            return 0.0
        if not any(rel):
            return nr
        hits, tot = 0, 0.0
        for r, i in enumerate(o[:k]):
            if rel[i]:
                hits += 1
                tot += hits / float(r + 1)
        return tot / min(k, sum(rel))
    E.check(matches_some_order(E, v, s, spec), "%s differs from its definition" % which)


def h_big(E):
    y, s, order, k, ya, sa = big_query(E)
    which, cut, thr = E.cfg["metric"], E.cfg["cut"], E.cfg.get("thr", 1)
    nr = E.real("nr", 0, 1)
    M = E.mod("rankeval.metrics")
    v = (M.MRR(cutoff=cut, threshold=thr) if which == "MRR" else M.MAP(cutoff=cut, no_relevant_results=nr)).eval_per_query(ya, sa)
    E.observe("v", v)
    if which == "MRR":
        hit = [r + 1 for r, i in enumerate(order[:k]) if y[i] >= thr]
        ref = 1.0 / hit[0] if hit else 0.0
    else:
        rel = [y[i] > 0 for i in order]
        ref = sum(sum(rel[:r + 1]) / (r + 1.0) for r in range(k) if rel[r]) / min(k, sum(rel)) if any(rel) else nr
    E.close(v, ref, "%s differs from its definition" % which)


def jobs(tier):
    out = []
    for which in ("MRR", "MAP"):
        for n in ((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)):
            for cut in (None,) + tuple(range(1, n + 2)):
                if n == 4 and tier == "quick" and cut not in (None, 2, 3):
                    continue
                for thr in ((0, 1) if which == "MRR" and n < 4 else (1,)):
                    out.append(Job(h, dict(n=n, cut=cut, metric=which, thr=thr), weight=n))
    for c in big_configs(tier):
        for which, thr in (("MRR", 1), ("MRR", 4), ("MAP", 1)):
            out.append(Job(h_big, dict(c, metric=which, thr=thr), weight=8))
    return out
