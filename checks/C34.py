"""RBP, ERR and pFound per query."""
from symx.runner import Job
from .metrics_common import *

BOUNDS = "1..4 documents per query (ERR/pFound with labels 0..4 enumerated for n<=2, 0..2 for n=3); scores any real with " \
         "ties; RBP: labels and threshold any real; persistence p in {0.5,0.8,0.95}; abandonment in {0.15,0.5,0.85}; cutoff None or 1..n+1" + BIG
OUTSIDE = "float rounding (reals with tolerance 1e-3); larger queries"
ASSUMPTIONS = ["np.argsort returns any permutation consistent with the order of the scores (ties in any order)"]


def scores(E, n):
    s = [E.real("s%d" % i, -16, 16) for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.prefer(E.not_(s[i] == s[j]))
    return s


def h_rbp(E):
    n, cut, p = E.cfg["n"], E.cfg["cut"], E.cfg["p"]
    y = [E.real("y%d" % i, 0, 4) for i in range(n)]
    s = scores(E, n)
    thr = E.real("thr", 0, 4)
    m = E.mod("rankeval.metrics").RBP(cutoff=cut, p=p, threshold=thr)
    v = m.eval_per_query(arr(E, y, "float32"), arr(E, s, "float32"))
    E.observe("v", v)
    rel = [bool(x >= thr) for x in y]
    k = n if cut is None else min(cut, n)
    E.check(matches_some_order(E, v, s, lambda o: (1 - p) * sum(p ** r for r, i in enumerate(o[:k]) if rel[i])),
            "RBP differs from its definition")


def h_err(E):
    n, cut, which = E.cfg["n"], E.cfg["cut"], E.cfg["metric"]
    y = [float(E.cint("y%d" % i, 0, E.cfg["L"])) for i in range(n)]
    s = scores(E, n)
    M = E.mod("rankeval.metrics")
    pa = E.cfg.get("pa")
    m = M.ERR(cutoff=cut) if which == "ERR" else M.Pfound(cutoff=cut, p_abandonment=pa)
    v = m.eval_per_query(arr(E, y, "float32"), arr(E, s, "float32"))
    E.observe("v", v)
    k = n if cut is None else min(cut, n)
    R = [(2.0 ** t - 1) / 2.0 ** max(y) for t in y]

    def spec(o):
        tot, look = 0.0, 1.0
        for r, i in enumerate(o[:k]):
            if which == "ERR":
                tot += look * R[i] / (r + 1)
                look *= 1 - R[i]
            else:
                tot += look * R[i]
                look *= (1 - R[i]) * (1 - pa)
        return tot
    E.check(matches_some_order(E, v, s, spec), "%s differs from its definition" % which)


def h_big(E):
    y, s, order, k, ya, sa = big_query(E)
    which, cut = E.cfg["metric"], E.cfg["cut"]
    M = E.mod("rankeval.metrics")
    v = (M.RBP(cutoff=cut, p=0.8, threshold=2) if which == "RBP" else M.ERR(cutoff=cut) if which == "ERR" else M.Pfound(cutoff=cut, p_abandonment=0.15)).eval_per_query(ya, sa)
    E.observe("v", v)
    R = [(2.0 ** t - 1) / 2.0 ** max(y) for t in y]
    tot, look = 0.0, 1.0
    for r, i in enumerate(order[:k]):
        if which == "RBP":
            tot += 0.2 * 0.8 ** r * (y[i] >= 2)
        elif which == "ERR":
            tot += look * R[i] / (r + 1)
            look *= 1 - R[i]
        else:
            tot += look * R[i]
            look *= (1 - R[i]) * 0.85
    E.close(v, tot, "%s differs from its definition" % which)


def jobs(tier):
    out = []
    T = tier != "quick"
    for n in (1, 2, 3, 4):
        for cut in (None,) + tuple(range(1, n + 2)):
            if n == 4 and not T and cut not in (None, 2):
                continue
            for p in (0.5, 0.8, 0.95):
                if n > 2 and p == 0.95 and not T:
                    continue
                out.append(Job(h_rbp, dict(n=n, cut=cut, p=p), weight=n))
            if n == 4 and not T:
                continue
            L = 4 if n < 3 else (2 if not T or n == 4 else 4)
            out.append(Job(h_err, dict(n=n, cut=cut, metric="ERR", L=L), weight=n + 2))
            for pa in (0.15, 0.5, 0.85):
                if n > 2 and pa == 0.5 and not T:
                    continue
                out.append(Job(h_err, dict(n=n, cut=cut, metric="pFound", L=L, pa=pa), weight=n + 2))
    for c in big_configs(tier):
        for which in ("RBP", "ERR", "pFound"):
            out.append(Job(h_big, dict(c, metric=which), weight=8))
    return out
