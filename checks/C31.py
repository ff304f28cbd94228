"""NDCG per query."""
from symx.runner import Job
from .metrics_common import *

BOUNDS = "1..3 documents per query (4 thorough), scores any real in [-16,16] with ties, labels 0..4 (n=4: 0..2; " \
         "flat with n<3: any real in [0,4]); cutoff None or 1..n+1; value for queries without relevant documents any real in [0,1]" + BIG
OUTSIDE = "float rounding (reals with tolerance 1e-3); larger queries"
ASSUMPTIONS = ["np.argsort returns any permutation consistent with the order of the scores (ties in any order)"]


def ideal(E, y, g, cut):
    """best achievable DCG: maximum over all orders (as conditions on the labels)"""
    return orders(E, y)


def h_ndcg(E):
    n, cut, impl = E.cfg["n"], E.cfg["cut"], E.cfg["impl"]
    if impl == "exp" or n > 2:
        y = [float(E.cint("y%d" % i, 0, 4 if n < 3 else E.cfg.get("L", 3))) for i in range(n)]
    else:
        y = [E.real("y%d" % i, 0, 4) for i in range(n)]
    s = [E.real("s%d" % i, -16, 16) for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.prefer(E.not_(s[i] == s[j]))
    nr = E.real("nr", 0, 1)
    m = E.mod("rankeval.metrics").NDCG(cutoff=cut, implementation=impl, no_relevant_results=nr)
    v = m.eval_per_query(arr(E, y, "float32"), arr(E, s, "float32"))
    E.observe("ndcg", v)
    g = gains(E, y, impl)
    io = [(c, dcg(E, g, list(p), cut)) for p, c in orders(E, y) if c is not False]
    allzero = E.and_(*[x == 0 for x in g]) if n > 1 else (g[0] == 0)
    alts = [E.and_(allzero, E.is_close(v, nr, 1e-3))]
    # v * idcg == dcg for the ideal (label) order and an order consistent with the scores
    ipick = E.or_(*[E.and_(c, x == x) for c, x in io])
    idcg = io[0][1]
    for c, x in io[1:]:
        idcg = E.ite(c, x, idcg)
    for p, c in orders(E, s):
        if c is False:
            continue
        d = dcg(E, g, list(p), cut)
        alts.append(E.and_(E.not_(allzero), c, E.is_close(v * idcg, d, 1e-3)))
    E.check(E.or_(*alts), "NDCG is not DCG divided by the ideal DCG")
    E.check(E.or_(allzero, E.and_(v >= -1e-6, v <= 1 + 1e-6)), "NDCG outside [0,1]")


def h_big(E):
    y, s, order, k, ya, sa = big_query(E)
    impl = E.cfg["impl"]
    nr = E.real("nr", 0, 1)
    v = E.mod("rankeval.metrics").NDCG(cutoff=E.cfg["cut"], implementation=impl, no_relevant_results=nr).eval_per_query(ya, sa)
    E.observe("ndcg", v)
    g = gains(E, y, impl)
    best = dcg(E, sorted(g, reverse=True), list(range(k)), None)
    E.close(v, dcg(E, g, order[:k], None) / best if max(y) > 0 else nr, "NDCG is not DCG divided by the ideal DCG")


def jobs(tier):
    out = []
    N = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)
    for impl in ("flat", "exp"):
        for n in N:
            for cut in (None,) + tuple(range(1, n + 2)):
                out.append(Job(h_ndcg, dict(n=n, cut=cut, impl=impl, L=(4 if n < 4 else 2)), weight=n))
    for c in big_configs(tier):
        for impl in ("flat", "exp"):
            if not c.get("sparse") and (impl == "flat" or c["n"] < 40):
                out.append(Job(h_big, dict(c, impl=impl, distinct=True), weight=8))
    return out
