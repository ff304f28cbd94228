"""DCG and NDCG per query."""
from symx.runner import Job
from .metrics_common import *

BOUNDS = "1..4 documents per query (5 thorough), scores any real in [-16,16] including ties, labels 0..4 " \
         "(flat: any real in [0,4]), or any of 0.5, 1.75, 7, 12, 31; cutoff None or 1..n+1" + BIG
OUTSIDE = "float32/float64 rounding (reals with tolerance 1e-3); larger queries"
ASSUMPTIONS = ["np.argsort returns any permutation consistent with the order of the scores (ties in any order)"]


def h_dcg(E):
    n, cut, impl = E.cfg["n"], E.cfg["cut"], E.cfg["impl"]
    y, s = query(E, n, "int" if impl == "exp" else "real")
    if E.cfg.get("labels"):
        y = [float(E.pick("l%d" % i, E.cfg["labels"])) for i in range(n)]
    m = E.mod("rankeval.metrics").DCG(cutoff=cut, implementation=impl)
    v = m.eval_per_query(arr(E, y, "float32"), arr(E, s, "float32"))
    E.observe("dcg", v)
    g = gains(E, y, impl)
    E.check(matches_some_order(E, v, s, lambda o: dcg(E, g, o, cut)), "DCG differs from its definition")


def h_big(E):
    y, s, order, k, ya, sa = big_query(E)
    impl = E.cfg["impl"]
    v = E.mod("rankeval.metrics").DCG(cutoff=E.cfg["cut"], implementation=impl).eval_per_query(ya, sa)
    E.observe("dcg", v)
    E.close(v, dcg(E, gains(E, y, impl), order[:k], None), "DCG differs from its definition")


def jobs(tier):
    out = []
    N = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)
    for impl in ("flat", "exp"):
        for n in N:
            for cut in (None,) + tuple(range(1, n + 2)):
                if n == 4 and cut not in (None, 2, 5) and tier == "quick":
                    continue
                out.append(Job(h_dcg, dict(n=n, cut=cut, impl=impl), weight=n))
        for k, cut in ((1, None), (2, None), (2, 1), (3, 2)):
            out.append(Job(h_dcg, dict(n=k, cut=cut, impl=impl, labels=[0.5, 0.0, 1.75, 3.0] if k < 3 else [0.5, 2.0]), weight=k))
        out.append(Job(h_dcg, dict(n=2, cut=None, impl=impl, labels=[7.0, 12.0, 31.0]), weight=2))
    for c in big_configs(tier):
        for impl in ("flat", "exp"):
            out.append(Job(h_big, dict(c, impl=impl), weight=8))
    return out
