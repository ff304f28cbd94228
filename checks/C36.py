"""MSE and RMSE."""
from symx.runner import Job
from .metrics_common import *

BOUNDS = "1..3 documents per query (4 thorough), datasets of 1..3 queries; labels and scores any real in bounded ranges with " \
         "ties; cutoff None or 1..n+1" + BIG
OUTSIDE = "float rounding (reals with tolerance 1e-3); larger queries"
ASSUMPTIONS = ["np.argsort returns any permutation consistent with the order of the scores (ties in any order)"]


def sq(x):
    return x * x


def h_query(E):
    n, cut, which = E.cfg["n"], E.cfg["cut"], E.cfg["metric"]
    y = [E.real("y%d" % i, 0, 4) for i in range(n)]
    s = [E.real("s%d" % i, -8, 8) for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.prefer(E.not_(s[i] == s[j]))
    M = E.mod("rankeval.metrics")
    m = (M.MSE if which == "MSE" else M.RMSE)(cutoff=cut)
    v = m.eval_per_query(arr(E, y, "float32"), arr(E, s, "float32"))
    E.observe("v", v)
    k = n if cut is None else min(cut, n)
    if which == "MSE":
        E.check(matches_some_order(E, v, s, lambda o: sum(sq(y[i] - s[i]) for i in o[:k])),
                "squared error of a query differs from its definition")
    else:
        alts = []
        for p, c in orders(E, s):
            if c is False:
                continue
            ss = sum(sq(y[i] - s[i]) for i in list(p)[:k])
            alts.append(E.and_(c, E.is_close(v * v * k, ss, 1e-2)))
        E.check(E.and_(v >= 0, E.or_(*alts)), "RMSE of a query is not the root of its mean squared error")


def h_eval(E):
    sizes = E.cfg["sizes"]
    qids = E.pick("qids", [[0, 1, 2], [5, 3, 9], [7, 100, 2]])[:len(sizes)]
    n = sum(sizes)
    y = [E.real("y%d" % i, 0, 4) for i in range(n)]
    s = [E.real("s%d" % i, -8, 8) for i in range(n)]
    D = E.mod("rankeval.dataset").Dataset
    q = []
    for a, b in zip(qids, sizes):
        q += [a] * b
    d = D(arr(E, [[0.0]] * n, "float32"), arr(E, y, "float32"), E.np.array(q, dtype="int32"))
    m = E.mod("rankeval.metrics").MSE()
    avg, det = m.eval(d, arr(E, s, "float32"))
    E.observe("avg", avg)
    E.check(len(det) == len(sizes), "one score per query")
    o = 0
    for k, b in enumerate(sizes):
        E.check(E.is_close(det[k] * n, sum(sq(y[i] - s[i]) for i in range(o, o + b)), 1e-2),
                "per-query MSE contribution misplaced or wrong")
        o += b
    E.check(E.is_close(avg * n, sum(sq(y[i] - s[i]) for i in range(n)), 1e-2), "MSE is not the mean squared error")


def h_big(E):
    y, s, order, k, ya, sa = big_query(E)
    M = E.mod("rankeval.metrics")
    rm = E.cfg["metric"] == "RMSE"
    v = (M.RMSE if rm else M.MSE)(cutoff=E.cfg["cut"]).eval_per_query(ya, sa)
    E.observe("v", v)
    ss = sum(sq(y[i] - s[i]) for i in order[:k])
    if rm:
        E.check(E.and_(v >= 0, E.is_close(v * v, ss / k, 1e-2)), "RMSE of a query is not the root of its mean squared error")
    else:
        E.check(E.is_close(v, ss, 1e-2), "squared error of a query differs from its definition")


def jobs(tier):
    out = []
    T = tier != "quick"
    for which in ("MSE", "RMSE"):
        for n in (1, 2, 3) + ((4,) if T else ()):
            for cut in (None,) + tuple(range(1, n + 2)):
                out.append(Job(h_query, dict(n=n, cut=cut, metric=which), weight=n))
    for sizes in ((1,), (2, 1), (1, 2), (1, 1, 2), (2, 2, 1)):
        out.append(Job(h_eval, dict(sizes=sizes), weight=2))
    for c in big_configs(tier):
        for which in ("MSE", "RMSE"):
            out.append(Job(h_big, dict(c, metric=which), weight=8))
    return out
