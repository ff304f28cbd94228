"""Randomization test."""
from symx.runner import Job
from .analysis_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..4 queries and 1..2 permutations (quick 3 and 2), any per-query scores of both systems, every outcome of the random draws; 13..200 queries and 3..12 permutations with one score of each system free and three sequences of draws; through statistical_significance: 1..2 datasets, 1..2 metrics"
OUTSIDE = "the quality of the random generator; more permutations (each is treated alike by the loop); single-precision rounding of the returned table"
ASSUMPTIONS = ["np.random draws any of its documented values", "xarray stores data and coordinates as given"]


def selections(E, n, n_perm):
    """the drawn selections, or None when the draws are not one bit per query and permutation"""
    bits = []
    for kind, v in E.draws:
        for x in (v.ravel().tolist() if hasattr(v, "ravel") else [v]):
            if type(x).__name__ in ("SymNum", "SymBool") or x not in (0, 1):
                return None
            bits.append(bool(x))
    if len(bits) != n * n_perm:
        return None
    return [bits[k * n:(k + 1) * n] for k in range(n_perm)]


def tot(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t


def absv(E, v):
    return E.ite(v >= 0, v, -v)


def expected(E, a, b, sels):
    """(number of one-sided, two-sided extreme permutations)"""
    obs = tot(a) - tot(b)
    p1, p2 = 0, 0
    d = absv(E, obs)
    for s in sels:
        pa = tot([b[i] if s[i] else a[i] for i in range(len(a))])
        pb = tot([a[i] if s[i] else b[i] for i in range(len(a))])
        # the better system (the first one in a tie) minus the other
        delta = E.ite(tot(a) < tot(b), pb - pa, pa - pb)
        p1 = p1 + E.ite(delta >= d, 1, 0)
        p2 = p2 + E.ite(absv(E, delta) >= d, 1, 0)
    return p1, p2


def check_p(E, p1, p2, a, b, n_perm, off=0):
    E.check(E.and_(p1 >= 0, p1 <= 1 + 1e-9, p2 >= p1 - 1e-9, p2 <= 1 + 1e-9), "p-values are not ordered fractions")
    n = len(a)
    sels = selections(E, n, n_perm) if off == 0 else off
    if sels is None:
        # an implementation drawing differently: only the range is checked
        return
    w1, w2 = expected(E, a, b, sels)
    v1, v2 = expected(E, a, b, [[not x for x in s] for s in sels])
    ok = lambda p, w: E.is_close(p * n_perm, w, 1e-2)
    E.check(E.or_(E.and_(ok(p1, w1), ok(p2, w2)), E.and_(ok(p1, v1), ok(p2, v2))),
            "p-values are not the fractions of permutations with at least the observed difference (one-sided, two-sided)")


def h_rand(E):
    c = E.cfg
    S = E.mod("rankeval.analysis.statistical")
    n, k = c["n"], c["perms"]
    a = [E.real("a%d" % i, 0, 1) for i in range(n)]
    b = [E.real("b%d" % i, 0, 1) for i in range(n)]
    args = (E.farray(a, "float64"), E.farray(b, "float64"))
    f = helper(S, "_randomization", *args, n_perm=k)
    if f is None:
        return
    p1, p2 = f(*args, n_perm=k)
    E.observe("p", [p1, p2])
    check_p(E, p1, p2, a, b, k)


def h_large(E):
    """many queries and permutations, three sequences of draws, one score of each system free"""
    c = E.cfg
    S = E.mod("rankeval.analysis.statistical")
    n, k = c["n"], c["perms"]
    a = [((i * 37) % 61) / 64.0 for i in range(n)]
    b = [((i * 37) % 61) / 64.0 + (((i * 13) % 17) - 8) / 32.0 for i in range(n)]
    a[n // 2] = E.real("a", 0, 1)
    b[n // 3] = E.real("b", 0, 1)
    f = helper(S, "_randomization", None, None, n_perm=k)
    if f is None:
        return
    p1, p2 = f(E.farray(a, "float64"), E.farray(b, "float64"), n_perm=k)
    E.check(E.and_(p1 >= 0, p1 <= 1 + 1e-9, p2 >= p1 - 1e-9, p2 <= 1 + 1e-9), "p-values are not ordered fractions")
    sels = selections(E, n, k)
    if sels is None:
        return
    w1, w2 = expected(E, a, b, sels)
    v1, v2 = expected(E, a, b, [[not x for x in s] for s in sels])
    ok = lambda p, w: E.is_close(p * k, w, 1e-2)
    E.check(E.or_(E.and_(ok(p1, w1), ok(p2, w2)), E.and_(ok(p1, v1), ok(p2, v2))),
            "p-values are not the fractions of permutations with at least the observed difference (one-sided, two-sided)")


def h_sig(E):
    """through the public analysis: scores of the right models, datasets and metrics"""
    c = E.cfg
    S = E.mod("rankeval.analysis.statistical")
    Metric = E.mod("rankeval.metrics").Metric

    class First(Metric):
        def __init__(self, name, f):
            super(First, self).__init__(name)
            self.f = f

        def eval(self, dataset, y_pred):
            return super(First, self).eval(dataset, y_pred)

        def eval_per_query(self, y, y_pred):
            return y_pred[0] * self.f
    sizes = c["sizes"]
    N = max(sum(s) for s in sizes)
    (ma, ca), (mb, cb) = free_model(E, "a", 1, N), free_model(E, "b", 1, N)
    ds = [doc_dataset(E, s, None, "d%d" % k) for k, s in enumerate(sizes)]
    fs = [1.0, -2.0][:c.get("metrics", 1)]
    ms = [First("f%d" % k, f) for k, f in enumerate(fs)]
    da = S.statistical_significance(ds, ma, mb, ms, n_perm=c.get("perms", 1))
    E.check(tuple(da.dims) == ("dataset", "metric", "p-value") and da.values.shape == (len(ds), len(ms), 2), "shape of the result")
    same_objects(E, coord(da, "dataset"), ds, "dataset labels")
    same_objects(E, coord(da, "metric"), ms, "metric labels")
    E.check([str(v) for v in coord(da, "p-value")] == ["one-sided", "two-sided"], "p-value labels")
    E.observe("p", da.values)
    k = c.get("perms", 1)
    nq = [len(s) for s in sizes]
    sels = []
    total = sum(nq) * len(ms) * k
    flat = selections(E, total, 1)
    if flat is None:
        return
    flat = flat[0]
    o = 0
    for x, s in enumerate(sizes):
        for y, f in enumerate(fs):
            sel = [flat[o + j * nq[x]:o + (j + 1) * nq[x]] for j in range(k)]
            o += nq[x] * k
            a = [ca[p][0] * f for p, q in query_spans(s)]
            b = [cb[p][0] * f for p, q in query_spans(s)]
            check_p(E, da.values[x][y][0], da.values[x][y][1], a, b, k, sel)


def jobs(tier):
    TH = tier != "quick"
    out = []
    for n, k in [(1, 1), (2, 1), (3, 1), (1, 3), (2, 2)] + ([(4, 1), (3, 2), (2, 3)] if TH else []):
        out.append(Job(h_rand, dict(n=n, perms=k), weight=2 ** (n * k)))
    J = lambda **c: out.append(Job(h_sig, c, stubs=SCORING, needs_ext=True, weight=10))
    J(sizes=[(2, 1)], perms=2)
    J(sizes=[(1,), (1, 1)])
    J(sizes=[(1, 1)], metrics=2)
    out += [Job(h_large, dict(n=n, perms=k), weight=50) for n, k in ((40, 5), (13, 12), (200, 3))]
    return out
