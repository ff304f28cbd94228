"""Dataset.subset / subset_features."""
from symx.runner import Job
from .data_common import *
from .C02 import build, check_part

BOUNDS = "1..4 queries, every set of requested queries (also absent ones, duplicates, any order); up to 3 feature columns, every index list of length 1..3; 200 queries, 300 documents or 270 columns for a few requests"
OUTSIDE = "larger datasets with all contents symbolic"


def h_subset(E):
    nq = E.cfg["nq"]
    d, q, X, y = build(E, nq)
    allq = [a for a, _, _ in groups(q)]
    want = []
    for v in allq:
        if E.cbool("w%d" % allq.index(v)):
            want.append(v)
    extra = E.cint("extra", 0, 2)
    req = list(want)
    if extra == 1:
        req = req[::-1] + [12345]
    elif extra == 2:
        req = req[1:] + req
    r = d.subset(E.np.array(req, dtype="int32") if E.cbool("asarray") else req, name=E.pick("nm", ["other", None]))
    E.observe("q", [int(v) for v in r.query_ids])
    E.check([int(v) for v in r.query_ids] == want, "subset does not hold exactly the requested queries, in dataset order")
    check_part(E, r, q, X, y)
    E.check(len(ds_rows(E, d)) == len(q) and int(d.n_queries) == nq, "the source dataset changed")


def h_feat(E):
    n = 3
    q = [[5, 5, 2], [1, 2, 3], [7, 7, 7]][E.cint("g", 0, 2)]
    X = [[E.real("x%d_%d" % (i, j)) for j in range(3)] for i in range(n)]
    y = [E.real("y%d" % i) for i in range(n)]
    d = make_dataset(E, X, y, q)
    k = E.cint("k", 1, 3)
    f = [E.cint("f%d" % i, 0, 2) for i in range(k)]
    r = d.subset_features(f if E.cbool("aslist") else E.np.array(f))
    E.check(r.X.shape == (n, k) and int(r.n_features) == k and int(r.n_instances) == n, "shape")
    E.check([tuple(int(u) for u in v) for v in r.query_iterator()] == groups(q), "query grouping changed")
    for i in range(n):
        E.check(E.and_(r.y[i] == y[i], *[r.X[i][j] == X[i][f[j]] for j in range(k)]), "columns are not the requested ones in order")
    # independence from the source
    r.X[0, 0] = 1000.0
    for j in range(3):
        E.check(d.X[0][j] == X[0][j], "the source features are shared with the subset")


def h_large(E):
    """many queries, many requested"""
    X, y, q = large_rows(E, E.cfg["nq"], E.cfg["big"], 2)
    d = make_dataset(E, X, y, q, name="d")
    allq = [a for a, _, _ in groups(q)]
    step = E.cint("step", 1, 4)
    req = sorted(allq)[::step][::-1] + [-1, 5, 99999999]
    want = [v for v in allq if v in req]
    arg = E.pick("kind", [0, 1])
    r = d.subset(E.np.array(req, dtype="int64") if arg else req, name="other")
    E.check([int(v) for v in r.query_ids] == want, "subset does not hold exactly the requested queries, in dataset order")
    check_part(E, r, q, X, y)


def h_feat_large(E):
    m = E.cfg["m"]
    X, y, q = large_rows(E, 3, 4, m)
    d = make_dataset(E, X, y, q)
    f = E.pick("f", [list(range(m))[::-1], [(i * 7) % m for i in range(m)], [m - 1] * (m + 3), list(range(0, m, 3)), [m - 1, 0]])
    r = d.subset_features(f if E.cbool("aslist") else E.np.array(f))
    E.check(r.X.shape == (len(q), len(f)) and int(r.n_features) == len(f), "shape")
    E.check([tuple(int(u) for u in v) for v in r.query_iterator()] == groups(q), "query grouping changed")
    for i in range(len(q)):
        E.check(E.and_(r.y[i] == y[i], *[r.X[i][j] == X[i][f[j]] for j in range(len(f))]), "columns are not the requested ones in order")


def jobs(tier):
    return [Job(h_subset, dict(nq=n, vary=2), weight=n) for n in range(1, 5)] + [Job(h_feat), Job(h_large, dict(nq=200, big=0), weight=9), Job(h_large, dict(nq=12, big=300), weight=9), Job(h_feat_large, dict(m=40)), Job(h_feat_large, dict(m=270), weight=9)]
