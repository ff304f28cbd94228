"""Dataset.split partitions the queries."""
from symx.runner import Job
from .data_common import *

BOUNDS = "1..5 queries (quick 4) of 1..2 documents in any file order, every query permutation, train and validation sizes any reals; 40 and 150 queries for seven pairs of sizes"
OUTSIDE = "float rounding of size*n_queries; permutations of more than 12 queries other than five fixed ones"
ASSUMPTIONS = ["the random permutation is any permutation"]


def build(E, nq):
    ids = E.pick("ids", [[4, 1, 9, 0, 7], [-5, 3, -1, 8, 2147483647]])[:nq]
    sizes = [E.cint("sz%d" % i, 1, 2) if i < E.cfg.get("vary", 2) else 1 for i in range(nq)]
    q = []
    for a, s in zip(ids, sizes):
        q += [a] * s
    n = len(q)
    X = [[E.real("x%d" % i), float(i)] for i in range(n)]
    y = [E.real("y%d" % i) for i in range(n)]
    return make_dataset(E, X, y, q, name="d"), q, X, y


def h_split(E):
    nq = E.cfg["nq"]
    d, q, X, y = build(E, nq)
    train = E.real("train", 0, 1)
    vali = E.real("vali", 0, 1)
    E.assume(train + vali <= 1)
    wantvali = E.cbool("wantvali")
    if wantvali:
        E.assume(vali > 0)
        parts = d.split(train, vali, random_state=E.cfg.get("seed"))
    else:
        E.assume(vali == 0)
        parts = d.split(train, random_state=E.cfg.get("seed"))
    E.check(len(parts) == (3 if wantvali else 2), "number of parts")
    seen = {}
    for k, p in enumerate(parts):
        check_part(E, p, q, X, y)
        for v in p.query_ids:
            E.check(int(v) not in seen, "a query is in two parts")
            seen[int(v)] = k
    E.check(len(seen) == nq, "a query is in no part")
    check_part(E, d, q, X, y)
    E.check([int(v) for v in d.query_ids] == [v for i, v in enumerate(q) if i == 0 or q[i - 1] != v], "splitting changed the dataset itself")
    tr = rnd(E, train * nq)
    va = rnd(E, vali * nq)
    ntr = sum(1 for v in seen.values() if v == 0)
    if ntr != tr and E.symbolic is False:
        # float product on the rounding boundary
        E.check(abs(train * nq - ntr) <= 0.5 + 1e-9, "size of the training part")
    else:
        E.check(ntr == tr, "size of the training part")
    if wantvali:
        nva = sum(1 for v in seen.values() if v == 1)
        E.check(nva == min(va, nq - ntr), "size of the validation part")
    E.observe("n", len(parts))


def h_large(E):
    """many queries; five fixed permutations"""
    X, y, q = large_rows(E, E.cfg["nq"], E.cfg["big"], 1)
    d = make_dataset(E, X, y, q, name="d")
    nq = len(groups(q))
    train, vali = E.pick("sizes", E.cfg.get("sizes") or [(0.6, 0.2), (0.35, 0.0), (0.0, 0.5), (0.5, 0.5), (1.0, 0.0)])
    parts = d.split(train, vali, random_state=E.cfg.get("seed")) if vali else d.split(train, random_state=E.cfg.get("seed"))
    E.check(len(parts) == (3 if vali else 2), "number of parts")
    seen = {}
    for k, p in enumerate(parts):
        check_part(E, p, q, X, y)
        for v in p.query_ids:
            E.check(int(v) not in seen, "a query is in two parts")
            seen[int(v)] = k
    E.check(len(seen) == nq, "a query is in no part")
    check_part(E, d, q, X, y)
    cnt = [sum(1 for v in seen.values() if v == k) for k in range(3)]
    E.check(cnt[0] == int(round(train * nq)), "size of the training part")
    if vali:
        E.check(cnt[1] == int(round(vali * nq)), "size of the validation part")


def rnd(E, v):
    r = round(v)
    return int(r)


def check_part(E, p, q, X, y):
    """every query of p is complete, its rows in the original order with features and labels"""
    sel = set(int(v) for v in p.query_ids)
    exp = [(q[i], y[i], X[i]) for i in range(len(q)) if q[i] in sel]
    got = ds_rows(E, p)
    E.check(len(got) == len(exp) and p.X.shape[0] == len(exp) and p.y.size == len(exp) and int(p.n_instances) == len(exp),
            "a part does not hold exactly the rows of its queries")
    for (a, b, c), (a2, b2, c2) in zip(got, exp):
        E.check(a == a2 and len(c) == len(c2), "rows of a part are not the rows of its queries in order")
        E.check(E.and_(b == b2, *[u == v for u, v in zip(c, c2)]), "a row of a part changed or moved to another query")


def h_invalid(E):
    d, q, X, y = build(E, 2)
    train = E.real("train", -2, 3)
    vali = E.real("vali", -2, 3)
    E.assume(E.or_(train < 0, train > 1, vali < 0, train + vali > 1))
    if not E.symbolic:
        E.assume(train + vali > 1 + 1e-9 or train < -1e-9 or train > 1 + 1e-9 or vali < -1e-9)
    try:
        d.split(train, vali)
        E.fail("sizes that are no valid fractions were accepted")
    except Exception:
        pass


def jobs(tier):
    T = tier != "quick"
    out = [Job(h_split, dict(nq=n, vary=2 if n < 4 else 1), weight=n * n) for n in range(1, 6 if T else 5)]
    out += [Job(h_split, dict(nq=2, seed=3)), Job(h_invalid)]
    out += [Job(h_large, dict(nq=40, big=60), weight=9), Job(h_large, dict(nq=150, big=0, seed=5, sizes=[(0.7, 0.1), (0.4, 0.0)]), weight=9)]
    return out
