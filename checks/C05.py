"""Dataset equality and hashing."""
from symx.runner import Job
from .data_common import *

BOUNDS = "pairs of datasets of up to 3 rows and 2 features, symbolic contents, every grouping, C and Fortran layout, non-contiguous views, different sizes; single and double precision contents, 32 and 64 bit ids, zeros of either sign; pairs of 300 rows that differ in one place"
OUTSIDE = "NaN features (never equal to themselves)"
ASSUMPTIONS = ["digests of different contents differ"]


def one(E, t, n, m, order):
    q = [1] + [(E.cbool("%sg%d" % (t, i))) for i in range(1, n)]
    ids = E.pick(t + "ids", [[3, 1, 2], [3, 2, 1]])
    qq, k = [], -1
    for i, s in enumerate(q):
        if i == 0 or s:
            k += 1
        qq.append(ids[k])
    X = [[E.real("%sx%d_%d" % (t, i, j)) for j in range(m)] for i in range(n)]
    y = [E.real("%sy%d" % (t, i)) for i in range(n)]
    if order == "view":
        big = E.farray([[v for v in r for _ in (0, 1)] for r in X], "float32")
        D = E.mod("rankeval.dataset").Dataset
        yy = E.farray([v for v in y for _ in (0, 1)], "float32")
        d = D(big[:, ::2], yy[::2], E.np.array(qq, dtype="int32"))
    else:
        d = make_dataset(E, X, y, qq, xorder=order)
    return d, X, y, qq


def h_eq(E):
    n, m = E.cfg["n"], E.cfg["m"]
    n2, m2 = E.cfg.get("n2", n), E.cfg.get("m2", m)
    a, Xa, ya, qa = one(E, "a", n, m, E.cfg["order"])
    b, Xb, yb, qb = one(E, "b", n2, m2, "C")
    if n != n2 or m != m2:
        same = False
    else:
        same = E.and_(qa == qb, *([u == v for r, s in zip(Xa, Xb) for u, v in zip(r, s)] + [u == v for u, v in zip(ya, yb)]))
        same = bool(same)
    r = a == b
    E.check(bool(r) == same, "datasets compare equal iff features, labels, ids and grouping are the same")
    E.check(bool(a != b) == (not same), "!= is not the negation of ==")
    E.check(bool(b == a) == same, "equality is not symmetric")
    if same:
        E.check(hash(a) == hash(b), "equal datasets have different hashes")
        E.check({a: 1}.get(b) == 1, "an equal dataset is not found as a key")
    else:
        E.check(({a: 1}.get(b, 0)) == 0, "a different dataset is found as a key")
    E.check(hash(a) == hash(a) and bool(a == a), "a dataset equals itself")
    E.observe("same", same)


def h_types(E):
    """the same values stored with other types, or as zeros of another sign"""
    D = E.mod("rankeval.dataset").Dataset
    n = E.cfg["n"]
    t = [E.pick(k + "t", ["float32", "float64"]) for k in ("ax", "ay", "bx", "by")]
    q = [E.pick(k + "q", ["int32", "int64"]) for k in "ab"]
    z = [E.pick(k + "z", [0.0, -0.0]) for k in "abcd"] if n == 1 else [0.0, 0.0] + [E.pick("z", [0.0, -0.0])] * 2
    X = [[E.cint("x%d" % i, -1, 1) * 1.0] for i in range(n)]
    y = [E.cint("y%d" % i, 0, 2 - n) * 1.0 for i in range(n)]
    ids = E.pick("ids", [[3, 3], [3, 1], [-70000, 3]])[:n]
    fix = lambda v, s: s if v == 0 else v
    import numpy as rnp
    a = D(E.np.array([[fix(v, z[0]) for v in r] for r in X], dtype=t[0]), E.np.array([fix(v, z[1]) for v in y], dtype=t[1]), E.np.array(ids, dtype=q[0]))
    b = D(E.np.array([[fix(v, z[2]) for v in r] for r in X], dtype=t[2]), E.np.array([fix(v, z[3]) for v in y], dtype=t[3]), E.np.array(ids, dtype=q[1]))
    E.check(bool(a == b) and not bool(a != b), "the same values stored with other types are not equal")
    E.check(hash(a) == hash(b), "equal datasets have different hashes")
    E.check({a: 1}.get(b) == 1, "an equal dataset is not found as a key")


def h_large(E):
    """hundreds of rows that differ in one place"""
    n = E.cfg["n"]
    D = E.mod("rankeval.dataset").Dataset
    def rows():
        return [[float((i * 7 + j) % 23) for j in range(2)] for i in range(n)], [float(i % 5) for i in range(n)], [(i // 3) * 11 - 40 for i in range(n)]
    X, y, q = rows()
    X2, y2, q2 = rows()
    k = E.pick("row", [0, n // 2, n - 1, 130])
    what = E.pick("what", ["x", "y", "q", "swap", "merge"])
    same = False
    if what == "x":
        X2[k][1] = v = E.real("v", -8, 40)
        same = bool(v == X[k][1])
    elif what == "y":
        y2[k] = v = E.real("v", -8, 40)
        same = bool(v == y[k])
    elif what == "q":
        g = q2[k]
        q2 = [9999 if a == g else a for a in q2]
    elif what == "swap":
        i, j = (k, k - 1) if k else (0, 1)
        X2[i], X2[j] = X2[j], X2[i]
    else:
        g = q2[k]
        q2 = [(g + 11 if k < n - 3 else g - 11) if a == g else a for a in q2]
    a = make_dataset(E, X, y, q)
    b = make_dataset(E, X2, y2, q2, xorder=E.pick("o", ["C", "F"]))
    E.check(bool(a == b) == same and bool(a != b) == (not same), "datasets compare equal iff features, labels, ids and grouping are the same")
    if same:
        E.check(hash(a) == hash(b), "equal datasets have different hashes")
    else:
        E.check({a: 1}.get(b, 0) == 0, "a different dataset is found as a key")


def h_other(E):
    a, _, _, _ = one(E, "a", 2, 1, "C")
    E.check(not (a == None) and a != None and not (a == 3) and a != "x", "comparison with another kind of object")  # noqa


def jobs(tier):
    out = [Job(h_eq, dict(n=2, m=1, order=o)) for o in ("C", "F", "view")]
    out += [Job(h_eq, dict(n=3, m=2, order="C"), weight=5), Job(h_eq, dict(n=2, m=2, order="F"))]
    out += [Job(h_eq, dict(n=2, m=1, n2=1, order="C")), Job(h_eq, dict(n=2, m=1, n2=3, order="C")), Job(h_eq, dict(n=2, m=1, m2=2, order="C")),
            Job(h_eq, dict(n=2, m=2, n2=1, order="C"))]
    out += [Job(h_other), Job(h_types, dict(n=1)), Job(h_types, dict(n=2), weight=9), Job(h_large, dict(n=300), weight=9)]
    return out
