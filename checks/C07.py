"""Dumping a dataset in SVMlight format and loading it back."""
from symx.runner import Job
from .svm_common import *
from .data_common import make_dataset, sym_qids

BOUNDS = "1..5 samples, 1..12 features, every finite label and feature value, every query id of 32 bits (function level) or every contiguous grouping (Dataset level), C and Fortran order, views, lists, wider number types, paths, .gz, .bz2 and open files, zero-based or not, dumped twice or over a longer file; 300 samples or 1500 features with one symbolic label and value"
OUTSIDE = "infinite and NaN values, labels and query ids of a length different from the number of samples, more samples"
ASSUMPTIONS = ["9 significant digits spell a single-precision number exactly", "libstdc++ streams, sscanf and strtod (modelled in symx/llnative.py)", "clang's IR of the source"]


def same(E, X, y, q, X1, y1, q1, what):
    n, m = len(X), len(X[0])
    E.check(tuple(X1.shape) == (n, m), "%s: shape %s instead of %s" % (what, tuple(X1.shape), (n, m)))
    E.check(len(y1) == n, "%s: number of labels" % what)
    if q is not None:
        E.check(len(q1) == n, "%s: number of query ids" % what)
    for i in range(n):
        E.near(y1[i], y[i], "%s: label of sample %d" % (what, i))
        if q is not None:
            E.check(q1[i] == q[i], "%s: query id of sample %d" % (what, i))
        for j in range(m):
            E.near(X1[i, j], X[i][j], "%s: feature %d of sample %d" % (what, j, i))


def numbers(E):
    c = E.cfg
    n, m = c["n"], c["m"]
    big = c.get("big", 64)
    X = [[E.real("x%d_%d" % (i, j), -big, big) if (i * m + j) % c.get("each", 1) == 0 else float((i * m + j) % 5) for j in range(m)] for i in range(n)]
    y = [E.real("y%d" % i, -big, big) for i in range(n)]
    return X, y


def target(E, name):
    c = E.cfg
    return E.tmp(name + {"gz": ".gz", "bz2": ".bz2"}.get(c.get("to"), ".txt"))


def h_function(E):
    c = E.cfg
    E.text_mode()
    S = E.mod("rankeval.dataset.svmlight_format")
    X, y = numbers(E)
    n, m = len(X), len(X[0])
    q = [E.int("q%d" % i, 0, 2147483647) if E.symbolic else E.int("q%d" % i, 0, 2147483647) for i in range(n)] if c.get("qid", "free") == "free" \
        else list(c["qid"]) if c.get("qid") else None
    lay = c.get("layout", "C")
    if lay == "list":
        A = [list(r) for r in X]
        if E.symbolic:
            A = E.farray(X, "float32")
    elif lay == "view":
        A = E.farray([[0.0] + list(r) + [9.0] for r in X], "float32")[:, 1:m + 1]
    elif lay == "wide":
        A = E.farray(X, "float64")
    elif lay == "T":
        A = E.farray([[X[i][j] for i in range(n)] for j in range(m)], "float32").T
    elif lay == "rev":
        A = E.farray(X[::-1], "float32")[::-1]
    else:
        A = E.farray(X, "float32", lay)
    Y = E.farray(y, "float32")
    if c.get("ystep"):
        Y = E.farray([v for u in y for v in (u, 7.0)], "float32")[::2]
    f = target(E, "dump")
    kw = dict(zero_based=True) if c.get("zero") else {}
    Q = None
    if q is not None:
        if E.symbolic and any(not isinstance(v, int) for v in q):
            Q = symints(E, q)
        else:
            Q = E.np.array(q, dtype="int64" if c.get("q64") else "int32")
    for k in range(2 if c.get("twice") else 1):
        if c.get("to") == "object":
            with open(f, "w") as o:
                S.dump_svmlight_file(A, Y, o, query_id=Q, **kw)
        else:
            S.dump_svmlight_file(A, Y, f, query_id=Q, **kw)
    if q is None:
        X1, y1 = S.load_svmlight_file(f)
        q1 = None
    else:
        X1, y1, q1 = S.load_svmlight_file(f, query_id=True)
    same(E, X, y, q, X1, y1, q1, "dump and load")
    E.observe("y", list(y1))


def h_large(E):
    """many samples or features; one symbolic label and feature value"""
    c = E.cfg
    E.text_mode()
    n, m = c["n"], c["m"]
    X = [[((i * 31 + j * 17) % 4001) * 0.25 - 500.0 if (i + j) % 4 else 0.0 for j in range(m)] for i in range(n)]
    y = [float(i % 5) for i in range(n)]
    X[n // 2][m // 2] = E.real("x", -64, 64)
    y[n // 2] = E.real("y", -64, 64)
    q = [((i // c.get("docs", 3)) * 7919 + 13) % 100003 + c.get("first", 0) for i in range(n)]
    d = make_dataset(E, X, y, q, xorder=c.get("layout", "C"))
    f = target(E, "set")
    d.dump(f)
    e = E.mod("rankeval.dataset").Dataset.load(f)
    same(E, X, y, q, e.X, e.y, e.get_qids_dataset(), "Dataset.dump and load")
    E.check(e.n_instances == n and e.n_features == m and e.n_queries == len(set(q)), "sizes of the loaded dataset")


def symints(E, q):
    import numpy as rnp
    from symx import snp
    a = rnp.empty(len(q), dtype=object)
    for i, v in enumerate(q):
        a[i] = v
    a = a.view(snp.SymArray)
    a._sdt = rnp.dtype("int32")
    return a


def h_dataset(E):
    c = E.cfg
    E.text_mode()
    X, y = numbers(E)
    q = sym_qids(E, len(X))
    d = make_dataset(E, X, y, q, xorder=c.get("layout", "C"))
    D = E.mod("rankeval.dataset").Dataset
    f = target(E, "set")
    if c.get("over"):
        make_dataset(E, [[1.0] * (len(X[0]) + 2)] * (len(X) + 3), [1.0] * (len(X) + 3), [3] * (len(X) + 3)).dump(f)
    if c.get("sub"):
        j = E.cint("col", 0, len(X[0]) - 1)
        cols = [j] + [k for k in range(len(X[0])) if k != j]
        d = d.subset_features(E.np.array(cols))
        X = [[r[k] for k in cols] for r in X]
    d.dump(f)
    e = D.load(f)
    same(E, X, y, q, e.X, e.y, e.get_qids_dataset(), "Dataset.dump and load")
    E.check(e.n_instances == len(X) and e.n_features == len(X[0]), "sizes of the loaded dataset")
    E.observe("y", list(e.y))


def jobs(tier):
    TH = tier != "quick"
    out = []
    F = lambda **c: out.append(Job(h_function, c, stubs=SVM, needs_ext=True))
    D = lambda **c: out.append(Job(h_dataset, c, stubs=SVM, needs_ext=True))
    for n in (1, 2, 3, 5):
        F(n=n, m=2)
        F(n=n, m=2, qid=None)
    F(n=1, m=1)
    F(n=2, m=12, each=3)
    F(n=2, m=3, big=3e38)
    for lay in ("F", "view", "wide", "T", "rev", "list"):
        F(n=3, m=2, layout=lay)
        F(n=2, m=3, layout=lay, qid=[4, 4])
    F(n=3, m=1, ystep=True)
    F(n=2, m=2, qid=[-7, 2147483647])
    F(n=2, m=2, qid=[3, 9], q64=True)
    F(n=2, m=2, zero=True)
    F(n=2, m=2, twice=True)
    for to in ("gz", "bz2", "object"):
        F(n=2, m=2, to=to)
    for n in (1, 2, 3, 4):
        D(n=n, m=2, layout="F" if n % 2 else "C", pool=None if n < 4 else [0, 2147483647, -4, 100])
    D(n=2, m=2, over=True)
    D(n=2, m=3, sub=True)
    D(n=2, m=2, to="gz")
    if TH:
        F(n=12, m=3)
        F(n=7, m=7)
        D(n=5, m=2)
    L = lambda **c: out.append(Job(h_large, c, stubs=SVM, needs_ext=True, weight=20))
    L(n=300, m=3)
    L(n=3, m=1500, layout="F")
    L(n=270, m=2, docs=260, first=2147000000)
    L(n=70, m=150)
    return out
