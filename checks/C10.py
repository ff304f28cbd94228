"""Ensemble scoring."""
from symx.runner import Job
from .model_common import *
from .data_common import make_dataset

PRELOAD_PYX = ["rankeval.scoring._efficient_scoring"]
BOUNDS = "1..3 trees of up to 3 splits (every shape; thorough 4), 1..3 features (feature ids up to 1031, thorough 32766, in trees of 2 splits), 1..2 documents, symbolic thresholds, leaf values, weights, " \
         "learning rate, base score and features; parent-before-child node layouts in depth-first and breadth-first order; C, Fortran and strided feature matrices; ensembles of fixed trees of more than 65535 nodes, 290 trees, 300 levels or 257 leaves with one symbolic tree"
OUTSIDE = "float32 rounding; NaN features; feature ids above 32766; larger ensembles with all numbers symbolic"
ASSUMPTIONS = ["Cython front end's typing of the .pyx source", "loops over documents and trees behave alike beyond the bound"]


def ref_scores(E, trees, w, X, base, lr):
    out = []
    for x in X:
        s = 0.0
        for t, wt in zip(trees, w):
            s = s + eval_tree(E, t, x) * wt
        out.append(s * lr + base)
    return out


def build(E):
    c = E.cfg
    nf = c.get("nf", 2)
    trees = [fill(E, s, "t%d_" % k, nf, c.get("feat")) for k, s in enumerate(c["shapes"])]
    w = [E.real("w%d" % k, -4, 4) for k in range(len(trees))]
    kw = {}
    lr, base = 1.0, 0.0
    if c.get("lr"):
        lr = E.real("lr", 0, 2)
        kw["learning_rate"] = lr
    if c.get("base"):
        base = E.real("base", -4, 4)
        kw["base_score"] = base
    m = make_model(E, trees, w, c.get("order", "pre"), **kw)
    X = matrix(E, c.get("n", 2), nf)
    return m, [conc_tree(E, t) for t in trees], w, X, lr, base


def dataset(E, X):
    n = len(X)
    lay = E.cfg.get("layout", "C")
    if lay == "strided":
        big = E.farray([[v for v in r for _ in (0, 1)] for r in X], "float32")
        D = E.mod("rankeval.dataset").Dataset
        return D(big[:, ::2], E.farray([0.0] * n, "float32"), E.np.array([1] * n, dtype="int32"))
    return make_dataset(E, X, [0.0] * n, [1] * n, xorder=lay)


def h_score(E):
    m, trees, w, X, lr, base = build(E)
    d = dataset(E, X)
    y = m.score(d)
    ref = ref_scores(E, trees, w, cmatrix(E, X), base, lr)
    E.check(len(y) == len(X), "one score per document")
    E.observe("y", y)
    for i in range(len(X)):
        E.close(y[i], ref[i], "score of a document is not base + learning_rate * sum of weighted leaf values")


def wide(E):
    """trees over feature ids that need more than 7 and 8 bits"""
    a, b = E.cfg["feats"]
    t = lambda k: (a, E.real("t%d" % k, -8, 8), E.real("v%d" % k, -8, 8), (b, E.real("u%d" % k, -8, 8), E.real("p%d" % k, -8, 8), E.real("q%d" % k, -8, 8)))
    trees = [t(k) for k in range(E.cfg.get("trees", 1))]
    X = [[E.real("x%d_%d" % (i, f), -9, 9) if f in (a, b) else float(f % 7) for f in range(max(a, b) + 1)] for i in range(E.cfg.get("n", 1))]
    return make_model(E, trees), [conc_tree(E, t) for t in trees], [1.0] * len(trees), X


def h_wide(E):
    m, trees, w, X = wide(E)
    y = m.score(dataset(E, X))
    ref = ref_scores(E, trees, w, cmatrix(E, X), 0.0, 1.0)
    for i in range(len(X)):
        E.close(y[i], ref[i], "score of a document is not base + learning_rate * sum of weighted leaf values")


def h_big(E):
    """more nodes, trees, levels and leaves than small integers count"""
    trees, vals = big_trees(E, E.cfg["kind"])
    X = big_matrix(E, [E.pick("doc", vals)])
    m = make_model(E, trees, order=E.cfg.get("order", "pre"))
    y = m.score(dataset(E, X))
    ref = ref_scores(E, [conc_tree(E, t) for t in trees], [1.0] * len(trees), cmatrix(E, X), 0.0, 1.0)
    E.observe("y", y)
    E.close(y[0], ref[0], "score of a document is not base + learning_rate * sum of weighted leaf values")


WIDE = [(130, 2), (255, 256), (300, 127), (40, 1031)]


def jobs(tier):
    T = tier != "quick"
    out = []
    K = 4 if T else 3
    for k in range(0, K + 1):
        for s in shapes(k):
            out.append(Job(h_score, dict(shapes=(s,), n=1 if k > 2 else 2, nf=2 if k < 3 else 2, feat=None if k < 3 else 0), stubs=SCORING, needs_ext=True, weight=4 ** k))
    two = [((None, None), None), ((None, None), (None, (None, None))), (None, None), (((None, None), None), (None, None))]
    for sh in two:
        out.append(Job(h_score, dict(shapes=sh, n=2, nf=2, lr=True, base=True), stubs=SCORING, needs_ext=True, weight=30))
        out.append(Job(h_score, dict(shapes=sh, n=1, nf=3, order="bfs", base=True), stubs=SCORING, needs_ext=True, weight=30))
    sh3 = ((None, None), (None, None), (None, None))
    out.append(Job(h_score, dict(shapes=sh3, n=2, nf=2, lr=True, base=True, feat=1), stubs=SCORING, needs_ext=True, weight=60))
    for f in WIDE + ([(32766, 5)] if T else []):
        out.append(Job(h_wide, dict(feats=f), stubs=SCORING, needs_ext=True, weight=10))
    for k in ("nodes", "nodes2", "trees", "deep", "leaves"):
        out.append(Job(h_big, dict(kind=k), stubs=SCORING, needs_ext=True, weight=80))
    for k in ("trees", "deep", "leaves"):
        out.append(Job(h_big, dict(kind=k, order="bfs"), stubs=SCORING, needs_ext=True, weight=40))
    for lay in ("F", "strided"):
        out.append(Job(h_score, dict(shapes=((None, (None, None)),), n=3, nf=2, layout=lay, feat=None), stubs=SCORING, needs_ext=True, weight=40))
    out.append(Job(h_score, dict(shapes=((None, (None, (None, None))),), n=1, nf=2, order="bfs"), stubs=SCORING, needs_ext=True, weight=40))
    return out
