"""Exporting and loading scikit-learn gradient boosting models."""
from symx.runner import Job
from .proxy_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..3 trees of 0..3 splits, node numbering depth-first or breadth-first (the text is depth-first), feature ids 0, 1, 9, 135 and 999, every base score, learning rate, " \
         "threshold and leaf value (plain, negative, exponent), initial estimate as constant_ (current scikit-learn), mean or quantile (older ones), requested number of trees 1..3 or all" + LARGE
OUTSIDE = "single-precision rounding of the numbers; classifiers (refused); larger ensembles with all numbers symbolic"
ASSUMPTIONS = ["the attributes of a fitted scikit-learn model and of its trees mean what scikit-learn documents", "Cython front end's typing of the .pyx source"]


def h_load(E):
    c = E.cfg
    E.text_mode()
    feats = c.get("feats", [0, 1])
    trees = feature_trees(E, c["shapes"], feats)
    base, lr = E.real("base", -4, 4), E.real("lr", 0, 2)
    T = Txt(E, *c.get("style", ("plain", "plain")))
    p = E.tmp("m.txt", sklearn_text(E, trees, T, base, lr, c.get("var", 0)))
    keep = E.cint("keep", 0, len(trees)) if c.get("prune") else 0
    m = E.mod("rankeval.model").RTEnsemble(p, format="ScikitLearn", **(dict(n_trees=keep) if keep else {}))
    k = keep or len(trees)
    X = docs(E, c.get("n", 1), feats)
    check_model(E, m, trees[:k], [1.0] * k, X, base, lr, "scikit-learn text")


class Obj(object):
    pass


def sk_tree(E, t, order):
    lay = layout(t, order)
    n = len(lay)
    tr = Obj()
    tr.tree_ = q = Obj()
    q.feature = E.np.array([a[0] if a[2] != -1 else -2 for a in lay], dtype="int64")
    q.threshold = E.farray([a[1] if a[2] != -1 else -2.0 for a in lay], "float64")
    q.children_left = E.np.array([a[2] for a in lay], dtype="int64")
    q.children_right = E.np.array([a[3] for a in lay], dtype="int64")
    v = E.fempty((n, 1, 1), "float64")
    for i, a in enumerate(lay):
        v[i, 0, 0] = a[1] if a[2] == -1 else 0.5
    q.value = v
    q.node_count = n
    return tr


def sk_model(E, trees, base, lr, how, order):
    import numpy
    g = Obj()
    if how == "constant":
        from sklearn.dummy import DummyRegressor
        g.init_ = DummyRegressor()
        c = E.fempty((1, 1), "float64")
        c[0, 0] = base
        g.init_.constant_ = c
    else:
        g.init_ = Obj()
        setattr(g.init_, how, base)
    g.learning_rate = lr
    es = numpy.empty((len(trees), 1), dtype=object)
    for i, t in enumerate(trees):
        es[i, 0] = sk_tree(E, t, order)
    g.estimators_ = es
    return g


def h_export(E):
    c = E.cfg
    E.text_mode()
    feats = c.get("feats", [0, 1])
    trees = feature_trees(E, c["shapes"], feats)
    base, lr = E.real("base", -4, 4), E.real("lr", 0, 2)
    how = E.pick("init", ["constant", "mean", "quantile"]) if c.get("init") else "constant"
    g = sk_model(E, trees, base, lr, how, c.get("order", "pre"))
    M = E.mod("rankeval.model")
    p = E.tmp("m.txt")
    M.ProxyScikitLearn.export_scikit_model(g, p)
    m = M.RTEnsemble(p, format="ScikitLearn")
    X = docs(E, 1, feats)
    check_model(E, m, trees, [1.0] * len(trees), X, base, lr, "exported scikit-learn model")


def h_refused(E):
    """models that are no tree ensembles, or whose initial estimate is unknown, are refused"""
    E.text_mode()
    M = E.mod("rankeval.model")
    how = E.pick("how", ["noest", "noinit", "init"])
    g = sk_model(E, [(0, 0.5, 1.0, 2.0)], 0.5, 0.1, "constant", "pre")
    if how == "noest":
        del g.estimators_
    elif how == "noinit":
        del g.init_
    else:
        g.init_ = Obj()
    try:
        M.ProxyScikitLearn.export_scikit_model(g, E.tmp("m.txt"))
    except TypeError:
        return
    E.fail("an unsupported scikit-learn model was exported")


def h_large(E):
    """large files"""
    c = E.cfg
    E.text_mode()
    trees, X = large_trees(E, c["kind"], True)
    T = Txt(E)
    p = E.tmp("m", sklearn_text(E, trees, T, 0.5, 0.25, c.get("var", 0)))
    keep = c.get("keep", 0)
    m = E.mod("rankeval.model").RTEnsemble(p, format="ScikitLearn", **(dict(n_trees=keep) if keep else {}))
    k = keep or len(trees)
    check_model(E, m, trees[:k], ([1.0] * len(trees))[:k], X, 0.5, 0.25, "scikit-learn text")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda fn=h_load, **c: out.append(Job(fn, c, stubs=SCORING, needs_ext=True, weight=len(str(c["shapes"]))))
    L = (None, None)
    for var in (0, 1, 3):
        J(shapes=(((None, None), (None, L)), L), var=var, feats=[0])
        J(shapes=(None, L, (L, None)), var=var, feats=[1])
    for k in (0, 1, 2, 3) + ((4,) if TH else ()):
        for i, s in enumerate(shapes(k)):
            J(shapes=(s,), feats=[0, 1] if k < 3 else [0], var=i % 2)
            if k < 3 or TH:
                J(h_export, shapes=(s,), feats=[0, 1] if k < 2 else [0], order=["pre", "bfs"][i % 2])
    for f in ([9, 135], [999], [0, 9]):
        J(shapes=((None, L),), feats=f)
    J(h_export, shapes=((None, L),), feats=[9, 135])
    for st in (("neg", "neg"), ("exp", "expneg"), ("expneg", "exp")):
        J(shapes=(L, (L, None)), style=st, feats=[0])
    J(shapes=(L, None, (L, None)), prune=True, feats=[0])
    J(h_export, shapes=(L, None, (L, None)), feats=[0], init=True)
    J(h_export, shapes=((L, L), L), feats=[0], order="bfs")
    out.append(Job(h_refused, {}, stubs=SCORING, needs_ext=True))
    for kind, var, keep in (("many", 0, 0), ("many", 1, 130), ("leaves", 1, 0), ("leaves", 2, 0), ("deep", 0, 0), ("deep", 2, 2)):
        out.append(Job(h_large, dict(kind=kind, var=var, keep=keep), stubs=SCORING, needs_ext=True, weight=40))
    return out
