"""Loading XGBoost text dumps."""
from symx.runner import Job
from .proxy_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "split condition: every pair of finite single-precision threshold and feature value, bit-exact (z3 floating point); trees: 1..3 trees of 0..3 splits, heap-style or " \
         "breadth-first node numbers, with or without gain/cover statistics, feature ids 0, 1, 9, 135 and 999, every threshold and leaf value (plain, negative, exponent) " \
         "with feature values equal to a threshold or further than 1/8 away, default or given base score, requested number of trees 1..3 or all" + LARGE
OUTSIDE = "rounding of sums of leaf values; infinities and NaN; larger ensembles with all numbers symbolic"
ASSUMPTIONS = ["lines are in XGBoost's order: depth-first, yes-branch first", "Cython front end's typing of the .pyx source"]


def h_strict(E):
    """x goes to the yes-branch (left) exactly when x < t, for all single-precision x and t"""
    E.text_mode()
    t, x = E.float32("t"), E.float32("x")
    p = E.tmp("m.txt", "booster[0]:\n0:[f0<%s] yes=1,no=2,missing=1\n\t1:leaf=1.5\n\t2:leaf=-2\n" % E.text(t))
    m = E.mod("rankeval.model").RTEnsemble(p, format="XGBoost")
    stored = m.trees_nodes_value[0]
    E.check((x <= stored) == (x < t), "XGBoost: a document goes to the yes-branch although its feature is not below the threshold, or the reverse")
    E.observe("stored", stored)


def h_load(E):
    c = E.cfg
    E.text_mode()
    feats = c.get("feats", [0, 1])
    trees = feature_trees(E, c["shapes"], feats)
    T = Txt(E, *c.get("style", ("plain", "plain")))
    p = E.tmp("m.txt", xgboost(E, trees, T, c.get("var", 0)))
    keep = E.cint("keep", 0, len(trees)) if c.get("prune") else 0
    kw = dict(n_trees=keep) if keep else {}
    base = 0.5
    if c.get("base"):
        base = kw["base_score"] = E.real("base", -4, 4)
        E.assume(E.or_(base > 0.125, base < -0.125, base == 0))
    m = E.mod("rankeval.model").RTEnsemble(p, format="XGBoost", **kw)
    k = keep or len(trees)
    X = docs(E, c.get("n", 1), feats)
    for t in trees:
        for f, th in splits(t):
            for x in X:
                E.assume(E.or_(x[f] >= th, x[f] <= th - 0.125))
    # the same trees with strict conditions: everything at or above a threshold goes right
    strict = [shift(E, t) for t in trees[:k]]
    check_model(E, m, strict, [1.0] * k, X, base, 1.0, "XGBoost", thr=False)


def h_large(E):
    """large files"""
    c = E.cfg
    E.text_mode()
    trees, X = large_trees(E, c["kind"])
    p = E.tmp("m", xgboost(E, trees, Txt(E), c.get("var", 0)))
    keep = c.get("keep", 0)
    m = E.mod("rankeval.model").RTEnsemble(p, format="XGBoost", **(dict(n_trees=keep) if keep else {}))
    k = keep or len(trees)
    for t in trees:
        for f, th in splits(t):
            for x in X:
                if isinstance(th, float) and isinstance(x[f], float):
                    continue
                E.assume(E.or_(x[f] >= th, x[f] <= th - 0.125))
    check_model(E, m, [shift(E, t) for t in trees[:k]], [1.0] * k, X, 0.5, 1.0, "XGBoost", thr=False)


def splits(t):
    return [] if is_leaf(t) else [(t[0], t[1])] + splits(t[2]) + splits(t[3])


def shift(E, t):
    """x < t  as  x <= t - 1/16 (no value lies between, by assumption)"""
    return t if is_leaf(t) else (t[0], t[1] - 0.0625, shift(E, t[2]), shift(E, t[3]))


def jobs(tier):
    TH = tier != "quick"
    out = [Job(h_strict, {}, stubs=SCORING, weight=1000, solver_s=200, path_timeout=400)]
    J = lambda **c: out.append(Job(h_load, c, stubs=SCORING, needs_ext=True, weight=len(str(c["shapes"]))))
    L = (None, None)
    for var in range(4):
        J(shapes=(((None, None), (None, L)), L), var=var, feats=[0])
        J(shapes=(None, L, (L, None)), var=var, feats=[1])
    for k in (0, 1, 2, 3) + ((4,) if TH else ()):
        for i, s in enumerate(shapes(k)):
            J(shapes=(s,), feats=[0, 1] if k < 3 else [0], var=i % 3)
    for f in ([9, 135], [999], [0, 9]):
        J(shapes=((None, L),), feats=f)
    for st in (("neg", "neg"), ("exp", "expneg"), ("expneg", "exp")):
        J(shapes=(L, (L, None)), style=st, feats=[0])
    J(shapes=(L, None, (L, None)), prune=True, feats=[0])
    J(shapes=(L, L), base=True, feats=[0])
    for kind, var, keep in (("many", 0, 0), ("many", 1, 130), ("leaves", 1, 0), ("leaves", 2, 0), ("deep", 1, 0), ("deep", 1, 2)):
        out.append(Job(h_large, dict(kind=kind, var=var, keep=keep), stubs=SCORING, needs_ext=True, weight=40))
    return out
