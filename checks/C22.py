"""Loading LightGBM text models."""
from symx.runner import Job
from .proxy_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..3 trees of 0..4 splits, splits numbered depth-first, breadth-first or mirrored, leaves numbered left-to-right, right-to-left or rotated, feature ids " \
         "0, 1, 9, 135 and 999, every threshold and leaf value (plain, negative, exponent), LF and CRLF, requested number of trees 1..3 or all, 1..2 documents" + LARGE
OUTSIDE = "single-precision rounding of the numbers; categorical features and missing values (refused); larger ensembles with all numbers symbolic"
ASSUMPTIONS = ["Cython front end's typing of the .pyx source"]


def h_load(E):
    c = E.cfg
    E.text_mode()
    feats = c.get("feats", [0, 1])
    trees = feature_trees(E, c["shapes"], feats)
    T = Txt(E, *c.get("style", ("plain", "plain")))
    p = E.tmp("m.txt", lightgbm(E, trees, T, c.get("var", 0)))
    keep = E.cint("keep", 0, len(trees)) if c.get("prune") else 0
    m = E.mod("rankeval.model").RTEnsemble(p, format="LightGBM", **(dict(n_trees=keep) if keep else {}))
    k = keep or len(trees)
    X = docs(E, c.get("n", 1), feats)
    check_model(E, m, trees[:k], [1.0] * k, X, 0.0, 1.0, "LightGBM")


def h_refused(E):
    """categorical features, other decision types and default values are not supported: refused, not loaded wrongly"""
    E.text_mode()
    trees = feature_trees(E, ((None, (None, None)), (None, None)), [0])
    txt = lightgbm(E, trees, Txt(E))
    how = E.pick("how", ["cat", "type0", "type1", "default"])
    which = E.cint("tree", 0, 1)
    old, new = dict(cat=("has_categorical=0", "has_categorical=1"), type0=("decision_type=2", "decision_type=0"), type1=("decision_type=2", "decision_type=1"),
                    default=("default_value=0", "default_value=3.5"))[how]
    parts = txt.split(old)
    at = 1 + which
    txt = old.join(parts[:at]) + new + old.join(parts[at:])
    p = E.tmp("m.txt", txt)
    try:
        E.mod("rankeval.model").RTEnsemble(p, format="LightGBM")
    except AssertionError:
        return
    E.fail("LightGBM: a model with categorical features or missing values was loaded")


def h_large(E):
    """large files"""
    c = E.cfg
    E.text_mode()
    trees, X = large_trees(E, c["kind"], True)
    T = Txt(E)
    p = E.tmp("m", lightgbm(E, trees, T, c.get("var", 0)))
    keep = c.get("keep", 0)
    m = E.mod("rankeval.model").RTEnsemble(p, format="LightGBM", **(dict(n_trees=keep) if keep else {}))
    k = keep or len(trees)
    check_model(E, m, trees[:k], ([1.0] * len(trees))[:k], X, 0.0, 1.0, "LightGBM")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda **c: out.append(Job(h_load, c, stubs=SCORING, needs_ext=True, weight=len(str(c["shapes"]))))
    L = (None, None)
    for var in range(4):
        J(shapes=(((None, None), (None, L)), L), var=var, feats=[0])
        J(shapes=(L, (None, L)), var=var, n=2, feats=[1])
        J(shapes=(None, L, None, L), var=var, feats=[0])
    for k in (0, 1, 2, 3) + ((4,) if TH else ()):
        for i, s in enumerate(shapes(k)):
            J(shapes=(s,), feats=[0, 1] if k < 3 else [0], var=i % 3)
    for f in ([9, 135], [999], [0, 9]):
        J(shapes=((None, L),), feats=f)
    for st in (("neg", "neg"), ("exp", "expneg"), ("expneg", "exp")):
        J(shapes=(L, (L, None)), style=st, feats=[0])
    J(shapes=(L, None, (L, None)), prune=True, feats=[0])
    J(shapes=((None, L), L), prune=True, feats=[1], var=2)
    out.append(Job(h_refused, {}, stubs=SCORING, needs_ext=True))
    for kind, var, keep in (("many", 0, 0), ("many", 1, 130), ("leaves", 1, 0), ("leaves", 2, 0), ("deep", 0, 0), ("deep", 2, 2)):
        out.append(Job(h_large, dict(kind=kind, var=var, keep=keep), stubs=SCORING, needs_ext=True, weight=40))
    return out
