"""Loading JForests XML models."""
from symx.runner import Job
from .proxy_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..3 trees of 1..4 splits, splits numbered depth-first, breadth-first or mirrored, leaves numbered left-to-right, right-to-left or rotated, feature ids " \
         "0, 1, 9, 135 and 999, every tree weight, threshold and leaf value (plain, negative, exponent), requested number of trees 1..3 or all, 1..2 documents" + LARGE
OUTSIDE = "single-precision rounding of the numbers; trees without a split (JForests does not write them); larger ensembles with all numbers symbolic"
ASSUMPTIONS = ["the XML parser of the Python library", "Cython front end's typing of the .pyx source"]


def h_load(E):
    c = E.cfg
    E.text_mode()
    feats = c.get("feats", [0, 1])
    trees = feature_trees(E, c["shapes"], feats)
    w = [E.real("w%d" % k, -4, 4) for k in range(len(trees))]
    T = Txt(E, *c.get("style", ("plain", "plain", "plain")))
    p = E.tmp("m.xml", jforests(E, trees, w, T, c.get("var", 0)))
    keep = E.cint("keep", 0, len(trees)) if c.get("prune") else 0
    m = E.mod("rankeval.model").RTEnsemble(p, format="Jforests", **(dict(n_trees=keep) if keep else {}))
    k = keep or len(trees)
    X = docs(E, c.get("n", 1), feats)
    check_model(E, m, trees[:k], w[:k], X, 0.0, 1.0, "JForests")


def h_large(E):
    """large files"""
    c = E.cfg
    E.text_mode()
    trees, X = large_trees(E, c["kind"], False)
    T = Txt(E)
    w = [0.25 * (k % 5) + 0.5 for k in range(len(trees))]
    p = E.tmp("m", jforests(E, trees, w, T, c.get("var", 0)))
    keep = c.get("keep", 0)
    m = E.mod("rankeval.model").RTEnsemble(p, format="Jforests", **(dict(n_trees=keep) if keep else {}))
    k = keep or len(trees)
    check_model(E, m, trees[:k], w[:k], X, 0.0, 1.0, "JForests")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda **c: out.append(Job(h_load, c, stubs=SCORING, needs_ext=True, weight=len(str(c["shapes"]))))
    L = (None, None)
    for var in range(3):
        J(shapes=(((None, None), (None, L)), L), var=var, feats=[0])
        J(shapes=(L, (None, L)), var=var, n=2, feats=[1])
        J(shapes=((L, None), L, L), var=var, feats=[0])
    for k in (1, 2, 3) + ((4,) if TH else ()):
        for i, s in enumerate(shapes(k)):
            J(shapes=(s,), feats=[0, 1] if k < 3 else [0], var=i % 3)
    for f in ([9, 135], [999], [0, 9]):
        J(shapes=((None, L),), feats=f)
    for st in (("neg", "neg", "neg"), ("exp", "expneg", "exp"), ("expneg", "exp", "plain")):
        J(shapes=(L, (L, None)), style=st, feats=[0])
    J(shapes=(L, (None, L), (L, None)), prune=True, feats=[0])
    J(shapes=((None, L), L), prune=True, feats=[1], var=2)
    for kind, var, keep in (("many", 0, 0), ("many", 1, 130), ("leaves", 1, 0), ("leaves", 2, 0), ("deep", 0, 0), ("deep", 2, 2)):
        out.append(Job(h_large, dict(kind=kind, var=var, keep=keep), stubs=SCORING, needs_ext=True, weight=40))
    return out
