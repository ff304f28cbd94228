"""Loading QuickRank XML models."""
from symx.runner import Job
from .proxy_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..3 trees of 0..3 splits, feature ids 1, 2, 10, 136 and 1000, every tree weight, threshold and leaf value (spelled plain, negative or with an exponent), " \
         "5 layouts of the XML (indented, single line, CRLF, with declaration, right child first), requested number of trees 1..3 or all, 1..2 documents" + LARGE
OUTSIDE = "single-precision rounding of the numbers; files without the <info> section; larger ensembles with all numbers symbolic"
ASSUMPTIONS = ["the XML parser of the Python library", "Cython front end's typing of the .pyx source"]


def h_load(E):
    c = E.cfg
    E.text_mode()
    feats = c.get("feats", [0, 1])
    trees = feature_trees(E, c["shapes"], feats)
    w = [E.real("w%d" % k, -4, 4) for k in range(len(trees))]
    st = c.get("style", ("plain", "plain", "plain"))
    T = Txt(E, *st)
    p = E.tmp("m.xml", quickrank(E, trees, w, T, c.get("var", 0)))
    keep = E.cint("keep", 0, len(trees)) if c.get("prune") else 0
    M = E.mod("rankeval.model")
    kw = dict(n_trees=keep) if keep else {}
    m = M.RTEnsemble(p, format="QuickRank", **kw)
    k = keep or len(trees)
    X = docs(E, c.get("n", 1), feats)
    check_model(E, m, trees[:k], w[:k], X, 0.0, 1.0, "QuickRank")


def h_large(E):
    """large files"""
    c = E.cfg
    E.text_mode()
    trees, X = large_trees(E, c["kind"], True)
    T = Txt(E)
    w = [0.25 * (k % 5) + 0.5 for k in range(len(trees))]
    p = E.tmp("m", quickrank(E, trees, w, T, c.get("var", 0)))
    keep = c.get("keep", 0)
    m = E.mod("rankeval.model").RTEnsemble(p, format="QuickRank", **(dict(n_trees=keep) if keep else {}))
    k = keep or len(trees)
    check_model(E, m, trees[:k], w[:k], X, 0.0, 1.0, "QuickRank")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda **c: out.append(Job(h_load, c, stubs=SCORING, needs_ext=True, weight=sum(1 for _ in str(c["shapes"]))))
    L = (None, None)
    for var in range(5):
        J(shapes=(((None, None), None), L), var=var)
        J(shapes=(None, (None, L)), var=var, n=2, feats=[1])
    for k in (0, 1, 2, 3) + ((4,) if TH else ()):
        for s in shapes(k):
            J(shapes=(s,), feats=[0, 1] if k < 3 else [0])
    for f in ([9, 135], [999], [0, 9]):
        J(shapes=((None, L),), feats=f)
    for st in (("neg", "neg", "neg"), ("exp", "expneg", "exp"), ("expneg", "exp", "plain")):
        J(shapes=(L, (L, None)), style=st, feats=[0])
    J(shapes=(L, None, (L, None)), prune=True, feats=[0])
    J(shapes=((None, L), L), prune=True, feats=[1])
    for kind, var, keep in (("many", 0, 0), ("many", 1, 130), ("leaves", 1, 0), ("leaves", 2, 0), ("deep", 0, 0), ("deep", 2, 2)):
        out.append(Job(h_large, dict(kind=kind, var=var, keep=keep), stubs=SCORING, needs_ext=True, weight=40))
    return out
