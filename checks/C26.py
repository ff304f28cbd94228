"""Saving in QuickRank format and loading back."""
from symx.runner import Job
from .proxy_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..3 trees of 0..3 splits (thorough 4), two node layouts, feature ids 0, 1, 9, 135 and 999, every tree weight, threshold, leaf value, base score and learning rate, pruned to 1..3 trees or not, " \
         "models built in memory or loaded from QuickRank or LightGBM text, saved twice or overwriting a longer file, 1..2 documents" + LARGE
OUTSIDE = "single-precision rounding beyond the shortest exact spelling; feature id 32767; larger ensembles with all numbers symbolic"
ASSUMPTIONS = ["the XML parser and writer of the Python library", "repr of a single-precision number is a spelling that reads back exactly (NumPy 1)", "Cython front end's typing of the .pyx source"]


def h_round(E):
    c = E.cfg
    E.text_mode()
    feats = c.get("feats", [0, 1])
    trees = feature_trees(E, c["shapes"], feats)
    w = [E.real("w%d" % k, -4, 4) for k in range(len(trees))]
    kw = {}
    lr, base = 1.0, 0.0
    if c.get("scaled"):
        lr, base = E.real("lr", 0, 2), E.real("base", -4, 4)
        kw = dict(learning_rate=lr, base_score=base)
    M = E.mod("rankeval.model")
    via = c.get("via")
    if via:
        T = Txt(E)
        if via == "LightGBM":
            w = [1.0] * len(trees)
            p = E.tmp("src", lightgbm(E, trees, T, 1))
        else:
            p = E.tmp("src", quickrank(E, trees, w, T, 4))
        m = M.RTEnsemble(p, format=via, **kw)
    else:
        m = make_model(E, trees, w, c.get("order", "pre"), **kw)
    keep = len(trees)
    if c.get("prune"):
        keep = E.cint("keep", 1, len(trees))
        m = m.copy(n_trees=keep)
    X = docs(E, c.get("n", 1), feats)
    d = make_dataset(E, X, [0.0] * len(X), [1] * len(X))
    y0 = m.score(d)
    f = E.tmp("out.xml")
    if c.get("over"):
        big = make_model(E, [1.0, (0, 0.5, 1.0, (0, 0.75, 2.0, 3.0)), (0, 0.5, 1.0, (0, 0.75, 2.0, 3.0)), (0, 0.5, 1.0, (0, 0.75, 2.0, 3.0))])
        big.save(f)
    E.check(m.save(f, format="QuickRank") is True, "save reports success")
    b = M.RTEnsemble(f, format="QuickRank", **kw)
    check_model(E, b, trees[:keep], w[:keep], X, base, lr, "saved and loaded model")
    y1 = b.score(d)
    for i in range(len(X)):
        E.close(y1[i], y0[i], "the loaded copy scores a document differently")
    check_model(E, m, trees[:keep], w[:keep], X, base, lr, "model after saving it")
    if c.get("twice"):
        g = E.tmp("out2.xml")
        b.save(g)
        check_model(E, M.RTEnsemble(g, **kw), trees[:keep], w[:keep], X, base, lr, "model saved, loaded, saved and loaded")


def h_large(E):
    """large ensembles"""
    c = E.cfg
    E.text_mode()
    trees, X = large_trees(E, c["kind"])
    w = [0.25 * (k % 5) + 0.5 for k in range(len(trees))]
    M = E.mod("rankeval.model")
    m = make_model(E, trees, w, c.get("order", "pre"))
    f = E.tmp("out.xml")
    E.check(m.save(f, format="QuickRank") is True, "save reports success")
    check_model(E, M.RTEnsemble(f, format="QuickRank"), trees, w, X, 0.0, 1.0, "saved and loaded model")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda **c: out.append(Job(h_round, c, stubs=SCORING, needs_ext=True, weight=len(str(c["shapes"]))))
    L = (None, None)
    for k in (0, 1, 2, 3) + ((4,) if TH else ()):
        for i, s in enumerate(shapes(k)):
            J(shapes=(s,), feats=[0, 1] if k < 3 else [0], order=["pre", "bfs"][i % 2])
    J(shapes=(L, None, (L, None)), feats=[0], prune=True, order="bfs")
    J(shapes=((None, L), L), feats=[1], prune=True, scaled=True)
    J(shapes=(L, (None, L)), feats=[0], scaled=True, n=2)
    for via in ("QuickRank", "LightGBM"):
        J(shapes=((L, None), None, L), feats=[0], via=via)
        J(shapes=((None, L),), feats=[0, 1], via=via, scaled=True)
    J(shapes=(L, (L, L)), feats=[0], twice=True)
    J(shapes=(L,), feats=[0, 1], over=True)
    for f in ([9, 135], [999]):
        J(shapes=((None, L),), feats=f)
    for kind, order in (("many", "pre"), ("leaves", "bfs"), ("leaves", "pre"), ("deep", "bfs")):
        out.append(Job(h_large, dict(kind=kind, order=order), stubs=SCORING, needs_ext=True, weight=40))
    return out
