"""Scoring refuses datasets with too few features and never reads outside the feature matrix."""
from symx.runner import Job
from .model_common import *
from .data_common import make_dataset
from .C10 import ref_scores

PRELOAD_PYX = ["rankeval.scoring._efficient_scoring"]
BOUNDS = "2 trees with up to 2 splits, every feature id in 0..4 and in {255, 32766, 32767}, datasets of 1..5 features, basic and detailed, before and after scoring a wider dataset, before and after pruning to the first tree"
OUTSIDE = "feature ids above 32767 (the loaders store them in 16 bits)"
ASSUMPTIONS = ["Cython front end's typing of the .pyx source"]


def h_guard(E):
    c = E.cfg
    det = E.cbool("detailed")
    mx = c["nf"]
    f = [E.pick("f%d" % k, list(range(mx + 2)) + c.get("far", [])) for k in range(c["k"])]
    if c["k"] == 1:
        trees = [(f[0], E.real("th0"), E.real("a"), E.real("b"))]
    else:
        trees = [(f[0], E.real("th0"), E.real("a"), (f[1], E.real("th1"), E.real("b"), E.real("c")))]
    if c.get("two"):
        trees.append(E.real("leaf"))
    m = make_model(E, trees)
    trees = [conc_tree(E, t) for t in trees]
    X = matrix(E, 2, mx)
    d = make_dataset(E, X, [0.0, 0.0], [1, 1])
    if c.get("before"):
        wide = make_dataset(E, [[0.0] * (mx + 2)] * 2, [0.0, 0.0], [1, 1])
        m.score(wide, cache=True, detailed=det)
    need = max(f) + 1
    try:
        r = m.score(d, detailed=det)
    except RuntimeError:
        E.check(need > mx, "a dataset with enough features was refused")
        return
    E.check(need <= mx, "a dataset with fewer features than the model uses was scored")
    if need > mx:
        return
    y = r[0] if det else r
    ref = ref_scores(E, trees, [1.0] * len(trees), cmatrix(E, X), 0.0, 1.0)
    for i in range(2):
        E.close(y[i], ref[i], "score")


def h_pruned(E):
    """the features that count are those of this ensemble, whatever was scored before"""
    det, how = E.cbool("detailed"), E.pick("how", ["copy", "copied source"])
    f = [E.cint("f%d" % k, 0, 3) for k in range(2)]
    trees = [(f[0], E.real("th0"), E.real("a"), E.real("b")), (f[1], E.real("th1"), E.real("c"), E.real("d"))]
    m = make_model(E, trees)
    trees = [conc_tree(E, t) for t in trees]
    wide = make_dataset(E, [[0.0] * 5] * 2, [0.0, 0.0], [1, 1])
    if E.cbool("wide first"):
        m.score(wide, detailed=E.cbool("widedet"))
    c = m.copy(n_trees=1)
    if how == "copied source":
        c, kept = m, trees
    else:
        kept = trees[:1]
    nf = E.cint("nf", 1, 4)
    X = [[E.real("x%d" % j) for j in range(nf)]]
    need = max(t[0] for t in kept) + 1
    try:
        r = c.score(make_dataset(E, X, [0.0], [1]), detailed=det)
    except RuntimeError:
        E.check(need > nf, "a dataset with enough features was refused")
        return
    E.check(need <= nf, "a dataset with fewer features than the model uses was scored")
    if need > nf:
        return
    E.close((r[0] if det else r)[0], ref_scores(E, kept, [1.0] * 2, cmatrix(E, X), 0.0, 1.0)[0], "score")


def jobs(tier):
    out = [Job(h_pruned, {}, stubs=SCORING, needs_ext=True, weight=20)]
    for nf in range(1, 6 if tier != "quick" else 4):
        out.append(Job(h_guard, dict(nf=nf, k=2, two=nf == 2), stubs=SCORING, needs_ext=True, weight=nf))
    out.append(Job(h_guard, dict(nf=2, k=1, far=[255, 32766, 32767]), stubs=SCORING, needs_ext=True))
    out.append(Job(h_guard, dict(nf=2, k=1, before=True), stubs=SCORING, needs_ext=True))
    return out
