"""Detailed scoring agrees with basic scoring."""
from symx.runner import Job
from .model_common import *
from .C10 import build, dataset, ref_scores

PRELOAD_PYX = ["rankeval.scoring._efficient_scoring"]
BOUNDS = "1..3 trees of up to 3 splits, 1..3 features, 1..2 documents; symbolic thresholds, leaf values, weights, learning rate, base score; ensembles of fixed trees of more than 65535 nodes, 290 trees, 300 levels or 257 leaves with one symbolic tree"
OUTSIDE = "float32 rounding; NaN features; larger ensembles with all numbers symbolic"
ASSUMPTIONS = ["Cython front end's typing of the .pyx source"]


def h_detailed(E):
    m, trees, w, X, lr, base = build(E)
    d = dataset(E, X)
    order = E.cfg.get("order", "pre")
    y, part, leaves = m.score(d, detailed=True)
    y0 = m.score(d)
    cx = cmatrix(E, X)
    n, T = len(X), len(trees)
    E.check(part.shape == (n, T) and leaves.shape == (n, T) and len(y) == n, "shapes of the detailed results")
    E.observe("y", [y, part, leaves])
    roots = [int(r) for r in m.trees_root]
    for i in range(n):
        E.close(y[i], y0[i], "detailed and basic scores differ")
        s = 0.0
        for k, t in enumerate(trees):
            s = s + part[i, k]
            ex = eval_tree(E, t, cx[i]) * w[k] * lr + (base if k == 0 else 0.0)
            E.close(part[i, k], ex, "partial score of a tree is not its weighted leaf value (base score on the first tree)")
            li = leaf_indices(t, order)[eval_leaf(E, t, cx[i])]
            E.check(int(leaves[i, k]) == roots[k] + li, "reported exit leaf is not the leaf reached")
        E.close(s, y[i], "partial scores do not sum to the score")


def h_big(E):
    """more nodes, trees, levels and leaves than small integers count"""
    c = E.cfg
    trees, vals = big_trees(E, c["kind"])
    order = c.get("order", "pre")
    X = big_matrix(E, [E.pick("doc", vals)])
    m = make_model(E, trees, order=order, base_score=0.25)
    y, part, leaves = m.score(dataset(E, X), detailed=True)
    trees = [conc_tree(E, t) for t in trees]
    cx = cmatrix(E, X)
    E.observe("y", [y, leaves])
    E.close(y[0], ref_scores(E, trees, [1.0] * len(trees), cx, 0.25, 1.0)[0], "detailed and basic scores differ")
    some = range(len(trees)) if len(trees) < 20 else [0, 1, 2, 127, 128, 255, 256, 257, len(trees) - 2, len(trees) - 1]
    roots = [0]
    for t in trees:
        roots.append(roots[-1] + num_nodes(t))
    for k in some:
        E.close(part[0, k], eval_tree(E, trees[k], cx[0]) + (0.25 if k == 0 else 0.0), "partial score of a tree is not its weighted leaf value (base score on the first tree)")
        E.check(int(leaves[0, k]) == roots[k] + leaf_indices(trees[k], order)[eval_leaf(E, trees[k], cx[0])], "reported exit leaf is not the leaf reached")


def h_accessors(E):
    """a Scorer's accessors, in any order, give the unscaled detailed results"""
    m, trees, w, X, lr, base = build(E)
    d = dataset(E, X)
    order = E.cfg.get("order", "pre")
    sc = E.mod("rankeval.scoring").Scorer(m, d)
    seq = E.pick("seq", [("l",), ("y", "l", "p"), ("p", "y", "l"), ("l", "p", "y"), ("p", "l", "y"), ("y", "p", "l")])
    got = {}
    for q in seq:
        got[q] = {"y": sc.get_predicted_scores, "p": sc.get_partial_predicted_scores, "l": sc.get_predicted_leaves}[q]()
    cx = cmatrix(E, X)
    roots = [int(r) for r in m.trees_root]
    E.observe("got", [got[q] for q in sorted(got)])
    for i in range(len(X)):
        s = 0.0
        for k, t in enumerate(trees):
            ex = eval_tree(E, t, cx[i]) * w[k]
            s = s + ex
            if "p" in got:
                E.close(got["p"][i, k], ex, "Scorer: partial score")
            E.check(int(got["l"][i, k]) == roots[k] + leaf_indices(t, order)[eval_leaf(E, t, cx[i])], "Scorer: predicted leaf")
        if "y" in got:
            E.close(got["y"][i], s, "Scorer: predicted score")


def jobs(tier):
    T = tier != "quick"
    out = []
    J = lambda w, **c: out.append(Job(h_detailed, c, stubs=SCORING, needs_ext=True, weight=w))
    for s in shapes(0) + shapes(1) + shapes(2):
        J(4, shapes=(s,), n=2, nf=2)
    for s in shapes(3) + (shapes(4) if T else []):
        J(10, shapes=(s,), n=1, nf=2, order="bfs", feat=None if T else 1)
    J(30, shapes=((None, None), (None, (None, None))), n=2, nf=2, lr=True, base=True, feat=0)
    J(30, shapes=((None, None), None, ((None, None), None)), n=1, nf=2, lr=True, base=True)
    J(30, shapes=(((None, None), None), (None, None)), n=1, nf=2, order="bfs", base=True)
    J(20, shapes=((None, None), (None, None)), n=2, nf=2, lr=True)
    for k, o in [("nodes", "pre"), ("nodes2", "pre"), ("trees", "bfs"), ("deep", "pre"), ("leaves", "bfs")]:
        out.append(Job(h_big, dict(kind=k, order=o), stubs=SCORING, needs_ext=True, weight=80))
    out.append(Job(h_accessors, dict(shapes=((None, None), (None, None)), n=2, nf=2, feat=0), stubs=SCORING, needs_ext=True, weight=20))
    out.append(Job(h_accessors, dict(shapes=(((None, None), None), None), n=1, nf=2, order="bfs"), stubs=SCORING, needs_ext=True, weight=20))
    return out
