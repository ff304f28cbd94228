"""Copying and pruning ensembles."""
from symx.runner import Job
from .model_common import *
from .data_common import make_dataset
from .C10 import ref_scores

PRELOAD_PYX = ["rankeval.scoring._efficient_scoring"]
BOUNDS = "1..4 trees of 0..2 splits, any requested number of trees from 0 to 5, symbolic thresholds, leaf values, weights, learning rate, base score; " \
         "the source may have cached scores; ensembles of fixed trees of more than 65535 nodes, 290 trees, 300 levels or 257 leaves with one symbolic tree"
OUTSIDE = "larger ensembles with all numbers symbolic; scoring an ensemble of zero trees"
ASSUMPTIONS = ["Cython front end's typing of the .pyx source"]


def h_copy(E):
    c = E.cfg
    T = len(c["shapes"])
    trees = [fill(E, s, "t%d_" % k, 1, 0) for k, s in enumerate(c["shapes"])]
    w = [E.real("w%d" % k, -4, 4) for k in range(T)]
    lr, base = E.real("lr", 0, 2), E.real("base", -2, 2)
    how = c["how"]
    k = E.cint("k", 0, T + 1)
    kw = dict(learning_rate=lr, base_score=base)
    if how == "load":
        m = make_model(E, trees, w, n_trees=k, **kw)
        src = None
    else:
        src = make_model(E, trees, w, **kw)
    trees = [conc_tree(E, t) for t in trees]
    X = matrix(E, 1, 1)
    d = make_dataset(E, X, [0.0], [1])
    cx = cmatrix(E, X)
    if how == "copy":
        if E.cbool("cached"):
            src.score(d, cache=True, detailed=E.cbool("cdet"))
        m = src.copy(n_trees=k)
    elif how == "copyall":
        k = T
        if E.cbool("cached"):
            src.score(d, cache=True, detailed=E.cbool("cdet"))
        m = src.copy()
    k = min(k, T)
    E.check(int(m.n_trees) == k, "number of trees")
    E.check(int(m.n_nodes) == sum(num_nodes(t) for t in trees[:k]), "number of nodes")
    if k > 0:       # (an ensemble without trees cannot be scored)
        ref = ref_scores(E, trees[:k], w[:k], cx, base, lr)
        y = m.score(d)
        E.observe("y", y)
        E.close(y[0], ref[0], "the pruned model does not score like its first trees")
        yd, part, leaves = m.score(d, detailed=True)
        E.check(part.shape == (1, k) and leaves.shape == (1, k), "detailed scoring of the pruned model")
        E.close(yd[0], ref[0], "detailed score of the pruned model")
    if src is not None:
        E.check(int(src.n_trees) == T, "copying changed the source")
        full = ref_scores(E, trees, w, cx, base, lr)
        E.close(src.score(d)[0], full[0], "the source scores differently after a copy")
        # the copy shares no state with the source
        m.trees_nodes_value[:] = 7.0
        m.trees_weight[:] = 3.0
        m.trees_left_child[:] = -1
        m.trees_right_child[:] = -1
        m.clear_cache()
        src.clear_cache()
        E.close(src.score(d)[0], full[0], "changing the copy changes the source")


def h_big(E):
    """copying and pruning ensembles with more nodes, trees and levels than small integers count"""
    c = E.cfg
    trees, vals = big_trees(E, c["kind"])
    T = len(trees)
    k = E.pick("k", [v for v in (0, 1, 2, 127, 128, 130, 255, 256, 257, T - 1, T) if v <= T])
    X = big_matrix(E, [E.pick("doc", vals[-2:])])
    d = make_dataset(E, X, [0.0], [1])
    src = make_model(E, trees)
    m = src.copy(n_trees=k) if c["how"] == "copy" else make_model(E, trees, n_trees=k)
    E.check(int(m.n_trees) == k, "number of trees")
    E.check(int(m.n_nodes) == sum(num_nodes(t) for t in trees[:k]), "number of nodes")
    trees = [conc_tree(E, t) for t in trees]
    cx = cmatrix(E, X)
    if k == 0:
        return
    y = m.score(d)
    E.observe("y", y)
    E.close(y[0], ref_scores(E, trees[:k], [1.0] * k, cx, 0.0, 1.0)[0], "the pruned model does not score like its first trees")
    E.close(src.score(d)[0], ref_scores(E, trees, [1.0] * T, cx, 0.0, 1.0)[0], "the source scores differently after a copy")


def jobs(tier):
    out = []
    for how in ("load", "copy"):
        for kind in ("nodes2", "trees", "deep"):
            out.append(Job(h_big, dict(kind=kind, how=how), stubs=SCORING, needs_ext=True, weight=20))
    for how in ("load", "copy", "copyall"):
        for sh in [((None, None),), ((None, None), None, (None, None)), (None, (None, (None, None)))] + \
                ([((None, None), (None, None), None, (None, None))] if tier != "quick" else []):
            out.append(Job(h_copy, dict(shapes=sh, how=how), stubs=SCORING, needs_ext=True, weight=len(sh)))
    return out
