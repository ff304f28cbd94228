"""Structural statistics of an ensemble."""
from symx.runner import Job
from .model_common import *

BOUNDS = "1..3 trees, each any shape with up to 3 splits (one tree: up to 5), depth-first and breadth-first layouts, also after pruning; ensembles of fixed trees of more than 65535 nodes, 290 trees, 300 levels or 257 leaves with one symbolic tree"
OUTSIDE = "larger trees with all numbers symbolic"


def h_stats(E):
    c = E.cfg
    pool = [s for k in range(c["maxk"] + 1) for s in shapes(k)]
    sh = [E.pick("s%d" % k, pool) for k in range(c["T"])]
    order = E.pick("order", ["pre", "bfs"])
    trees = [fill(E, s, "t%d_" % k, 1, 0) for k, s in enumerate(sh)]
    m = make_model(E, trees, order=order)
    keep = E.cint("keep", 1, c["T"])
    if keep < c["T"]:
        m = m.copy(n_trees=keep)
    trees = trees[:keep]
    nl, nn, h = m.num_leaves(), m.num_nodes(), m.height_trees()
    E.observe("s", [nl, nn, h])
    E.check([int(v) for v in nl] == [num_leaves(t) for t in trees], "num_leaves")
    E.check([int(v) for v in nn] == [num_nodes(t) for t in trees], "num_nodes")
    E.check([int(v) for v in h] == [height(t) for t in trees], "height_trees")
    E.check(int(m.max_leaves()) == max(num_leaves(t) for t in trees), "max_leaves")
    E.check(int(m.n_nodes) == sum(num_nodes(t) for t in trees) and int(m.n_trees) == len(trees), "totals")
    o = 0
    for t in trees:
        leaf = [n[2] == -1 for n in layout(t, order)]
        for j, lf in enumerate(leaf):
            E.check(bool(m.is_leaf_node(o + j)) == lf, "is_leaf_node")
        o += len(leaf)


def h_big(E):
    """more nodes, trees, levels and leaves than small integers count"""
    trees, _ = big_trees(E, E.cfg["kind"])
    order = E.cfg["order"]
    m = make_model(E, trees, order=order)
    nl, nn, h = m.num_leaves(), m.num_nodes(), m.height_trees()
    E.observe("s", [nl, nn, h])
    E.check([int(v) for v in nl] == [num_leaves(t) for t in trees], "num_leaves")
    E.check([int(v) for v in nn] == [num_nodes(t) for t in trees], "num_nodes")
    E.check([int(v) for v in h] == [height(t) for t in trees], "height_trees")
    E.check(int(m.max_leaves()) == max(num_leaves(t) for t in trees), "max_leaves")
    E.check(int(m.n_nodes) == sum(num_nodes(t) for t in trees) and int(m.n_trees) == len(trees), "totals")
    leaf = [n[2] == -1 for t in trees for n in layout(t, order)]
    for j in sorted(set(k for k in (0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, len(leaf) - 2, len(leaf) - 1) if k < len(leaf))):
        E.check(bool(m.is_leaf_node(j)) == leaf[j], "is_leaf_node")


def jobs(tier):
    big = [Job(h_big, dict(kind=k, order=o), weight=9) for k, o in [("nodes", "bfs"), ("nodes2", "pre"), ("trees", "pre"), ("deep", "pre"), ("deep", "bfs"), ("leaves", "pre")]]
    out = big + [Job(h_stats, dict(T=1, maxk=5 if tier == "quick" else 6), weight=9), Job(h_stats, dict(T=2, maxk=3 if tier == "quick" else 4), weight=9), Job(h_stats, dict(T=3, maxk=2), weight=20)]
    return out
