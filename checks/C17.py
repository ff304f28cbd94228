"""Topological analysis."""
from symx.runner import Job
from .model_common import *

PRELOAD_PYX = ["rankeval.analysis._efficient_topological"]
BOUNDS = "1..3 trees, each any shape with up to 3 splits (one tree: 5), and chains of depth up to 40 (thorough 62); with and without leaves; 100 and 300 trees of fixed shapes"
OUTSIDE = "trees deeper than 62 levels (64-bit node positions); a tree that is a single leaf when leaves are excluded; fullness_per_level"
ASSUMPTIONS = ["Cython front end's typing of the .pyx source", "scipy's csr_matrix and describe"]


def verify(E, m, trees, inc, r):
    exp = {}
    for t in trees:
        for a, b, lf in positions(t):
            if inc or not lf:
                exp[(a, b)] = exp.get((a, b), 0) + 1
    got = {}
    coo = r.topology.tocoo()
    for a, b, v in zip(coo.row, coo.col, coo.data):
        if v:
            got[(int(a), int(b))] = float(v)
    E.check(got == {k: float(v) for k, v in exp.items()}, "the count of trees having each node")
    E.check([int(h) for h in r.height_trees] == [height(t) for t in trees], "height of each tree")
    coo = r.avg_tree_shape().tocoo()
    frac = {(int(a), int(b)): float(v) for a, b, v in zip(coo.row, coo.col, coo.data) if v}
    E.check(set(frac) == set(exp) and all(abs(frac[k] - exp[k] / float(len(trees))) < 1e-6 for k in exp), "fraction of trees having each node")
    ds = r.describe_tree_height()
    hs = [height(t) for t in trees]
    E.check(int(ds.nobs) == len(hs) and tuple(int(v) for v in ds.minmax) == (min(hs), max(hs)) and abs(float(ds.mean) - sum(hs) / float(len(hs))) < 1e-6,
            "tree height statistics")


def h_topo(E):
    c = E.cfg
    inc = E.cbool("leaves")
    lo = 0 if inc else 1
    pool = [s for k in range(lo, c["maxk"] + 1) for s in shapes(k)]
    sh = [E.pick("s%d" % k, pool) for k in range(c["T"])]
    order = E.pick("order", ["pre", "bfs"])
    trees = [fill(E, s, "t%d_" % k, 1, 0) for k, s in enumerate(sh)]
    m = make_model(E, trees, order=order)
    r = E.mod("rankeval.analysis.topological").topological_analysis(m, include_leaves=inc)
    E.observe("h", r.height_trees)
    verify(E, m, trees, inc, r)


def h_chain(E):
    """deep chains: every step goes left or right according to a pattern"""
    depth = E.cint("depth", E.cfg["lo"], E.cfg["hi"])
    pat = E.pick("pat", ["L", "R", "LR", "RRL"])
    inc = E.cbool("leaves")
    t = 1.0
    for k in reversed(range(depth)):
        t = (0, 0.5, t, 2.0) if pat[k % len(pat)] == "L" else (0, 0.5, 2.0, t)
    trees = [t, (0, 0.5, 1.0, 2.0)]
    m = make_model(E, trees, order=E.pick("order", ["pre", "bfs"]))
    r = E.mod("rankeval.analysis.topological").topological_analysis(m, include_leaves=inc)
    E.observe("h", r.height_trees)
    verify(E, m, trees, inc, r)


def h_many(E):
    """more trees and nodes than small integers count"""
    n = E.cfg["n"]
    inc = E.cbool("leaves")
    trees = [(0, 0.5, E.real("v"), 2.0)] + [[(0, 0.5, 1.0, (1, 2.5, 3.0, 4.0)), (1, 1.5, (0, 0.5, 1.0, 2.0), (0, 3.5, 1.0, 0.0)), (0, 2.5, bst(0, 5), 1.0)][k % 3] for k in range(n - 1)]
    m = make_model(E, trees, order=E.pick("order", ["pre", "bfs"]))
    r = E.mod("rankeval.analysis.topological").topological_analysis(m, include_leaves=inc)
    E.observe("h", r.height_trees)
    verify(E, m, trees, inc, r)


def jobs(tier):
    T = tier != "quick"
    out = [Job(h_many, dict(n=n), stubs=TOPO, needs_ext=True, weight=9) for n in (100, 300)]
    out += [Job(h_topo, dict(T=1, maxk=4 if not T else 5), stubs=TOPO, needs_ext=True, weight=9), Job(h_topo, dict(T=2, maxk=3), stubs=TOPO, needs_ext=True, weight=20),
           Job(h_topo, dict(T=3, maxk=2 if T else 1), stubs=TOPO, needs_ext=True, weight=20)]
    for a, b in ((1, 20), (21, 40)) + (((41, 62),) if T else ()):
        out.append(Job(h_chain, dict(lo=a, hi=b), stubs=TOPO, needs_ext=True, weight=8))
    return out
