"""The bullseye plot of the average tree shape."""
import math
from symx.runner import Job
from .model_common import *
from .viz_common import *

PRELOAD_PYX = ["rankeval.scoring._efficient_scoring", "rankeval.analysis._efficient_topological"]
BOUNDS = "average shapes of 1..5 levels with every frequency symbolic, and of up to 12 levels with 3 of them symbolic; matrices narrower than the level (no tree has the last positions), max_level 0..11, and shapes computed from models of 1..2 trees with up to 3 splits"
OUTSIDE = "colours, labels and rendering by matplotlib; more than 12 levels"
ASSUMPTIONS = ["pcolormesh shows a value on the cell of its grid lines, or around its grid point when there are as many values as grid points (samples are re-run with real matplotlib)"]


class Csr(object):
    """what avg_tree_shape returns, with symbolic entries"""
    def __init__(self, E, rows):
        self.a = E.farray(rows, "float64")
        self.shape = self.a.shape

    def __getitem__(self, k):
        return self.a[k]

    def toarray(self):
        return self.a.copy()
    todense = toarray
    A = property(toarray)


class Shape(object):
    def __init__(self, ts):
        self.ts, self.model = ts, "the model"

    def avg_tree_shape(self):
        return self.ts


def verify(E, fig, level, ts, width):
    """ts[l][k]: the frequency at level l, position k"""
    cells = mesh_cells(E, fig)
    E.check(cells is not None, "one matrix is drawn")
    if cells is None:
        return
    flat_ = [c for r in cells for c in r]
    n = len(ts) if level is None else min(len(ts), level + 1)
    E.check(abs(max(c[3] for c in flat_) - n) < 1e-6, "number of levels shown")
    for l in range(n):
        ring = [c for c in flat_ if c[2] < l + 0.5 < c[3]]
        for pos in (0.1, 0.9):
            E.check(all(c[2] < l + pos < c[3] for c in ring), "a level is drawn outside its ring")
        W = math.pi / 2 ** l
        for k in range(2 ** l):
            want = ts[l][k] if k < width else 0.0
            if l > 7 and k % 37 and k != 2 ** l - 1 and k + 1 != width and want is not None and not getattr(want, "is_sym", False) and not hasattr(want, "expr"):
                continue
            for f in (0.02, 0.5, 0.98):
                hit = [c for c in ring if c[0] <= (k + f) * W < c[1]]
                E.check(len(hit) == 1, "wedge of a position")
                if len(hit) == 1:
                    E.close(hit[0][4], want, "wedge does not show the frequency of its position")


def h_shape(E):
    use_agg(E)
    c = E.cfg
    L, width = c["levels"], c.get("width") or 2 ** (c["levels"] - 1)
    level = E.pick("max_level", c["max"])
    rows = []
    for l in range(L):
        r = []
        for k in range(width):
            n = l * width + k
            free = k < 2 ** l and (not c.get("few") or (l, k) in ((L - 1, width - 1), (L - 2, 1), (L - 1, 0)))
            r.append(E.real("f%d_%d" % (l, k), 0, 1) if free else 0.0 if k >= 2 ** l else ((n * 7) % 13) / 13.0)
        rows.append(r)
    if E.symbolic:
        ts = Csr(E, rows)
    else:
        from scipy.sparse import csr_matrix
        ts = csr_matrix(rnp.array(rows, dtype=float))
    fig = E.mod("rankeval.visualization.topological").plot_shape(Shape(ts), **({} if level == "default" else {"max_level": level}))
    verify(E, fig, 10 if level == "default" else level, rows, width)


def h_model(E):
    """from the trees to the picture"""
    use_agg(E)
    pool = [s for k in range(1, E.cfg["maxk"] + 1) for s in shapes(k)]
    trees = [fill(E, E.pick("s%d" % k, pool), "t%d_" % k, 1, 0) for k in range(E.cfg["T"])]
    m = make_model(E, trees, name="m")
    inc = E.cbool("leaves")
    r = E.mod("rankeval.analysis.topological").topological_analysis(m, include_leaves=inc)
    H = max(max(a for a, b, lf in positions(t) if inc or not lf) for t in trees) + 1
    ts = [[sum(1.0 for t in trees for a, b, lf in positions(t) if (a, b) == (l, k) and (inc or not lf)) / len(trees) for k in range(2 ** l)] for l in range(H)]
    fig = E.mod("rankeval.visualization.topological").plot_shape(r)
    cells = mesh_cells(E, fig)
    E.check(cells is not None, "one matrix is drawn")
    if cells is None:
        return
    for l in range(H):
        W = math.pi / 2 ** l
        for k in range(2 ** l):
            hit = [c for row in cells for c in row if c[2] < l + 0.5 < c[3] and c[0] <= (k + 0.5) * W < c[1]]
            E.check(len(hit) == 1, "wedge of a position")
            if len(hit) == 1:
                E.close(hit[0][4], ts[l][k], "wedge does not show the share of trees having the node")


def jobs(tier):
    out = []
    st = lambda E: dict(pyx_stubs("rankeval.scoring._efficient_scoring", "rankeval.analysis._efficient_topological"), **stubs(E))
    J = lambda fn, **c: out.append(Job(fn, c, stubs=st, needs_ext=True, weight=5))
    J(h_shape, levels=1, max=[0, 1, 16])
    J(h_shape, levels=2, max=[0, 1, 2, "default"])
    J(h_shape, levels=3, max=[1, 2, 5])
    J(h_shape, levels=4, max=[2, 3, 16])
    J(h_shape, levels=4, width=5, max=[3])
    J(h_shape, levels=5, max=["default"])
    J(h_shape, levels=8, few=True, max=[7])
    J(h_shape, levels=9, few=True, max=["default"])
    J(h_shape, levels=12, few=True, width=700, max=["default", 11])
    J(h_model, T=1, maxk=3)
    J(h_model, T=2, maxk=2)
    return out
