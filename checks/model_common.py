"""Shared: building ensembles through the public constructor, and the reference meaning of a tree.

A tree is a number (leaf) or a tuple (feature, threshold, left, right)."""

import sys
import numpy

sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))


def is_leaf(t):
    return not isinstance(t, tuple)


def shapes(k):
    """all binary tree shapes with k internal nodes: None = leaf, (l, r) = split"""
    if k == 0:
        return [None]
    out = []
    for a in range(k):
        for l in shapes(a):
            for r in shapes(k - 1 - a):
                out.append((l, r))
    return out


def fill(E, shape, tag, nfeat, feat=None):
    """a tree of this shape with symbolic thresholds and leaf values and forked features"""
    cnt = [0]

    def rec(s):
        i = cnt[0]
        cnt[0] += 1
        if s is None:
            return E.real("%sv%d" % (tag, i))
        f = E.cint("%sf%d" % (tag, i), 0, nfeat - 1) if feat is None else feat
        t = E.real("%st%d" % (tag, i))
        return (f, t, rec(s[0]), rec(s[1]))
    return rec(shape)


def layout(t, order="pre"):
    """[(feature, value, left index, right index)] of a tree, parents before children"""
    nodes = []
    if order == "pre":
        def rec(u):
            i = len(nodes)
            nodes.append(None)
            if is_leaf(u):
                nodes[i] = (-1, u, -1, -1)
            else:
                l = rec(u[2])
                r = rec(u[3])
                nodes[i] = (u[0], u[1], l, r)
            return i
        rec(t)
    else:
        queue = [t]
        k = 0
        nxt = 1
        while k < len(queue):
            u = queue[k]
            if is_leaf(u):
                nodes.append((-1, u, -1, -1))
            else:
                nodes.append((u[0], u[1], nxt, nxt + 1))
                queue += [u[2], u[3]]
                nxt += 2
            k += 1
    return nodes


def leaf_indices(t, order="pre"):
    """local node index of each leaf in left-to-right order (parallel to leaves())"""
    out = []
    nodes = layout(t, order)

    def rec(i):
        if nodes[i][2] == -1:
            out.append(i)
        else:
            rec(nodes[i][2])
            rec(nodes[i][3])
    rec(0)
    return out


class _Loading(object):
    """Loads through RTEnsemble(...) itself; only the file parser is replaced by an in-memory one."""
    def __init__(self, E, trees, weights, order):
        self.E, self.trees, self.weights, self.order = E, trees, weights, order

    def __call__(self, path, model):
        lay = [layout(t, self.order) for t in self.trees]
        model.initialize(len(lay), sum(len(l) for l in lay))
        o = 0
        for k, (l, w) in enumerate(zip(lay, self.weights)):
            model.trees_root[k] = o
            model.trees_weight[k] = w
            for j, (f, v, a, b) in enumerate(l):
                model.trees_nodes_feature[o + j] = f
                model.trees_nodes_value[o + j] = v
                if a != -1:
                    model.trees_left_child[o + j] = o + a
                    model.trees_right_child[o + j] = o + b
            o += len(l)


def make_model(E, trees, weights=None, order="pre", **kw):
    M = E.mod("rankeval.model")
    weights = [1.0] * len(trees) if weights is None else weights
    old = M.ProxyQuickRank.load
    M.ProxyQuickRank.load = staticmethod(_Loading(E, trees, weights, order))
    try:
        return M.RTEnsemble("in-memory", **kw)
    finally:
        M.ProxyQuickRank.load = old


def eval_tree(E, t, x):
    """value of the leaf reached (symbolic if-then-else; left iff x[f] <= threshold)"""
    while not is_leaf(t):
        c = x[t[0]] <= t[1]
        if not isinstance(c, (bool, numpy.bool_)):
            return E.ite(c, eval_tree(E, t[2], x), eval_tree(E, t[3], x))
        t = t[2] if c else t[3]
    return t


def bst(lo, hi, f=0):
    """balanced tree: a document with the integer feature f in [lo, hi) reaches the leaf with that value"""
    if hi - lo == 1:
        return float(lo)
    mid = (lo + hi) // 2
    return (f, mid - 0.5, bst(lo, mid, f), bst(mid, hi, f))


def chain(d, f=0, side="R"):
    """chain of d splits: a document with feature f = k (side R) or -k (side L) reaches leaf k, at depth k + 1 (depth d for k = d)"""
    t = float(d)
    for k in reversed(range(d)):
        t = (f, k + 0.5, float(k), t) if side == "R" else (f, -k - 0.5, t, float(k))
    return t


def big_trees(E, kind):
    """a large ensemble of concrete trees on feature 0, with one symbolic tree on feature 1 at its end, and values of feature 0 worth testing"""
    last = (1, E.real("bt", -8, 8), E.real("bl", -8, 8), E.real("br", -8, 8))
    if kind == "nodes":          # more than 65535 nodes
        return [bst(0, 33000), last], [0, 127, 16383, 16500, 32767, 32999]
    if kind == "nodes2":         # more than 32767 nodes, over several trees
        return [bst(0, 5000), bst(0, 3), chain(40), bst(0, 12000), last], [0, 1, 39, 4999, 11999]
    if kind == "trees":          # more than 255 trees
        return [float(k % 5) if k % 3 else (0, k + 0.5, float(k % 7), 1.0) for k in range(290)] + [last], [0, 120, 250, 280]
    if kind == "deep":           # more than 255 levels
        return [chain(300), chain(140, 0, "L"), last], [0, 127, 128, 255, 256, 299, 300, -1, -140]
    if kind == "leaves":         # more than 127 and 255 leaves
        return [bst(0, 128), bst(0, 129), bst(0, 256), bst(0, 257), last], [0, 100, 128, 200, 255, 256]
    raise ValueError(kind)


def big_matrix(E, vals):
    return [[float(v), E.real("bx%d" % i, -9, 9)] for i, v in enumerate(vals)]


def f32(E, x):
    """the value a float32 buffer holds"""
    if E.symbolic:
        return x
    return float(numpy.float32(x))


def eval_leaf(E, t, x):
    """index of the leaf reached in left-to-right order (forks)"""
    k = 0

    def nl(u):
        return 1 if is_leaf(u) else nl(u[2]) + nl(u[3])
    while not is_leaf(t):
        if bool(f32(E, x[t[0]]) <= f32(E, t[1])):
            t = t[2]
        else:
            k += nl(t[2])
            t = t[3]
    return k


def conc_tree(E, t):
    """thresholds as float32 on concrete runs, so the reference compares what the buffers hold"""
    if E.symbolic:
        return t
    if is_leaf(t):
        return f32(E, t)
    return (t[0], f32(E, t[1]), conc_tree(E, t[2]), conc_tree(E, t[3]))


def matrix(E, n, m, tag="x"):
    return [[E.real("%s%d_%d" % (tag, i, j)) for j in range(m)] for i in range(n)]


def cmatrix(E, X):
    return X if E.symbolic else [[f32(E, v) for v in r] for r in X]


def pyx_stubs(*names):
    """remove the stubs of compiled modules so that their .pyx source is interpreted"""
    return {n: None for n in names}


SCORING = pyx_stubs("rankeval.scoring._efficient_scoring")
TOPO = pyx_stubs("rankeval.analysis._efficient_topological")


def num_leaves(t):
    return 1 if is_leaf(t) else num_leaves(t[2]) + num_leaves(t[3])


def num_nodes(t):
    return 1 if is_leaf(t) else 1 + num_nodes(t[2]) + num_nodes(t[3])


def height(t):
    return 0 if is_leaf(t) else 1 + max(height(t[2]), height(t[3]))


def positions(t, row=0, col=0):
    """[(row, col, leaf?)] in the full binary tree"""
    if is_leaf(t):
        return [(row, col, True)]
    return [(row, col, False)] + positions(t[2], row + 1, 2 * col) + positions(t[3], row + 1, 2 * col + 1)
