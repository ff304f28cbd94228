"""Loading CatBoost (CoreML) models."""
import types
from symx.runner import Job
from .proxy_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..3 oblivious trees of depth 0..2 (thorough 3), of equal or different depth, both branch conditions, feature ids 0, 1, 9, 135 and 999, every border and leaf value, " \
         "requested number of trees 1..3 or all, 1..2 documents; one tree of depth 16 (131071 nodes); 150 trees of depth 0..3 and trees of depth 7 with fixed numbers and one symbolic split and leaf"
OUTSIDE = "single-precision rounding of the numbers; a bias of the whole model; larger ensembles with all numbers symbolic"
ASSUMPTIONS = ["CatBoost's node order: nodes of a tree in increasing id, leaves first, root last", "coremltools reads the file (a stub with its message classes; replays run the real one)",
               "Cython front end's typing of the .pyx source"]
GT, LE, GE, LEAF = "BranchOnValueGreaterThan", "BranchOnValueLessThanEqual", "BranchOnValueGreaterThanEqual", "LeafNode"
BEH = {LE: 0, "BranchOnValueLessThan": 1, GE: 2, GT: 3, "BranchOnValueEqual": 4, "BranchOnValueNotEqual": 5, LEAF: 6}
CURRENT = []


class Node(object):
    pass


def _mlmodel(path):
    m = Node()

    def get_spec():
        s = Node()
        s.treeEnsembleRegressor = Node()
        s.treeEnsembleRegressor.treeEnsemble = Node()
        s.treeEnsembleRegressor.treeEnsemble.nodes = list(CURRENT)
        return s
    m.get_spec = get_spec
    return m


def stubs(se):
    c = types.ModuleType("coremltools")
    for path, v in (("models.model.MLModel", _mlmodel), ("models.MLModel", _mlmodel)):
        o = c
        parts = path.split(".")
        for q in parts[:-1]:
            if not hasattr(o, q):
                setattr(o, q, types.SimpleNamespace())
            o = getattr(o, q)
        setattr(o, parts[-1], v)
    beh = types.SimpleNamespace(Value=lambda n: BEH[n], Name=lambda v: [k for k in BEH if BEH[k] == v][0])
    tn = types.SimpleNamespace(TreeNodeBehavior=beh, **BEH)
    c.proto = types.SimpleNamespace(TreeEnsemble_pb2=types.SimpleNamespace(TreeEnsembleParameters=types.SimpleNamespace(TreeNode=tn)))
    d = dict(SCORING)
    d["coremltools"] = c
    return d


def oblivious(splits, leaves):
    """tree value from per-level (feature, border), root first, and leaves left to right"""
    def rec(k, o, n):
        if k == len(splits):
            return leaves[o]
        return (splits[k][0], splits[k][1], rec(k + 1, o, n // 2), rec(k + 1, o + n // 2, n // 2))
    return rec(0, 0, len(leaves))


def nodes_of(tree_id, splits, leaves, beh):
    """[(treeId, nodeId, behaviour, feature, border, true child, false child, leaf value)] in CatBoost's order"""
    d = len(splits)
    out = [(tree_id, i, LEAF, 0, 0.0, 0, 0, leaves[i]) for i in range(len(leaves))]
    prev, base = 0, len(leaves)
    for k in reversed(range(d)):
        cnt = 2 ** k
        for i in range(cnt):
            l, r = prev + 2 * i, prev + 2 * i + 1
            t, f = (r, l) if beh == GT else (l, r)
            out.append((tree_id, base + i, beh, splits[k][0], splits[k][1], t, f, None))
        prev, base = base, base + cnt
    return out


def install(E, nodes):
    if E.symbolic:
        CURRENT[:] = []
        for (ti, ni, b, f, v, t, fl, leaf) in nodes:
            n = Node()
            n.treeId, n.nodeId, n.nodeBehavior, n.branchFeatureIndex, n.branchFeatureValue = ti, ni, BEH[b], f, v
            n.trueChildNodeId, n.falseChildNodeId = t, fl
            e = Node()
            e.evaluationIndex, e.evaluationValue = 0, leaf
            n.evaluationInfo = [e] if b == LEAF else []
            CURRENT.append(n)
        return "x.mlmodel"
    import coremltools
    from coremltools.proto import Model_pb2
    spec = Model_pb2.Model()
    spec.specificationVersion = 1
    i = spec.description.input.add()
    i.name = "feature_0"
    i.type.doubleType.SetInParent()
    o = spec.description.output.add()
    o.name = "prediction"
    o.type.multiArrayType.shape.append(1)
    o.type.multiArrayType.dataType = 65600
    spec.description.predictedFeatureName = "prediction"
    for (ti, ni, b, f, v, t, fl, leaf) in nodes:
        n = spec.treeEnsembleRegressor.treeEnsemble.nodes.add()
        n.treeId, n.nodeId = ti, ni
        n.nodeBehavior = n.TreeNodeBehavior.Value(b)
        if b == LEAF:
            n.evaluationInfo.add().evaluationValue = float(leaf)
        else:
            n.branchFeatureIndex, n.branchFeatureValue, n.trueChildNodeId, n.falseChildNodeId = f, float(v), t, fl
    return E.tmp("m.mlmodel", spec.SerializeToString())


def h_load(E):
    c = E.cfg
    feats = c.get("feats", [0])
    trees, nodes = [], []
    for k, d in enumerate(c["depths"]):
        sp = [(E.pick("f%d_%d" % (k, i), feats) if len(feats) > 1 else feats[0], E.real("b%d_%d" % (k, i), -8, 8)) for i in range(d)]
        lv = [E.real("v%d_%d" % (k, i), -8, 8) for i in range(2 ** d)]
        beh = E.pick("beh%d" % k, [GT, LE]) if k < 2 else GT
        trees.append(oblivious(sp, lv))
        nodes += nodes_of(k, sp, lv, beh)
    p = install(E, nodes)
    keep = E.cint("keep", 0, len(trees)) if c.get("prune") else 0
    m = E.mod("rankeval.model").RTEnsemble(p, format="CatBoost", **(dict(n_trees=keep) if keep else {}))
    k = keep or len(trees)
    X = docs(E, c.get("n", 1), feats)
    check_model(E, m, trees[:k], [1.0] * k, X, 0.0, 1.0, "CatBoost")


def h_large(E):
    """many trees"""
    c = E.cfg
    trees, nodes = [], []
    for k in range(c["T"]):
        d = (k * 7 + 3) % 4 if not c.get("d") else c["d"]
        sp = [((k + i) % 3 * 70, k * 0.5 - 3.0 + i) for i in range(d)]
        lv = [((k * 5 + i * 3) % 17) * 0.25 - 1.0 for i in range(2 ** d)]
        if k == c["T"] - 2 and d:
            sp[0] = (1, E.real("b", -8, 8))
            lv[1] = E.real("v", -8, 8)
        trees.append(oblivious(sp, lv))
        nodes += nodes_of(k, sp, lv, GT if k % 5 else LE)
    p = install(E, nodes)
    keep = c.get("keep", 0)
    m = E.mod("rankeval.model").RTEnsemble(p, format="CatBoost", **(dict(n_trees=keep) if keep else {}))
    k = keep or len(trees)
    X = [[float(v), E.real("x%d" % i, -9, 9)] + [v * 0.5] * 139 for i, v in enumerate((-2, 10, 77))]
    check_model(E, m, trees[:k], [1.0] * k, X, 0.0, 1.0, "CatBoost")


def h_refused(E):
    """branch conditions that are not supported are refused"""
    beh = E.pick("beh", [GE, "BranchOnValueLessThan", "BranchOnValueEqual", "BranchOnValueNotEqual"])
    nodes = nodes_of(0, [(0, 0.5)], [1.0, 2.0], GT) + [q[:2] + (beh if q[2] == GT else q[2],) + q[3:] for q in nodes_of(1, [(0, 0.5)], [1.0, 2.0], GT)]
    p = install(E, nodes)
    try:
        E.mod("rankeval.model").RTEnsemble(p, format="CatBoost")
    except AssertionError:
        return
    E.fail("CatBoost: a branch condition that is not supported was loaded")


def h_deep(E):
    """CatBoost's largest depth"""
    d = 16
    nodes = nodes_of(0, [(0, 0.5 + i) for i in range(d)], [float(i % 7) for i in range(2 ** d)], GT)
    p = install(E, nodes)
    m = E.mod("rankeval.model").RTEnsemble(p, format="CatBoost")
    E.check(int(m.n_nodes) == 2 ** (d + 1) - 1 and int(m.n_trees) == 1, "CatBoost: number of nodes of a deep tree")
    E.check(int(m.num_leaves()[0]) == 2 ** d, "CatBoost: number of leaves of a deep tree")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda **c: out.append(Job(h_load, c, stubs=stubs, needs_ext=True, weight=sum(2 ** d for d in c["depths"]), path_timeout=120))
    for d in (0, 1, 2) + ((3,) if TH else ()):
        J(depths=(d,), feats=[0, 1] if d < 2 else [0])
        J(depths=(d, d), feats=[0])
    J(depths=(2,), feats=[0, 1], n=2)
    J(depths=(1, 1, 1), prune=True)
    J(depths=(1, 2))
    J(depths=(2, 1))
    J(depths=(2, 0, 1), prune=True)
    J(depths=(0, 2))
    for f in ([9, 135], [999]):
        J(depths=(1, 1), feats=f)
    out.append(Job(h_refused, {}, stubs=stubs, needs_ext=True))
    out.append(Job(h_deep, {}, stubs=stubs, needs_ext=True, weight=100, path_timeout=200))
    for c in (dict(T=150), dict(T=131, keep=129), dict(T=3, d=7)):
        out.append(Job(h_large, c, stubs=stubs, needs_ext=True, weight=60, path_timeout=120))
    return out
