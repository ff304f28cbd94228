"""Feature importance with the squared error (the C++ implementation, from its LLVM IR)."""
from symx.runner import Job
from .analysis_common import *
from .C48 import build, build_big, check_result

BOUNDS = "1..3 trees of 0..3 splits (every shape of up to 2, thorough 3), 1..4 documents, 1..3 features, every threshold and feature value (so every distribution of the documents over the nodes), every label and tree weight (fixed in the largest), any node layout order, C and Fortran order and views of the feature matrix, double-precision labels, MSE and RMSE, normalised or not; feature ids up to 300 and 300 documents with fixed numbers and one symbolic label"
OUTSIDE = "single-precision rounding; larger ensembles and datasets with all numbers symbolic; more than 32767 splits on one feature; normalisation when every importance is 0"
ASSUMPTIONS = ["clang's IR of the source", "libstdc++'s vector (compiled from its headers)", "xarray stores data and coordinates as given"]
PRELOAD_PYX = ("rankeval.analysis._efficient_feature",)
PRELOAD_LL = (("rankeval/analysis/_efficient_feature_impl.cpp", True),)
REPLAY_ASAN = True
STUBS = dict(SCORING)
STUBS.update(pyx_stubs("rankeval.analysis._efficient_feature"))


def reference(E, trees, w, X, y, start=None):
    """(importance, count, cumulative prediction, last tree's prediction) from the definition"""
    n, nf = len(X), len(X[0])
    imp, cnt = [0.0] * nf, [0] * nf
    cum = list(start) if start else [0.0] * n
    pred = None
    for t, wt in zip(trees, w):
        target = [y[i] - cum[i] for i in range(n)]
        pred = [mean(target)] * n
        todo = [(t, list(range(n)), True)]
        while todo:
            u, docs, root = todo.pop()
            if is_leaf(u):
                continue
            left = [i for i in docs if bool(X[i][u[0]] <= u[1])]
            right = [i for i in docs if i not in left]
            gain = 0.0
            for part in (left, right):
                if part:
                    m = mean([target[i] for i in part])
                    for i in part:
                        gain = gain + (target[i] - pred[i]) * (target[i] - pred[i]) - (target[i] - m) * (target[i] - m)
                        pred[i] = m
            imp[u[0]] = imp[u[0]] + gain / n
            if root or len(docs) > 1:
                cnt[u[0]] += 1
            todo += [(u[2], left, False), (u[3], right, False)]
        pred = [wt * p for p in pred]
        cum = [cum[i] + pred[i] for i in range(n)]
    return imp, cnt, cum, pred


def h_imp(E):
    c = E.cfg
    P = E.mod("rankeval.analysis.feature")
    M = E.mod("rankeval.metrics")
    m, trees, w, X, y, d = build(E)
    kw = {}
    if c.get("metric") != "default":
        kw["metric"] = M.RMSE() if c.get("metric") == "rmse" else M.MSE()
    da = P.feature_importance(m, d, normalize=c.get("normalize", False), **kw)
    imp, cnt, _, _ = reference(E, trees, w, X, y)
    if c.get("metric") == "rmse":
        for f in range(len(imp)):
            E.close(da.values[0][f] * da.values[0][f], imp[f], "square of the importance of a feature")
            E.check(da.values[0][f] >= 0, "the root is not negative")
            E.check(da.values[1][f] == cnt[f], "count of the splits on a feature")
        return
    check_result(E, da, imp, cnt, c.get("normalize", False))


def h_big(E):
    """wide features, many documents, many nodes"""
    P = E.mod("rankeval.analysis.feature")
    m, trees, w, X, y, d, _ = build_big(E)
    da = P.feature_importance(m, d, metric=E.mod("rankeval.metrics").MSE(), normalize=False)
    imp, cnt, _, _ = reference(E, trees, w, X, y)
    check_result(E, da, imp, cnt, False)


def h_tree(E):
    """one tree, updating the arrays of the caller"""
    c = E.cfg
    P = E.mod("rankeval.analysis.feature")
    M = E.mod("rankeval.metrics")
    m, trees, w, X, y, d = build(E)
    n, nf = len(X), len(X[0])
    p0 = [E.real("p%d" % i, -4, 4) for i in range(n)]
    y_pred = E.farray(p0, "float32")
    fi, fc = E.farray([1.0] * nf, "float32"), E.farray([3] * nf, "uint16")
    k = c["tree"]
    args = (m, d, k, y_pred, M.MSE(), fi, fc)
    f = helper(P, "_feature_importance_tree", *args)
    if f is None:
        return
    out = f(*args)
    imp, cnt, cum, pred = reference(E, trees[k:k + 1], w[k:k + 1], X, y, p0)
    for f in range(nf):
        E.close(fi[f], 1.0 + imp[f], "importance of a feature")
        E.check(fc[f] == 3 + cnt[f], "count of the splits on a feature")
    for i in range(n):
        E.close(y_pred[i], cum[i], "cumulative prediction")
        E.close(out[i], pred[i], "prediction of the tree")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda wt, h=h_imp, **c: out.append(Job(h, c, stubs=STUBS, needs_ext=True, weight=wt))
    L = (None, None)
    for k in (1, 2) + ((3,) if TH else ()):
        for i, s in enumerate(shapes(k)):
            J(4 ** k, shapes=(s,), sizes=(2, 1) if k < 3 else (3,), order=["pre", "bfs"][i % 2], feat=None if k < 2 else i % 2, ylab="fixed")
            J(4 ** k, shapes=(s,), sizes=(2,) if k < 3 else (1, 1), order=["bfs", "pre"][i % 2], feat=i % 2)
    J(4, shapes=(None,), sizes=(1, 1))
    out.append(Job(h_big, dict(feats=(130, 2), n=140, tree="bst"), stubs=STUBS, needs_ext=True, weight=60))
    out.append(Job(h_big, dict(feats=(3, 300), n=40, tree="chain"), stubs=STUBS, needs_ext=True, weight=60))
    out.append(Job(h_big, dict(feats=(1, 0), n=300, tree="chain"), stubs=STUBS, needs_ext=True, weight=60))
    J(4, shapes=(None,), sizes=(1, 1), nf=1)
    J(8, shapes=(L, None, L), sizes=(1, 1), weights=True)
    J(16, shapes=(L, L), sizes=(2,), weights=True, order="bfs", metric="default")
    J(16, shapes=((L, L),), sizes=(1, 1), nf=3, feat=None)
    J(16, shapes=((None, L), L), sizes=(2,), feat=1)
    J(8, shapes=(L, L), sizes=(2,), nf=2, normalize=True)
    J(8, shapes=(L, L), sizes=(2,), nf=2, metric="rmse", ylab="fixed")
    for lay in ("F", "view"):
        J(8, shapes=(L,), sizes=(1, 2), nf=2, layout=lay, ylab="fixed")
    J(8, shapes=(L,), sizes=(1, 2), nf=1, ydtype="float64", ylab="fixed")
    J(40, shapes=((L, (L, None)),), sizes=(3,), feat=0, ylab="fixed")
    J(60, shapes=((L, L),), sizes=(2, 2), feat=0, ylab="fixed")
    J(8, h_tree, shapes=(L, L), sizes=(2,), tree=1, weights=True, feat=0)
    J(8, h_tree, shapes=(None, (L, None)), sizes=(2,), tree=1, weights=True, feat=1)
    J(8, h_tree, shapes=(L, None), sizes=(2,), tree=1, weights=True, feat=1)
    if TH:
        J(100, shapes=((L, L), L), sizes=(2, 1), feat=0, weights=True, ylab="fixed")
        J(100, shapes=((L, L), L, (None, L)), sizes=(1, 2), feat=0, ylab="fixed")
    return out
