"""Feature importance with an arbitrary metric (the Python implementation)."""
from symx.runner import Job
from .analysis_common import *

BOUNDS = "1..3 trees of 0..3 splits (every shape of up to 2, thorough 3), 1..4 documents in 1..2 queries, 1..3 features, every threshold, feature value, label and tree weight, a metric linear in the scores, or (for given labels) a non-linear one, normalised or not, any node layout order; feature ids up to 300 and 300 documents with fixed numbers and one symbolic label"
OUTSIDE = "single-precision rounding; larger ensembles and datasets with all numbers symbolic; normalisation when no feature has a non-zero importance; metrics that break ties"
ASSUMPTIONS = ["xarray stores data and coordinates as given"]


def reference(E, trees, w, X, y, value):
    """(importance, count) per feature, from the definition"""
    n, nf = len(X), len(X[0])
    imp, cnt = [0.0] * nf, [0] * nf
    cum = [0.0] * n
    for t, wt in zip(trees, w):
        target = [y[i] - cum[i] for i in range(n)]
        pred = [mean(target)] * n
        level = [(t, list(range(n)))]
        while level:
            nxt, after_all = [], list(pred)
            for u, docs in level:
                if is_leaf(u):
                    continue
                left = [i for i in docs if bool(X[i][u[0]] <= u[1])]
                right = [i for i in docs if i not in left]
                after = list(pred)
                for part in (left, right):
                    if part:
                        m = mean([target[i] for i in part])
                        for i in part:
                            after[i] = after_all[i] = m
                imp[u[0]] = imp[u[0]] + value([cum[i] + pred[i] for i in range(n)]) - value([cum[i] + after[i] for i in range(n)])
                cnt[u[0]] += 1
                nxt += [(u[2], left), (u[3], right)]
            pred, level = after_all, nxt
        cum = [cum[i] + wt * pred[i] for i in range(n)]
    return imp, cnt


def build(E):
    c = E.cfg
    nf = c.get("nf", 2)
    sizes = c["sizes"]
    n = sum(sizes)
    feats = c.get("feat")
    trees = []
    for k, s in enumerate(c["shapes"]):
        t = fill(E, s, "t%d_" % k, nf, feats)
        trees.append(t)
    w = [E.real("w%d" % k, 0, 2) if c.get("weights") else 1.0 for k in range(len(trees))]
    m = make_model(E, trees, w, c.get("order", "pre"))
    X = matrix(E, n, nf)
    y = [E.real("y%d" % i, -4, 4) if c.get("ylab") != "fixed" else (2.0, 0.5, -1.0, 4.0, 3.0)[i] for i in range(n)]
    q = []
    for g, s in enumerate(sizes):
        q += [7 - g] * s
    if c.get("layout") == "view":
        D = E.mod("rankeval.dataset").Dataset
        d = D(E.farray([[7.0] + list(r) + [9.0] for r in X], "float32")[:, 1:nf + 1], E.farray(y, "float32"), E.np.array(q, dtype="int32"))
    elif c.get("ydtype"):
        D = E.mod("rankeval.dataset").Dataset
        d = D(E.farray(X, c["ydtype"]), E.farray(y, c["ydtype"]), E.np.array(q, dtype="int32"))
    else:
        d = make_dataset(E, X, y, q, xorder=c.get("layout", "C"))
    return m, [conc_tree(E, t) for t in trees], w, cmatrix(E, X), y, d


def build_big(E):
    """feature ids, documents and nodes that need more than a few bits; everything concrete but one document and one tree"""
    c = E.cfg
    a, b = c["feats"]
    nf = max(a, b) + 1
    n = c["n"]
    big = chain(9, a) if c["tree"] == "chain" else bst(0, c["n"], a)
    trees = [big, (b, E.real("t0", -8, 8), 1.0, (a, 3.5, 1.0, 2.0))]
    X = []
    for i in range(n):
        r = [0.0] * nf
        r[a] = float((i * 37) % n)
        r[b] = float((i * 11) % 7)
        X.append(r)
    X[n // 2][b] = E.real("xb", -9, 9)
    y = [float((i * 5) % 4) for i in range(n)]
    y[0] = E.real("y0", -4, 4)
    q = [1 + i // 50 for i in range(n)]
    m = make_model(E, trees)
    d = make_dataset(E, X, y, q)
    return m, [conc_tree(E, t) for t in trees], [1.0, 1.0], cmatrix(E, X), y, d, [len([1 for v in q if v == u]) for u in sorted(set(q))]


def check_result(E, da, imp, cnt, normalize):
    nf = len(imp)
    E.check(tuple(da.dims) == ("type", "feature") and da.values.shape == (2, nf), "shape of the result")
    E.check([str(v) for v in coord(da, "type")] == ["importance", "count"], "labels of the result")
    E.check([int(v) for v in coord(da, "feature")] == list(range(nf)), "feature labels")
    E.observe("imp", da.values)
    if normalize:
        top = imp[0]
        for v in imp[1:]:
            top = E.ite(v > top, v, top)
        E.assume(E.or_(top > 0.125, top < -0.125))
        imp = [v / top for v in imp]
    for f in range(nf):
        E.close(da.values[0][f], imp[f], "importance of a feature")
        E.check(da.values[1][f] == cnt[f], "count of the splits on a feature")


def curved_class(E):
    class Curved(probe_class(E)):
        """not linear in the scores, and not separable by document"""
        def value(self, y, s):
            t = 1.0
            for i in range(len(s)):
                t = t * (s[i] + (i + 2.5)) + y[i] * (0.125 + s[i] * s[i])
            return t / 32.0
    return Curved


def h_imp(E):
    c = E.cfg
    P = E.mod("rankeval.analysis.feature")
    metric = (curved_class(E) if c.get("curved") else probe_class(E))("p")
    m, trees, w, X, y, d = build(E)
    sizes = c["sizes"]
    da = P.feature_importance(m, d, metric=metric, normalize=c.get("normalize", False))

    def value(s):
        return mean([metric.value(y[a:b], s[a:b]) for a, b in query_spans(sizes)])
    imp, cnt = reference(E, trees, w, X, y, value)
    check_result(E, da, imp, cnt, c.get("normalize", False))


def h_big(E):
    P = E.mod("rankeval.analysis.feature")
    metric = probe_class(E)("p")
    m, trees, w, X, y, d, sizes = build_big(E)
    da = P.feature_importance(m, d, metric=metric, normalize=False)

    def value(s):
        return mean([metric.value(y[a:b], s[a:b]) for a, b in query_spans(sizes)])
    imp, cnt = reference(E, trees, w, X, y, value)
    check_result(E, da, imp, cnt, False)


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda wt, **c: out.append(Job(h_imp, c, stubs=SCORING, needs_ext=True, weight=wt))
    L = (None, None)
    for k in (1, 2) + ((3,) if TH else ()):
        for i, s in enumerate(shapes(k)):
            J(4 ** k, shapes=(s,), sizes=(2, 1) if k < 3 else (2,), order=["pre", "bfs"][i % 2], feat=None if k < 2 else i % 2)
    J(4, shapes=(None,), sizes=(1, 1))
    out.append(Job(h_big, dict(feats=(130, 2), n=12, tree="bst"), stubs=SCORING, needs_ext=True, weight=60))
    out.append(Job(h_big, dict(feats=(3, 257), n=12, tree="chain"), stubs=SCORING, needs_ext=True, weight=60))
    J(8, shapes=(L, None, L), sizes=(1, 1), weights=True)
    J(16, shapes=(L, L), sizes=(2,), weights=True, order="bfs")
    J(16, shapes=((L, L),), sizes=(1, 1), nf=3, feat=None)
    J(16, shapes=((None, L), L), sizes=(2,), feat=1)
    J(8, shapes=(L, L), sizes=(2,), nf=2, normalize=True)
    J(8, shapes=(L,), sizes=(1, 2), nf=1, layout="F")
    J(40, shapes=((L, (L, None)),), sizes=(2,), feat=0)
    # labels are given numbers here, so that all predictions are numbers and the metric may be any function of them
    C = lambda wt, **c: J(wt, curved=True, ylab="fixed", **c)
    C(16, shapes=((L, L),), sizes=(3,), feat=0)
    C(40, shapes=((L, L),), sizes=(4,), feat=0)
    C(16, shapes=((L, L),), sizes=(2, 1), nf=2, feat=None, order="bfs")
    C(8, shapes=(L, L, L), sizes=(2, 1), feat=1)
    C(40, shapes=((None, (L, None)), L), sizes=(3,), feat=0)
    if TH:
        C(100, shapes=((L, L), (L, None)), sizes=(3,), feat=0)
        C(100, shapes=((L, (L, L)),), sizes=(4,), feat=0)
        J(100, shapes=((L, L),), sizes=(2, 2), feat=0)
        J(100, shapes=((L, L), L), sizes=(2, 1), feat=0, weights=True)
    return out
