"""K-fold scoring and the bias/variance decomposition."""
import math
from symx.runner import Job
from .analysis_common import *

BOUNDS = "2..4 queries of 1..2 documents, 2..3 folds, 2..3 scorings (quick 2), any labels, any prediction of the learning algorithm for every document and run, every shuffle of the queries; 13..130 queries, up to 100 folds and 6 scorings with fixed predictions except one of every run and five shuffles; MSE and probe metrics, 1..2 datasets, algorithms and metrics"
OUTSIDE = "datasets with fewer queries than folds; single-precision rounding"
ASSUMPTIONS = ["np.random.permutation applies any permutation", "xarray stores data and coordinates as given"]


class Algo(object):
    """a learning algorithm: free predictions, every call recorded"""
    def __init__(self, E, name):
        self.E, self.__name__, self.calls, self.free = E, name, [], 0

    def __call__(self, train_X, train_Y, train_q, test_X):
        E = self.E
        if E.cfg.get("fixed"):
            # fixed predictions; that of one document is free in the first runs
            p = [(int(r[0]) * 5 + len(self.calls) * 3) % 17 * 0.25 - 2.0 for r in test_X]
            for i, r in enumerate(test_X):
                if int(r[0]) == 3 and self.free < E.cfg["fixed"]:
                    self.free += 1
                    p[i] = E.real("%s_c%d" % (self.__name__, len(self.calls)), -4, 4)
        else:
            p = [E.real("%s_c%d_%d" % (self.__name__, len(self.calls), i), -4, 4) for i in range(len(test_X))]
        ids = lambda X: [int(r[0]) for r in X]
        self.calls.append((ids(train_X), list(train_Y), [int(v) for v in train_q], ids(test_X), p))
        return E.farray(p, "float32")


def check_runs(E, calls, sizes, y, k, runs, what):
    """splits the calls into runs and checks each; [run][doc] predictions"""
    spans = query_spans(sizes)
    nq, n = len(sizes), sum(sizes)
    chunk = int(math.ceil(nq / float(k)))
    folds = int(math.ceil(nq / float(chunk)))
    if not E.check(len(calls) == runs * folds, what + ": number of trainings"):
        return None
    out = []
    for r in range(runs):
        pred = {}
        for tr, ty, tq, te, p in calls[r * folds:(r + 1) * folds]:
            E.check(sorted(tr + te) == list(range(n)), what + ": training and test documents are not disjoint and complete")
            E.check(all(len(set((i in te) for i in range(a, b))) == 1 for a, b in spans), what + ": a query is split between training and test")
            E.check(tr == sorted(tr) and te == sorted(te), what + ": order of the documents")
            E.check(sum(1 for a, b in spans if a in te) <= chunk, what + ": a fold is larger than its share of the queries")
            E.check(tq == [b - a for a, b in spans if a not in te], what + ": sizes of the training queries")
            if E.check(len(ty) == len(tr), what + ": labels of the training documents"):
                for i, v in zip(tr, ty):
                    E.check(v == y[i], what + ": labels of the training documents")
            for i, v in zip(te, p):
                E.check(i not in pred, what + ": a document is tested twice in one run")
                pred[i] = v
        E.check(sorted(pred) == list(range(n)), what + ": a document is never tested")
        if len(pred) < n:
            return None
        out.append([pred[i] for i in range(n)])
    return out


def h_kfold(E):
    c = E.cfg
    S = E.mod("rankeval.analysis.statistical")
    sizes, k = c["sizes"], c["k"]
    y = [E.label("y%d" % i) for i in range(sum(sizes))]
    d = doc_dataset(E, sizes, y)
    al = Algo(E, "algo")
    runs = c.get("runs", 0)
    args, kw = ((d, al), dict(L=runs, k=k)) if runs else ((d, k, al), {})
    f = helper(S, "_multi_kfold_scoring" if runs else "_kfold_scoring", *args, **kw)
    if f is None:
        return
    got = f(*args, **kw)
    pr = check_runs(E, al.calls, sizes, y, k, runs or 1, "k-fold scoring")
    if pr is None:
        return
    E.check(got.shape == ((len(y), runs) if runs else (len(y),)), "shape of the scores")
    for r in range(runs or 1):
        for i in range(len(y)):
            E.close(got[i][r] if runs else got[i], pr[r][i], "score of a document is not the prediction for it")


def sq(x):
    return x * x


def h_bv(E):
    c = E.cfg
    S = E.mod("rankeval.analysis.statistical")
    M = E.mod("rankeval.metrics")
    Probe = probe_class(E)
    k, L = c.get("k", 2), c.get("L", 2)
    sizes = c["sizes"]
    ys = [[float((3 * i + a) % 4) for i in range(sum(s))] for a, s in enumerate(sizes)]
    ds = [doc_dataset(E, s, ys[a], "d%d" % a) for a, s in enumerate(sizes)]
    algos = [Algo(E, "algo%d" % i) for i in range(c.get("algos", 1))]
    metrics = [M.MSE() if m == "mse" else Probe("p%d" % i, 1.0 + i) for i, m in enumerate(c["metrics"])]
    da = S.bias_variance(datasets=ds, algos=algos, metrics=metrics, L=L, k=k)
    E.check(tuple(da.dims) == ("dataset", "metric", "algo", "error") and da.values.shape == (len(ds), len(metrics), len(algos), 3), "shape of the result")
    same_objects(E, coord(da, "dataset"), ds, "dataset labels")
    same_objects(E, coord(da, "metric"), metrics, "metric labels")
    E.check([str(v) for v in coord(da, "algo")] == [a.__name__ for a in algos], "algorithm labels")
    E.check([str(v) for v in coord(da, "error")] == ["Error", "Bias", "Variance"], "error labels")
    for x, a in enumerate(algos):
        o = 0
        for u, s in enumerate(sizes):
            chunk = int(math.ceil(len(s) / float(k)))
            per = int(math.ceil(len(s) / float(chunk))) * L
            E.check(len(a.calls) == sum(int(math.ceil(len(q) / math.ceil(len(q) / float(k)))) * L * len(metrics) for q in sizes), "number of trainings")
            for w, m in enumerate(metrics):
                pr = check_runs(E, a.calls[o:o + per], s, ys[u], k, L, "bias/variance")
                o += per
                if pr is None:
                    return
                if c["metrics"][w] == "mse":
                    err = [[sq(pr[l][i] - ys[u][i]) for l in range(L)] for i in range(len(ys[u]))]
                    cols = [([pr[l][i] for l in range(L)], ys[u][i]) for i in range(len(ys[u]))]
                else:
                    cols = []
                    for p, q in query_spans(s):
                        cols.append(([m.value(ys[u][p:q], pr[l][p:q]) for l in range(L)], 1.0))
                error = mean([sq(v - t) for vs, t in cols for v in vs])
                bias = mean([sq(mean(vs) - t) for vs, t in cols])
                var = mean([sq(v - mean(vs)) for vs, t in cols for v in vs])
                g = da.values[u][w][x]
                E.close(g[0], error, "Error is not the mean squared error")
                E.close(g[1], bias, "Bias is not the mean squared error of the average prediction")
                E.close(g[2], var, "Variance is not the mean squared deviation from the average prediction")
                E.close(g[0], g[1] + g[2], "Error is not Bias + Variance")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda fn, w, **c: out.append(Job(fn, c, weight=w))
    J(h_kfold, 4, sizes=(2, 1), k=2)
    J(h_kfold, 10, sizes=(1, 2, 1), k=2)
    J(h_kfold, 10, sizes=(1, 2, 2), k=3)
    J(h_kfold, 30, sizes=(1, 2, 1, 1), k=3)
    J(h_kfold, 30, sizes=(2, 1, 1, 2), k=2)
    J(h_kfold, 20, sizes=(2, 1), k=2, runs=2)
    J(h_kfold, 20, sizes=(1, 1), k=2, runs=3)
    J(h_bv, 10, sizes=[(1, 1)], metrics=["mse"])
    J(h_bv, 10, sizes=[(2, 1)], metrics=["probe"])
    J(h_bv, 10, sizes=[(1, 1)], metrics=["probe", "mse"])
    J(h_bv, 10, sizes=[(1, 1)], metrics=["mse"], algos=2)
    J(h_bv, 10, sizes=[(1, 1), (1, 2)], metrics=["probe"])
    J(h_bv, 10, sizes=[(1, 1)], metrics=["mse"], L=3)
    for k, big in ((5, 0), (7, 40), (2, 0), (10, 0)):
        J(h_kfold, 30, sizes=many_sizes(31, big), k=k, fixed=9)
    J(h_kfold, 30, sizes=many_sizes(29), k=4, runs=6, fixed=9)
    J(h_kfold, 30, sizes=many_sizes(130), k=100, fixed=9)
    J(h_bv, 30, sizes=[many_sizes(14)], metrics=["mse"], L=5, k=3, fixed=1)
    J(h_bv, 30, sizes=[many_sizes(17), many_sizes(13)], metrics=["probe", "mse"], L=3, k=4, fixed=1)
    if TH:
        J(h_kfold, 100, sizes=(1, 1, 1, 1, 1), k=2)
        J(h_kfold, 100, sizes=(1, 1, 2, 1, 1), k=3)
        J(h_bv, 100, sizes=[(1, 1, 1)], metrics=["mse"], k=3)
        J(h_bv, 100, sizes=[(2, 1, 1)], metrics=["probe"], k=2)
    return out
