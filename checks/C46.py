"""Rank confusion matrix."""
from symx.runner import Job
from .analysis_common import *

PRELOAD_PYX = PRELOAD
BOUNDS = "1..2 datasets of 1..5 documents, every assignment of labels out of three values (contiguous or not), 1..2 models, any score of every document, ties included; up to 130 documents and 11 labels with one symbolic score"
OUTSIDE = "labels that are not integers; larger datasets"
ASSUMPTIONS = ["xarray stores data and coordinates as given"]


def h_conf(E):
    c = E.cfg
    P = E.mod("rankeval.analysis.effectiveness")
    sizes = c["sizes"]
    n = [sum(s) for s in sizes]
    N = max(n)
    models, cons = [], []
    for k in range(c.get("models", 1)):
        m, con = free_model(E, "m%d" % k, 1, N)
        models.append(m)
        cons.append([r[0] for r in con])
    L = c["labels"]
    ys = [[E.pick("y%d_%d" % (a, i), L) for i in range(n[a])] for a in range(len(sizes))]
    ds = [doc_dataset(E, s, ys[a], "d%d" % a) for a, s in enumerate(sizes)]
    skip = E.cbool("skip")
    da = P.rank_confusion_matrix(ds, models, skip_same_label=skip, cache=c.get("cache", False))
    want = sorted(set(v for y in ys for v in y))
    E.check(tuple(da.dims) == ("dataset", "model", "label_i", "label_j") and da.values.shape == (len(ds), len(models), len(want), len(want)), "shape of the result")
    same_objects(E, coord(da, "dataset"), ds, "dataset labels")
    same_objects(E, coord(da, "model"), models, "model labels")
    E.check([float(v) for v in coord(da, "label_i")] == want and [float(v) for v in coord(da, "label_j")] == want, "relevance labels listed")
    E.observe("matrix", da.values)
    for a in range(len(ds)):
        for b in range(len(models)):
            s = cons[b] if E.symbolic else [f32(E, v) for v in cons[b]]
            for p, l1 in enumerate(want):
                for q, l2 in enumerate(want):
                    cnt = 0
                    for u, v in query_spans(sizes[a]):
                        for i in range(u, v):
                            for j in range(i + 1, v):
                                if ys[a][i] == ys[a][j] and (skip or (ys[a][i], ys[a][j]) != (l1, l2)):
                                    continue
                                if (ys[a][i], ys[a][j]) == (l1, l2):
                                    if p == q:
                                        cnt = cnt + 1
                                    else:
                                        cnt = cnt + E.ite(s[i] < s[j], 1, 0)
                                elif (ys[a][j], ys[a][i]) == (l1, l2):
                                    cnt = cnt + E.ite(s[i] < s[j], 0, 1)
                    E.check(da.values[a][b][p][q] == cnt, "entry is not the number of pairs of documents of one query ranked that way")


def h_large(E):
    """many documents and labels, one document with any score"""
    c = E.cfg
    P = E.mod("rankeval.analysis.effectiveness")
    sizes = c["sizes"]
    n = sum(sizes)
    m, con = free_model(E, "m", 1, n, vals=fixed_values(E, "m", 1, n))
    s = [r[0] for r in con]
    if not E.symbolic:
        s = [f32(E, v) for v in s]
    y = [float((i * i + i // 5) % c["labels"]) for i in range(n)]
    skip = E.cbool("skip")
    da = P.rank_confusion_matrix([doc_dataset(E, sizes, y)], [m], skip_same_label=skip)
    want = sorted(set(y))
    E.check([float(v) for v in coord(da, "label_i")] == want and da.values.shape == (1, 1, len(want), len(want)), "relevance labels listed")
    cnt = [[0] * len(want) for _ in want]
    for u, v in query_spans(sizes):
        for i in range(u, v):
            for j in range(i + 1, v):
                a, b = want.index(y[i]), want.index(y[j])
                if a == b:
                    if not skip:
                        cnt[a][b] = cnt[a][b] + 1
                else:
                    lt = s[i] < s[j]
                    cnt[a][b] = cnt[a][b] + E.ite(lt, 1, 0)
                    cnt[b][a] = cnt[b][a] + E.ite(lt, 0, 1)
    for a in range(len(want)):
        for b in range(len(want)):
            E.check(da.values[0][0][a][b] == cnt[a][b], "entry is not the number of pairs of documents of one query ranked that way")


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda **c: out.append(Job(h_conf, c, stubs=SCORING, needs_ext=True, weight=4 ** sum(sum(s) for s in c["sizes"])))
    J(sizes=[(2,)], labels=[0.0, 1.0, 4.0])
    J(sizes=[(2, 1)], labels=[0.0, 1.0])
    J(sizes=[(3,)], labels=[2.0, 4.0])
    J(sizes=[(1, 2)], labels=[1.0, 0.0, 3.0])
    J(sizes=[(2,), (1, 2)], labels=[0.0, 3.0])
    J(sizes=[(1, 1)], labels=[1.0, 2.0], models=2, cache=True)
    J(sizes=[(2, 2)], labels=[0.0, 1.0])
    if TH:
        J(sizes=[(3, 1)], labels=[0.0, 2.0, 3.0])
        J(sizes=[(4,)], labels=[0.0, 2.0])
    L = lambda **c: out.append(Job(h_large, c, stubs=SCORING, needs_ext=True, weight=20))
    L(sizes=many_sizes(4, 60), labels=3)
    L(sizes=many_sizes(60, 20), labels=11)
    return out
