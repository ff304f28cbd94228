"""Scoring, topological analysis and squared-error importance do not depend on how parallel loops are scheduled."""
from symx.runner import Job
from .model_common import *
from .data_common import make_dataset
from .C10 import ref_scores

PRELOAD_PYX = ["rankeval.scoring._efficient_scoring", "rankeval.analysis._efficient_topological", "rankeval.analysis._efficient_feature"]
PRELOAD_LL = (("rankeval/analysis/_efficient_feature_impl.cpp", True),)
REPLAY_ENV = {"OMP_NUM_THREADS": "8", "OMP_DYNAMIC": "FALSE"}
BOUNDS = "every execution order of up to 3 parallel iterations, with the accesses of each iteration logged so that two iterations touching the same element " \
         "(one writing) are reported; per-iteration private variables start unset; the OpenMP regions of the C++ importance with 2..4 threads sharing the iterations, their accesses logged and (2 threads) run in every order; 1..3 trees of up to 2 splits, 2..3 documents, symbolic contents"
OUTSIDE = "more iterations than the bound (iterations are pairwise compared, so two already exhibit a conflict)"
ASSUMPTIONS = ["OpenMP semantics of Cython's prange: assigned scalars are private, in-place updated scalars are reductions"]


def sched(E):
    if E.symbolic:
        from symx import pyx, snp
        pyx.PRANGE_ORDER = snp.nondet_perm


def races(E):
    from symx.core import eng
    return eng().races


def h_score(E):
    c = E.cfg
    trees = [fill(E, s, "t%d_" % k, 1, 0) for k, s in enumerate(c["shapes"])]
    w = [1.0, 0.5, 2.0][:len(trees)]
    X = matrix(E, c["n"], 1)
    det = c["detailed"]
    if E.symbolic:
        m = make_model(E, trees, w)
        d = make_dataset(E, X, [0.0] * len(X), [1] * len(X))
        sched(E)
        r = m.score(d, detailed=det)
        E.check(not races(E), "scoring: two parallel iterations access the same element of a result")
        check_result(E, c, trees, w, X, m, r, det)
        return
    # concrete: the same trees and documents repeated, many threads, several runs
    trees = [conc_tree(E, t) for t in trees]
    rep_t, rep_d = 24, 3000
    m = make_model(E, trees * rep_t, w * rep_t)
    X = cmatrix(E, X)
    XX = X * rep_d
    d = make_dataset(E, XX, [0.0] * len(XX), [1] * len(XX))
    import numpy as np
    ref = np.array(ref_scores(E, trees, w, X, 0.0, 1.0)) * rep_t
    for _ in range(8):
        r = m.score(d, detailed=det)
        y = r[0] if det else r
        E.check(np.abs(np.asarray(y).reshape(rep_d, -1) - ref).max() <= 1e-3 * (1 + np.abs(ref).max()),
                "scoring: two parallel iterations access the same element of a result")
        if det:
            L = r[2].reshape(rep_d, len(X), rep_t, len(trees))
            base = np.array([[leaf_indices(t)[eval_leaf(E, t, x)] for t in trees] for x in X])
            roots = m.trees_root.reshape(rep_t, len(trees))
            E.check((L == roots[None, None] + base[None, :, None, :]).all(), "scoring: exit leaves depend on the schedule")
            pr = np.array([[eval_tree(E, t, x) * ww for t, ww in zip(trees, w)] for x in X])
            P = r[1].reshape(rep_d, len(X), rep_t, len(trees))
            E.check(np.abs(P - pr[None, :, None, :]).max() <= 1e-3 * (1 + np.abs(pr).max()), "scoring: partial scores depend on the schedule")


def check_result(E, c, trees, w, X, m, r, det):
    ref = ref_scores(E, trees, w, X, 0.0, 1.0)
    y = r[0] if det else r
    for i in range(len(X)):
        E.close(y[i], ref[i], "scoring: scores depend on the schedule")
        if det:
            for k, t in enumerate(trees):
                E.check(int(r[2][i, k]) == int(m.trees_root[k]) + leaf_indices(t)[eval_leaf(E, t, X[i])], "scoring: exit leaves depend on the schedule")
                E.close(r[1][i, k], eval_tree(E, t, X[i]) * w[k], "scoring: partial scores depend on the schedule")


def h_topo(E):
    inc = E.cbool("leaves")
    sh = [E.pick("s%d" % k, [q for z in E.cfg["sizes"] if inc or z for q in shapes(z)]) for k in range(E.cfg["T"])]
    trees = [fill(E, s, "t%d_" % k, 1, 0) for k, s in enumerate(sh)]
    rep = 1 if E.symbolic else 400
    m = make_model(E, trees * rep)
    topo = E.mod("rankeval.analysis.topological")
    sched(E)
    for _ in range(1 if E.symbolic else 10):
        r = topo.topological_analysis(m, include_leaves=inc)
        if E.symbolic:
            E.check(not races(E), "topology: two parallel iterations access the same element of a result")
        exp = {}
        for t in trees:
            for (a, b, lf) in positions(t):
                if inc or not lf:
                    exp[(a, b)] = exp.get((a, b), 0) + 1
        coo = r.topology.tocoo()
        got = {(int(a), int(b)): float(v) for a, b, v in zip(coo.row, coo.col, coo.data) if v}
        E.check(got == {k: float(v * rep) for k, v in exp.items()}, "topology: node counts depend on the schedule")
        E.check([int(h) for h in r.height_trees] == [height(t) for t in trees] * rep, "topology: heights depend on the schedule")


def h_importance(E):
    """squared-error feature importance: the OpenMP loops of the C++ code"""
    from .C47 import reference
    c = E.cfg
    nf = 2
    trees = [fill(E, s, "t%d_" % k, nf, c.get("feat")) for k, s in enumerate(c["shapes"])]
    w = [1.0, 0.5, 2.0][:len(trees)]
    n = c["n"]
    X = matrix(E, n, nf)
    y = [2.0, 0.5, -1.0, 4.0, 3.0][:n]
    rep, runs = 1, 1
    P = E.mod("rankeval.analysis.feature")
    trees, X = [conc_tree(E, t) for t in trees], cmatrix(E, X)
    if E.symbolic:
        from symx import llnative
        llnative.THREADS[0], llnative.PERMUTE[0] = c["threads"], c.get("permute", False)
    else:
        rep, runs = 3000, 8
    m = make_model(E, trees, w)
    d = make_dataset(E, list(X) * rep, y * rep, [1] * (n * rep))
    few = 1 if E.symbolic else 2
    imp, cnt, _, _ = reference(E, trees, w, list(X) * few, y * few)
    try:
        for _ in range(runs):
            da = P.feature_importance(m, d, normalize=False)
            if E.symbolic:
                E.check(not races(E), "importance: two threads access the same element")
            for f in range(nf):
                E.close(da.values[0][f], imp[f], "importance: values depend on the schedule")
                E.check(int(da.values[1][f]) == cnt[f], "importance: counts depend on the schedule")
    finally:
        if E.symbolic:
            llnative.THREADS[0], llnative.PERMUTE[0] = 1, False


def jobs(tier):
    T = tier != "quick"
    out = []
    for det in (False, True):
        for sh, n in ((((None, None), (None, None)), 2), (((None, None),), 3), ((None, (None, None), (None, None)), 2)):
            out.append(Job(h_score, dict(shapes=sh, n=n, detailed=det), stubs=SCORING, needs_ext=True, weight=30, samples=1))
        if T:
            out.append(Job(h_score, dict(shapes=((None, (None, None)), (None, None), (None, None)), n=3, detailed=det), stubs=SCORING, needs_ext=True, weight=90, samples=1,
                           max_paths=300000, deadline=3000))
    for k, z in ((1, (0, 1, 2)), (2, (0, 1))) + (((2, (1, 2)), (3, (0, 1))) if T else ()):
        out.append(Job(h_topo, dict(T=k, sizes=z), stubs=TOPO, needs_ext=True, weight=20, samples=1, max_paths=300000, deadline=600 if not T else 3000))
    L = (None, None)
    from .C47 import STUBS
    for c in (dict(shapes=(L,), n=3, threads=2, permute=True, feat=1), dict(shapes=((L, L),), n=3, threads=3, feat=0), dict(shapes=(L, L), n=2, threads=4, feat=0),
              dict(shapes=((L, None), L), n=2, threads=2, feat=1)) + ((dict(shapes=(L, L), n=3, threads=2, permute=True, feat=0), dict(shapes=(L, L, L), n=4, threads=3, feat=1)) if T else ()):
        out.append(Job(h_importance, c, stubs=STUBS, needs_ext=True, weight=25, samples=1, max_paths=300000, deadline=600 if not T else 3000))
    return out
