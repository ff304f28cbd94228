"""Kendall tau and Spearman rho per query."""
from symx.runner import Job
from .metrics_common import *
from . import scipy_stub as S

BOUNDS = "2..3 documents per query (4 thorough), labels and scores any real in bounded ranges, ties anywhere; 9, 25 and 70 documents with fixed numbers and one label or score any real"
OUTSIDE = "float rounding; larger queries; the numerical internals of scipy (a stub with its documented contract)"
ASSUMPTIONS = ["scipy.stats.kendalltau returns tau-b, scipy.stats.spearmanr the Pearson correlation of average ranks, NaN when a "
               "side is constant; both accept exactly the arguments of the installed scipy (replays run the real scipy)"]


def h(E):
    n, which = E.cfg["n"], E.cfg["metric"]
    y = [E.real("y%d" % i, 0, 4) for i in range(n)]
    s = [E.real("s%d" % i, -8, 8) for i in range(n)]
    M = E.mod("rankeval.metrics")
    m = M.Kendalltau() if which == "K" else M.SpearmanRho()
    v = m.eval_per_query(arr(E, y, "float32"), arr(E, s, "float32"))
    E.observe("v", v)
    ref = S.tau_b(y, s) if which == "K" else S.pearson(S.avg_ranks(y), S.avg_ranks(s))
    E.close(v, ref, "%s differs from its definition" % which)


def h_big(E):
    """more documents: fixed labels and scores with ties, one document with any label or score"""
    n, which = E.cfg["n"], E.cfg["metric"]
    y = [float((i * i + i // 3) % 5) for i in range(n)]
    s = [((i * 7) % (n - n // 4)) * 0.25 - 3.0 for i in range(n)]
    if E.cbool("lab"):
        y[n // 2] = E.real("y", -1, 6)
    else:
        s[n // 2] = E.real("s", -8, 64)
        if n > 30:
            E.assume(E.and_(s[n // 2] > 1.0, s[n // 2] < 2.0))
    M = E.mod("rankeval.metrics")
    m = M.Kendalltau() if which == "K" else M.SpearmanRho()
    v = m.eval_per_query(arr(E, y, "float32"), arr(E, s, "float32"))
    E.observe("v", v)
    ref = S.tau_b(y, s) if which == "K" else S.pearson(S.avg_ranks(y), S.avg_ranks(s))
    E.close(v, ref, "%s differs from its definition" % which)


def jobs(tier):
    out = []
    for which in ("K", "Rho"):
        for n in (2, 3) + ((4,) if tier != "quick" else ()):
            out.append(Job(h, dict(n=n, metric=which), stubs=S.stubs, weight=n))
        for n in (9, 25, 70):
            out.append(Job(h_big, dict(n=n, metric=which), stubs=S.stubs, weight=9))
    return out
