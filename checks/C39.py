"""Labels of metrics."""
import re
from symx.runner import Job
from .metrics_common import *
from . import scipy_stub as S

BOUNDS = "every metric class, any name of a few, no cutoff or any cutoff of 1..10^6, the default threshold or any threshold 0..1000 (integers and reals)"
OUTSIDE = "names that themselves look like cutoffs or thresholds; digits of thresholds that are not integers"
ASSUMPTIONS = []
THR = ("MRR", "Precision", "Recall", "RBP")
DEFAULT = dict(DCG="DCG", NDCG="NDCG", ERR="ERR", MAP="MAP", MRR="MRR", MSE="MSE", RMSE="RMSE", Pfound="Pfound", RBP="RBP", Precision="P", Recall="R", Kendalltau="K", SpearmanRho="Rho")


def number(E, t):
    from symx import loader
    if E.symbolic and t in loader.TOKENS:
        return loader.TOKENS[t]
    return float(t)


def h_label(E):
    c = E.cfg
    E.text_mode()
    cls = c["metric"]
    M = E.mod("rankeval.metrics.precision_max") if cls == "PrecisionMax" else E.mod("rankeval.metrics")
    kw = {}
    name = E.pick("name", ("", "Q", "my metric"))
    if name:
        kw["name"] = name
    if c["cut"]:
        kw["cutoff"] = cut = E.int("cut", 1, 1000000)
    if c["thr"] == "int":
        kw["threshold"] = thr = E.int("thr", 0, 1000)
    elif c["thr"] == "real":
        kw["threshold"] = thr = E.int("thr4", 0, 4000) * 0.25
    m = getattr(M, cls)(**kw)
    E.check(m.name == name if name else isinstance(m.name, str) and len(m.name) > 0, "name of the metric")
    s = str(m)
    g = re.match(r"^%s(?:@([0-9.e+]+))?(?:\[>(-?[0-9.e+]+)\])?$" % re.escape(m.name), s)
    E.check(g is not None, "label %r is not name[@cutoff][[>threshold]]" % re.sub(r"9\d{6}|9\d{4}\.000017", "#", s))
    if g is None:
        return
    if c["cut"]:
        E.check(g.group(1) is not None, "label without the cutoff")
        if g.group(1) is not None:
            E.check(number(E, g.group(1)) == cut, "another cutoff in the label")
    else:
        E.check(g.group(1) is None, "cutoff in the label of a metric without cutoff")
    if c["thr"]:
        if bool(thr == 1):
            E.check(g.group(2) is None or bool(number(E, g.group(2)) == 1), "threshold in the label")
        else:
            E.check(g.group(2) is not None, "label without the threshold")
            if g.group(2) is not None:
                E.check(number(E, g.group(2)) == thr, "another threshold in the label")
    else:
        E.check(g.group(2) is None, "threshold in the label of a metric with the default one")


def h_distinct(E):
    """different configurations have different labels (in any order of construction)"""
    c = E.cfg
    M = E.mod("rankeval.metrics")
    E.text_mode()
    a, b = E.int("a", 1, 1000), E.int("b", 1, 1000)
    E.assume(E.not_(a == b))
    x, y = getattr(M, c["metric"])(cutoff=a), getattr(M, c["metric"])(cutoff=b)
    z = getattr(M, c["metric"])()
    s, t, u = str(x), str(y), str(z)
    E.check("@" in s and "@" in t and "@" not in u, "labels of metrics with and without cutoff")
    E.check(number(E, s.split("@")[1]) == a and number(E, t.split("@")[1]) == b, "label shows the cutoff of another metric object")


def jobs(tier):
    out = []
    for cls in sorted(DEFAULT) + ["PrecisionMax"]:
        for cut in (0, 1) if cls not in ("Kendalltau", "SpearmanRho") else (0,):
            for thr in (None, "int", "real") if cls in THR else (None,):
                out.append(Job(h_label, dict(metric=cls, cut=cut, thr=thr), stubs=S.stubs))
        if cls not in ("Kendalltau", "SpearmanRho", "PrecisionMax"):
            out.append(Job(h_distinct, dict(metric=cls), stubs=S.stubs))
    return out
