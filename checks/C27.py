"""Formats that cannot be written or read are refused."""
import os
from symx.runner import Job
from .proxy_common import *

PRELOAD_PYX = PRELOAD
NAMES = ["QuickRank", "LightGBM", "XGBoost", "ScikitLearn", "Jforests", "CatBoost", "quickrank", "Quickrank", "lightgbm", "xgboost", "JForests", "jforests",
         "catboost", "scikitlearn", "", "QuickRank ", "LETOR", "CoreML", "some other format"]
READ = NAMES[:6]
BOUNDS = "a symbolic format name (the six known names, 12 near misses, and any other name), every number of the model, target file absent or present, save through the model and through each format's class"
OUTSIDE = "larger ensembles"
ASSUMPTIONS = ["format names are only compared, hashed or normalised by case and blanks"]


class AnyStr(str):
    """a string known only by its index into NAMES; comparisons fork"""
    def __new__(cls, idx):
        s = str.__new__(cls, "<any format>")
        s.idx = idx
        return s

    def _is(self, o):
        return bool(self.idx == NAMES.index(o)) if o in NAMES else False

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if isinstance(o, AnyStr):
            return self is o
        return self._is(str(o))

    def __ne__(self, o):
        return not self == o

    def conc(self):
        return NAMES[int(self.idx)]

    def __hash__(self):
        return hash(self.conc())

    def lower(self):
        return self.conc().lower()

    def upper(self):
        return self.conc().upper()

    def strip(self, *a):
        return self.conc().strip(*a)

    def startswith(self, *a):
        return self.conc().startswith(*a)

    def endswith(self, *a):
        return self.conc().endswith(*a)

    def __contains__(self, o):
        return o in self.conc()

    def __add__(self, o):
        return self.conc() + o

    def __radd__(self, o):
        return o + self.conc()

    def __getitem__(self, k):
        return self.conc()[k]

    def __len__(self):
        return len(self.conc())

    def __iter__(self):
        return iter(self.conc())

    def casefold(self):
        return self.conc().casefold()


def fmt_name(E):
    if not E.symbolic:
        return NAMES[E.int("format", 0, len(NAMES) - 1)]
    return AnyStr(E.int("format", 0, len(NAMES) - 1))


def model(E):
    E.text_mode()
    trees = feature_trees(E, (((None, None), None), (None, None)), [0, 1])
    w = [E.real("w%d" % k, -4, 4) for k in range(2)]
    return trees, w


def read(p):
    with open(p, "rb") as f:
        return f.read()


def h_save(E):
    trees, w = model(E)
    M = E.mod("rankeval.model")
    m = make_model(E, trees, w)
    f = E.tmp("out.model")
    there = E.cbool("there")
    if there:
        with open(f, "w") as o:
            o.write("earlier content\n")
    name = fmt_name(E)
    E.assume(E.not_(name == "QuickRank") if not isinstance(name, AnyStr) else E.not_(name.idx == 0))
    if E.cfg.get("direct"):
        k = E.pick("proxy", ["LightGBM", "XGBoost", "ScikitLearn", "Jforests", "CatBoost"])
        call = lambda: getattr(M, "Proxy" + k).save(f, m)
    else:
        call = lambda: m.save(f, format=name)
    try:
        call()
    except (NotImplementedError, TypeError, ValueError):
        pass
    else:
        E.fail("saving in a format without a writer did not raise")
    E.check(os.path.exists(f) == there, "a refused save left a file behind or removed the file that was there")
    if there and os.path.exists(f):
        E.check(read(f) == b"earlier content\n", "a refused save changed the file that was there")
        os.unlink(f)
    check_model(E, m, trees, w, docs(E, 1, [0, 1]), 0.0, 1.0, "model after a refused save")


def h_load(E):
    trees, w = model(E)
    M = E.mod("rankeval.model")
    T = Txt(E)
    kind = E.cfg["kind"]
    txt = {"QuickRank": lambda: quickrank(E, trees, w, T), "LightGBM": lambda: lightgbm(E, trees, T), "XGBoost": lambda: xgboost(E, trees, T),
           "ScikitLearn": lambda: sklearn_text(E, trees, T, 0.5, 0.25), "Jforests": lambda: jforests(E, trees, w, T)}[kind]()
    p = E.tmp("m.model", txt)
    before = read(p)
    name = fmt_name(E)
    if isinstance(name, AnyStr):
        E.assume(name.idx >= len(READ))
    else:
        E.assume(name not in READ)
    try:
        M.RTEnsemble(p, format=name)
    except (TypeError, ValueError, NotImplementedError):
        pass
    else:
        E.fail("loading an unknown format did not raise")
    E.check(read(p) == before, "a refused load changed the file")


def jobs(tier):
    out = [Job(h_save, dict(direct=d), stubs=SCORING, needs_ext=True) for d in (False, True)]
    out += [Job(h_load, dict(kind=k), stubs=SCORING, needs_ext=True) for k in ("QuickRank", "LightGBM", "XGBoost", "ScikitLearn", "Jforests")]
    return out
