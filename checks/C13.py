"""The score cache is transparent."""
import weakref

from symx.runner import Job
from .model_common import *
from .data_common import make_dataset
from .C10 import ref_scores

PRELOAD_PYX = ["rankeval.scoring._efficient_scoring"]
BOUNDS = "every sequence of 3 (thorough 4) operations among score(cached or not, basic or detailed) on two datasets that may be equal or differ in one feature " \
         "value, and clear_cache; 2 trees of up to 2 splits; symbolic contents, learning rate and base score; 40 datasets scored one after another and some of them again, with symbolic leaf values and one symbolic feature value; three datasets of which each is discarded before the next is made, taking its address"
OUTSIDE = "longer histories; callers that modify a returned array or a dataset in place"
ASSUMPTIONS = ["Cython front end's typing of the .pyx source", "digests of different contents differ"]


def h_cache(E):
    c = E.cfg
    trees = [fill(E, s, "t%d_" % k, 1, 0) for k, s in enumerate(c["shapes"])]
    w = [1.0, 0.5][:len(trees)]
    lr, base = c["lr"], c["base"]
    m = make_model(E, trees, w, learning_rate=lr, base_score=base)
    trees = [conc_tree(E, t) for t in trees]
    XA = matrix(E, 2, 1, "a")
    XB = [list(XA[0]), [E.real("b1_0")]]
    ds = [make_dataset(E, XA, [0.0, 1.0], [1, 1]), make_dataset(E, XB, [0.0, 1.0], [1, 1])]
    refs = [ref_scores(E, trees, w, cmatrix(E, X), base or 0.0, lr) for X in (XA, XB)]
    cx = [cmatrix(E, X) for X in (XA, XB)]
    for k in range(c["steps"]):
        op = E.cint("op%d" % k, 0, 4)
        if op == 4:
            m.clear_cache()
            continue
        j = E.cint("ds%d" % k, 0, 1) if k else 0
        det, cache = bool(op & 1), bool(op & 2)
        r = m.score(ds[j], detailed=det, cache=cache)
        y = r[0] if det else r
        for i in range(2):
            E.close(y[i], refs[j][i], "a score depends on earlier scoring of the model")
        if det:
            for i in range(2):
                for t in range(len(trees)):
                    ex = eval_tree(E, trees[t], cx[j][i]) * w[t] * lr + ((base or 0.0) if t == 0 else 0.0)
                    E.close(r[1][i, t], ex, "a partial score depends on earlier scoring of the model")
                    li = leaf_indices(trees[t])[eval_leaf(E, trees[t], cx[j][i])]
                    E.check(int(r[2][i, t]) == int(m.trees_root[t]) + li, "an exit leaf depends on earlier scoring of the model")


def h_many(E):
    """many datasets of the same shape, all scored with the cache, then again"""
    c = E.cfg
    t = (0, 1.25, E.real("v0"), (0, 3.0, E.real("v1"), E.real("v2")))
    m = make_model(E, [t], [1.0], learning_rate=0.5, base_score=1.0)
    t = conc_tree(E, t)
    n = c["n"]
    Xs = [[[k * 0.5 - 3.0], [((k * 7) % n) * 0.25]] for k in range(n)]
    Xs[n // 2][1][0] = E.real("x")
    ds = [make_dataset(E, X, [0.0, 1.0], [1, 1]) for X in Xs]
    for k in list(range(n)) + [0, n // 2, n - 1, 1, n // 3]:
        det = bool((k + c["det"]) % 3 == 0)
        r = m.score(ds[k], detailed=det, cache=k % 5 != 4)
        y = r[0] if det else r
        for i in range(2):
            E.close(y[i], eval_tree(E, t, cmatrix(E, Xs[k])[i]) * 0.5 + 1.0, "a score depends on earlier scoring of the model")
            if det:
                li = leaf_indices(t)[eval_leaf(E, t, cmatrix(E, Xs[k])[i])]
                E.check(int(r[2][i, 0]) == int(m.trees_root[0]) + li, "an exit leaf depends on earlier scoring of the model")


class Addresses:
    """id() in which a new object takes the address of one that is gone (the allocator may do so at any time)"""
    def __init__(self):
        self.at, self.next = [], 1000

    def __call__(self, o):
        for r, a in self.at:
            if r() is o:
                return a
        try:
            r = weakref.ref(o)
        except TypeError:
            return id(o)
        free = [a for q, a in self.at if q() is None and not any(p() is not None and b == a for p, b in self.at)]
        if free:
            a = free[-1]
        else:
            a, self.next = self.next, self.next + 1
        self.at.append((r, a))
        return a


def h_dropped(E):
    """datasets that are discarded after they have been scored, later ones taking their place in memory"""
    c = E.cfg
    t = (0, 1.25, E.real("v0"), (0, 3.0, E.real("v1"), E.real("v2")))
    m = make_model(E, [t], [1.0], learning_rate=0.5, base_score=1.0)
    t = conc_tree(E, t)
    if E.symbolic:
        at = Addresses()
        for n in ("rankeval.model.rt_ensemble", "rankeval.scoring.scorer", "rankeval.dataset.dataset"):
            E.mod(n).id = at
    old, wait = None, []
    for k in range(c["n"]):
        X = [[E.real("a%d" % k)], [0.5 * k]]
        d = make_dataset(E, X, [0.0, 1.0], [1, 1], name="d")
        if not E.symbolic:
            # take the address of the dataset before, as soon as the allocator gives it
            while old is not None and id(d) != old and len(wait) < 200:
                wait.append(d)
                d = make_dataset(E, X, [0.0, 1.0], [1, 1], name="d")
            old = id(d)
        det = E.cbool("det%d" % k)
        r = m.score(d, detailed=det, cache=E.cbool("cache%d" % k))
        y = r[0] if det else r
        for i in range(2):
            E.close(y[i], eval_tree(E, t, cmatrix(E, X)[i]) * 0.5 + 1.0, "a score depends on earlier scoring of the model")
        d = r = y = None
        del wait[:]


def jobs(tier):
    T = tier != "quick"
    out = []
    for lr, base in ((1, None), (0.5, 2.0)):
        out.append(Job(h_cache, dict(shapes=((None, None),), steps=3, lr=lr, base=base), stubs=SCORING, needs_ext=True, weight=30, max_paths=200000))
    out.append(Job(h_cache, dict(shapes=((None, None), None), steps=2, lr=0.25, base=1.0), stubs=SCORING, needs_ext=True, weight=20, max_paths=200000))
    if T:
        out.append(Job(h_cache, dict(shapes=((None, None),), steps=4, lr=0.5, base=1.0), stubs=SCORING, needs_ext=True, weight=90, max_paths=400000, deadline=3000))
        out.append(Job(h_cache, dict(shapes=((None, (None, None)), None), steps=3, lr=0.5, base=1.0), stubs=SCORING, needs_ext=True, weight=90, max_paths=400000, deadline=3000))
    out += [Job(h_many, dict(n=n, det=d), stubs=SCORING, needs_ext=True, weight=40, max_paths=200000) for n, d in ((12, 0), (40, 1))]
    out.append(Job(h_dropped, dict(n=3), stubs=SCORING, needs_ext=True, weight=20))
    return out
