"""Shared by the metric checks: symbolic queries and reference formulas (independent of rankeval)."""
import itertools, math

LOG2 = [None] + [math.log(i, 2) if i > 0 else None for i in range(1, 40)]


def orders(E, scores):
    """All document orders consistent with decreasing scores, each with its condition."""
    n = len(scores)
    out = []
    for p in itertools.permutations(range(n)):
        cond = [scores[p[k]] >= scores[p[k + 1]] for k in range(n - 1)]
        c = E.and_(*cond) if cond else True
        out.append((p, c))
    return out


def matches_some_order(E, value, scores, spec, tol=1e-3):
    """value equals spec(order) for an order consistent with decreasing scores (ties: any order)."""
    alts = []
    for p, c in orders(E, scores):
        if c is False:
            continue
        alts.append(E.and_(c, E.is_close(value, spec(list(p)), tol)))
    return E.or_(*alts) if alts else False


def gain(E, y, impl):
    if impl == "flat":
        return y
    return exp2(E, y) - 1


def exp2(E, y):
    if E.symbolic:
        from symx.core import SymNum
        return y.exp2() if isinstance(y, SymNum) else 2.0 ** y
    return 2.0 ** float(y)


def gains(E, y, impl):
    return [gain(E, v, impl) for v in y]


def dcg(E, g, order, cutoff):
    """g: the gain of each document"""
    o = order if cutoff is None else order[:cutoff]
    s = 0.0
    for r, i in enumerate(o):
        s = s + g[i] / math.log(r + 2, 2)
    return s


def arr(E, vals, dtype):
    return E.farray(vals, dtype)


def query(E, n, labels="int", lo=0, hi=4):
    """n documents: labels (small integers, or reals) and real scores; distinct scores preferred."""
    y = [E.label("y%d" % i, lo, hi) if labels == "int" else E.real("y%d" % i, lo, hi) for i in range(n)]
    s = [E.real("s%d" % i, -16, 16) for i in range(n)]
    for i in range(n):
        for j in range(i):
            E.prefer(E.not_(s[i] == s[j]))
    return y, s


# ------------------------------------------------------------- larger queries
BIG = "; and queries of 12..40, 130 and 300 documents with distinct scores, one of them any real that puts its document first, last or next to the cutoff, and the labels at the top and next to the cutoff any of 0, 1, 4, labels and scores also as other number types"


def big_query(E):
    """n documents in scrambled order with distinct fixed scores except one, fixed labels except three"""
    c = E.cfg
    n = c["n"]
    step = next(k for k in (7, 11, 13, 17, 19) if math.gcd(k, n) == 1)
    s = [((i * step + 3) % n) * 0.25 - min(n, 100) / 16.0 for i in range(n)]
    y = [float(((i * i + 2 * i) % 5) * ((i % 3) != 1) if not c.get("sparse") else 0) for i in range(n)]
    if c.get("distinct"):
        # labels without ties (the order of the ideal ranking is then unique)
        y = [float((i * step + 1) % n + 1) * (1 if c.get("ydt") else 0.125) for i in range(n)]
    rank = sorted(range(n), key=lambda i: -s[i])
    cut = c.get("cut")
    k = n if cut is None else min(cut, n)
    for t, r in enumerate(sorted(set([0, k - 1, min(k, n - 1)]))):
        if c.get("distinct"):
            y[rank[r]] = float(E.pick("y%d" % t, (n + 1 + t, y[rank[r]])))
        else:
            y[rank[r]] = float(E.pick("y%d" % t, (0, 1, 4) if n < 20 else (0, 4)))
    j = rank[n // 2]
    others = [i for i in rank if i != j]
    pos = E.pick("pos", sorted(set([0, k - 1, min(k, n - 1), n - 1])))
    s[j] = E.real("s", -32, 32)
    if pos > 0:
        E.assume(s[j] < s[others[pos - 1]])
    if pos < n - 1:
        E.assume(s[j] > s[others[pos]])
    order = others[:pos] + [j] + others[pos:]
    ya = arr(E, [int(v) for v in y] if c.get("ydt", "").startswith("int") else y, c.get("ydt") or "float32")
    return y, s, order, k, ya, arr(E, s, c.get("sdt") or "float32")


def big_configs(tier, ns=(12, 25, 40)):
    out = []
    for n in ns:
        for cut in (None, 10, n, n + 3):
            if n < 40 or cut in (None, 10):
                out.append(dict(n=n, cut=cut))
    out += [dict(n=130, cut=100), dict(n=300, cut=None), dict(n=300, cut=280)]
    out += [dict(n=12, cut=11, sparse=True), dict(n=25, cut=24, sparse=True), dict(n=12, cut=5, ydt="int32", sdt="float64"), dict(n=12, cut=None, ydt="float64", sdt="float64"),
            dict(n=12, cut=7, ydt="int64")]
    return out
