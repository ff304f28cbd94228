"""Shared: building datasets and reference grouping."""


def make_dataset(E, X, y, qids, name=None, xorder="C"):
    D = E.mod("rankeval.dataset").Dataset
    return D(E.farray(X, "float32", xorder), E.farray(y, "float32"), E.np.array(qids, dtype="int32"), name=name)


def groups(qids):
    """[(qid, start, end)] of a contiguous grouping, in order of appearance"""
    out = []
    for i, q in enumerate(qids):
        if out and out[-1][0] == q:
            out[-1][2] = i + 1
        else:
            out.append([q, i, i + 1])
    return [tuple(g) for g in out]


def sym_qids(E, n, names=True):
    """An arbitrary contiguous grouping of n instances into queries with distinct symbolic ids (forked)."""
    starts = [True] + [E.cbool("new%d" % i) for i in range(1, n)]
    ng = sum(starts)
    # ids: an arbitrary injective choice out of values whose sorted order differs from appearance order
    pool = E.cfg.get("pool") or [0, 1, 3, 7, 2147483647, -4, 100, 101]
    ids = []
    for g in range(ng):
        avail = [v for v in pool if v not in ids]
        ids.append(E.pick("id%d" % g, avail))
    out, g = [], -1
    for s in starts:
        if s:
            g += 1
        out.append(ids[g])
    return out


def rows(a):
    return a.tolist() if hasattr(a, "tolist") else a


def ds_rows(E, d):
    """[(qid, y, x-row)] of a dataset through its public interface"""
    out = []
    for qid, a, b in d.query_iterator():
        for i in range(int(a), int(b)):
            out.append((int(qid), d.y[i], list(d.X[i])))
    return out


def same_values(E, a, b):
    if len(a) != len(b):
        return False
    return E.and_(*[x == y for x, y in zip(a, b)]) if a else True


def large_rows(E, nq, big=0, m=2, fx="X", spread=1):
    """(X, y, ids per row) of nq queries of 1..4 documents (one of big documents) with unordered, also negative ids; one feature and one label are symbolic"""
    q = []
    for g in range(nq):
        size = big if big and g == nq // 3 else 1 + (g * g + g // 3) % 4
        q += [((g * 7919 + 13) % 100003 - 20000) * spread] * size
    n = len(q)
    X = [[((i * 31 + j * 17) % 211) * 0.25 - 20.0 for j in range(m)] for i in range(n)]
    y = [float((i * i + i // 7) % 5) for i in range(n)]
    k = n // 2 + 1
    X[k][m - 1] = E.real("lx")
    y[k] = E.real("ly")
    return X, y, q
