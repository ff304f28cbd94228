"""Dataset: grouping of rows into queries."""
from symx.runner import Job
from .data_common import *

BOUNDS = "1..6 rows (thorough 8), every contiguous grouping, distinct query ids chosen from a pool of 6 in every order, symbolic features and labels; datasets of 300 queries, 650 rows or 300 columns with one symbolic row"
OUTSIDE = "more rows (all symbolic); query ids beyond int32; rows of one query that are not contiguous (documented precondition)"
ASSUMPTIONS = ["rows of the same query are contiguous"]


def h_group(E):
    n = E.cfg["n"]
    q = sym_qids(E, n)
    X = [[E.real("x%d_%d" % (i, j)) for j in range(2)] for i in range(n)]
    y = [E.real("y%d" % i) for i in range(n)]
    d = make_dataset(E, X, y, q)
    g = groups(q)
    E.check(int(d.n_instances) == n and int(d.n_features) == 2 and int(d.n_queries) == len(g), "instance/feature/query counts")
    it = [(int(a), int(b), int(c)) for a, b, c in d.query_iterator()]
    E.observe("it", it)
    E.check(it == g, "query_iterator does not yield each query once, in file order, with its rows")
    E.check([int(v) for v in d.query_ids] == [a for a, _, _ in g], "query_ids")
    E.check([int(v) for v in d.query_offsets] == [b for _, b, _ in g] + [n], "query_offsets")
    E.check([int(v) for v in d.get_query_sizes()] == [c - b for _, b, c in g], "get_query_sizes")
    E.check([int(v) for v in d.get_qids_dataset()] == q, "get_qids_dataset")
    for a, b, c in g:
        E.check(tuple(int(v) for v in d.get_query_offsets(a)) == (b, c), "get_query_offsets of a present query")
    missing = E.pick("missing", [2, 5, 8, 2147483646, -1])
    try:
        d.get_query_offsets(missing)
        E.fail("get_query_offsets of a missing query did not raise LookupError")
    except LookupError:
        pass
    for i in range(n):
        E.check(E.and_(d.y[i] == y[i], *[d.X[i][j] == X[i][j] for j in range(2)]), "a row changed")


def h_large(E):
    """hundreds of rows, one query of more than 255 documents, many ids"""
    X, y, q = large_rows(E, E.cfg["nq"], E.cfg["big"], E.cfg.get("m", 2), spread=E.cfg.get("spread", 1))
    d = make_dataset(E, X, y, q)
    g = groups(q)
    n = len(q)
    E.check(int(d.n_instances) == n and int(d.n_features) == len(X[0]) and int(d.n_queries) == len(g), "instance/feature/query counts")
    E.check([(int(a), int(b), int(c)) for a, b, c in d.query_iterator()] == g, "query_iterator does not yield each query once, in file order, with its rows")
    E.check([int(v) for v in d.query_ids] == [a for a, _, _ in g], "query_ids")
    E.check([int(v) for v in d.query_offsets] == [b for _, b, _ in g] + [n], "query_offsets")
    E.check([int(v) for v in d.get_query_sizes()] == [c - b for _, b, c in g], "get_query_sizes")
    E.check([int(v) for v in d.get_qids_dataset()] == q, "get_qids_dataset")
    for a, b, c in g:
        E.check(tuple(int(v) for v in d.get_query_offsets(a)) == (b, c), "get_query_offsets of a present query")
    for v in (-1, 0, g[0][0] + 1, g[-1][0] - 1, len(g)):
        if v not in q:
            try:
                d.get_query_offsets(v)
                E.fail("get_query_offsets of a missing query did not raise LookupError")
            except LookupError:
                pass
    E.check(E.and_(*[d.y[i] == y[i] for i in range(n)]), "a label changed")
    E.check(E.and_(*[d.X[i][j] == X[i][j] for i in range(n) for j in range(len(X[0]))]), "a row changed")


def h_len(E):
    n, m = E.cfg["n"], E.cint("m", 0, E.cfg["n"] + 2)
    E.assume(m != n)
    X = [[E.real("x%d" % i)] for i in range(n)]
    try:
        make_dataset(E, X, [0.0] * n, [1] * m)
        E.fail("a query-id array of the wrong length was accepted")
    except Exception:
        pass


def jobs(tier):
    N = 6 if tier == "quick" else 8
    out = [Job(h_group, dict(n=n, pool=[0, 1, 3, 7, 2147483647, -4][:6] if n < 5 else [9, 0, 4] if n < 7 else [9, 4]), weight=n) for n in range(1, N + 1) if n < 5]
    out += [Job(h_group_big, dict(n=n), weight=n) for n in range(5, N + 1)]
    out += [Job(h_large, dict(nq=140, big=300), weight=9), Job(h_large, dict(nq=3, big=3, m=300), weight=3), Job(h_large, dict(nq=300, big=0, m=1, spread=20000), weight=9)]
    out += [Job(h_len, dict(n=n)) for n in (1, 2, 4)]
    return out


def h_group_big(E):
    E.cfg["pool"] = None
    n = E.cfg["n"]
    # few id orders, every grouping
    return h_group(_Pool(E, E.pick("order", [[3, 1, 2, 7, 5, 6, 4, 0], [0, 1, 2, 3, 4, 5, 6, 7], [7, 6, 5, 4, 3, 2, 1, 0][:8]])))


class _Pool(object):
    """ids are taken from a fixed list in order"""
    def __init__(self, E, order):
        self._E, self._o = E, order
        self.k = 0

    def __getattr__(self, n):
        return getattr(self._E, n)

    def pick(self, name, options):
        if name.startswith("id"):
            self.k += 1
            return [v * 3 for v in self._o][self.k - 1] if self.k <= 8 else 99
        if name == "missing":
            return self._E.pick(name, [2, 8, 25, -1])
        return self._E.pick(name, options)
