"""Dataset.kfold."""
from symx.runner import Job
from .data_common import *
from .C02 import build, check_part

BOUNDS = "3..16 queries (thorough 24) in fixed order and every shuffle of up to 5 queries, 3..n_queries folds, 1..2 documents per query (1 beyond 5 queries); 29..130 queries for seven combinations of options, five permutations"
OUTSIDE = "fewer than 3 folds, or fewer queries than folds (folds are then empty)"
ASSUMPTIONS = ["np.random.shuffle applies any permutation"]


def h_kfold(E):
    nq, k, only, shuf = E.cfg["nq"], E.cfg["k"], E.cfg["only"], E.cfg["shuffle"]
    d, q, X, y = build(E, nq) if nq <= 5 else build6(E, nq)
    allq = [a for a, _, _ in groups(q)]
    folds = []
    for f in d.kfold(n_folds=k, qids_only=only, shuffle=shuf):
        E.check(len(f) == 3, "a fold is (train, validation, test)")
        if only:
            folds.append([[int(v) for v in p] for p in f])
        else:
            for p in f:
                check_part(E, p, q, X, y)
            folds.append([[int(v) for v in p.query_ids] for p in f])
    E.observe("folds", [[len(p) for p in f] for f in folds])
    E.check(len(folds) == k, "number of folds")
    for f in folds:
        s = f[0] + f[1] + f[2]
        E.check(sorted(s) == sorted(allq), "the parts of a fold do not partition the queries")
        E.check(all(len(p) > 0 for p in f), "an empty part")
    for j, nm in ((1, "validation"), (2, "test")):
        s = [v for f in folds for v in f[j]]
        E.check(sorted(s) == sorted(allq), "a query is not in exactly one %s part over the folds" % nm)


def h_large(E):
    """tens of queries, one of them long"""
    nq, k, only, shuf = E.cfg["nq"], E.cfg["k"], E.cfg["only"], E.cfg["shuffle"]
    X, y, q = large_rows(E, nq, E.cfg.get("big", 0), 1)
    d = make_dataset(E, X, y, q, name="d")
    allq = sorted(a for a, _, _ in groups(q))
    test, vali = [], []
    cnt = 0
    for f in d.kfold(n_folds=k, qids_only=only, shuffle=shuf):
        cnt += 1
        if not only:
            for p in f:
                check_part(E, p, q, X, y)
        s = [[int(v) for v in (p if only else p.query_ids)] for p in f]
        E.check(sorted(s[0] + s[1] + s[2]) == allq, "the parts of a fold do not partition the queries")
        E.check(all(s), "an empty part")
        vali += s[1]
        test += s[2]
    E.check(cnt == k, "number of folds")
    E.check(sorted(vali) == allq, "a query is not in exactly one validation part over the folds")
    E.check(sorted(test) == allq, "a query is not in exactly one test part over the folds")


def build6(E, nq):
    ids = [4, 1, 9, 0, 7, 3, 8, 2, 30, 22, 21, 25, 11, 17, 13, 12, 40, 45, 44, 41, 50, 60, 58, 55][:nq]
    X = [[E.real("x%d" % i), float(i)] for i in range(nq)]
    y = [E.real("y%d" % i) for i in range(nq)]
    return make_dataset(E, X, y, ids, name="d"), ids, X, y


def jobs(tier):
    N = 6 if tier == "quick" else 8
    out = []
    for n in range(3, N + 1):
        for k in range(3, n + 1):
            for only in (True, False):
                out.append(Job(h_kfold, dict(nq=n, k=k, only=only, shuffle=False)))
                if n <= (5 if only else 4) or tier != "quick" and n <= 5:
                    out.append(Job(h_kfold, dict(nq=n, k=k, only=only, shuffle=True, vary=1), weight=n * n))
    for n in range(N + 1, 17 if tier == "quick" else 25):
        for k in range(3, n + 1):
            out.append(Job(h_kfold, dict(nq=n, k=k, only=n % 3 != 0, shuffle=False)))
    for n, k, only, shuf in [(37, 5, True, True), (37, 4, False, False), (100, 7, True, False), (101, 10, True, True), (29, 29, True, True), (130, 128, True, False), (31, 3, False, True)]:
        out.append(Job(h_large, dict(nq=n, k=k, only=only, shuffle=shuf, big=0 if only else 40), weight=20))
    return out
