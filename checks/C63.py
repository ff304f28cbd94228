"""Loading several SVMlight files at once."""
import os
from symx.runner import Job
from .svm_common import *

BOUNDS = "1..4 files of 1..3 samples each, with different numbers of features (any subset of three ids per sample), every label, value and query id, given as paths, open files or file descriptors in any mixture, as list, tuple or generator, with and without query ids"
OUTSIDE = "more files, samples and ids than that"
ASSUMPTIONS = ["libstdc++ streams (see C06)", "clang's IR of the source"]


def one_file(E, k, n, ids, qid):
    """(text, [(label, query, {feature: value})])"""
    lines, want = [], []
    for i in range(n):
        y = E.real("y%d_%d" % (k, i), -9, 9)
        t = E.text(y)
        q = None
        if qid:
            q = E.int("q%d_%d" % (k, i), 0, 1000000)
            t += " qid:" + (E.text(q) if E.symbolic else str(int(q)))
        row = {}
        for f in ids:
            if (k + i) % 2 == 0 or E.cbool("has%d_%d_%d" % (k, i, f)):
                row[f] = E.real("x%d_%d_%d" % (k, i, f), -9, 9)
                t += " %d:%s" % (f, E.text(row[f]))
        if not qid:
            E.assume(len(row) > 0)
        lines.append(t)
        want.append((y, q, row))
    return "\n".join(lines) + "\n", want


def h_many(E):
    E.text_mode()
    c = E.cfg
    M = E.mod("rankeval.dataset.svmlight_format")
    qid = c.get("qid", True)
    files, wants, fds, opened = [], [], [], []
    for k, (n, ids) in enumerate(c["files"]):
        t, want = one_file(E, k, n, ids, qid)
        wants.append(want)
        kind = c["kinds"][k % len(c["kinds"])]
        p = E.tmp("f%d.txt" % k, t)
        if kind == "fd":
            fds.append(os.open(p, os.O_RDONLY))
            p = fds[-1]
        elif kind == "object":
            p = open(p, "rb")
            opened.append(p)
        files.append(p)
    src = {"list": files, "tuple": tuple(files), "generator": (f for f in files)}[c.get("how", "list")]
    r = M.load_svmlight_files(src, query_id=True) if qid else M.load_svmlight_files(src)
    step = 3 if qid else 2
    E.check(len(r) == step * len(wants), "number of parts returned")
    E.check(all(not f.closed for f in opened), "an open file given is closed")
    for f in opened:
        f.close()
    for fd in fds:
        try:
            os.close(fd)
        except OSError:
            E.fail("a file descriptor given is closed")
    width = max([max(row) for w in wants for _, _, row in w if row] or [0])
    for k, want in enumerate(wants):
        X, y = r[step * k], r[step * k + 1]
        E.check(tuple(X.shape) == (len(want), width), "every part has the same features")
        if tuple(X.shape) != (len(want), width):
            continue
        E.check(len(y) == len(want), "labels of a file")
        for i, (wy, wq, row) in enumerate(want):
            E.close(y[i], wy, "label of sample %d of file %d" % (i, k), 1e-5)
            if qid:
                E.check(r[step * k + 2][i] == wq, "query id of sample %d of file %d" % (i, k))
            for f in range(1, width + 1):
                E.close(X[i, f - 1], row.get(f, 0.0), "feature %d of sample %d of file %d" % (f, i, k), 1e-5)
        E.observe("y%d" % k, list(y))


def h_bad(E):
    """a broken file among them is reported"""
    E.text_mode()
    M = E.mod("rankeval.dataset.svmlight_format")
    at = E.cint("at", 0, 2)
    y = E.real("y", -9, 9)
    files = [E.tmp("f%d.txt" % k, "%s qid:1 1:%s\n" % (E.text(y), "2.5") if k != at else "some text\n") for k in range(3)]
    if E.cbool("missing"):
        files[at] = files[at] + ".none"
    try:
        M.load_svmlight_files(files, query_id=True)
    except (ValueError, IOError, RuntimeError):
        return
    E.fail("a broken file is ignored")


def jobs(tier):
    out = []
    J = lambda fn, **c: out.append(Job(fn, c, stubs=SVM, needs_ext=True, weight=5))
    J(h_many, files=[(2, (1, 2))], kinds=["path"])
    J(h_many, files=[(2, (1, 3)), (1, (2,))], kinds=["path"])
    J(h_many, files=[(1, (2,)), (2, (1, 4)), (1, (3,))], kinds=["path", "object", "fd"], how="generator")
    J(h_many, files=[(1, (1,)), (1, (1, 2)), (2, (1, 2))], kinds=["path"], qid=False)
    J(h_many, files=[(1, (5,)), (1, (1,)), (1, (2,)), (1, (1, 3))], kinds=["fd", "path"], how="tuple")
    J(h_many, files=[(3, (1, 2)), (2, (1, 2))], kinds=["object"], qid=False)
    J(h_bad)
    return out
