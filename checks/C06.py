"""Loading SVMlight text."""
from symx.runner import Job
from .svm_common import *

BOUNDS = "files of 1..5 samples (thorough 6), any subset of 4 ascending feature ids per sample (also none, and ids far apart), every label, feature value and query id, numbers spelled plainly, with a sign or with an exponent, " \
         "symbolic separators (one or two characters of space and tab), comments of 0..3 arbitrary characters, comment lines between samples, LF or CRLF, final newline or not, path or file object, .gz; files of 300 lines, lines of 1500 features or 10000 characters and ids up to 32000 with one symbolic label and value"
OUTSIDE = "blank lines (refused), ids that do not ascend, rounding of the text to single precision, files longer than the bound, values beyond single precision"
ASSUMPTIONS = ["libstdc++ streams, sscanf and strtod (modelled in symx/llnative.py, compared with the real library on 3000 random texts)", "clang's IR of the source"]

SEP = ((32,), (9,), (32, 32), (9, 32))


def h_values(E):
    """structure forked, numbers symbolic"""
    c = E.cfg
    E.text_mode()
    n, ids = c["n"], c["ids"]
    qid = c.get("qid", True)
    styles = c.get("styles", ["plain"])
    k = [0]

    def num(name):
        k[0] += 1
        return E.real(name, -9, 9), styles[k[0] % len(styles)]
    lines, want = [], []
    q = 5
    for i in range(n):
        if c.get("noted") and E.cbool("comment%d" % i):
            lines.append("# 1 qid:77 1:5 9:8")
        y, st = num("y%d" % i)
        text = E.text(y, st)
        qi = None
        if qid:
            qi = E.int("q%d" % i, 0, 2147483647)
            text += " qid:" + (E.text(qi) if E.symbolic else str(int(qi)))
        row = {}
        for f in ids:
            if E.cbool("has%d_%d" % (i, f)):
                v, st = num("x%d_%d" % (i, f))
                row[f] = v
                text += " %d:%s" % (f, E.text(v, st))
        if not qid:
            E.assume(len(row) > 0)
        text += c.get("tail", "")
        lines.append(text)
        want.append((y, qi, row))
    width = max([max(r) if r else 0 for _, _, r in want])
    txt = c.get("eol", "\n").join(lines) + (c.get("eol", "\n") if c.get("last", True) else "")
    L = E.mod("rankeval.dataset.svmlight_format").load_svmlight_file
    if c.get("object"):
        f = io.BytesIO(txt.encode())
    elif c.get("gz"):
        import gzip
        f = E.tmp("data.gz", gzip.compress(txt.encode()))
    elif c.get("bz2"):
        import bz2
        f = E.tmp("data.bz2", bz2.compress(txt.encode()))
    else:
        f = E.tmp("data.txt", txt)
    if c.get("noqid"):
        X, y = L(f)
        qs = None
    else:
        X, y, qs = L(f, query_id=True)
    check_loaded(E, X, y, qs, want, width, qid)


def check_loaded(E, X, y, qs, want, width, qid):
    n = len(want)
    E.check(len(y) == n, "a sample is lost or made up")
    E.check(tuple(X.shape) == (n, width), "shape of the feature matrix: %s instead of %s" % (tuple(X.shape), (n, width)))
    if qs is not None:
        E.check(len(qs) == (n if qid else 0), "number of query ids")
    for i, (wy, wq, row) in enumerate(want):
        E.close(y[i], wy, "label of sample %d" % i, 1e-5)
        if qs is not None and qid:
            E.check(qs[i] == wq, "query id of sample %d" % i)
        for f in range(1, width + 1):
            E.close(X[i, f - 1], row.get(f, 0.0), "feature %d of sample %d" % (f, i), 1e-5)
    E.observe("y", list(y))


def h_large(E):
    """long files, long lines and large ids, one symbolic label and feature value"""
    c = E.cfg
    E.text_mode()
    n, per, gap = c["n"], c["per"], c.get("gap", 1)
    lines, want = [], []
    for i in range(n):
        y = E.real("y", -9, 9) if i == n // 2 else float(i % 5)
        row = {}
        k = 1 + i % 3
        for j in range(per if i % 4 != 3 else per // 2):
            row[k] = E.real("x", -9, 9) if i == n // 2 and j == per // 3 else ((i * 31 + j * 17) % 4001) * 0.25 - 500.0
            k += 1 + (i + j) % 3 if gap == 1 else gap
        q = 7 * (i // 3) + 1 if i % 2 else 7 * (i // 3) + 1
        sp = lambda v: E.text(v) if not isinstance(v, float) else repr(v)
        lines.append(sp(y) + " qid:%d" % q + "".join(" %d:%s" % (f, sp(v)) for f, v in sorted(row.items())) + (" # " + "docid = 5:1 qid:3 " * c["note"] if c.get("note") else ""))
        want.append((y, q, row))
    f = E.tmp("data.txt", "\n".join(lines) + "\n")
    width = max(max(r) for _, _, r in want)
    X, y, qs = E.mod("rankeval.dataset.svmlight_format").load_svmlight_file(f, query_id=True)
    E.check(len(y) == n and len(qs) == n, "a sample is lost or made up")
    E.check(tuple(X.shape) == (n, width), "shape of the feature matrix: %s instead of %s" % (tuple(X.shape), (n, width)))
    for i, (wy, wq, row) in enumerate(want):
        E.close(y[i], wy, "label of sample %d" % i, 1e-5)
        E.check(qs[i] == wq, "query id of sample %d" % i)
        for g in range(1, width + 1):
            E.close(X[i, g - 1], row.get(g, 0.0), "feature %d of sample %d" % (g, i), 1e-5)


def h_chars(E):
    """separators, comments and digits are symbolic characters"""
    c = E.cfg
    D = lambda nm: char(E, nm, 48, 57)
    parts, want = [], []

    def sep(nm):
        for s in range(c.get("seps", 1)):
            w = char(E, "%s_%d" % (nm, s), 9, 32)
            E.assume(E.or_(w == 32, w == 9, w == 11, w == 12))
            parts.append(w)
    for i in range(c["n"]):
        if c.get("lead"):
            sep("lead%d" % i)
        a, b, d, g, h = D("ya%d" % i), D("yb%d" % i), D("q%d" % i), D("xa%d" % i), D("xb%d" % i)
        parts.extend(["-" if c.get("neg") else "", a, ".", b])
        y = (a - 48) + (b - 48) * 0.1
        if c.get("neg"):
            y = -y
        sep("s%d" % i)
        parts.extend(["qid:", d, "0" if c.get("tens") else ""])
        q = (d - 48) * (10 if c.get("tens") else 1)
        row = {}
        for f in c["rows"][i]:
            sep("f%d_%d" % (i, f))
            parts.extend(["%d:" % f, g, h] + (["e-1"] if c.get("exp") else []))
            v = ((g - 48) * 10 + (h - 48)) * (0.1 if c.get("exp") else 1.0)
            row[f] = v
        if c.get("trail"):
            sep("t%d" % i)
        if c.get("note") is not None:
            parts.append("#")
            for k in range(c["note"]):
                z = char(E, "c%d_%d" % (i, k))
                E.assume(E.and_(z != 10, z != 0))
                parts.append(z)
        parts.append(c.get("eol", "\n") if i < c["n"] - 1 or c.get("last", True) else "")
        if c.get("full") is not None and i == 0:
            parts.append("#")
            for k in range(c["full"]):
                z = char(E, "l%d" % k)
                E.assume(E.and_(z != 10, z != 0))
                parts.append(z)
            parts.append("\n")
        want.append((y, q, row))
    width = max(max(r) if r else 0 for _, _, r in want)
    L = E.mod("rankeval.dataset.svmlight_format").load_svmlight_file
    X, y, qs = L(binary(E, parts), query_id=True)
    check_loaded(E, X, y, qs, want, width, True)


def jobs(tier):
    TH = tier != "quick"
    out = []
    V = lambda w=1, **c: out.append(Job(h_values, c, stubs=SVM, needs_ext=True, weight=w))
    C = lambda **c: out.append(Job(h_chars, c, stubs=SVM, needs_ext=True))
    V(n=1, ids=[1, 2, 3, 4])
    V(n=2, ids=[1, 2, 3, 4], w=4)
    V(n=3, ids=[1, 2, 3], w=8)
    V(n=4, ids=[1, 3] if not TH else [1, 2, 3], w=9)
    V(n=3, ids=[2, 7], w=3)
    V(n=2, ids=[1, 40, 200], w=3)
    V(n=3, ids=[1, 2], qid=False, w=3)
    V(n=2, ids=[2, 3], noqid=True)
    V(n=2, ids=[1, 3], noted=True, w=2)
    V(n=2, ids=[1, 2], eol="\r\n")
    V(n=2, ids=[1, 2], eol="\r\n", last=False)
    V(n=2, ids=[1, 3], last=False)
    V(n=2, ids=[1, 2], tail=" # docid = 3:4 qid:9", last=False)
    V(n=2, ids=[1, 2], tail="#")
    V(n=2, ids=[1, 2], tail=" \t ")
    V(n=2, ids=[1, 2], styles=["neg", "exp", "plain"])
    V(n=2, ids=[1, 2], styles=["exp", "neg", "expneg"])
    V(n=2, ids=[2], object=True)
    V(n=2, ids=[2], gz=True)
    V(n=2, ids=[2], bz2=True)
    V(n=5, ids=[1, 3], w=9)
    V(n=3, ids=[1, 2, 3, 4], w=9)
    if TH:
        V(n=3, ids=[1, 2, 5], noted=True, w=9)
        V(n=6, ids=[1, 3], w=9)
        V(n=4, ids=[1, 2, 4, 9], w=9)
    C(n=1, rows=[[1, 2]])
    C(n=2, rows=[[1], [3]], seps=2)
    C(n=2, rows=[[2], []], lead=True)
    C(n=2, rows=[[], [2]], trail=True)
    C(n=2, rows=[[1], [1]], note=3, trail=True)
    C(n=2, rows=[[1], [2]], note=0, eol="\r\n")
    C(n=2, rows=[[1], [2]], full=3)
    C(n=2, rows=[[3], [1]], neg=True, exp=True)
    C(n=3, rows=[[1], [1, 2], [3]], tens=True, last=False)
    L = lambda **c: out.append(Job(h_large, c, stubs=SVM, needs_ext=True, weight=20))
    L(n=300, per=4)
    L(n=3, per=1500)
    L(n=3, per=5, gap=8000)
    L(n=40, per=140, note=1)
    L(n=2, per=2, note=600)
    return out
