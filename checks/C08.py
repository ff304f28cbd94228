"""SVMlight loading of arbitrary bytes."""
import sys
from symx.runner import Job
from .svm_common import *

REPLAY_ASAN = True
BOUNDS = "every file of up to 3 bytes; every file that agrees with one of the templates (well-formed lines, or parts of them) except for a window of 2 or 3 (thorough 4) arbitrary bytes at any position; one arbitrary byte at a few places of files of 270 lines, lines of 5000 characters and tokens of 1200; samples with and without query ids in any order up to 4 lines; streams whose readline fails, or returns text instead of bytes, at any line"
OUTSIDE = "feature ids above 99 made of arbitrary digits (memory use grows with the id), longer windows"
ASSUMPTIONS = ["libstdc++ streams, sscanf and strtod (modelled in symx/llnative.py, compared with the real library on 3000 random texts)", "clang's IR of the source", "memory allocation succeeds"]


def outcome(E, f, must_raise=None):
    L = E.mod("rankeval.dataset.svmlight_format").load_svmlight_file
    try:
        X, y, q = L(f, query_id=True)
    except Exception as e:
        if type(e).__module__.startswith("symx") or isinstance(e, (AssertionError, AttributeError, SystemError)):
            raise
        E.observe("outcome", "exception")
        E.check(True, "refused")
        released(E)
        return
    E.check(must_raise is None, "accepted although %s" % must_raise)
    E.check(X.ndim == 2 and X.shape[0] == len(y), "labels and feature rows differ in number")
    E.check(len(q) in (0, len(y)), "%d query ids for %d samples" % (len(q), len(y)))
    E.observe("outcome", [int(v) for v in X.shape] + [len(q)])
    released(E)


def released(E):
    if E.symbolic:
        E.check(all(b.freed for b in E.machine.lines), "a line read from the file is never released")


class Lines(object):
    """stream whose k-th readline fails"""
    def __init__(self, E, lines, bad, how):
        self.lines, self.bad, self.how, self.k = lines, bad, how, 0

    def read(self):
        raise OSError("no read")

    def readline(self, *a):
        k = self.k
        self.k += 1
        if k == self.bad:
            if self.how == "raise":
                raise OSError("broken stream")
            if self.how == "none":
                return None
            if self.how == "str":
                return "1 qid:1 1:2\n"
        return self.lines[k] if k < len(self.lines) else b""


def h_window(E):
    """template with a window of arbitrary bytes"""
    c = E.cfg
    t, w = c["text"].encode("latin-1"), c["w"]
    if c.get("at") is not None:
        p = c["at"]
    else:
        p = E.cint("pos", 0, len(t))
    cut = c.get("cut", 0)
    z = [char(E, "c%d" % k) for k in range(w)]
    if c.get("nul", True) is False:
        for v in z:
            E.assume(v != 0)
    if E.symbolic:
        bound_ids(E, t[:p], z, t[p + cut:])
    outcome(E, binary(E, [t[:p]] + z + [t[p + cut:]]))


def bound_ids(E, pre, z, post):
    """at most two digits in a row, so that no feature id is large"""
    cs = [int(b) for b in pre] + list(z) + [int(b) for b in post]
    isd = []
    for v in cs:
        isd.append((48 <= v <= 57) if isinstance(v, int) else E.and_(v >= 48, v <= 57))
    for k in range(len(cs) - 2):
        tri = isd[k:k + 3]
        if all(isinstance(x, bool) for x in tri):
            continue
        if any(x is False for x in tri):
            continue
        E.assume(E.not_(E.and_(*tri)))


def h_qids(E):
    """samples with and without query ids"""
    c = E.cfg
    n = c["n"]
    has = [E.cbool("q%d" % i) for i in range(n)]
    feats = [E.cbool("f%d" % i) for i in range(n)]
    lines = []
    for i in range(n):
        f = (" %d:2" % (i + 1)) if feats[i] or not has[i] else ""
        lines.append("1%s%s\n" % (" qid:3" if has[i] else "", f))
    mixed = any(has) and not all(has)
    outcome(E, binary(E, ["".join(lines)]), "some samples have no query id" if mixed else None)


def h_stream(E):
    c = E.cfg
    lines = [b"1 qid:1 1:2 # %d\n" % k for k in range(c["n"])]
    bad = E.cint("bad", 0, c["n"])
    outcome(E, Lines(E, lines, bad, c["how"]), "the stream failed")


def h_release(E):
    """line objects are not kept"""
    c = E.cfg
    n = c["n"]
    bad = E.cint("bad", 0, n)
    lines = [b"1 qid:%d 1:2 3:%d\n" % (k + 300, k) if k != bad else b"x qid:%d 1:2 # %d\n" % (k + 300, k) for k in range(n)]
    before = [sys.getrefcount(x) for x in lines]
    outcome(E, Lines(E, lines, -1, None))
    if not E.symbolic:
        after = [sys.getrefcount(x) for x in lines]
        E.check(before == after, "a line read from the file is never released")


def h_long(E):
    """one arbitrary byte in a long file or a long line"""
    c = E.cfg
    if c["kind"] == "line":
        t = "2 qid:3 1:1\n1 qid:3" + "".join(" %d:0.5" % k for k in range(1, 90)) + " # " + "docid = 7 " * c["n"] + "\n0 qid:4 2:1\n"
    elif c["kind"] == "token":
        t = "2 qid:3 1:" + "0" * c["n"] + "1.5 2:4\n0 qid:4 2:1\n"
    else:
        t = "".join("%d qid:%d %s\n" % (k % 5, k // 3, " ".join("%d:0.25" % f for f in range(1 + k % 2, 4 + k % 7))) for k in range(c["n"]))
    t = t.encode()
    p = E.pick("at", [int(len(t) * f) for f in c["at"]])
    z = [char(E, "c0")]
    if E.symbolic:
        bound_ids(E, t[max(0, p - 4):p], z, t[p:p + 4])
    outcome(E, binary(E, [t[:p]] + z + [t[p + c.get("cut", 0):]]))


TEMPLATES = ["1 qid:1 1:2\n", "1 2:3", "-1.5e1 qid:2 # c\n", "1 qid:1 3:2\n2 qid:1\n", "1 qid:1\n2 qid:2 1:5 2:6\n"]


def jobs(tier):
    TH = tier != "quick"
    out = []
    W = lambda wt=1, **c: out.append(Job(h_window, c, stubs=SVM, needs_ext=True, weight=wt, samples=5))
    for w in (1, 2):
        W(text="", w=w)
    W(text="", w=3, wt=5)
    W(text="1 ", w=3, at=2, wt=5)
    W(text="1 qid:", w=2, at=6, wt=2)
    W(text="1 qid:1 ", w=3, at=8, wt=6)
    for t in TEMPLATES:
        for p in range(len(t) + 1):
            W(text=t, w=2, at=p, cut=min(2, len(t) - p), wt=2)
            W(text=t, w=3, at=p, cut=0, wt=5)
            if TH:
                W(text=t, w=4, at=p, cut=0, wt=9)
    for n in (1, 2, 3, 4):
        out.append(Job(h_qids, dict(n=n), stubs=SVM, needs_ext=True))
    for how in ("raise", "none", "str"):
        out.append(Job(h_stream, dict(n=2, how=how), stubs=SVM, needs_ext=True))
    out.append(Job(h_release, dict(n=3), stubs=SVM, needs_ext=True))
    L = lambda **c: out.append(Job(h_long, c, stubs=SVM, needs_ext=True, weight=9, samples=5))
    L(kind="line", n=100, at=[0.1, 0.5, 0.97])
    L(kind="line", n=500, at=[0.05, 0.5, 0.996], cut=1)
    L(kind="token", n=300, at=[0.04, 0.5])
    L(kind="token", n=1200, at=[0.5, 0.99], cut=1)
    L(kind="file", n=270, at=[0.0, 0.5, 0.93], cut=1)
    L(kind="file", n=60, at=[0.33, 0.66, 1.0])
    return out
