"""Development tool: random small changes to a source file, and whether its checks notice.
   mutate.py FILE CHECKS(comma) [N] [SEED]   -> survivors on stdout"""
import ast, copy, os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    out = []

    def seg(n):
        return ast.get_source_segment(src, n)

    def rep(n, new, why):
        # replace the node's text
        a, b = (n.lineno - 1, n.col_offset), (n.end_lineno - 1, n.end_col_offset)
        enc = [l.encode() for l in lines]
        head = b"\n".join(enc[:a[0]] + [enc[a[0]][:a[1]]])
        tail = b"\n".join([enc[b[0]][b[1]:]] + enc[b[0] + 1:])
        out.append((n.lineno, "%s: %s -> %s" % (why, seg(n), new), (head + new.encode() + tail).decode()))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and n not in docs:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "const")
                rep(n, str(n.value - 1) if n.value else "(-1)", "const")
            elif isinstance(n.value, float):
                rep(n, repr(n.value + 1), "const")
            elif n.value is None:
                pass
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            ops = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
            o = ops[type(n.ops[0])]
            rep(n, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp):
            ops = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&", ast.LShift: ">>"}
            if type(n.op) in ops and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                rep(n, "%s %s %s" % (seg(n.left), ops[type(n.op)], seg(n.right)), "binop")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + j.join("(%s)" % seg(v) for v in n.values) + ")", "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, "(%s)" % seg(n.operand), "unary")
        elif isinstance(n, (ast.If, ast.While)):
            rep(n.test, "(not (%s))" % seg(n.test), "neg")
        elif isinstance(n, ast.IfExp):
            rep(n.test, "(not (%s))" % seg(n.test), "neg")
        elif isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
            pass
        elif isinstance(n, ast.Attribute) and n.attr in ("float32", "float64", "int32", "int16", "uint16", "uint32"):
            alt = {"float32": "int32", "float64": "float32", "int32": "int8", "int16": "int8", "uint16": "uint8", "uint32": "uint8"}[n.attr]
            rep(n, "%s.%s" % (seg(n.value), alt), "dtype")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.step is not None:
                rep(n, seg(n.value), "slice")
            elif n.slice.lower is not None and n.slice.upper is not None:
                rep(n, "%s[%s:%s]" % (seg(n.value), seg(n.slice.lower), seg(n.slice.upper) + " - 1"), "slice")
            elif n.slice.upper is not None:
                rep(n, "%s[:%s]" % (seg(n.value), seg(n.slice.upper) + " + 1"), "slice")
            elif n.slice.lower is not None:
                rep(n, "%s[%s:]" % (seg(n.value), seg(n.slice.lower) + " + 1"), "slice")
        elif isinstance(n, ast.keyword) and n.arg not in ("dtype",):
            pass
        elif isinstance(n, ast.Call):
            if len(n.args) == 2 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                rep(n, "%s(%s, %s)" % (seg(n.func), seg(n.args[1]), seg(n.args[0])), "swap")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "sum", "mean", "max", "min", "all", "any", "ascontiguousarray", "maximum", "minimum"):
                alt = {"copy": None, "sum": "mean", "mean": "sum", "max": "min", "min": "max", "all": "any", "any": "all", "maximum": "minimum", "minimum": "maximum", "ascontiguousarray": "asarray"}[n.func.attr]
                if alt:
                    rep(n.func, "%s.%s" % (seg(n.func.value), alt), "call")
                elif not n.args:
                    rep(n, seg(n.func.value), "nocopy")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and n.value in docs):
            rep(n, "pass", "drop")
        if isinstance(n, ast.AugAssign):
            rep(n, "%s = %s" % (seg(n.target), seg(n.value)), "aug")
    ok = []
    for l, w, t in out:
        try:
            compile(t, "x", "exec")
            ok.append((l, w, t))
        except SyntaxError:
            pass
    return ok


def text_mutants(src):
    """for .pyx, .cpp, .h"""
    out = []
    rules = [(r"(?<![<>=!-])<=(?!=)", "<"), (r"(?<![<>=!-])>=(?!=)", ">"), (r"(?<= )<(?= )", "<="), (r"(?<= )>(?= )", ">="), (r"==", "!="), (r"!=", "=="),
             (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\*(?= )", "/"), (r"&&", "||"), (r"\|\|", "&&"), (r"\+\+", "--"), (r"\+=", "="), (r"\*=", "="), (r" and ", " or "), (r" or ", " and "),
             (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\bunsigned int\b", "unsigned char"), (r"\bint\b", "short"), (r"\bdouble\b", "float"), (r"\bfloat\b", "int"), (r"\bleft\b", "right"),
             (r"_left", "_right"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\bnot ", ""), (r"if \(!", "if ("), (r"\bcontinue\b", "break"), (r"\blong\b", "short"), (r"\bsize_t\b", "unsigned char")]
    incom = False
    for i, l in enumerate(src.split("\n")):
        s = l.strip()
        if '"""' in s and s.count('"""') == 1:
            incom = not incom
            continue
        if incom or s.startswith(("#", "//", "*", "/*", '"""', "import", "cimport", "from", "@")) and not s.startswith("#pragma"):
            continue
        for pat, new in rules:
            for m in re.finditer(pat, l):
                t = l[:m.start()] + new + l[m.end():]
                ls = src.split("\n")
                ls[i] = t
                out.append((i + 1, "text: %s -> %s" % (s, t.strip()), "\n".join(ls)))
        if s.endswith(";") and not s.startswith(("return", "const", "}", "int ", "float ", "std::")) or (not s.endswith((";", ":", "{", "}", ",", "(", "\\")) and " = " in s and "cdef" not in s):
            ls = src.split("\n")
            ls[i] = l[:len(l) - len(l.lstrip())] + (";" if s.endswith(";") else "pass")
            out.append((i + 1, "drop: %s" % s, "\n".join(ls)))
    return out


def main():
    f, checks = sys.argv[1], sys.argv[2].split(",")
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 30
    rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 0)
    base = os.environ.get("MUT_BASE", "/repo")
    sc = "/tmp/mut_%d" % os.getpid()
    shutil.rmtree(sc, ignore_errors=True)
    subprocess.check_call(["cp", "-a", base, sc])
    p = os.path.join(sc, f)
    src = open(p).read()
    ms = py_mutants(src) if f.endswith(".py") else text_mutants(src)
    rng.shuffle(ms)
    seen = set()
    env = dict(os.environ, VERIF_REPO=sc, VERIF_EXT_CACHE="/tmp/extc", PYTHONDONTWRITEBYTECODE="1")
    env.setdefault("VERIF_PROCS", "4")
    done = caught = 0
    try:
        for l, w, t in ms:
            if done >= n:
                break
            if t in seen:
                continue
            seen.add(t)
            open(p, "w").write(t)
            # would the stable tests notice? cheap filter for Python: import must work
            hit, notes = None, []
            for c in checks:
                try:
                    r = subprocess.run([PY, "check.py", c], cwd=HERE, env=env, capture_output=True, text=True, timeout=400)
                except subprocess.TimeoutExpired:
                    notes.append("%s timeout" % c)
                    continue
                if "VIOLATION property" in r.stdout:
                    hit = c
                    break
                if r.returncode not in (0, 1):
                    notes.append("%s rc %s %s" % (c, r.returncode, (r.stdout + r.stderr).strip()[-200:]))
                m = [x for x in r.stdout.splitlines() if "verdict" in x or "error" in x.lower()]
                if m:
                    notes.append("%s: %s" % (c, m[0][:200]))
            done += 1
            caught += hit is not None
            print("%s %s:%d %s %s" % ("caught %s" % hit if hit else "SURVIVED", f, l, w.replace("\n", "\\n"), " | ".join(notes).replace("\n", " ") if not hit else ""), flush=True)
    finally:
        shutil.rmtree(sc, ignore_errors=True)
    print("TOTAL %s: %d of %d caught (%d possible)" % (f, caught, done, len(ms)), flush=True)


main()
