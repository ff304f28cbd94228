"""Path-exploring symbolic execution engine: scalars, decisions, checks.

Paths are explored depth first by re-execution.  Every branch on a symbolic value is a *decision*:
the solver is asked which alternatives are feasible under the current path condition, one is taken,
the others are kept for later.  The solver stack mirrors the decision stack, so a re-executed prefix
costs no solver call.
"""
import time, os, sys
from fractions import Fraction
import numpy as np
import z3
z3.z3.Z3_DEBUG = False


class EngineSignal(BaseException):
    """Base of the engine's own control flow (BaseException: code under test must not swallow it)."""


class PathAbort(EngineSignal):
    """The path condition became infeasible (an assumption failed)."""


class Unsupported(EngineSignal):
    """The code under test did something the engine has no model for: the check is inconclusive."""


class Budget(EngineSignal):
    """Path/time budget exceeded: inconclusive."""


class Inconclusive(EngineSignal):
    """The solver answered unknown."""


class MemoryFault(EngineSignal):
    """Compiled code would access memory it does not own, or use an unset or overflowing value."""


class StopExploration(EngineSignal):
    pass


_REAL_INT, _REAL_FLOAT, _REAL_BOOL = int, float, bool

ENGINE = None   # the engine currently exploring


def eng():
    if ENGINE is None:
        raise Unsupported("symbolic value used outside an exploration")
    return ENGINE


class Counterexample(object):
    def __init__(self, what, inputs, path_no, extra=None):
        self.what = what
        self.inputs = inputs
        self.path_no = path_no
        self.extra = extra


DRAWS = ("!perm", "!perms", "!choice", "!draws", "!randint", "!rand")


class Engine(object):
    def __init__(self, name, max_paths=200000, deadline_s=600, solver_timeout_ms=20000,
                 max_cex=4, collect_samples=3, first_cex_stop=False):
        self.name = name
        self.max_paths = max_paths
        self.deadline_s = deadline_s
        self.solver_timeout_ms = solver_timeout_ms
        self.max_cex = max_cex
        self.collect_samples = collect_samples
        self.stats = dict(paths=0, aborted=0, decisions=0, queries=0, solver_s=0.0, asserts=0,
                          asserts_trivial=0, reached=0, max_depth=0)
        self.cex = []
        self.samples = []
        self.inconclusive = []
        self.declared = {}      # name -> z3 const, with 'nice' constraint list
        self.nice = {}
        self.noties = []
        self.cex_kinds = {}

    # ---------------------------------------------------------------- exploration
    def explore(self, fn):
        global ENGINE
        self.solver = z3.Solver()
        self.solver.set("timeout", self.solver_timeout_ms)
        self.frames = []        # each: [chosen_index, alternatives, cond]
        t0 = time.time()
        prev = ENGINE
        ENGINE = self
        try:
            while True:
                self.depth = 0
                self.replay_to = len(self.frames)
                self.fresh_no = {}
                self.divcache = {}
                self.few_ties = False
                self.races = []
                self.declared = {}
                self.nice = {}
                self.noties = []
                self.path_notes = {}
                self.stats["paths"] += 1
                try:
                    fn(self)
                except PathAbort:
                    self.stats["aborted"] += 1
                except StopExploration:
                    return
                except Inconclusive as e:
                    self.inconclusive.append(str(e))
                self.stats["max_depth"] = max(self.stats["max_depth"], len(self.frames))
                if not self._backtrack():
                    return
                if self.stats["paths"] >= self.max_paths:
                    raise Budget("%s: more than %d paths" % (self.name, self.max_paths))
                if time.time() - t0 > self.deadline_s:
                    raise Budget("%s: exploration exceeded %ds" % (self.name, self.deadline_s))
        finally:
            ENGINE = prev
            self.stats["wall_s"] = round(time.time() - t0, 3)

    def _backtrack(self):
        while self.frames:
            fr = self.frames[-1]
            self.solver.pop()
            alts = fr[1]
            while alts:
                idx, cond = alts.pop(0)
                r = self._check(cond)
                if r == z3.sat:
                    self.solver.push()
                    self.solver.add(cond)
                    fr[0] = idx
                    return True
                if r == z3.unknown:
                    self.inconclusive.append("branch feasibility unknown")
            self.frames.pop()
        return False

    def _check(self, *conds):
        t = time.time()
        r = self.solver.check(*conds)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        return r

    @property
    def replaying(self):
        return self.depth < self.replay_to

    # ---------------------------------------------------------------- decisions
    def decide(self, conds):
        """n-ary fork: conds is a list of z3 Bools (jointly covering the path condition).
        Returns the index of the alternative taken."""
        if self.depth < self.replay_to:
            idx = self.frames[self.depth][0]
            self.depth += 1
            return idx
        self.stats["decisions"] += 1
        alts = list(enumerate(conds))
        while alts:
            idx, cond = alts.pop(0)
            r = self._check(cond)
            if r == z3.unknown:
                self.inconclusive.append("branch feasibility unknown")
                continue
            if r == z3.sat:
                self.solver.push()
                self.solver.add(cond)
                self.frames.append([idx, alts, cond])
                self.depth += 1
                self.replay_to = self.depth
                return idx
        raise PathAbort()

    def fork_bool(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.decide([c, z3.Not(c)]) == 0

    def choose(self, n, label="choice"):
        """Unconstrained n-way nondeterministic choice."""
        if n <= 0:
            raise PathAbort()
        if n == 1:
            return 0
        v = self.fresh_int("!" + label)
        self.assume_z3(z3.And(v.expr >= 0, v.expr < n))
        return self.decide([v.expr == i for i in range(n)])

    def concretise_int(self, sym):
        """Fork over all feasible values of an integer term (bounded by the assumptions)."""
        e = z3.simplify(sym.expr)
        if z3.is_int_value(e):
            return e.as_long()
        # remember the values enumerated by frames: use a lazy scheme
        if self.depth < self.replay_to:
            fr = self.frames[self.depth]
            self.depth += 1
            return fr[0]
        vals = []
        self.solver.push()
        try:
            while True:
                r = self._check()
                if r == z3.unknown:
                    raise Inconclusive("concretisation: unknown")
                if r == z3.unsat:
                    break
                v = self.solver.model().eval(e, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(e != v)
                if len(vals) > 400:
                    raise Unsupported("integer term with more than 400 feasible values concretised: %s" % e)
        finally:
            self.solver.pop()
        vals.sort()
        self.stats["decisions"] += 1
        alts = [(v, e == v) for v in vals]
        v, cond = alts.pop(0)
        self.solver.push()
        self.solver.add(cond)
        self.frames.append([v, alts, cond])
        self.depth += 1
        self.replay_to = self.depth
        return v

    # ---------------------------------------------------------------- symbols & assumptions
    def _fresh(self, base):
        n = self.fresh_no.get(base, 0)
        self.fresh_no[base] = n + 1
        return "%s#%d" % (base, n) if (n or base.startswith("!")) else base

    def fresh_int(self, name, lo=None, hi=None):
        nm = self._fresh(name)
        v = z3.Int(nm)
        if not name.startswith("!") or name in DRAWS:
            self.declared[nm] = v
        s = SymNum(v, True, lo, hi)
        if lo is not None:
            self.assume_z3(v >= lo)
        if hi is not None:
            self.assume_z3(v <= hi)
        return s

    def fresh_real(self, name, lo=None, hi=None, step=8):
        nm = self._fresh(name)
        v = z3.Real(nm)
        if not name.startswith("!") or name in DRAWS:
            self.declared[nm] = v
            self.nice[nm] = z3.And(z3.IsInt(v * step), v <= 64, v >= -64)
        s = SymNum(v, False)
        if lo is not None:
            self.assume_z3(v >= z3val(lo))
        if hi is not None:
            self.assume_z3(v <= z3val(hi))
        return s

    def fresh_bool(self, name):
        nm = self._fresh(name)
        v = z3.Bool(nm)
        if not name.startswith("!"):
            self.declared[nm] = v
        return SymBool(v)

    def assume_z3(self, cond):
        if self.depth < self.replay_to:
            return
        self.solver.add(cond)

    def assume(self, cond):
        """Assume a (symbolic or concrete) condition; aborts the path when it cannot hold."""
        if isinstance(cond, SymBool):
            self.assume_z3(cond.expr)
            if not self.replaying and self._check() == z3.unsat:
                raise PathAbort()
        elif not cond:
            raise PathAbort()

    # ---------------------------------------------------------------- checking
    def reach(self, sample=None):
        """Reachability witness: the end of the harness is reached on a satisfiable path."""
        self.stats["reached"] += 1

    def want_sample(self):
        return len(self.samples) < self.collect_samples

    def model_inputs(self, extra=None):
        """A model of the current path (preferring 'nice' values), as {name: python value}."""
        conds = [] if extra is None else [extra]
        nice = list(self.nice.values())
        tiers = [nice + self.noties, self.noties, nice, []] if self.noties else [nice, []]
        self.model_has_ties = False
        for prefs in tiers:
            r = self._check(*(conds + prefs))
            if r == z3.sat:
                m = self.solver.model()
                self.model_has_ties = any(z3.is_false(m.eval(c, model_completion=True)) for c in self.noties)
                return {k: pyval(m.eval(v, model_completion=True)) for k, v in self.declared.items()}, m
        return None, None

    def probe_models(self, n):
        """A few diverse models of the current path condition."""
        out = []
        extra = []
        for _ in range(n):
            r = None
            for prefs in (list(self.nice.values()) + self.noties, list(self.nice.values()), []):
                r = self._check(*(extra + prefs))
                if r == z3.sat:
                    break
            if r != z3.sat:
                break
            m = self.solver.model()
            out.append({k: pyval(m.eval(v, model_completion=True)) for k, v in self.declared.items()})
            diff = [v != m.eval(v, model_completion=True) for v in self.declared.values()]
            if not diff:
                break
            extra = [z3.And(*diff)] if len(out) == 1 else [z3.And(extra[0], *diff)]
        return out

    def check(self, cond, what, payload=None):
        """Assert cond on the current path.  Records a counterexample (at most max_cex per kind)."""
        self.stats["asserts"] += 1
        if isinstance(cond, SymBool):
            neg = z3.simplify(z3.Not(cond.expr))
        else:
            neg = z3.BoolVal(not bool(cond))
        if z3.is_false(neg):
            self.stats["asserts_trivial"] += 1
            return True
        r = self._check(neg)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            self.inconclusive.append("assert unknown: " + what)
            return None
        self.record_cex(what, neg, payload)
        return False

    def fail(self, what, payload=None):
        self.stats["asserts"] += 1
        self.record_cex(what, None, payload)

    def record_cex(self, what, neg, payload):
        kind = what.split(":")[0]
        n = self.cex_kinds.get(kind, 0)
        self.cex_kinds[kind] = n + 1
        if n >= self.max_cex:
            if sum(self.cex_kinds.values()) > 25 * self.max_cex:
                raise StopExploration()
            return
        inputs, m = self.model_inputs(neg)
        if inputs is None:
            self.inconclusive.append("no model for counterexample: " + what)
            return
        ev = lambda x: concretise_in_model(m, x)
        extra = payload(ev) if callable(payload) else payload
        self.cex.append(Counterexample(what, inputs, self.stats["paths"], extra))

    def sample(self, payload):
        """Record one concrete instance of this path, for validation of the encoding against real code.
        payload: callable(ev) -> JSON-able"""
        if len(self.samples) >= self.collect_samples:
            return
        inputs, m = self.model_inputs()
        if inputs is None:
            return
        self.samples.append(payload(lambda x: concretise_in_model(m, x)))


# -------------------------------------------------------------------- values
def pyval(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_algebraic_value(e):
        a = e.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_bv_value(e):
        return e.as_long()
    raise Unsupported("model value %r" % e)


def concretise_in_model(m, x):
    """Replace every symbolic scalar in a nested structure by its value in model m."""
    if isinstance(x, SymNum):
        v = pyval(m.eval(x.expr, model_completion=True))
        if isinstance(v, Fraction):
            return int(v) if (x.is_int and v.denominator == 1) else float(v)
        return v
    if isinstance(x, SymBool):
        return bool(pyval(m.eval(x.expr, model_completion=True)))
    if isinstance(x, np.ndarray):
        return concretise_in_model(m, x.tolist())
    if isinstance(x, (list, tuple)):
        return [concretise_in_model(m, v) for v in x]
    if isinstance(x, dict):
        return {k: concretise_in_model(m, v) for k, v in x.items()}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, Fraction):
        return float(x)
    if hasattr(x, "symx_eval"):
        return x.symx_eval(m)
    return x


_valcache = {}


def z3val(x):
    """Exact z3 value of a concrete Python/numpy number."""
    if isinstance(x, (SymNum, SymBool)):
        return num_expr(x)
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, (int, np.integer)):
        k = (0, int(x))
        r = _valcache.get(k)
        if r is None:
            r = _valcache[k] = z3.IntVal(int(x))
        return r
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f or f in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant in symbolic arithmetic")
        k = (1, f)
        r = _valcache.get(k)
        if r is None:
            if len(_valcache) > 100000:
                _valcache.clear()
            r = _valcache[k] = z3.RealVal(str(Fraction(f)))
        return r
    raise TypeError("no symbolic value for %r" % type(x))


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_, Fraction))


def num_expr(x):
    if isinstance(x, SymNum):
        return x.expr
    if isinstance(x, SymBool):
        return z3.If(x.expr, z3.IntVal(1), z3.IntVal(0))
    return z3val(x)


def is_int_term(e):
    return e.sort().kind() == z3.Z3_INT_SORT


EXP2 = z3.Function("exp2", z3.RealSort(), z3.RealSort())
SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
LOG2 = z3.Function("log2", z3.RealSort(), z3.RealSort())


class SymBool(object):
    __slots__ = ("expr",)
    __hash__ = None

    def __init__(self, expr):
        self.expr = expr

    def __bool__(self):
        return eng().fork_bool(self.expr)

    def __and__(self, o):
        o = to_boolexpr(o)
        return NotImplemented if o is None else SymBool(z3.And(self.expr, o))
    __rand__ = __and__

    def __or__(self, o):
        o = to_boolexpr(o)
        return NotImplemented if o is None else SymBool(z3.Or(self.expr, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = to_boolexpr(o)
        return NotImplemented if o is None else SymBool(z3.Xor(self.expr, o))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.expr))

    def logical_not(self):
        return SymBool(z3.Not(self.expr))

    def __eq__(self, o):
        if isinstance(o, (SymNum,)) or (is_num(o) and not isinstance(o, (bool, np.bool_))):
            return self.as_num() == o
        o = to_boolexpr(o)
        return NotImplemented if o is None else SymBool(self.expr == o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r.expr))

    def as_num(self):
        return SymNum(z3.If(self.expr, z3.IntVal(1), z3.IntVal(0)), True, 0, 1)

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__

    def __float__(self):
        return 1.0 if bool(self) else 0.0

    def __add__(self, o): return self.as_num() + o
    def __radd__(self, o): return o + self.as_num()
    def __mul__(self, o): return self.as_num() * o
    def __rmul__(self, o): return o * self.as_num()
    def __sub__(self, o): return self.as_num() - o
    def __rsub__(self, o): return o - self.as_num()
    def __truediv__(self, o): return self.as_num() / o
    def __rtruediv__(self, o): return o / self.as_num()
    def __lt__(self, o): return self.as_num() < o
    def __le__(self, o): return self.as_num() <= o
    def __gt__(self, o): return self.as_num() > o
    def __ge__(self, o): return self.as_num() >= o

    def __repr__(self):
        return "SymBool(%s)" % self.expr


def to_boolexpr(o):
    if isinstance(o, SymBool):
        return o.expr
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    if isinstance(o, SymNum):
        return o.expr != 0
    return None


def sym_and(*xs):
    return SymBool(z3.And(*[to_boolexpr(x) for x in xs]))


def sym_or(*xs):
    return SymBool(z3.Or(*[to_boolexpr(x) for x in xs]))


def sym_not(x):
    return SymBool(z3.Not(to_boolexpr(x)))


def sym_ite(c, a, b):
    """Value-level if-then-else (no fork)."""
    if not isinstance(c, SymBool):
        return a if c else b
    ea, eb = num_expr(a), num_expr(b)
    if is_int_term(ea) and is_int_term(eb):
        return mk(z3.If(c.expr, ea, eb))
    return mk(z3.If(c.expr, to_real(ea), to_real(eb)))


def to_real(e):
    if is_int_term(e):
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def mk(e, lo=None, hi=None):
    return SymNum(e, is_int_term(e), lo, hi)


def sym_fdiv(a, b):
    """Real division of two z3 terms; division by a symbolic term is represented by a defined quotient."""
    a, b = to_real(a), to_real(b)
    b = z3.simplify(b)
    if z3.is_rational_value(b):
        if b.numerator_as_long() == 0:
            raise ZeroDivisionError("division by zero")
        return a / b
    E = eng()
    a = z3.simplify(a, som=True)
    b = z3.simplify(b, som=True)
    key = (a.get_id(), b.get_id())
    hit = E.divcache.get(key)
    if hit is not None:
        return hit[0]
    q = z3.Real(E._fresh("!div"))
    E.assume_z3(q * b == a)
    E.divcache[key] = (q, a, b)
    return q


class SymNum(object):
    """Symbolic integer (mathematical) or real."""
    __slots__ = ("expr", "is_int", "lo", "hi")

    def __init__(self, expr, is_int, lo=None, hi=None):
        self.expr = expr
        self.is_int = is_int
        self.lo = lo
        self.hi = hi

    # -- helpers
    def _bin(self, o, f, rev=False):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (SymNum, SymBool)) or is_num(o):
            if isinstance(o, (float, np.floating)) and not np.isfinite(o):
                return float("nan") if o != o else o  # callers special-case infinities
            eo = num_expr(o)
            a, b = self.expr, eo
            if is_int_term(a) != is_int_term(b):
                a, b = to_real(a), to_real(b)
            return mk(f(b, a) if rev else f(a, b))
        return NotImplemented

    def __add__(self, o):
        if is_num(o) and o == 0 and (self.is_int is False or not isinstance(o, (float, np.floating))):
            return self
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if is_num(o) and o == 0 and (self.is_int is False or not isinstance(o, (float, np.floating))):
            return self
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        if isinstance(o, (float, np.floating)) and not np.isfinite(o):
            return -o
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if is_num(o) and np.isfinite(o):
            if o == 1:
                return self if not (self.is_int and isinstance(o, (float, np.floating))) else self.toreal()
            if o == 0:
                return 0 if self.is_int and not isinstance(o, (float, np.floating)) else 0.0
        if isinstance(o, (float, np.floating)) and not np.isfinite(o):
            raise Unsupported("symbolic times non-finite constant")
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def toreal(self):
        return SymNum(to_real(self.expr), False) if self.is_int else self

    def __neg__(self):
        return mk(-self.expr)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.expr >= 0, self.expr, -self.expr))

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (SymNum, SymBool)) or is_num(o):
            if is_num(o):
                if isinstance(o, (float, np.floating)) and not np.isfinite(o):
                    if o != o:
                        return float("nan")
                    return 0.0
                if o == 0:
                    return self._div0(o)
                return mk(to_real(self.expr) / z3val(Fraction(o) if not isinstance(o, (np.generic,)) else Fraction(float(o)) if isinstance(o, np.floating) else Fraction(int(o))))
            oz = o.as_num() if isinstance(o, SymBool) else o
            if bool(oz == 0):
                return self._div0(oz)
            return mk(sym_fdiv(self.expr, oz.expr))
        return NotImplemented

    def _div0(self, o):
        if isinstance(o, np.generic) or isinstance(o, SymNum) or self_is_numpy():
            if self > 0:
                return float("inf")
            if self < 0:
                return float("-inf")
            return float("nan")
        raise ZeroDivisionError("division by zero")

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_num(o):
            if bool(self == 0):
                if o != o or o == 0:
                    return float("nan")
                return float("inf") if o > 0 else float("-inf")
            return mk(sym_fdiv(z3val(o), self.expr))
        return NotImplemented

    def __floordiv__(self, o):
        if is_num(o) or isinstance(o, SymNum):
            q, _ = self._divmod(self, o)
            return q
        return NotImplemented

    def __rfloordiv__(self, o):
        q, _ = self._divmod(o, self)
        return q

    def __mod__(self, o):
        if is_num(o) or isinstance(o, SymNum):
            _, r = self._divmod(self, o)
            return r
        return NotImplemented

    def __rmod__(self, o):
        if is_num(o):
            _, r = self._divmod(o, self)
            return r
        return NotImplemented

    def __divmod__(self, o):
        return self._divmod(self, o)

    @staticmethod
    def _divmod(a, b):
        ea, eb = num_expr(a), num_expr(b)
        if isinstance(b, SymNum):
            if bool(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
        elif b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if is_int_term(ea) and is_int_term(eb):
            # Python floors; z3 div rounds so that the remainder is >= 0
            q = z3.If(eb > 0, ea / eb, (-ea) / (-eb))
            return mk(q), mk(ea - q * eb)
        q = z3.ToInt(sym_fdiv(ea, eb))
        qr = z3.ToReal(q)
        return mk(qr), mk(to_real(ea) - qr * to_real(eb))

    def __pow__(self, o, mod=None):
        if isinstance(o, SymNum):
            o = int(o) if o.is_int else o
        if isinstance(o, (float, np.floating)) and float(o).is_integer():
            res = self.toreal() ** int(o)
            return res
        if isinstance(o, (int, np.integer)):
            o = int(o)
            if o == 0:
                return 1 if self.is_int else 1.0
            if o < 0:
                return 1.0 / (self ** (-o))
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        if isinstance(o, (float, np.floating)) and o == 0.5:
            return self.sqrt()
        raise Unsupported("power %r" % (o,))

    def __rpow__(self, o, mod=None):
        if is_num(o):
            if o == 2:
                return self.exp2()
            if self.is_int:
                return o ** int(self)
        raise Unsupported("power base %r" % (o,))

    # -- transcendental
    def exp2(self):
        if self.is_int:
            if self.lo is not None and self.hi is not None and self.lo >= -8 and self.hi <= 40:
                e = z3.RealVal(str(Fraction(2) ** self.hi))
                for k in range(self.hi - 1, self.lo - 1, -1):
                    e = z3.If(self.expr == k, z3.RealVal(str(Fraction(2) ** k)), e)
                return mk(e)
            return 2.0 ** int(self)
        e = z3.simplify(self.expr)
        if z3.is_rational_value(e) and e.denominator_as_long() == 1:
            return 2.0 ** e.numerator_as_long()
        if e.decl().kind() == z3.Z3_OP_TO_REAL and self.lo is not None:
            return mk(e.arg(0), self.lo, self.hi).exp2()
        t = EXP2(e)
        eng().assume_z3(t > 0)
        eng().assume_z3(z3.And((e == 0) == (t == 1), (e > 0) == (t > 1)))
        return mk(t)

    def log2(self):
        e = z3.simplify(to_real(self.expr))
        if z3.is_rational_value(e):
            return float(np.log2(float(Fraction(e.numerator_as_long(), e.denominator_as_long()))))
        t = LOG2(e)
        eng().assume_z3(z3.And((e == 1) == (t == 0), (e > 1) == (t > 0)))
        return mk(t)

    def sqrt(self):
        e = z3.simplify(to_real(self.expr))
        if z3.is_rational_value(e):
            return float(np.sqrt(float(Fraction(e.numerator_as_long(), e.denominator_as_long()))))
        E = eng()
        key = ("sqrt", e.get_id())
        if key in E.divcache:
            return mk(E.divcache[key][0])
        if bool(mk(e) < 0):
            return float("nan")
        t = z3.Real(E._fresh("!sqrt"))
        E.assume_z3(z3.And(t >= 0, t * t == e))
        E.divcache[key] = (t, e)
        return mk(t)

    def exp(self):
        raise Unsupported("exp of a symbolic value")

    def log(self):
        # natural log: log2(x) * ln 2
        return self.log2() * float(np.log(2.0))

    def log10(self):
        return self.log2() * float(np.log10(2.0))

    def floor(self):
        return mk(z3.ToReal(z3.ToInt(to_real(self.expr)))) if not self.is_int else self

    def ceil(self):
        return mk(z3.ToReal(-z3.ToInt(-to_real(self.expr)))) if not self.is_int else self

    def rint(self):
        if self.is_int:
            return self
        return mk(z3.ToReal(_round_half_even(self.expr)))

    def trunc(self):
        if self.is_int:
            return self
        return mk(z3.ToReal(_trunc(self.expr)))

    def conjugate(self):
        return self

    def __round__(self, nd=None):
        if self.is_int:
            return self
        if nd is None:
            return mk(_round_half_even(self.expr))
        m = 10 ** nd
        return mk(z3.ToReal(_round_half_even(self.expr * m)) / m)

    def __floor__(self):
        return self if self.is_int else mk(z3.ToInt(self.expr))

    def __ceil__(self):
        return self if self.is_int else mk(-z3.ToInt(-self.expr))

    # -- comparisons
    def _cmp(self, o, f, inf_pos, inf_neg):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, (float, np.floating)):
            if o != o:
                return False
            if o == float("inf"):
                return inf_pos
            if o == float("-inf"):
                return inf_neg
        if isinstance(o, (SymNum, SymBool)) or is_num(o):
            a, b = self.expr, num_expr(o)
            if is_int_term(a) != is_int_term(b):
                a, b = to_real(a), to_real(b)
            return SymBool(f(a, b))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, True, False)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, True, False)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, False, True)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b, False, False)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        if isinstance(o, (float, np.floating)) and (o != o or abs(o) == float("inf")):
            return True
        return self._cmp(o, lambda a, b: a != b, True, True)

    # -- conversions
    def __bool__(self):
        return eng().fork_bool(self.expr != 0)

    def __index__(self):
        if self.is_int:
            return eng().concretise_int(self)
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        if self.is_int:
            return eng().concretise_int(self)
        return eng().concretise_int(mk(_trunc(self.expr)))
    __trunc__ = __int__

    def __float__(self):
        e = z3.simplify(self.expr)
        if z3.is_int_value(e):
            return float(e.as_long())
        if z3.is_rational_value(e):
            return float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if self.is_int:
            return float(eng().concretise_int(self))
        raise Unsupported("a symbolic real must become a machine float (numpy float buffer?)")

    def __hash__(self):
        if self.is_int:
            return hash(eng().concretise_int(self))
        e = z3.simplify(self.expr)
        if z3.is_rational_value(e):
            return hash(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        raise Unsupported("hash of a symbolic real")

    def is_integer(self):
        return True if self.is_int else SymBool(z3.IsInt(self.expr))

    def item(self):
        return self

    # numpy-scalar-like attributes
    ndim = 0
    shape = ()
    size = 1

    @property
    def real(self):
        return self

    def astype(self, dt, *a, **k):
        from . import snp
        return snp.cast_scalar(self, dt)

    def __repr__(self):
        if SymNum.FORMAT_HOOK is not None:
            return SymNum.FORMAT_HOOK(self, "r")
        return "Sym(%s)" % self.expr

    FORMAT_HOOK = None     # set by text harnesses: turns a symbolic number into a token

    def __str__(self):
        if SymNum.FORMAT_HOOK is not None:
            return SymNum.FORMAT_HOOK(self, "")
        return repr(self)

    def __format__(self, spec):
        if SymNum.FORMAT_HOOK is not None:
            return SymNum.FORMAT_HOOK(self, spec)
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def self_is_numpy():
    return True


def _trunc(e):
    e = to_real(e)
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def _round_half_even(e):
    e = to_real(e)
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def is_sym(x):
    return isinstance(x, (SymNum, SymBool))


def any_sym(x):
    if isinstance(x, (SymNum, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return any(any_sym(v) for v in x)
    return False


def close(a, b, tol=1e-3):
    """|a-b| <= tol as a (symbolic) condition."""
    for v in (a, b):
        if isinstance(v, (float, np.floating)) and not np.isfinite(v):
            if is_sym(a) or is_sym(b):
                return False
            return bool(a == b) or (a != a and b != b)
    if not is_sym(a) and not is_sym(b):
        return abs(float(a) - float(b)) <= tol
    d = mk(to_real(num_expr(a)) - to_real(num_expr(b)))
    t = z3val(tol)
    return SymBool(z3.And(d.expr <= t, d.expr >= -t))


LONG = 12        # permutations of more elements than this are chosen out of five fixed ones


def long_perm(n, k):
    """the k-th of the fixed permutations of a long sequence: sorted, reversed, rotated, two scattered ones"""
    if k == 0:
        return list(range(n))
    if k == 1:
        return list(range(n))[::-1]
    if k == 2:
        return [(i + n // 3 + 1) % n for i in range(n)]
    return sorted(range(n), key=lambda i: ((i + 1) * (7919 if k == 3 else 104729)) % 65537)


def long_draws(mode, call, n, m):
    """n draws out of range(m) of the call-th long draw: scattered (two modes), or every other one"""
    if mode == 2:
        return [(i + call) % m for i in range(n)]
    x = (call + 1) * (7919 if mode else 104729) % 65537
    out = []
    for i in range(n):
        x = (x * 75 + 74) % 65537
        out.append(x // 7 % m)
    return out
