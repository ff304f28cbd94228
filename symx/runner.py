"""Runs the harnesses of one property: symbolic exploration (parallel jobs), replay of every
counterexample on the real code, validation of sample paths on the real code, evidence, exit status."""
import os, sys, re, json, time, signal, hashlib, subprocess, tempfile, shutil, traceback, multiprocessing, gc
from fractions import Fraction
import numpy as rnp
import z3
from . import core, snp, loader, textmodel
from .core import (LONG, long_perm, long_draws, Engine, EngineSignal, PathAbort, Unsupported, Budget, Inconclusive, StopExploration,
                   SymNum, SymBool, is_sym, z3val, mk, sym_ite, sym_and, sym_or, sym_not)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


class PathTimeout(EngineSignal):
    pass


def _alarm(sig, frm):
    raise PathTimeout()


class Job(object):
    """One harness with one concrete configuration."""
    def __init__(self, fn, cfg=None, name=None, stubs=None, max_paths=60000, path_timeout=60,
                 deadline=600, bounds="", weight=1, builtins=None, needs_ext=False, max_cex=3, samples=3, solver_s=20):
        self.fn = fn
        self.solver_s = solver_s
        self.cfg = cfg or {}
        self.name = name or fn.__name__ + ("" if not cfg else "[" + ",".join("%s=%s" % kv for kv in sorted(self.cfg.items())) + "]")
        self.stubs = stubs
        self.builtins = builtins
        self.max_paths = max_paths
        self.path_timeout = path_timeout
        self.deadline = deadline
        self.bounds = bounds
        self.weight = weight
        self.needs_ext = needs_ext
        self.max_cex = max_cex
        self.samples = samples


class SymE(object):
    """What a harness sees during symbolic exploration."""
    symbolic = True

    def __init__(self, eng, job):
        self.E = eng
        self.job = job
        self.np = snp.facade
        self.cfg = job.cfg
        self._loader = None
        self.observed = []
        self.inputs_log = {}
        self.prefs = []
        snp.facade.random.calls = []
        loader.TOKENS.clear()
        SymNum.FORMAT_HOOK = None
        pm = sys.modules.get("symx.pyx")
        if pm is not None:
            pm.PRANGE_ORDER = None

    # inputs
    def real(self, name, lo=None, hi=None, step=8):
        return self.E.fresh_real(name, lo, hi, step)

    def int(self, name, lo, hi):
        return self.E.fresh_int(name, lo, hi)

    def cint(self, name, lo, hi):
        """an integer input that is enumerated (forked) at once"""
        return int(self.E.fresh_int(name, lo, hi))

    def float32(self, name):
        """any finite single-precision number, bit-exact"""
        from . import symfp
        return symfp.fresh32(name)

    def label(self, name, lo=0, hi=4):
        """relevance label: integral value stored as a float"""
        v = self.E.fresh_int(name, lo, hi)
        r = v.toreal()
        r.lo, r.hi = lo, hi
        return r

    def bool(self, name):
        return self.E.fresh_bool(name)

    def cbool(self, name):
        return bool(self.E.fresh_bool(name))

    def pick(self, name, options):
        return options[self.cint(name, 0, len(options) - 1)]

    def farray(self, data, dtype="float32", order="C"):
        a = snp.symarray(data, rnp.dtype(dtype))
        return a if order == "C" else a.copy(order="F")

    def fempty(self, shape, dtype="float32"):
        return snp.facade.zeros(shape, dtype=dtype)

    def mod(self, name):
        if self._loader is None:
            st = self.job.stubs(self) if callable(self.job.stubs) else (self.job.stubs or {})
            bi = self.job.builtins(self) if callable(self.job.builtins) else self.job.builtins
            self._loader = loader.Loader(stubs=st, builtins_extra=bi)
        return self._loader.load(name)

    @property
    def draws(self):
        """[(kind, result)] of the random draws made so far"""
        return snp.facade.random.calls

    # conditions
    def assume(self, c):
        self.E.assume(c)

    def prefer(self, c):
        if isinstance(c, SymBool):
            self.E.nice["pref%d" % len(self.E.nice)] = c.expr

    def check(self, c, what):
        return self.E.check(c, what)

    def fail(self, what):
        self.E.check(False, what)

    def close(self, a, b, what, tol=1e-3):
        return self.E.check(core.close(a, b, tol), what)

    def is_close(self, a, b, tol=1e-3):
        return core.close(a, b, tol)

    def near(self, a, b, what, rel=2e-7):
        """a is b up to single precision"""
        if a is b:
            return self.E.check(True, what)
        lim = abs(b) * rel + 1e-30
        return self.E.check(sym_and(a - b <= lim, b - a <= lim), what)

    def and_(self, *x):
        return sym_and(*x) if any(isinstance(v, SymBool) for v in x) else all(x)

    def or_(self, *x):
        return sym_or(*x) if any(isinstance(v, SymBool) for v in x) else any(x)

    def not_(self, x):
        return sym_not(x) if isinstance(x, SymBool) else (not x)

    def ite(self, c, a, b):
        return sym_ite(c, a, b)

    def observe(self, name, v):
        self.observed.append((name, v))

    def note(self, k, v):
        pass

    # text: a symbolic number is written as a token that reads back as that number
    def few_ties(self):
        """numpy's unstable sorts put all ties of fixed numbers in file order, or all in reverse order"""
        self.E.few_ties = True

    def text_mode(self):
        SymNum.FORMAT_HOOK = self._format

    def _format(self, v, spec):
        return textmodel.fmt(self, v, spec)

    def text(self, v, style="plain"):
        """the text of number v; style neg/exp: spelled with a sign / an exponent"""
        if not is_sym(v) and type(v).__name__ != "SymFP":
            return textmodel.conc_text(v, style)
        return textmodel.token(self, v, style)

    def tmp(self, name, text=None):
        return textmodel.tmpfile(name, text)


def ev_obs(x, m):
    return core.concretise_in_model(m, x)


class ConcE(object):
    """The same interface on concrete inputs and the real code."""
    symbolic = False

    def __init__(self, inputs, cfg):
        self.inputs = inputs
        self.cfg = cfg
        self.np = rnp
        self.failed = []
        self.observed = []
        self.divergence = []
        self.draws = []
        self.nchecks = 0

    def _get(self, name, default):
        n = self._names.get(name, 0)
        self._names[name] = n + 1
        nm = "%s#%d" % (name, n) if n or name.startswith("!") else name
        if nm not in self.inputs:
            self.divergence.append(nm)
            return default
        return self.inputs[nm]
    _names = None

    def real(self, name, lo=None, hi=None, step=8):
        d = 0.0 if lo is None else float(lo)
        return float(self._get(name, d))

    def int(self, name, lo, hi):
        return int(self._get(name, lo))
    cint = int

    def float32(self, name):
        from . import symfp
        return symfp.from_bits(int(self._get(name, 0)))

    def label(self, name, lo=0, hi=4):
        return float(self._get(name, lo))

    def bool(self, name):
        return bool(self._get(name, False))
    cbool = bool

    def pick(self, name, options):
        return options[int(self._get(name, 0))]

    def farray(self, data, dtype="float32", order="C"):
        return rnp.array(data, dtype=dtype, order=order)

    def fempty(self, shape, dtype="float32"):
        return rnp.zeros(shape, dtype=dtype)

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def assume(self, c):
        if not bool(c):
            raise PathAbort()

    def prefer(self, c):
        pass

    def check(self, c, what):
        self.nchecks += 1
        if not bool(c):
            self.failed.append(what)
            return False
        return True

    def fail(self, what):
        self.failed.append(what)

    def close(self, a, b, what, tol=1e-3):
        # concrete runs are in machine floats: a difference must exceed tol/4 to count
        return self.check(self.is_close(a, b, tol), what)

    def is_close(self, a, b, tol=1e-3):
        try:
            a, b = float(a), float(b)
        except TypeError:
            return False
        if a != a or b != b:
            return a != a and b != b
        if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
            return a == b
        return abs(a - b) <= tol * 0.25 * max(1.0, abs(b))

    def near(self, a, b, what, rel=2e-7):
        try:
            a, b = float(a), float(b)
        except TypeError:
            return self.check(False, what)
        return self.check(a == b or abs(a - b) <= rel * abs(b) + 1e-40, what)

    def and_(self, *x):
        return all(bool(v) for v in x)

    def or_(self, *x):
        return any(bool(v) for v in x)

    def not_(self, x):
        return not x

    def ite(self, c, a, b):
        return a if c else b

    def observe(self, name, v):
        self.observed.append((name, v))

    def note(self, k, v):
        pass

    def few_ties(self):
        pass

    def text_mode(self):
        pass

    def text(self, v, style="plain"):
        return textmodel.conc_text(v, style)

    def tmp(self, name, text=None):
        return textmodel.tmpfile(name, text)


def json_val(v):
    if isinstance(v, Fraction):
        return float(v)
    return v


def _encoded_functions(fn_run):
    """Run fn_run() recording which functions of /repo execute."""
    seen = set()
    pre = REPO.rstrip("/") + "/"

    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(pre):
                seen.add("%s:%s" % (f[len(pre):], frame.f_code.co_qualname))
    sys.setprofile(prof)
    try:
        fn_run()
    finally:
        sys.setprofile(None)
    return seen


def run_job(job, seed=1):
    eng = Engine(job.name, max_paths=job.max_paths, deadline_s=job.deadline, max_cex=job.max_cex,
                 solver_timeout_ms=1000 * job.solver_s)
    res = dict(name=job.name, bounds=job.bounds, cex=[], errors=[], funcs=[], samples=[], probes=[])
    funcs = set()
    state = dict(n=0, unsup=0)
    signal.signal(signal.SIGALRM, _alarm)
    gc.disable()

    def one(E):
        state["n"] += 1
        if state["n"] % 500 == 0:
            gc.collect()
        se = SymE(E, job)
        signal.setitimer(signal.ITIMER_REAL, job.path_timeout)
        try:
            if state["n"] <= 3 or state["n"] % 97 == 0:
                funcs.update(_encoded_functions(lambda: job.fn(se)) or ())
            else:
                job.fn(se)
        except PathTimeout:
            signal.setitimer(signal.ITIMER_REAL, 0)
            E.record_cex("does not terminate: path exceeded %ds" % job.path_timeout, None, None)
            return
        except core.MemoryFault as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            E.record_cex("memory fault: %s" % e, None, None)
            return
        except (Unsupported, Inconclusive):
            # no verdict on this path: let the real code judge a few inputs that reach this point
            signal.setitimer(signal.ITIMER_REAL, 0)
            for pr in E.probe_models(4):
                res["probes"].append(dict(inputs={a: json_val(b) for a, b in pr.items()}))
            if len(res["probes"]) < 60 and state["unsup"] < 15:
                state["unsup"] += 1
                res["errors"].append("no model: " + traceback.format_exc().strip().split("\n")[-1][:300])
                if os.environ.get("VERIF_DEBUG"):
                    res["errors"].append(traceback.format_exc())
                return
            raise
        except EngineSignal:
            raise
        except Exception as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            tb = traceback.format_exc().strip().split("\n")
            E.record_cex("unexpected %s: %s" % (type(e).__name__, str(e)[:200]), None,
                         "\n".join(tb[-8:]))
            return
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        E.reach()
        # keep a few paths as samples for validation on the real code: the first ones, then sparser
        k = E.stats["reached"]
        if len(res["samples"]) < job.samples and (k in (1, 4, 16, 64, 256, 1024) or (k % 37 == 0)):
            inputs, m = E.model_inputs()
            if inputs is not None and not E.model_has_ties:
                obs = [(n, core.concretise_in_model(m, v)) for n, v in se.observed]
                res["samples"].append(dict(inputs={a: json_val(b) for a, b in inputs.items()}, observed=obs))
    try:
        eng.explore(one)
    except (Unsupported, Budget, Inconclusive) as e:
        res["errors"].append("%s: %s" % (type(e).__name__, e))
        if os.environ.get("VERIF_DEBUG"):
            res["errors"].append(traceback.format_exc())
    except PathTimeout:
        res["errors"].append("timeout outside a path")
    except Exception as e:
        res["errors"].append("engine failure: " + traceback.format_exc())
    res["errors"] += sorted(set(eng.inconclusive))
    res["stats"] = eng.stats
    pm = sys.modules.get("symx.pyx")
    lm = sys.modules.get("symx.llir")
    res["funcs"] = sorted(funcs | (pm.FUNCS_SEEN if pm else set()) | (lm.FUNCS_SEEN if lm else set()))
    for c in eng.cex:
        res["cex"].append(dict(what=c.what, inputs={a: json_val(b) for a, b in c.inputs.items()}, tb=c.extra))
    res["cex_total"] = sum(eng.cex_kinds.values())
    if eng.stats["reached"] == 0 and not res["cex"] and not res["errors"]:
        res["errors"].append("vacuous: no path reached the end of the harness")
    return res


# ------------------------------------------------------------------ replay on the real code
EXT = ["rankeval.dataset._svmlight_format", "rankeval.scoring._efficient_scoring",
       "rankeval.analysis._efficient_feature", "rankeval.analysis._efficient_topological"]


def make_scratch(needs_ext, asan=False):
    """A private copy of /repo's working tree; with extensions built when the replay needs them."""
    d = tempfile.mkdtemp(prefix="vreplay_")
    dst = os.path.join(d, "repo")
    os.makedirs(dst)
    for n in ("rankeval", "setup.py", "README.md", "README.rst", "requirements.txt", "MANIFEST.in", "LICENSE",
              "data", "pyproject.toml"):
        p = os.path.join(REPO, n)
        if os.path.isdir(p):
            if n == "data":
                continue
            shutil.copytree(p, os.path.join(dst, n), ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.o"))
        elif os.path.exists(p):
            shutil.copy(p, dst)
    if needs_ext:
        cache = os.environ.get("VERIF_EXT_CACHE")      # development only: reuse builds of identical sources
        if cache:
            h = hashlib.sha1(repr(asan).encode())
            for root, _, files in sorted(os.walk(dst)):
                for f in sorted(files):
                    if f.endswith((".pyx", ".pxd", ".cpp", ".h", ".c")) or f == "setup.py":
                        p = os.path.join(root, f)
                        if not (f.endswith((".c", ".cpp")) and os.path.exists(os.path.splitext(p)[0] + ".pyx")):
                            h.update(f.encode() + open(p, "rb").read())
            k = os.path.join(cache, h.hexdigest())
            if not os.path.isdir(k):
                build_ext(dst, asan)
                os.makedirs(k + ".tmp%d" % os.getpid())
                for root, _, files in os.walk(os.path.join(dst, "rankeval")):
                    for f in files:
                        if f.endswith(".so"):
                            shutil.copy(os.path.join(root, f), os.path.join(k + ".tmp%d" % os.getpid(), os.path.basename(root) + "=" + f))
                try:
                    os.rename(k + ".tmp%d" % os.getpid(), k)
                except OSError:
                    pass
            else:
                for f in os.listdir(k):
                    a, b = f.split("=", 1)
                    shutil.copy(os.path.join(k, f), os.path.join(dst, "rankeval", a, b))
        else:
            build_ext(dst, asan)
    return d, dst


def build_ext(dst, asan=False):
    ad = os.path.join(dst, "rankeval", "analysis")
    for f in os.listdir(ad):
        if f in ("_efficient_feature.cpp", "_efficient_topological.cpp", "_efficient_topological.c", "_efficient_feature.c"):
            os.unlink(os.path.join(ad, f))
    sd = os.path.join(dst, "rankeval", "scoring")
    for f in os.listdir(sd):
        if f.startswith("_efficient_scoring.c"):
            os.unlink(os.path.join(sd, f))
    # bounds-checked build: an access outside a buffer becomes an IndexError instead of undefined behaviour
    for root, _, files in os.walk(os.path.join(dst, "rankeval")):
        for f in files:
            if f.endswith(".pyx"):
                p = os.path.join(root, f)
                src = open(p, encoding="utf-8").read()
                new = re.sub(r"boundscheck\s*(\(|=)\s*False", r"boundscheck\1True", src)
                if new != src:
                    open(p, "w", encoding="utf-8").write(new)
    env = dict(os.environ)
    if asan:
        # accesses outside a buffer abort the replay
        env["CFLAGS"] = env.get("CFLAGS", "") + " -fsanitize=address -O1 -g0"
        env["CXXFLAGS"] = env.get("CXXFLAGS", "") + " -fsanitize=address -O1 -g0"
        env["LDFLAGS"] = env.get("LDFLAGS", "") + " -fsanitize=address"
    r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "-j", "4"], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500)
    if r.returncode:
        raise RuntimeError("scratch build failed: " + r.stdout.decode(errors="replace")[-2000:])


class _Draws(object):
    """np.random in a replay: repeats the draws of the symbolic path"""
    active = None
    orig = {}

    @classmethod
    def install(cls):
        if cls.orig:
            return
        R = rnp.random
        for n in ("permutation", "shuffle", "choice", "randint", "rand", "random_sample", "random"):
            cls.orig[n] = getattr(R, n)
            setattr(R, n, cls._wrap(n))
        cls.orig["default_rng"] = R.default_rng
        R.default_rng = cls._wrap_rs("default_rng")
        base = R.RandomState

        class RandomState(base):
            def __new__(k, *a, **kw):
                return cls.Src() if cls._on(sys._getframe(1)) else base.__new__(base, *a, **kw)
        RandomState.__init__ = lambda self, *a, **kw: base.__init__(self, *a, **kw)
        R.RandomState = RandomState

    @classmethod
    def _on(cls, frame):
        """only draws made by rankeval itself are replayed"""
        return cls.active is not None and os.path.realpath(frame.f_code.co_filename).startswith(os.path.realpath(os.environ.get("VREPLAY_REPO", REPO)) + os.sep)

    @classmethod
    def _wrap(cls, n):
        def f(*a, **k):
            return getattr(cls.Src(), n)(*a, **k) if cls._on(sys._getframe(1)) else cls.orig[n](*a, **k)
        return f

    @classmethod
    def _wrap_rs(cls, n):
        def f(*a, **k):
            return cls.Src() if cls._on(sys._getframe(1)) else cls.orig[n](*a, **k)
        return f

    class Src(object):
        def _n(self, name, n):
            return int(_Draws.active._get("!" + name, 0)) if n > 1 else 0

        def _many(self, n, m, label):
            if n <= LONG:
                return [self._n(label, m) for _ in range(n)]
            A = _Draws.active
            if not hasattr(A, "long_draws"):
                A.long_draws = [self._n("draws", 3), 0]
            A.long_draws[1] += 1
            return long_draws(A.long_draws[0], A.long_draws[1], n, m)

        def _perm(self, n):
            if n > LONG:
                A = _Draws.active
                if not hasattr(A, "long_perms"):
                    A.long_perms = [self._n("perms", 5), -1]
                A.long_perms[1] += 1
                return long_perm(n, sum(A.long_perms) % 5)
            rest = list(range(n))
            return [rest.pop(self._n("perm", len(rest))) for _ in range(n)]

        def _log(self, kind, v):
            _Draws.active.draws.append((kind, v))
            return v

        def permutation(self, x):
            x = rnp.arange(x) if isinstance(x, (int, rnp.integer)) else rnp.array(x)
            return self._log("permutation", x[self._perm(len(x))])

        def shuffle(self, x):
            p = self._perm(len(x))
            if isinstance(x, rnp.ndarray):
                x[...] = x[p].copy()
            else:
                x[:] = [x[i] for i in p]

        def choice(self, a, size=None, replace=True, p=None):
            a = rnp.arange(a) if isinstance(a, (int, rnp.integer)) else a
            n = 1 if size is None else int(rnp.prod(size))
            idx = self._many(n, len(a), "choice") if replace else self._perm(len(a))[:n]
            return self._log("choice", a[idx[0]] if size is None else rnp.asarray(a)[idx].reshape(size))

        def randint(self, low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            n = 1 if size is None else int(rnp.prod(size))
            v = [k + low for k in self._many(n, high - low, "randint")]
            return self._log("randint", v[0] if size is None else rnp.array(v).reshape(size))
        integers = randint

        def rand(self, *shape):
            n = int(rnp.prod(shape)) if shape else 1
            v = [float(_Draws.active._get("!rand", 0.0)) for _ in range(n)]
            return self._log("rand", v[0] if not shape else rnp.array(v).reshape(shape))

        def random_sample(self, size=None):
            return self.rand(*((size,) if isinstance(size, int) else size or ()))
        random = random_sample

        def __getattr__(self, n):
            return getattr(rnp.random, n)


def concrete_run(job, inputs, timeout=25):
    """Runs in the replay process: executes the harness on real code with concrete inputs."""
    ce = ConcE(inputs, job.cfg)
    ce._names = {}
    out = dict(failed=[], exc=None, diverged=[], observed=[])
    _Draws.active = ce if any(n.startswith("!") for n in inputs) else None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        job.fn(ce)
    except PathAbort:
        out["aborted"] = True
    except PathTimeout:
        out["failed"].append("does not terminate within %ds" % timeout)
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        tb = traceback.extract_tb(e.__traceback__)
        out["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        out["failed"].append("unexpected " + out["exc"])
        out["tb"] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out["failed"] += ce.failed
    out["diverged"] = ce.divergence
    out["observed"] = [(n, _plain(v)) for n, v in ce.observed]
    return out


def _plain(v):
    if isinstance(v, rnp.ndarray):
        return _plain(v.tolist())
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, rnp.generic):
        return v.item()
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, Fraction):
        return float(v)
    return v


def same_obs(a, b, tol=2e-3):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_obs(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        return a == b or abs(a - b) <= tol * max(1.0, abs(a))
    return a == b


REPLAY_MAIN = r'''
import sys, os, json
sys.path.insert(0, %(verif)r)
sys.path.insert(0, os.environ["VREPLAY_REPO"])
import types
if os.environ.get("VREPLAY_FAKE_EXT"):
    def _missing(*a, **k):
        raise RuntimeError("extension stand-in called")
    for name, attrs in (("rankeval.dataset._svmlight_format", ["_load_svmlight_file", "_dump_svmlight_file"]),
                 ("rankeval.scoring._efficient_scoring", ["basic_scoring", "detailed_scoring"]),
                 ("rankeval.analysis._efficient_feature", ["eff_feature_importance", "eff_feature_importance_tree"]),
                 ("rankeval.analysis._efficient_topological", ["efficient_topological_analysis"])):
        m = types.ModuleType(name)
        for a in attrs: setattr(m, a, _missing)
        sys.modules[name] = m
import symx
from symx import runner
runner._Draws.install()
import importlib, warnings
warnings.simplefilter("ignore")
mod = importlib.import_module("checks." + sys.argv[1])
jobs = {j.name: j for j in mod.jobs(sys.argv[2])}
reqs = json.load(sys.stdin)
out = []
for r in reqs:
    if getattr(mod, "before_replay", None): mod.before_replay()
    out.append(runner.concrete_run(jobs[r["job"]], r["inputs"]))
    sys.stdout.flush()
os.write(3 if False else 1, ("\n@@RESULT@@" + json.dumps(out) + "\n").encode())
'''


def asan_env():
    r = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE)
    p = os.path.realpath(r.stdout.decode().strip())
    q = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    return dict(LD_PRELOAD=p + " " + os.path.realpath(q), PYTHONMALLOC="malloc",
                ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_odr_violation=0")


def run_replays(pid, tier, reqs, needs_ext, scratch=None, renv=None, asan=False):
    """reqs: list of {job, inputs}.  Each runs in its own process group of the real interpreter (batched;
    a crash of a batch is retried one by one)."""
    own = scratch is None
    if own:
        d, dst = make_scratch(needs_ext, asan)
    else:
        d, dst = scratch
    try:
        def batch(rs):
            env = dict(os.environ, VREPLAY_REPO=dst, PYTHONDONTWRITEBYTECODE="1")
            env.pop("PYTHONPATH", None)
            env.update(renv or {})
            if asan:
                env.update(asan_env())
            if not needs_ext:
                env["VREPLAY_FAKE_EXT"] = "1"
            try:
                r = subprocess.run([PY, "-c", REPLAY_MAIN % dict(verif=VERIF), pid, tier], input=json.dumps(rs).encode(),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d,
                                   timeout=60 + 30 * len(rs))
                txt = r.stdout.decode(errors="replace")
                if "@@RESULT@@" in txt:
                    return json.loads(txt.split("@@RESULT@@")[1])
                return (r.returncode, r.stderr.decode(errors="replace")[-1500:])
            except subprocess.TimeoutExpired:
                return (-999, "timeout")
        res = batch(reqs)
        if isinstance(res, list):
            return res
        if len(reqs) == 1:
            return [_crash(res)]
        out = []
        for r in reqs:
            x = batch([r])
            out.append(x[0] if isinstance(x, list) else _crash(x))
        return out
    finally:
        if own:
            shutil.rmtree(d, ignore_errors=True)


def _crash(res):
    rc, err = res
    if rc == -999:
        return dict(failed=["does not terminate"], exc=None, diverged=[], observed=[])
    if rc < 0:
        return dict(failed=["the process is killed by signal %d" % -rc], exc=None, diverged=[], observed=[])
    return dict(failed=[], exc="replay process failed: " + err, diverged=[], observed=[], infra=True)


def load_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for f in json.load(open(p)):
            if f.get("property") == pid and f.get("status") == "open":
                out.append(f)
    return out


def main(pid, mod, tier=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    jobs = mod.jobs(tier)
    only = os.environ.get("VERIF_JOB")
    if only:
        jobs = [j for j in jobs if only in j.name]
    for n in getattr(mod, "PRELOAD_PYX", ()):
        from . import pyx
        path = os.path.join(REPO, *n.split(".")) + ".pyx"
        if os.path.exists(path):
            try:
                pyx.typed_tree(path, n)
            except Unsupported:
                pass
    for rel in getattr(mod, "PRELOAD_LL", ()):
        from . import llir
        try:
            llir.module(*((rel,) if isinstance(rel, str) else rel))
        except (Unsupported, OSError):
            pass
    nproc = min(int(os.environ.get("VERIF_PROCS", "8")), len(jobs)) or 1
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)
    results = [None] * len(jobs)
    if nproc == 1 or os.environ.get("VERIF_SERIAL"):
        for i in order:
            results[i] = run_job(jobs[i], seed)
    else:
        textmodel.make_dir()
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=1) as pool:
            hs = [(i, pool.apply_async(_pool_run, (pid, tier, i, seed))) for i in order]
            for i, h in hs:
                try:
                    results[i] = h.get(timeout=jobs[i].deadline + 600)
                except Exception as e:
                    results[i] = dict(name=jobs[i].name, bounds=jobs[i].bounds, cex=[], funcs=[], samples=[], cex_total=0,
                                      errors=["job failed: %r" % (e,)],
                                      stats=dict(paths=0, decisions=0, queries=0, solver_s=0, asserts=0, reached=0, aborted=0, asserts_trivial=0, max_depth=0))
    return finish(pid, mod, tier, seed, jobs, results, t0)


def _pool_run(pid, tier, i, seed):
    import importlib
    mod = importlib.import_module("checks." + pid)
    return run_job(mod.jobs(tier)[i] if not os.environ.get("VERIF_JOB") else
                   [j for j in mod.jobs(tier) if os.environ["VERIF_JOB"] in j.name][i], seed)


def finish(pid, mod, tier, seed, jobs, results, t0):
    jobmap = {j.name: j for j in jobs}
    needs_ext = any(j.needs_ext for j in jobs)
    errors, violations, validated, mism, probes_ok = [], [], 0, [], 0
    findings = load_findings(pid)
    known_hit = {}
    cex_reqs, cex_meta, smp_reqs, smp_meta = [], [], [], []
    for r in results:
        for c in r["cex"]:
            cex_reqs.append(dict(job=r["name"], inputs=c["inputs"]))
            cex_meta.append((r, c))
        if not r["cex"]:
            for s in r.get("probes", []):
                s["observed"] = None
                smp_reqs.append(dict(job=r["name"], inputs=s["inputs"]))
                smp_meta.append((r, s))
            for s in r["samples"]:
                smp_reqs.append(dict(job=r["name"], inputs=s["inputs"]))
                smp_meta.append((r, s))
        errors += ["[%s] %s" % (r["name"], e) for e in r["errors"]]
    unrep = []
    scratch = None
    try:
        if cex_reqs or smp_reqs:
            asan = getattr(mod, "REPLAY_ASAN", False)
            scratch = make_scratch(needs_ext, asan)
            if cex_reqs:
                rr = run_replays(pid, tier, cex_reqs, needs_ext, scratch, getattr(mod, "REPLAY_ENV", None), asan)
                for (r, c), q, o in zip(cex_meta, cex_reqs, rr):
                    if o.get("failed"):
                        f = match_finding(findings, mod, r["name"], c, o)
                        if f is not None:
                            known_hit[f["id"]] = f
                            continue
                        violations.append((r, c, q, o))
                    else:
                        unrep.append((r, c, o))
            if smp_reqs:
                rr = run_replays(pid, tier, smp_reqs, needs_ext, scratch, getattr(mod, "REPLAY_ENV", None), asan)
                for (r, s), q, o in zip(smp_meta, smp_reqs, rr):
                    if o.get("failed"):
                        # the real code fails a check on a path the engine thinks fine
                        c = dict(what="sample path: " + o["failed"][0], inputs=s["inputs"], tb=o.get("tb"))
                        f = match_finding(findings, mod, r["name"], c, o)
                        if f is not None:
                            known_hit[f["id"]] = f
                        else:
                            violations.append((r, c, q, o))
                    elif o.get("infra"):
                        errors.append("validation run failed: %s" % o["exc"])
                    elif s["observed"] is None:
                        probes_ok += 1
                    elif o.get("aborted") or o.get("diverged"):
                        mism.append((r["name"], s["inputs"], "diverged %s" % (o.get("diverged"),)))
                    else:
                        a, b = _plain([v for _, v in s["observed"]]), [v for _, v in o["observed"]]
                        if same_obs(a, b):
                            validated += 1
                        else:
                            mism.append((r["name"], s["inputs"], "engine %s real %s" % (a, b)))
    finally:
        if scratch:
            shutil.rmtree(scratch[0], ignore_errors=True)
    if mism and not violations:
        errors += ["encoding disagrees with the real code on %s: %s (%s)" % m for m in mism[:3]]
    if unrep and not violations:
        for r, c, o in unrep[:3]:
            errors.append("counterexample does not reproduce on the real code: [%s] %s inputs=%s replay=%s\n%s" %
                          (r["name"], c["what"], c["inputs"], {k: v for k, v in o.items() if k != "observed"}, c.get("tb") or ""))
    tot = lambda k: sum(r["stats"].get(k, 0) for r in results)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=tot("paths"), transitions=tot("decisions"),
                  traces_validated_against_impl=validated,
                  samples=[dict(job=r["name"], inputs=s["inputs"]) for r in results for s in r["samples"][:1]][:6],
                  paths_reaching_assertions=tot("reached"), infeasible_paths=tot("aborted"),
                  assertions=tot("asserts"), assertions_discharged_by_simplification=tot("asserts_trivial"),
                  solver_queries=tot("queries"), solver_seconds=round(tot("solver_s"), 2),
                  functions_encoded=sorted(set(f for r in results for f in r["funcs"] if not f.endswith("<module>"))),
                  harnesses=[dict(name=r["name"], bounds=r["bounds"], paths=r["stats"].get("paths"), seconds=r["stats"].get("wall_s"),
                                  queries=r["stats"].get("queries")) for r in results],
                  bounds=getattr(mod, "BOUNDS", ""), outside=getattr(mod, "OUTSIDE", ""),
                  without_verdict=errors[:20], concrete_probes_where_no_verdict=probes_ok,
                  counterexamples=sum(r["cex_total"] for r in results),
                  explanation="symbolic execution of the current source of the listed functions; each path's assertion "
                              "is decided by z3 for every value within the bounds; sample paths are re-run on the real code"),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1, default=str)
    for f in findings:
        if f["id"] in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        elif not violations:
            print("note: listed finding %s was not observed on this tree" % f["id"])
    print("%s [%s]: %d harnesses, %d paths, %d assertions, %d queries, solver %.1fs, validated %d, wall %.1fs" %
          (pid, tier, len(results), tot("paths"), tot("asserts"), tot("queries"), tot("solver_s"), validated, time.time() - t0))
    if violations:
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        done = set()
        for r, c, q, o in violations:
            key = (r["name"], o["failed"][0][:60])
            if key in done or len(done) >= 4:
                continue
            done.add(key)
            h = hashlib.sha256(json.dumps(q, sort_keys=True).encode()).hexdigest()[:10]
            p = os.path.join(VERIF, "out", "%s-%s.json" % (pid, h))
            json.dump(dict(property=pid, tier=tier, job=r["name"], inputs=c["inputs"], what=c["what"],
                           observed_on_real_code=o["failed"], needs_ext=needs_ext,
                           run="%s %s/vreplay.py %s" % (PY, VERIF, p)), open(p, "w"), indent=1)
            print("  [%s] %s" % (r["name"], c["what"]))
            print("     on the real code: %s   inputs=%s" % (o["failed"][0], json.dumps(c["inputs"])[:400]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if errors:
        # nothing explored violates the property, but a part of the code had no verdict: said on stdout and in
        # the evidence file.  VERIF_STRICT=1 (used while developing) turns this into exit 2; so does a run in
        # which nothing at all was decided.
        for e in errors[:12]:
            print("INCOMPLETE: " + e)
        if os.environ.get("VERIF_STRICT") or tot("reached") + validated + probes_ok == 0:
            return 2
    return 0


def match_finding(findings, mod, job, cex, out):
    """A listed finding covers a counterexample only if its own predicate on (job, concrete inputs, failure) holds."""
    for f in findings:
        fn = getattr(mod, f["predicate"], None)
        if fn is not None and fn(job, cex["inputs"], out["failed"]):
            return f
    return None
