"""Loading a catalogued dataset by name: what is downloaded, what is returned, and what a failed download leaves behind."""
import io, os, json, shutil, tarfile
from contextlib import contextmanager
from symx.runner import Job

BOUNDS = "histories of up to 3 calls, each with any download_if_missing, force_download and with_models, any dataset of the generated catalogue and fold 1, 2 or 10; a failure (an error, a truncated download or a crash after which nothing more is executed) at any file system change or network access of one call"
OUTSIDE = "two processes downloading at once, folders changed by others, several failures, with_models other than True/False, archives whose members leave their folder, download_if_missing=False together with force_download=True"
ASSUMPTIONS = ["the remote catalogue is the one write_json_dataset_catalogue.py generates", "tarfile and the operating system (run for real in a scratch folder)", "renaming a folder is atomic"]
LIMIT = 60


class Crash(BaseException):
    """the process dies here: whatever it tries afterwards has no effect"""


class World(object):
    """scratch folder, fake server, failure injection"""
    def __init__(self, E):
        self.E = E
        self.root = E.tmp("fetch")
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(os.path.join(self.root, "home"))
        self.fault = None
        self.downloads = []
        self.dead = False
        self.catalogue = None

    # ---------------------------------------------------------------- server
    def archives(self):
        self.files = {}
        for name, d in self.catalogue.items():
            folds = [None] if d.get("COMMON_SUBFOLDER_NAME") is None else [1, 2] + ([10] if self.E.cfg.get("ten") else [])
            ds, ms = {}, {}
            for f in folds:
                sub = "" if f is None else d["COMMON_SUBFOLDER_NAME"] + str(f) + "/"
                for kind in ("TRAIN_FILE", "TEST_FILE", "VALIDATION_FILE"):
                    # the server has every file the catalogue's readme names; "None" and null name no file
                    if d.get(kind) not in (None, "None"):
                        ds[sub + d[kind]] = self.text(name, f, kind)
                ms[sub + "a.model"] = "model %s %s a" % (name, f)
                ms[sub + "deep/er/b.model"] = "model %s %s b" % (name, f)
            if d.get("LICENSE_FILE"):
                ds[d["LICENSE_FILE"]] = "licence of %s\nsecond line\n" % name
            self.files[d["DATASET_URL"]], self.files[d["MODELS_URL"]] = self.tar(ds), self.tar(ms)

    def text(self, name, fold, kind):
        k = sorted(self.catalogue).index(name) * 100 + (fold or 0) * 10 + ("TRAIN_FILE", "TEST_FILE", "VALIDATION_FILE").index(kind)
        return "%d qid:1 1:%d 2:1\n1 qid:2 1:%d 2:3\n" % (k % 7, k, k + 1)

    def tar(self, files):
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode="w:gz") as t:
            for n in sorted(files):
                i = tarfile.TarInfo(n)
                i.size = len(files[n])
                t.addfile(i, io.BytesIO(files[n].encode()))
        return b.getvalue()

    def urlopen(self, url, *a, **k):
        url = getattr(url, "full_url", url)
        if url.endswith("dataset_dictionary.json"):
            return io.BytesIO(json.dumps(self.catalogue).encode())
        self.downloads.append(url)
        self.step("urlopen")
        w, data = self, self.files[url]

        class Reply(io.BytesIO):
            def read(r, *a):
                return w.reading(io.BytesIO.read(r, *a))
        return Reply(data)

    def reading(self, data):
        if self.step("read", cut=True):
            return data[:len(data) // 2]
        return data

    # ---------------------------------------------------------------- failures
    def step(self, what, cut=False):
        if self.dead:
            raise Crash()
        if self.fault is None:
            return False
        k, kind = self.fault
        self.n += 1
        if kind == "short" and not cut:
            return False
        if self.n <= LIMIT and bool(k == self.n):
            self.fault = None
            self.failed = True
            if kind == "crash":
                self.dead = True
                raise Crash()
            if kind == "short":
                return True
            raise OSError("injected failure at step %d: %s" % (self.n, what))
        return False

    def inside(self, path):
        p = os.path.realpath(os.path.join(os.getcwd(), os.fspath(path)))
        assert p.startswith(os.path.realpath(self.root) + os.sep), "the file system is changed outside of the data folder: %s" % p

    @contextmanager
    def patched(self, mods):
        import builtins, urllib.request
        saved = []

        def put(o, n, v):
            saved.append((o, n, getattr(o, n)))
            setattr(o, n, v)

        def wrap(o, n, check):
            f = getattr(o, n)

            def g(*a, **k):
                if k.get("dir_fd") is None and k.get("src_dir_fd") is None:
                    for p in a[:check]:
                        self.inside(p)
                self.step(n)
                return f(*a, **k)
            put(o, n, g)
        opener = builtins.open

        def my_open(file, mode="r", *a, **k):
            if isinstance(file, (str, bytes, os.PathLike)) and any(c in mode for c in "wax+"):
                self.inside(file)
                self.step("open")
            return opener(file, mode, *a, **k)
        env = {k: os.environ.get(k) for k in ("RANKEVAL_DATA", "HOME")}
        os.environ["HOME"] = os.path.join(self.root, "home")
        if self.E.cfg.get("env"):
            os.environ["RANKEVAL_DATA"] = os.path.join(self.root, "data")
        else:
            os.environ.pop("RANKEVAL_DATA", None)
        rmtree = shutil.rmtree

        def my_rmtree(path, *a, **k):
            self.inside(path)
            return rmtree(path, *a, **k)
        try:
            for n, c in (("mkdir", 1), ("rename", 2), ("replace", 2), ("remove", 1), ("unlink", 1), ("rmdir", 1)):
                wrap(os, n, c)
            put(shutil, "rmtree", my_rmtree)
            put(builtins, "open", my_open)
            if hasattr(tarfile, "bltn_open"):
                put(tarfile, "bltn_open", my_open)
            put(urllib.request, "urlopen", self.urlopen)
            for m in mods:
                for n in ("urlopen", "open", "rmtree"):
                    if n in vars(m):
                        put(m, n, {"urlopen": self.urlopen, "open": my_open, "rmtree": my_rmtree}[n])
            yield
        finally:
            for o, n, v in reversed(saved):
                setattr(o, n, v)
            for k, v in env.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v


def parse(E, D, path, name):
    """stand-in for the SVMlight loader (decided in C06) while exploring symbolically"""
    y, q, X = [], [], []
    with open(path) as f:
        for l in f:
            t = l.split()
            y.append(float(t[0]))
            q.append(int(t[1][4:]))
            X.append([float(v.split(":")[1]) for v in t[2:]])
    import numpy as rnp
    return D(E.farray(X, "float32"), E.farray(y, "float32"), E.np.array(q, dtype="int32"), name=name)


def same_file(E, d, text, what):
    E.check(d is not None, what + " is missing")
    rows = [l.split() for l in text.splitlines()]
    E.check([[float(v) for v in r] for r in d.X.tolist()] == [[float(v.split(":")[1]) for v in r[2:]] for r in rows], what + ": another file's features")
    E.check([float(v) for v in d.y.tolist()] == [float(r[0]) for r in rows], what + ": another file's labels")


def h_fetch(E):
    c = E.cfg
    W = World(E)
    mod = E.mod("rankeval.dataset.datasets_fetcher")
    gen = E.mod("rankeval.dataset.write_json_dataset_catalogue")
    cwd = os.getcwd()
    os.chdir(W.root)
    try:
        gen.main()
        W.catalogue = json.load(open("dataset_dictionary.json"))
    finally:
        os.chdir(cwd)
    W.archives()
    D = mod.Dataset
    old = D.__dict__["load"]
    if E.symbolic:
        D.load = staticmethod(lambda f, name=None, format="svmlight": parse(E, D, f, name))
    try:
        history(E, W, mod)
    finally:
        D.load = old
        shutil.rmtree(W.root, ignore_errors=True)


def history(E, W, mod):
    c = E.cfg
    names = [n for n in c.get("names") or sorted(W.catalogue)]
    name = E.pick("name", names)
    cat = W.catalogue.get(name)
    have = {"D": False, "M": False}           # True, False or None (unknown, after a failure)
    for i, call in enumerate(c["calls"]):
        dl = E.cbool("dl%d" % i) if "dl" not in call else call["dl"]
        force = (E.cbool("force%d" % i) if dl else False) if "force" not in call else call["force"]
        wm = E.cbool("models%d" % i) if "models" not in call else call["models"]
        folded = cat is not None and cat.get("COMMON_SUBFOLDER_NAME") is not None
        fold = (E.pick("fold%d" % i, ((1, 10) if c.get("ten") else (1, 2)) if not c.get("fold") else (c["fold"],)) if folded else 1 if call.get("badfold") else None)
        W.downloads, W.n, W.failed = [], 0, False
        W.fault = (E.int("step", 1, LIMIT), call["fault"]) if call.get("fault") else None
        before = snapshot(W)
        err, r = None, None
        kw = dict(download_if_missing=dl, force_download=force, with_models=wm)
        if call.get("default"):
            kw = {}
            dl, force, wm = True, False, True
        try:
            with W.patched([mod, E.mod("rankeval.dataset.dataset"), E.mod("rankeval.dataset.svmlight_format")]):
                r = mod.load_dataset(name, fold=fold, **kw)
        except AssertionError:
            raise
        except Exception as e:
            err = e
        except Crash as e:
            err = e
        W.dead = False
        W.fault = None
        if cat is None:
            E.check(err is None and r is None and W.downloads == [], "an unknown name gives nothing and downloads nothing")
            continue
        if fold is not None and not folded:
            E.check(isinstance(err, Exception), "a fold of a dataset without folds is refused")
            E.check(W.downloads == [] and snapshot(W) == before, "a refused fold leaves the data as it was")
            continue
        need = ["D"] + (["M"] if wm else [])
        url = {"D": cat["DATASET_URL"], "M": cat["MODELS_URL"]}
        missing = [a for a in need if force or not have[a]]
        sure = [a for a in need if force or have[a] is False]
        if W.failed:
            E.check(err is not None, "a failed download is not reported")
            for a in have:
                if force or not have[a]:
                    have[a] = None
            continue
        if not dl and not force and sure:
            E.check(isinstance(err, IOError), "data that is not available and may not be downloaded: no IOError")
            E.check(W.downloads == [], "something is downloaded without permission")
            continue
        if not dl and not force and missing and isinstance(err, IOError):
            E.check(W.downloads == [], "something is downloaded without permission")
            continue
        E.check(err is None, "loading fails: %r" % (err,))
        if err is not None:
            return
        got = sorted("D" if u == url["D"] else "M" if u == url["M"] else u for u in W.downloads)
        if not dl and not force:
            E.check(got == [], "something is downloaded without permission")
        E.check(set(sure) <= set(got) and set(got) <= set(missing) and len(set(got)) == len(got), "downloads %s, missing is %s" % (got, missing))
        for a in need:
            have[a] = True
        if force and not wm:
            have["M"] = None if have["M"] else have["M"]
        for kind, attr in (("TRAIN_FILE", "train_dataset"), ("TEST_FILE", "test_dataset"), ("VALIDATION_FILE", "validation_dataset")):
            if cat.get(kind) not in (None, "None"):
                same_file(E, getattr(r, attr), W.text(name, fold, kind), attr)
            else:
                E.check(getattr(r, attr) is None, "a validation set that does not exist")
        if cat.get("LICENSE_FILE"):
            E.check(r.license_agreement == "licence of %s\nsecond line\n" % name, "licence text")
        else:
            E.check(cat["BLOG_POST_URL"] in r.license_agreement, "licence text")
        if wm:
            E.check(sorted(open(f).read() for f in r.model_filenames) == sorted("model %s %s %s" % (name, fold, x) for x in "ab"), "the model files")
            E.check([os.path.basename(f) for f in sorted(r.model_filenames, key=os.path.basename)] == ["a.model", "b.model"], "the names of the model files")
        else:
            E.check(not r.model_filenames, "models that were not asked for")


def snapshot(W):
    out = {}
    for d, _, fs in os.walk(os.path.join(W.root)):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, W.root)] = open(p, "rb").read()
    return out


def jobs(tier):
    TH = tier != "quick"
    out = []
    J = lambda wt, **c: out.append(Job(h_fetch, c, needs_ext=True, weight=wt, max_paths=100000, deadline=600))
    F, S = ["msn10k"], ["istella-sample"]
    J(10, calls=[{}, {}], fold=1)
    J(10, calls=[{"default": True}, {"default": True}], env=True)
    J(10, calls=[{}], names=["nothing", "istella-full", "msn30k"])
    J(10, calls=[{}, {"badfold": True}, {}], names=S + ["istella-full"])
    J(10, calls=[{"badfold": True, "force": True, "dl": True}, {}], names=S, env=True)
    J(20, calls=[{}, {}, {}], names=F, fold=2)
    J(20, calls=[{"models": True}, {}], names=F, ten=True)
    for kind in ("error", "crash", "short"):
        J(30, calls=[{"fault": kind, "dl": True}, {}], names=F, fold=1)
        J(30, calls=[{"fault": kind, "dl": True, "models": True, "force": False}, {"dl": True, "force": False}], names=S)
        J(30, calls=[{"dl": True, "force": False}, {"fault": kind, "dl": True, "models": True}, {}], names=S, env=True)
        if TH:
            J(60, calls=[{}, {"fault": kind}, {}, {}], names=F, fold=1)
            J(60, calls=[{"fault": kind}, {}, {}], names=["istella-full"])
    return out
