"""What a plot shows: a recording stand-in for pyplot while symbolic, the artists of the real figures on replay."""
import types
import numpy as rnp
from symx import xrstub


class Named(object):
    """dataset, model or metric: known by its name"""
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name
    __repr__ = __str__


class Opaque(object):
    """a number of the layout (axis bounds) nothing is claimed about"""
    sx_opaque = True

    def _o(self, *a, **k):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __mod__ = __rmod__ = __neg__ = _o
    __call__ = _o
    __getitem__ = _o

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return self

    def __iter__(self):
        return iter(())


def flat(v):
    v = getattr(v, "values", v)
    if isinstance(v, rnp.ndarray):
        return list(v.reshape(-1))
    return list(v) if hasattr(v, "__iter__") and not isinstance(v, str) else [v]


def isnan(v):
    return isinstance(v, (float, rnp.floating)) and v != v


def table(v):
    v = getattr(v, "values", v)
    a = v if isinstance(v, rnp.ndarray) else rnp.array(v, dtype=object)
    if a.ndim != 2:
        raise ValueError("not enough values to unpack")
    return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


class Bar(object):
    def __init__(self, x, w, h):
        self.x, self.w, self.h = x, w, h

    def get_height(self):
        return self.h

    def get_width(self):
        return self.w

    def get_x(self):
        return self.x - self.w / 2


class Axes(object):
    def __init__(self, fig):
        self.figure = fig
        self.bars, self.lines, self.meshes, self.texts, self.legend_ = [], [], [], [], []
        self.title = self.xl = self.yl = ""
        self.ticks, self.ticklabels, self.ylim = [], [], None
        self.xaxis = self.yaxis = Opaque()
        self.twins = []

    def bar(self, x, height, width=0.8, bottom=None, align="center", **k):
        if bottom is not None:
            from symx.core import Unsupported
            raise Unsupported("bars with a bottom")
        x, h = flat(x), flat(height)
        n = max(len(x), len(h))
        if len(x) not in (1, n) or len(h) not in (1, n):
            raise ValueError("shape mismatch: objects cannot be broadcast to a single shape")
        x, h = x * n if len(x) == 1 else x, h * n if len(h) == 1 else h
        b = [Bar(p if align == "center" else p + width / 2, width, v) for p, v in zip(x, h)]
        self.bars.append((b, k.get("label")))
        return b

    def plot(self, *a, **k):
        fmt = None
        a = list(a)
        if a and isinstance(a[-1], str):
            fmt = a.pop()
        y = flat(a[-1])
        x = flat(a[0]) if len(a) == 2 else list(range(len(y)))
        if len(x) != len(y):
            raise ValueError("x and y must have same first dimension")
        self.lines.append((x, y, k.get("label"), bool(fmt and "o" in fmt) or k.get("marker") == "o"))
        return [Opaque()]

    def pcolormesh(self, *a, **k):
        self.meshes.append(([table(v) for v in a[:-1]], table(a[-1]), k.get("shading", "auto")))
        return Opaque()

    def text(self, x, y, s, **k):
        self.texts.append((x, y, s))

    def legend(self, *a, **k):
        if len(a) == 1:
            self.legend_ = [str(v) for v in flat(a[0])]
        elif len(a) == 2:
            self.legend_ = [str(v) for v in flat(a[1])]
        else:
            self.legend_ = [str(l) for _, l in self.bars if l is not None] + [str(l[2]) for l in self.lines if l[2] is not None]
        self.handles = list(a[0]) if len(a) == 2 else None

    def set_xticks(self, t, labels=None, **k):
        self.ticks = flat(t)
        if labels is not None:
            self.set_xticklabels(labels)

    def set_xticklabels(self, l, **k):
        l = [str(v) for v in flat(l)]
        if len(l) != len(self.ticks):
            raise ValueError("The number of FixedLocator locations (%d) does not match the number of labels" % len(self.ticks))
        self.ticklabels = l

    def set_ylim(self, *a, **k):
        lo, hi = flat(a[0]) if len(a) == 1 and a[0] is not None and hasattr(a[0], "__iter__") else (list(a) + [None, None])[:2]
        lo, hi = k.get("bottom", k.get("ymin", lo)), k.get("top", k.get("ymax", hi))
        for v in (lo, hi):
            if isinstance(v, (float, rnp.floating)) and (v != v or v in (float("inf"), float("-inf"))):
                raise ValueError("Axis limits cannot be NaN or Inf")
        self.ylim = (lo, hi)

    def set_title(self, t, **k):
        self.title = str(t)

    def set_xlabel(self, t, **k):
        self.xl = str(t)

    def set_ylabel(self, t, **k):
        self.yl = str(t)

    def set(self, **k):
        for n, v in k.items():
            getattr(self, "set_" + n)(v)

    def twinx(self):
        t = Axes(self.figure)
        self.figure.axes.append(t)
        return t

    def get_aux_axes(self, *a, **k):
        t = Axes(self.figure)
        t.patch = Opaque()
        self.figure.axes.append(t)
        return t

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque()


class Figure(object):
    def __init__(self):
        self.axes, self.title = [], ""

    def suptitle(self, t, **k):
        self.title = str(t)

    def add_subplot(self, *a, **k):
        if a and isinstance(a[0], Axes):
            self.axes.append(a[0])
            return a[0]
        self.axes.append(Axes(self))
        return self.axes[-1]

    def add_axes(self, a, **k):
        if isinstance(a, Axes):
            if a not in self.axes:
                self.axes.append(a)
            return a
        return self.add_subplot()

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        ax = rnp.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                ax[i, j] = Axes(self)
                self.axes.append(ax[i, j])
        return ax if not squeeze else ax[0, 0] if ax.size == 1 else ax.ravel() if 1 in ax.shape else ax

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Opaque()


def pyplot():
    m = types.ModuleType("matplotlib.pyplot")
    cur = []

    def figure(*a, **k):
        cur.append(Figure())
        return cur[-1]

    def subplots(nrows=1, ncols=1, sharex=False, sharey=False, squeeze=True, **k):
        f = figure()
        return f, f.subplots(nrows, ncols, squeeze=squeeze)
    m.figure, m.subplots = figure, subplots
    m.suptitle = lambda t, **k: cur[-1].suptitle(t)
    m.gcf = lambda: cur[-1]
    m.gca = lambda: cur[-1].axes[-1] if cur[-1].axes else cur[-1].add_subplot()
    m.get_cmap = lambda *a, **k: (lambda r: (0.25, 0.5, 0.75, 1.0))
    m.__getattr__ = lambda n: Opaque()
    return m


def stubs(E):
    """matplotlib and seaborn replaced by the recorder"""
    pp = pyplot()
    mpl = types.ModuleType("matplotlib")
    mpl.pyplot = pp
    mpl.__path__ = []
    out = {"matplotlib": mpl, "matplotlib.pyplot": pp}
    for n in ("seaborn", "graphviz", "matplotlib.colors", "matplotlib.transforms", "matplotlib.projections", "matplotlib.cm", "mpl_toolkits", "mpl_toolkits.axisartist",
              "mpl_toolkits.axisartist.floating_axes", "mpl_toolkits.axisartist.grid_finder"):
        s = types.ModuleType(n)
        s.__path__ = []

        def other(k):
            if k.startswith("__"):
                raise AttributeError(k)
            return Opaque()
        s.__getattr__ = other
        out[n] = s
    fa = out["mpl_toolkits.axisartist.floating_axes"]
    fa.FloatingSubplot = fa.FloatingAxes = lambda fig, *a, **k: Axes(fig)
    out["mpl_toolkits.axisartist"].floating_axes = fa
    out["mpl_toolkits.axisartist"].grid_finder = out["mpl_toolkits.axisartist.grid_finder"]
    return out


def edges(X):
    """grid lines around cells whose centres are X (what pcolormesh's nearest shading does), along each axis in turn"""
    def along(rows):
        return [[(r[0] - (r[1] - r[0]) / 2 if len(r) > 1 else r[0])] + [(a + b) / 2 for a, b in zip(r, r[1:])] + [(r[-1] + (r[-1] - r[-2]) / 2 if len(r) > 1 else r[-1])] for r in rows]
    t = along(X)
    return [list(r) for r in zip(*along([list(c) for c in zip(*t)]))]


def mesh_cells(E, fig):
    """[[(x0, x1, y0, y1, value)]] of the one matrix drawn on curvilinear axes; None if there is not exactly one"""
    if E.symbolic:
        ms = [m for a in fig.axes for m in a.meshes]
        if len(ms) != 1:
            return None
        (X, Y), C, shading = ms[0]
        if (len(X), len(X[0])) == (len(C), len(C[0])):
            if shading == "flat":
                raise TypeError("Dimensions of C should be one smaller than X and Y while using shading='flat'")
            X, Y = edges(X), edges(Y)
        elif (len(X) - 1, len(X[0]) - 1) != (len(C), len(C[0])):
            raise TypeError("Dimensions of C are incompatible with X and/or Y")
    else:
        import matplotlib.pyplot as plt
        from matplotlib.collections import QuadMesh
        ms = [c for a in fig.axes for p in [a] + list(getattr(a, "parasites", [])) for c in p.collections if isinstance(c, QuadMesh) and not hasattr(a, "_colorbar")]
        plt.close(fig)
        if len(ms) != 1:
            return None
        co, arr = ms[0]._coordinates, ms[0].get_array()
        X, Y = co[:, :, 0].tolist(), co[:, :, 1].tolist()
        C = rnp.asarray(arr).reshape(co.shape[0] - 1, co.shape[1] - 1).tolist()
    return [[(X[i][j], X[i + 1][j], Y[i][j], Y[i][j + 1], C[i][j]) for j in range(len(C[0]))] for i in range(len(C))]


def use_agg(E):
    if not E.symbolic:
        import matplotlib
        matplotlib.use("Agg")


def data_array(E, values, coords, dims, name):
    """values: nested lists"""
    if E.symbolic:
        a = E.farray(values, "float64")
        return xrstub.DataArray(a, coords=coords, dims=dims, name=name)
    import xarray
    return xarray.DataArray(rnp.array(values, dtype=float), coords=coords, dims=dims, name=name)


class Panel(object):
    """bars: [(centres, heights)], lines: [(x, y, label, marker)], meshes, texts, legend, ticks, ticklabels, title, ylabel, xlabel, ylim"""


def panels(E, fig):
    """(figure title, [Panel])"""
    out = []
    if E.symbolic:
        for a in fig.axes:
            p = Panel()
            p.bars = [([b.x for b in c], [b.h for b in c]) for c, _ in a.bars]
            p.lines = list(a.lines)
            p.meshes = list(a.meshes)
            p.texts, p.legend, p.ticks, p.ticklabels = a.texts, a.legend_, a.ticks, a.ticklabels
            p.title, p.ylabel, p.xlabel, p.ylim = a.title, a.yl, a.xl, a.ylim
            out.append(p)
        return fig.title, out
    import matplotlib.pyplot as plt
    from matplotlib.collections import QuadMesh
    for a in fig.axes:
        p = Panel()
        p.bars = [([b.get_x() + b.get_width() / 2 for b in c], [b.get_height() for b in c]) for c in a.containers]
        p.lines = [(list(l.get_xdata()), list(l.get_ydata()), None if str(l.get_label()).startswith("_") else l.get_label(), l.get_marker() == "o") for l in a.lines]
        p.meshes = [([], [[float("-inf") if v is rnp.ma.masked else float(v) for v in r] for r in c.get_array()], "auto") for c in a.collections if isinstance(c, QuadMesh)]
        p.texts = [(t.get_position()[0], t.get_position()[1], t.get_text()) for t in a.texts]
        lg = a.get_legend()
        p.legend = [t.get_text() for t in lg.get_texts()] if lg else []
        p.ticks, p.ticklabels = list(a.get_xticks()), [t.get_text() for t in a.get_xticklabels()]
        p.title, p.ylabel, p.xlabel, p.ylim = a.get_title(), a.get_ylabel(), a.get_xlabel(), a.get_ylim()
        out.append(p)
    t = fig._suptitle.get_text() if fig._suptitle else ""
    plt.close(fig)
    return t, out
