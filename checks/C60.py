"""The plots of the analyses show the values of the analysis."""
from symx.runner import Job
from .viz_common import *

BOUNDS = "1..2 datasets, 1..3 models, 1..3 metrics, up to 4 tree counts or bins, 1..3 labels or classes, 1..5 features; every value symbolic (finite, or undefined at any one place or everywhere), " \
         "every comparison mode, with and without value labels, every max_features 1..6 or None, both orders, with and without feature names"
OUTSIDE = "colours, layout and rendering by matplotlib; plot_shape and export_graphviz (C61, C62); bars with negative height are not claimed to be inside the visible range; usage counts above 65535 (the analysis itself holds 16-bit counts)"
ASSUMPTIONS = ["pyplot draws the bars, lines, matrices, texts, ticks and legends it is asked to (samples and counterexamples are re-run with real matplotlib figures)", "xarray selects by label"]

MOD = "rankeval.visualization.effectiveness"


def names(tag, n, rev=False):
    """not in alphabetical order"""
    r = [Named("%s%d" % (tag, i)) for i in range(n)]
    return r[::-1] if rev else r[1:] + r[:1]


def values(E, shape, nan=None, lo=0, tag="v"):
    """nested lists of symbolic values; nan: True puts one undefined value anywhere"""
    total = 1
    for s in shape:
        total *= s
    v = [E.real("%s%d" % (tag, i), lo, 4) for i in range(total)]
    if nan:
        k = E.cint("nan", 0, total + (nan == "all"))
        if k < total:
            v[k] = float("nan")
        elif k > total:
            v = [float("nan")] * total

    def fold(v, shape):
        if len(shape) == 1:
            return v
        n = len(v) // shape[0]
        return [fold(v[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]
    return fold(v, shape)


def same(E, a, b, what):
    if isnan(b):
        E.check(isnan(a), what)
    else:
        E.check(not isnan(a), what)
        if not isnan(a):
            E.close(a, b, what)


def names_it(text, thing):
    return str(thing) in text


def bar_panel(E, p, groups, series, want, what, show):
    """want[g][s] is the bar of group g (tick) in series s (legend)"""
    E.check(len(p.bars) == len(series), what + ": number of bar series")
    E.check(p.ticklabels == [str(g) for g in groups], what + ": tick labels")
    for s in range(len(series)):
        xs, hs = p.bars[s]
        E.check(len(xs) == len(groups), what + ": number of bars")
        for g in range(len(groups)):
            same(E, hs[g], want[g][s], what + ": bar height is not the value of the analysis")
            E.check(E.and_(xs[g] - p.ticks[g] < 0.5, p.ticks[g] - xs[g] < 0.5), what + ": bar is not at its tick")
            if s:
                E.check(xs[g] > p.bars[s - 1][0][g] + 1e-6, what + ": bars of one group hide each other")
            if not isnan(want[g][s]):
                E.check(E.or_(want[g][s] < 0, want[g][s] <= p.ylim[1] + 1e-6), what + ": bar higher than the visible range")
            if show:
                t = [t for t in p.texts if abs(t[0] - xs[g]) < 1e-6]
                E.check(len(t) == 1, what + ": one label per bar")
                if len(t) == 1:
                    v = t[0][2]
                    v = float(v) if isinstance(v, str) else v
                    if isnan(want[g][s]):
                        E.check(isnan(v), what + ": text of an undefined bar")
                    else:
                        E.check(E.and_(v - want[g][s] <= 0.00051, want[g][s] - v <= 0.00051), what + ": text is not the rounded value")
    if not show:
        E.check(not p.texts, what + ": texts not asked for")


def curve(E, lines, label, xs, ys, what):
    """exactly one line carries the label (or label is the position) and runs through the points"""
    ls = [l for l in lines if l[2] is not None and str(l[2]) == str(label)] if not isinstance(label, int) else [lines[label]]
    E.check(len(ls) == 1, what + ": one curve per series")
    if len(ls) != 1:
        return
    x, y = ls[0][0], ls[0][1]
    E.check(len(x) == len(xs) and len(y) == len(ys), what + ": number of points")
    if len(y) == len(ys):
        for i in range(len(ys)):
            E.close(x[i], xs[i], what + ": abscissa")
            same(E, y[i], ys[i], what + ": point is not the value of the analysis")


def unchanged(E, da, vals, what="plotting changes the analysis"):
    a = flat(da)
    b = flat(E.farray(vals, "float64") if E.symbolic else rnp.array(vals, dtype=float))
    E.check(len(a) == len(b), what)
    for x, y in zip(a, b):
        same(E, x, y, what)


def h_model(E):
    use_agg(E)
    nd, nm, nx = E.cfg["n"]
    show, compare = E.cbool("show"), E.pick("compare", ["models", "metrics"])
    D, M, X = names("d", nd), names("m", nm, True), names("x", nx)
    v = values(E, (nd, nm, nx), E.cfg.get("nan"), E.cfg.get("lo", 0))
    da = data_array(E, v, [D, M, X], ["dataset", "model", "metric"], "Perf")
    figs = E.mod(MOD).plot_model_performance(da, compare=compare, show_values=show)
    E.check(len(figs) == nd, "one figure per dataset")
    for d in range(nd):
        _, ps = panels(E, figs[d])
        p = ps[0]
        E.check(len(ps) == 1 and names_it(p.title, D[d]) and "Perf" in p.title, "title names the analysis and the dataset")
        E.observe("h%d" % d, [h for b in p.bars for h in b[1]])
        if compare == "models":
            bar_panel(E, p, X, M, [[v[d][m][x] for m in range(nm)] for x in range(nx)], "model performance", show)
        else:
            bar_panel(E, p, M, X, v[d], "model performance", show)
        E.check(p.legend == [str(s) for s in (M if compare == "models" else X)], "legend")
    unchanged(E, da, v)


def h_tree(E):
    use_agg(E)
    nd, nm, nx, nk = E.cfg["n"]
    compare = E.cfg["compare"]
    D, M, X = names("d", nd), names("m", nm, True), names("x", nx)
    ks = [1, 3, 4, 9][:nk]
    v = values(E, (nd, nm, nk, nx), E.cfg.get("nan"), -4)
    da = data_array(E, v, [D, M, ks, X], ["dataset", "model", "k", "metric"], "Perf")
    figs = E.mod(MOD).plot_tree_wise_performance(da, compare=compare)
    outer, rows, series = {"metrics": (D, M, X), "models": (D, X, M), "datasets": (M, X, D)}[compare]
    E.check(len(figs) == len(outer), "one figure per dataset (model)")
    for o in range(len(outer)):
        title, ps = panels(E, figs[o])
        E.check(names_it(title, outer[o]) and "Perf" in title, "figure title names the analysis and the dataset (model)")
        E.check(len(ps) == len(rows), "one panel per %s" % compare)
        for r, p in enumerate(ps):
            E.check(p.ylabel == str(rows[r]), "panel names its metric (model)")
            marks = [l for l in p.lines if l[3] and len(l[0]) == 1]
            curves = [[v[d][m][k][x] for k in range(nk)] for s in range(len(series)) for d, m, x in [{"metrics": (o, r, s), "models": (o, s, r), "datasets": (s, o, r)}[compare]]]
            dead = [all(isnan(y) for y in c) for c in curves]
            E.check(len(marks) == len(series) - sum(dead), "one marker per curve")
            for s in range(len(series)):
                d, m, x = {"metrics": (o, r, s), "models": (o, s, r), "datasets": (s, o, r)}[compare]
                ys = [v[d][m][k][x] for k in range(nk)]
                curve(E, [l for l in p.lines if not l[3]], str(series[s]), ks, ys, "tree-wise curve")
                if dead[s] or len(marks) + sum(dead) < len(series):
                    continue
                mx, my = (lambda l: (l[0][0], l[1][0]))(marks[s - sum(dead[:s])])
                E.check(any(bool(k_ == mx) for k_ in ks), "marker is at one of the tree counts")
                for k in range(nk):
                    if bool(ks[k] == mx):
                        same(E, my, ys[k], "marker is not on the curve")
                    if not isnan(ys[k]):
                        E.check(E.or_(ys[k] < my, E.is_close(my, ys[k])), "marker is not at the maximum of the curve")
        have = ps[-1].legend
        E.check([str(s) for s in series] == [t for t in have if t != "Max"], "legend")
        E.observe("y%d" % o, [y for p in ps for l in p.lines for y in l[1]])
    unchanged(E, da, v)


def h_contribution(E):
    use_agg(E)
    nd, nm, nk = E.cfg["n"]
    D, M = names("d", nd), names("m", nm, True)
    v = values(E, (nd, nm, nk), E.cfg.get("nan"), -4)
    da = data_array(E, v, [D, M, list(range(nk))], ["dataset", "model", "k"], "Perf")
    figs = E.mod(MOD).plot_tree_wise_average_contribution(da)
    E.check(len(figs) == nd, "one figure per dataset")
    for d in range(nd):
        title, ps = panels(E, figs[d])
        E.check(names_it(title, D[d]) and "Perf" in title and len(ps) == nm, "title and panels")
        for m, p in enumerate(ps):
            E.check(p.legend == [str(M[m])], "panel names its model")
            E.check(len(p.lines) == 1, "one curve per panel")
            curve(E, p.lines, 0, list(range(nk)), v[d][m], "contribution curve")
        E.observe("y%d" % d, [y for p in ps for l in p.lines for y in l[1]])
    unchanged(E, da, v)


def h_query(E):
    use_agg(E)
    nd, nm, nx, nb = E.cfg["n"]
    compare = E.pick("compare", ["models", "metrics"])
    D, M, X = names("d", nd), names("m", nm, True), names("x", nx)
    bins = [0.25 * b for b in range(nb)]
    v = values(E, (nd, nm, nx, nb), E.cfg.get("nan"))
    da = data_array(E, v, [D, M, X, bins], ["dataset", "model", "metric", "bin"], "Perf")
    figs = E.mod(MOD).plot_query_wise_performance(da, compare=compare)
    rows, series = (X, M) if compare == "models" else (M, X)
    E.check(len(figs) == nd, "one figure per dataset")
    for d in range(nd):
        title, ps = panels(E, figs[d])
        E.check(names_it(title, D[d]) and "Perf" in title and len(ps) == len(rows), "title and panels")
        for r, p in enumerate(ps):
            for s in range(len(series)):
                m, x = (s, r) if compare == "models" else (r, s)
                curve(E, p.lines, str(series[s]), bins, [q if isnan(q) else q * 100 for q in v[d][m][x]], "query-wise curve")
            E.check(len(p.lines) == len(series), "one curve per series")
        E.check([str(s) for s in series] == ps[-1].legend, "legend")
        E.observe("y%d" % d, [y for p in ps for l in p.lines for y in l[1]])
    unchanged(E, da, v)


def h_graded(E):
    use_agg(E)
    nd, nm, nl, nb = E.cfg["n"]
    D, M = names("d", nd), names("m", nm, True)
    labels, bins = [0.0, 1.0, 3.0][:nl], [-1.0, 0.5, 2.0, 7.5][:nb]
    v = values(E, (nd, nm, nl, nb), E.cfg.get("nan"))
    da = data_array(E, v, [D, M, labels, bins], ["dataset", "model", "label", "bin"], "Perf")
    figs = E.mod(MOD).plot_document_graded_relevance(da)
    E.check(len(figs) == nd, "one figure per dataset")
    for d in range(nd):
        _, ps = panels(E, figs[d])
        E.check(len(ps) == nm, "one panel per model")
        for m, p in enumerate(ps):
            E.check(names_it(p.title, D[d]) and names_it(p.title, M[m]) and "Perf" in p.title, "panel title")
            E.check(len(p.lines) == nl, "one curve per label")
            for l in range(nl):
                curve(E, p.lines, l, bins, v[d][m][l], "graded relevance curve")
        E.check(ps[-1].legend == ["Label %d" % int(l) for l in labels], "legend")
        E.observe("y%d" % d, [y for p in ps for l in p.lines for y in l[1]])
    unchanged(E, da, v)


def h_confusion(E):
    use_agg(E)
    nd, nm, nl = E.cfg["n"]
    D, M = names("d", nd), names("m", nm, True)
    v = [[[[E.int("c%d_%d_%d_%d" % (d, m, i, j), 1, 60).toreal() if E.symbolic else float(E.int("c%d_%d_%d_%d" % (d, m, i, j), 1, 60)) for j in range(nl)] for i in range(nl)] for m in range(nm)] for d in range(nd)]
    for i in range(nl):
        for j in range(nl):
            if E.cfg.get("zeros") and E.cbool("z%d%d" % (i, j)):
                v[0][0][i][j] = 0.0
    da = data_array(E, v, [D, M, list(range(nl)), list(range(nl))], ["dataset", "model", "label_i", "label_j"], "Perf")
    figs = E.mod(MOD).plot_rank_confusion_matrix(da)
    E.check(len(figs) == nd, "one figure per dataset")
    L = E.np.log
    for d in range(nd):
        _, ps = panels(E, figs[d])
        E.check(len(ps) == nm, "one panel per model")
        for m, p in enumerate(ps):
            E.check(names_it(p.title, D[d]) and names_it(p.title, M[m]) and "Perf" in p.title, "panel title")
            E.check(len(p.meshes) == 1, "one matrix per panel")
            t = p.meshes[0][1]
            E.check(len(t) == nl and all(len(r) == nl for r in t), "size of the matrix")
            ent = [(v[d][m][i][j], t[i][j]) for i in range(nl) for j in range(nl)]
            # log scale exactly when one count is more than twice every other count
            big = E.or_(*[E.and_(*[a[0] > 2 * b[0] for b in ent if b is not a]) for a in ent]) if nl > 1 else False
            if bool(big):
                for c, s in ent:
                    if not E.cfg.get("zeros") or bool(c > 0):
                        E.close(s, L(c), "entry is not the logarithm of its count")
                    else:
                        E.check(bool(s == float("-inf")), "an empty entry is drawn")
            else:
                for c, s in ent:
                    E.close(s, c, "entry is not its count")
                E.observe("t%d_%d" % (d, m), [s for _, s in ent])
    unchanged(E, da, v)


def h_class(E):
    use_agg(E)
    nd, nm, nx, nc = E.cfg["n"]
    show, compare = E.cbool("show"), E.pick("compare", ["models", "metrics"])
    D, M, X = names("d", nd), names("m", nm, True), names("x", nx)
    C = [7, 2, 5][:nc]
    v = values(E, (nd, nm, nx, nc), E.cfg.get("nan"), E.cfg.get("lo", 0))
    da = data_array(E, v, [D, M, X, C], ["dataset", "model", "metric", "classes"], "Perf")
    figs = E.mod(MOD).plot_query_class_performance(da, show_values=show, compare=compare)
    rows, series = (X, M) if compare == "models" else (M, X)
    E.check(len(figs) == nd, "one figure per dataset")
    for d in range(nd):
        title, ps = panels(E, figs[d])
        E.check(names_it(title, D[d]) and "Perf" in title and len(ps) == len(rows), "title and panels")
        for r, p in enumerate(ps):
            if compare == "models":
                E.check(p.ylabel == str(rows[r]), "panel names its metric")
            want = [[v[d][s][r][c] if compare == "models" else v[d][r][s][c] for s in range(len(series))] for c in range(nc)]
            bar_panel(E, p, C, series, want, "class performance", show)
        E.check(ps[-1].legend == [str(s) for s in series], "legend")
        E.observe("h%d" % d, [h for p in ps for b in p.bars for h in b[1]])
    unchanged(E, da, v)


def h_feature(E):
    use_agg(E)
    n = E.cfg["n"]
    k = E.pick("max", [1, 2, 3, None, "default"]) if E.cfg.get("few") else E.pick("max", [3, 10, None, "default"])
    by = E.pick("by", ["gain", "count"])
    named = E.cbool("named")
    imp = [E.real("g%d" % i, 0, 4) for i in range(n)]
    cnt = [E.label("c%d" % i, 1, 60000) for i in range(n)]
    nm = ["n%d" % i for i in range(n)]
    da = data_array(E, [imp, cnt], [["importance", "count"], list(range(n))], ["type", "feature"], "F")
    if E.symbolic:
        da.values.keep_ints = True
    kw = dict(sort_by=by)
    if k != "default":
        kw["max_features"] = k
    if named:
        kw["feature_names"] = nm
    m = n if k is None else min(10 if k == "default" else k, n)
    fig = E.mod("rankeval.visualization.feature").plot_feature_importance(da, **kw)
    _, ps = panels(E, fig)
    E.check(len(ps) == 2 and len(ps[0].bars) == 1 and len(ps[1].bars) == 1, "one importance and one count series")
    (gx, gh), (cx, ch) = ps[0].bars[0], ps[1].bars[0]
    E.observe("h", list(gh) + list(ch))
    E.check(len(gh) == m and len(ch) == m, "number of features shown")
    E.check(len(ps[0].ticklabels) == m, "one name per feature shown")
    shown = []
    for i in range(min(m, len(gh))):
        E.check(E.and_(gx[i] - ps[0].ticks[i] < 0.5, ps[0].ticks[i] - gx[i] < 0.5), "name is at its bar")
        t = ps[0].ticklabels[i].strip()
        f = nm.index(t) if named and t in nm else int(t) - 1 if not named and t.lstrip("-").isdigit() else -1
        E.check(0 <= f < n and f not in shown, "bar names a feature")
        if not 0 <= f < n:
            return
        shown.append(f)
        E.close(gh[i], imp[f], "importance of the named feature")
        E.close(ch[i], cnt[f], "count of the named feature")
    key = imp if by == "gain" else cnt
    for a, b in zip(shown, shown[1:]):
        E.check(key[a] >= key[b], "features are not in decreasing order")
    for f in range(n):
        if f not in shown and shown:
            E.check(key[f] <= key[shown[-1]], "a feature not shown is ahead of a shown one")
    unchanged(E, da, [imp, cnt])


def h_refuse(E):
    """unknown comparison modes are refused, not drawn"""
    use_agg(E)
    V = E.mod(MOD)
    D, M, X = names("d", 1), names("m", 1), names("x", 1)
    a = E.real("a", 0, 4)
    cases = {"plot_model_performance": ([[[a]]], [D, M, X], ["dataset", "model", "metric"]),
             "plot_tree_wise_performance": ([[[[a]]]], [D, M, [1], X], ["dataset", "model", "k", "metric"]),
             "plot_query_wise_performance": ([[[[a]]]], [D, M, X, [0]], ["dataset", "model", "metric", "bin"]),
             "plot_query_class_performance": ([[[[a]]]], [D, M, X, [1]], ["dataset", "model", "metric", "classes"])}
    n = E.pick("fn", sorted(cases))
    how = E.pick("how", ["datasets", "model", "", None])
    if n == "plot_tree_wise_performance" and how == "datasets":
        how = "dataset"
    try:
        getattr(V, n)(data_array(E, cases[n][0], cases[n][1], cases[n][2], "P"), compare=how)
    except RuntimeError:
        return
    E.fail("an unknown comparison is drawn")


def jobs(tier):
    out = []
    J = lambda fn, **c: out.append(Job(fn, c, stubs=stubs, weight=c.pop("w", 5)))
    J(h_model, n=(2, 2, 1))
    J(h_model, n=(1, 3, 2))
    J(h_model, n=(1, 1, 3), nan=True)
    J(h_model, n=(1, 2, 2), nan="all", lo=-4)
    for c in ("models", "metrics", "datasets"):
        J(h_tree, n=(2, 1, 1, 3), compare=c)
        J(h_tree, n=(1, 2, 1, 3), compare=c)
        J(h_tree, n=(1, 1, 2, 2), compare=c)
        J(h_tree, n=(1, 1, 1, 4), compare=c, nan="all")
        J(h_tree, n=(1, 2, 1, 1), compare=c, nan=True)
    J(h_contribution, n=(2, 2, 3))
    J(h_contribution, n=(1, 3, 4), nan=True)
    J(h_query, n=(2, 2, 1, 3))
    J(h_query, n=(1, 2, 3, 2), nan=True)
    J(h_graded, n=(2, 1, 3, 2))
    J(h_graded, n=(1, 2, 2, 4), nan=True)
    J(h_confusion, n=(1, 1, 1))
    J(h_confusion, n=(1, 1, 2))
    J(h_confusion, n=(1, 1, 2), zeros=True)
    J(h_confusion, n=(2, 1, 1))
    J(h_confusion, n=(1, 2, 1))
    J(h_class, n=(1, 2, 2, 2))
    J(h_class, n=(2, 1, 2, 1))
    J(h_class, n=(1, 1, 1, 3), nan="all")
    J(h_class, n=(1, 3, 1, 2), nan=True, lo=-4)
    for n in (1, 2, 3):
        J(h_feature, n=n, few=True)
    J(h_feature, n=4)
    J(h_refuse)
    return out
