"""The exported drawing (DOT text) of a tree is that tree."""
import re
from symx.runner import Job
from .model_common import *
from .viz_common import *

PRELOAD_PYX = ["rankeval.scoring._efficient_scoring"]
BOUNDS = "1..2 trees of any shape with up to 3 splits (2 with every option), any tree of the ensemble, features 0..3, every threshold and leaf output symbolic, precision 0..4, depth limits 0..3, both node layouts, every option on or off, " \
         "with or without leaf counts of 1..5 documents in any leaves, counts on all nodes or on leaves, and a tree of 40 splits with one threshold and output free"
OUTSIDE = "colours; rendering by graphviz; trees where every leaf has the same output or count are not drawn with colours here (their shade is undefined)"
ASSUMPTIONS = ["a number and its text stand for each other when formatted and parsed"]


def num(E, t):
    from symx import loader
    return loader.TOKENS[t] if E.symbolic and t in loader.TOKENS else float(t)


def parse(E, text, special):
    """(nodes {id: (label, attributes)}, edges [(a, b, attributes)], rest)"""
    nodes, edges, rest = {}, [], []
    lines = text.split("\n")
    E.check(lines[0] == "digraph Tree {" and lines[-1] == "}", "a DOT graph")
    for l in lines[1:-1]:
        m = re.match(r"^(\d+) -> (\d+)(.*) ;$", l)
        if m:
            edges.append((int(m.group(1)), int(m.group(2)), m.group(3)))
            continue
        m = re.match(r'^(\d+) \[label=(?:"([^"]*)"|<(.*?)>(?=[,\]]))(.*)\] ;$', l)
        if m:
            E.check(int(m.group(1)) not in nodes, "a node is drawn once")
            nodes[int(m.group(1))] = (m.group(2) if m.group(2) is not None else m.group(3), m.group(4))
            continue
        rest.append(l)
    return nodes, edges, rest


def close_to(E, got, want, prec, what):
    tol = 0.5 * 10.0 ** -prec * (1 + 1e-6) + 1e-6
    E.check(E.and_(got - want <= tol, want - got <= tol), what)
    sc = got * 10.0 ** prec
    if not E.symbolic:
        E.check(abs(sc - round(sc)) < 1e-4 * max(1.0, abs(sc)), what + " (digits)")


def verify(E, text, m, trees, tid, o, counts):
    """o: the options; counts: {leaf node id: documents} of this tree, or None"""
    special = o.get("special_characters")
    nodes, edges, rest = parse(E, text, special)
    br, le, lb, rb, pc = ("<br/>", "&le;", '<FONT POINT-SIZE="10"><SUB>', "</SUB></FONT>", "&#37;") if special else ("\\n", "<=", "[", "]", "%")
    prec, maxd = o.get("precision", 3), o.get("max_depth")
    seen, links, leafs = [], [], []
    total = []

    def count(t, n):
        if is_leaf(t):
            c = counts.get(n, 0)
        else:
            c = count(t[2], int(m.trees_left_child[n])) + count(t[3], int(m.trees_right_child[n]))
        total.append(c)
        return c

    root = int(m.trees_root[tid])
    if counts is not None:
        count(trees[tid], root)

    def walk(t, n, d):
        seen.append(n)
        E.check(n in nodes, "every node is drawn")
        if n not in nodes:
            return
        label, attr = nodes[n]
        if maxd is not None and d > maxd:
            E.check(label == "(...)", "a node below the depth limit is cut")
            return
        parts = label.split(br)
        if o.get("node_ids"):
            E.check(parts[0] == "node %s%d" % ("&#35;" if special else "#", n), "node number")
            parts = parts[1:]
        if counts is not None and o.get("label_show") and (o.get("label", "all") == "all" or is_leaf(t)):
            c = sum(counts.get(k, 0) for k in leaf_ids(t, n))
            got = re.match(r"^counts = (\d+)( \((.*)%s\))?$" % re.escape(pc), parts[0])
            E.check(got is not None and int(got.group(1)) == c, "number of documents that reach the node")
            E.check(got is None or bool(got.group(2)) == bool(o.get("proportion")), "share of documents only when asked for")
            if got and got.group(3) and o.get("label", "all") == "all":
                E.check(abs(float(got.group(3)) - 100.0 * c / max(total)) < 0.006, "share of the documents that reach the node")
            parts = parts[1:]
        E.check(len(parts) == 1, "content of the node")
        if is_leaf(t):
            mt = re.match(r"^output = (-?[0-9.e+-]+)$", parts[0])
            E.check(mt is not None, "output of a leaf")
            if mt:
                close_to(E, num(E, mt.group(1)), t, prec, "output of the leaf")
            return
        name = o["feature_names"][t[0]] if o.get("feature_names") else "f%s%d%s " % (lb, t[0], rb)
        want = "%s %s " % (name, le)
        E.check(parts[0].startswith(want), "feature of the split")
        if parts[0].startswith(want):
            close_to(E, num(E, parts[0][len(want):]), t[1], prec, "threshold of the split")
        a, b = int(m.trees_left_child[n]), int(m.trees_right_child[n])
        links.append((n, a, d, True))
        links.append((n, b, d, False))
        walk(t[2], a, d + 1)
        walk(t[3], b, d + 1)

    def leaf_ids(t, n):
        return [n] if is_leaf(t) else leaf_ids(t[2], int(m.trees_left_child[n])) + leaf_ids(t[3], int(m.trees_right_child[n]))
    walk(trees[tid], root, 0)
    E.check(set(nodes) == set(seen), "only the nodes of the tree are drawn")
    E.check(sorted((a, b) for a, b, _ in edges) == sorted((a, b) for a, b, _, _ in links), "the edges are those of the tree")
    for a, b, d, left in links:
        at = [x for p, q, x in edges if (p, q) == (a, b)]
        if d == 0 and (maxd is None or maxd > 0) and at:
            E.check('headlabel="%s"' % left in at[0], "the left branch of the root is the one where the test is true")


def doc_counts(E, m, trees, n):
    """(output_leaves, [counts per tree])"""
    cols, cts = [], []
    for k, t in enumerate(trees):
        ids = [int(m.trees_root[k]) + i for i in leaf_indices(t, E.cfg.get("order", "pre"))]
        col = [E.pick("leaf%d_%d" % (k, i), ids) for i in range(n)]
        cols.append(col)
        cts.append({i: col.count(i) for i in ids})
    return rnp.array([list(r) for r in zip(*cols)], dtype=rnp.int32), cts


def h_tree(E):
    """plain drawing"""
    E.text_mode()
    use_agg(E)
    c = E.cfg
    pool = [s for k in range(c.get("mink", 1), c["maxk"] + 1) for s in shapes(k)]
    trees = [fill(E, E.pick("s%d" % k, pool), "t%d_" % k, c.get("nf", 2)) for k in range(c["T"])]
    m = make_model(E, trees, order=E.cfg.get("order", "pre"), name="m")
    tid = E.cint("tree", 0, c["T"] - 1)
    o = {}
    if c.get("prec"):
        o["precision"] = E.pick("precision", [0, 1, 2, 4])
    if c.get("depth"):
        o["max_depth"] = E.pick("depth", [0, 1, 2, 3])
    text = E.mod("rankeval.visualization.topological").export_graphviz(m, tree_id=tid, **o)
    verify(E, text, m, trees, tid, o, None)


def leaf_values(t):
    return [t] if is_leaf(t) else leaf_values(t[2]) + leaf_values(t[3])


def h_options(E):
    E.text_mode()
    use_agg(E)
    c = E.cfg
    trees = [fill(E, E.pick("s%d" % k, shapes(c["k"])), "t%d_" % k, 2) for k in range(c["T"])]
    m = make_model(E, trees, order=E.cfg.get("order", "pre"), name="m")
    tid = E.cint("tree", 0, c["T"] - 1)
    o = {k: True for k in ("node_ids", "special_characters", "rounded", "leaves_parallel") if E.cbool(k)}
    if c.get("colours") and E.cbool("highlight_leaves"):
        o["highlight_leaves"] = True
        v = [x for x in leaf_values(trees[tid])]
        E.assume(E.or_(*[E.or_(a > b + 0.01, b > a + 0.01) for a, b in zip(v, v[1:])]))
    if E.cbool("names"):
        o["feature_names"] = ["first", "second", "third"][:3 if E.cbool("more_names") else 2]
        used = [t for t in m.trees_nodes_feature if int(t) >= 0]
        E.assume(len(o["feature_names"]) == 3 or all(int(u) < 2 for u in used))
    text = E.mod("rankeval.visualization.topological").export_graphviz(m, tree_id=tid, **o)
    verify(E, text, m, trees, tid, o, None)


def h_counts(E):
    E.text_mode()
    use_agg(E)
    c = E.cfg
    trees = [fill(E, s, "t%d_" % k, 1, 0) for k, s in enumerate([E.pick("s%d" % k, shapes(c["k"])) for k in range(c["T"])])]
    m = make_model(E, trees, order=E.cfg.get("order", "pre"), name="m")
    tid = E.cint("tree", 0, c["T"] - 1)
    leaves, cts = doc_counts(E, m, trees, c["docs"])
    o = dict(label=E.pick("label", ["all", "leaves"]), label_show=E.cbool("label_show"))
    for k in ("proportion", "node_ids", "special_characters"):
        if k in c.get("opt", ()) and E.cbool(k):
            o[k] = True
    if c.get("depth"):
        o["max_depth"] = E.pick("depth", [0, 1])
    E.assume(len(set(cts[tid].values())) > 1)
    before = leaves.copy()
    text = E.mod("rankeval.visualization.topological").export_graphviz(m, tree_id=tid, output_leaves=leaves, **o)
    verify(E, text, m, trees, tid, o, cts[tid])
    E.check(bool((leaves == before).all()), "the leaves given are not changed")


def h_file(E):
    """written to a file or a file object: the same text; wrong arguments are refused"""
    E.text_mode()
    use_agg(E)
    T = E.mod("rankeval.visualization.topological")
    trees = [fill(E, s, "t%d_" % k, 1, 0) for k, s in enumerate([shapes(1)[0], shapes(2)[0]])]
    m = make_model(E, trees, name="m")
    how = E.pick("how", ["file", "object", "tree_id", "negative", "real", "label", "names"])
    if how == "file":
        p = E.tmp("out.dot")
        r = T.export_graphviz(m, 1, out_file=p)
        text = open(p, encoding="utf-8").read()
        E.check(r is None, "nothing is returned when a file is written")
        verify(E, text, m, trees, 1, {}, None)
    elif how == "object":
        import io
        f = io.StringIO()
        T.export_graphviz(m, 1, out_file=f)
        E.check(not f.closed, "the caller's file stays open")
        verify(E, f.getvalue(), m, trees, 1, {}, None)
    else:
        kw = {"tree_id": dict(tree_id=2), "negative": dict(precision=-1), "real": dict(precision=1.5), "label": dict(label="some", output_leaves=rnp.array([[1, 5], [2, 6]], dtype=rnp.int32)), "names": dict(feature_names=[])}[how]
        try:
            T.export_graphviz(m, **kw)
        except ValueError:
            return
        E.fail("wrong arguments are drawn: " + how)


def h_big(E):
    E.text_mode()
    use_agg(E)
    vals = [float(i) for i in range(41)]
    vals[17] = E.real("v", -4, 4)

    def tree(a, b):
        if b - a == 1:
            return vals[a]
        k = (a + b) // 2
        return (k % 5, E.real("th", -4, 4) if k == 20 else k + 0.125, tree(a, k), tree(k, b))
    trees = [(1, 0.5, 1.0, 2.0), tree(0, 41)]
    m = make_model(E, trees, order=E.pick("order", ["pre", "bfs"]), name="m")
    o = {"max_depth": E.pick("depth", [None, 2, 4])}
    text = E.mod("rankeval.visualization.topological").export_graphviz(m, 1, **o)
    verify(E, text, m, trees, 1, o, None)


def jobs(tier):
    out = []
    st = lambda E: dict(pyx_stubs("rankeval.scoring._efficient_scoring", "rankeval.analysis._efficient_topological"), **stubs(E))
    J = lambda fn, **c: out.append(Job(fn, c, stubs=st, needs_ext=True, weight=5))
    J(h_tree, T=1, maxk=2, nf=4)
    J(h_tree, T=1, maxk=3, mink=3, nf=1, order="bfs")
    J(h_tree, T=2, maxk=2, nf=1)
    J(h_tree, T=1, maxk=2, nf=1, prec=True)
    J(h_tree, T=2, maxk=3, mink=3, nf=1, depth=True)
    J(h_tree, T=1, maxk=0, mink=0)
    J(h_options, T=1, k=1, colours=True)
    J(h_options, T=2, k=1)
    J(h_options, T=1, k=2)
    J(h_counts, T=1, k=1, docs=3, opt=("proportion", "node_ids"))
    J(h_counts, T=1, k=2, docs=3, opt=("proportion",))
    J(h_counts, T=2, k=1, docs=3, opt=("special_characters", "proportion"))
    J(h_counts, T=1, k=2, docs=3, depth=True, order="bfs")
    J(h_file)
    J(h_big)
    return out
