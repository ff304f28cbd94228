"""Model files of the supported formats, written from trees with symbolic numbers, and the common load-and-score harness."""
from .model_common import *
from .data_common import make_dataset
from .C10 import ref_scores

PRELOAD = ["rankeval.scoring._efficient_scoring"]


class Txt(object):
    """spelling of the numbers of one file"""
    def __init__(self, E, thr="plain", leaf="plain", weight="plain"):
        self.E, self.s = E, dict(thr=thr, leaf=leaf, weight=weight)

    def __call__(self, kind, v):
        return repr(v) if isinstance(v, float) and self.E.symbolic else self.E.text(v, self.s[kind])


# ---------------------------------------------------------------- QuickRank
def quickrank(E, trees, weights, T, var=0):
    nl, tab = [("\n", "\t"), ("", ""), ("\r\n", "  ")][var % 3]
    out = ['<ranker>', '<info>', '<type>MART</type>', '<trees>%d</trees>' % len(trees), '<leaves>3</leaves>', '<shrinkage>0.1</shrinkage>',
           '<leafsupport>1</leafsupport>', '<discretization>0</discretization>', '<estop>100</estop>', '</info>', '<ensemble>']
    if var >= 3:
        out.insert(0, '<?xml version="1.0"?>')
    pad = " " if var in (2, 4) else ""

    def node(t, pos):
        out.append('<split%s>' % (' pos="%s"' % pos if pos else ""))
        if is_leaf(t):
            out.append('<output>%s%s%s</output>' % (pad, T("leaf", t), pad))
        else:
            out.append('<feature>%s%d%s</feature>' % (pad, t[0] + 1, pad))
            out.append('<threshold>%s%s%s</threshold>' % (pad, T("thr", t[1]), pad))
            kids = [(t[2], "left"), (t[3], "right")]
            if var == 4:
                kids.reverse()
            for k, p in kids:
                node(k, p)
        out.append('</split>')
    for i, (t, w) in enumerate(zip(trees, weights)):
        out.append('<tree id="%d" weight="%s">' % (i + 1, T("weight", w)))
        node(t, None)
        out.append('</tree>')
    out += ['</ensemble>', '</ranker>']
    return nl.join(tab + o for o in out).strip() + nl


# ---------------------------------------------------------------- XGBoost / scikit-learn
def numbering(t, order):
    """node number of every node in depth-first order"""
    if order == "pre":
        return list(range(num_nodes(t)))
    ids, q = {}, [t]
    k = 0
    cnt = 0
    path = {id(t): ()}
    # breadth-first numbers keyed by position
    queue = [((), t)]
    while queue:
        pos, u = queue.pop(0)
        ids[pos] = cnt
        cnt += 1
        if not is_leaf(u):
            queue += [(pos + (0,), u[2]), (pos + (1,), u[3])]
    out = []

    def rec(pos, u):
        out.append(ids[pos])
        if not is_leaf(u):
            rec(pos + (0,), u[2])
            rec(pos + (1,), u[3])
    rec((), t)
    return out


def heap_numbers(t):
    out = []

    def rec(i, u):
        out.append(i)
        if not is_leaf(u):
            rec(2 * i + 1, u[2])
            rec(2 * i + 2, u[3])
    rec(0, t)
    return out


def xgboost(E, trees, T, var=0):
    out = []
    for i, t in enumerate(trees):
        out.append("booster[%d]:" % i)
        ids = heap_numbers(t) if var != 1 else numbering(t, "bfs")
        pos = [0]

        def sub(u):
            return 1 if is_leaf(u) else 1 + sub(u[2]) + sub(u[3])

        def rec(u, depth):
            me = ids[pos[0]]
            ind = "\t" * depth
            if is_leaf(u):
                pos[0] += 1
                out.append("%s%d:leaf=%s%s" % (ind, me, T("leaf", u), ",cover=12.5" if var == 2 else ""))
                return
            yes, no = ids[pos[0] + 1], ids[pos[0] + 1 + sub(u[2])]
            out.append("%s%d:[f%d<%s] yes=%d,no=%d,missing=%d%s" % (ind, me, u[0], T("thr", u[1]), yes, no, yes, ",gain=3.25,cover=40" if var == 2 else ""))
            pos[0] += 1
            rec(u[2], depth + 1)
            rec(u[3], depth + 1)
        rec(t, 0)
    return "\n".join(out) + ("\n" if var != 3 else "")


def sklearn_text(E, trees, T, base, lr, var=0):
    out = ["base_score=%s" % E.text(base), "learning_rate=%s" % E.text(lr)]
    for i, t in enumerate(trees):
        out.append("booster[%d] [f1 f2]:" % i)
        ids = numbering(t, "pre" if var != 1 else "bfs")
        pos = [0]

        def rec(u, depth):
            me = ids[pos[0]]
            pos[0] += 1
            ind = "\t" * depth
            if is_leaf(u):
                out.append("%s%d:leaf=%s" % (ind, me, T("leaf", u)))
                return
            out.append("%s%d:[f%d<=%s]" % (ind, me, u[0], T("thr", u[1])))
            rec(u[2], depth + 1)
            rec(u[3], depth + 1)
        rec(t, 1)
    return "\n".join(out) + ("\n" if var != 3 else "")


# ---------------------------------------------------------------- LightGBM / Jforests
def split_arrays(t, order="pre", leaves="ltr"):
    """(features, thresholds, left, right, leaf values): children >= 0 are splits, ~k is leaf k"""
    splits = []      # positions in numbering order

    def walk():
        if order == "pre":
            def rec(pos, u):
                if is_leaf(u):
                    return
                splits.append((pos, u))
                rec(pos + (0,), u[2])
                rec(pos + (1,), u[3])
            rec((), t)
        else:
            q = [((), t)]
            while q:
                pos, u = q.pop(0)
                if is_leaf(u):
                    continue
                splits.append((pos, u))
                kids = [(pos + (0,), u[2]), (pos + (1,), u[3])]
                q += kids if order == "bfs" else kids[::-1]
    walk()
    if len(splits) > 2 and leaves == "rot":
        # the root keeps its number, of the others children come before their parents
        splits[1:] = splits[:0:-1]
    lv = []

    def rl(pos, u):
        if is_leaf(u):
            lv.append((pos, u))
        else:
            rl(pos + (0,), u[2])
            rl(pos + (1,), u[3])
    rl((), t)
    if leaves == "rtl":
        lv.reverse()
    elif leaves == "rot":
        lv = lv[1:] + lv[:1]
    sid = {p: k for k, (p, _) in enumerate(splits)}
    lid = {p: k for k, (p, _) in enumerate(lv)}

    def ref(p):
        return sid[p] if p in sid else -1 - lid[p]
    return ([u[0] for _, u in splits], [u[1] for _, u in splits], [ref(p + (0,)) for p, _ in splits], [ref(p + (1,)) for p, _ in splits], [u for _, u in lv])


def lightgbm(E, trees, T, var=0):
    order = ["pre", "bfs", "rbfs", "bfs"][var % 4]
    leaves = ["ltr", "rtl", "rot", "rot"][var % 4]
    out = ["tree", "num_class=1", "num_tree_per_iteration=1", "label_index=0", "max_feature_idx=135", "objective=lambdarank",
           "feature_names=Column_0 Column_1", "feature_infos=[0:7] [0:4]", ""]
    J = lambda xs: " ".join(xs)
    for i, t in enumerate(trees):
        f, th, l, r, lv = split_arrays(t, order, leaves)
        n = len(f)
        out += ["Tree=%d" % i, "num_leaves=%d" % len(lv), "split_feature=" + J("%d" % v for v in f), "split_gain=" + J("24.5" for _ in f),
                "threshold=" + J(T("thr", v) for v in th), "decision_type=" + J("2" for _ in f), "default_value=" + J("0" for _ in f),
                "left_child=" + J("%d" % v for v in l), "right_child=" + J("%d" % v for v in r), "leaf_parent=" + J("0" for _ in lv),
                "leaf_value=" + J(T("leaf", v) for v in lv), "leaf_count=" + J("7" for _ in lv), "internal_value=" + J("0.25" for _ in f),
                "internal_count=" + J("9" for _ in f), "shrinkage=0.1", "has_categorical=0", "", ""]
    out += ["feature importances:", "Column_55=2", ""]
    return ("\r\n" if var == 3 else "\n").join(out)


def jforests(E, trees, weights, T, var=0):
    order = ["pre", "bfs", "rbfs"][var % 3]
    leaves = ["ltr", "rtl", "rot"][var % 3]
    out = ["<Ensemble>"]
    J = lambda xs: " ".join(xs)
    for t, w in zip(trees, weights):
        f, th, l, r, lv = split_arrays(t, order, leaves)
        out += ['<Tree leaves="%d" weight="%s">' % (len(lv), T("weight", w)), "<SplitFeatures>%s</SplitFeatures>" % J("%d" % v for v in f),
                "<LeftChildren>%s</LeftChildren>" % J("%d" % v for v in l), "<RightChildren>%s</RightChildren>" % J("%d" % v for v in r),
                "<Thresholds>%s</Thresholds>" % J("14" for _ in f), "<OriginalThresholds>%s</OriginalThresholds>" % J(T("thr", v) for v in th),
                "<LeafOutputs>%s</LeafOutputs>" % J(T("leaf", v) for v in lv), "</Tree>"]
    out.append("</Ensemble>")
    return ("" if var == 1 else "\n").join(out)


# ---------------------------------------------------------------- large files
def large_trees(E, kind, single=True):
    """(trees, documents): a large ensemble of fixed trees, with one symbolic tree on feature 1 at its end"""
    last = (1, E.real("bt", -8, 8), E.real("bl", -8, 8), E.real("br", -8, 8))
    vals = [0, 40, 149]
    if kind == "many":
        trees = [0.25 * (k % 7) if single and k % 3 == 0 else (k % 4 * 70, k + 0.5, k * 0.25 - 9.0, (2, 0.5 * k - 20.0, 2.0, 0.75 * (k % 5))) for k in range(150)] + [last]
    elif kind == "leaves":
        trees = [bst(0, 300), bst(0, 7), last]
        vals = [0, 6, 128, 255, 299]
    else:
        trees = [chain(60), last, chain(45, 0, "L")]
        vals = [0, 59, 60, -44]
    X = [[float(v), E.real("bx%d" % i, -9, 9)] + [0.0] * 209 for i, v in enumerate(vals)]
    for r in X:
        r[2], r[70], r[140], r[210] = r[0] * 0.5 - 7.0, r[0] + 3.0, r[0] - 60.0, r[0] + 9.0
    return trees, X


LARGE = "; ensembles of 151 trees, trees of 300 leaves or 60 levels with fixed numbers and one symbolic tree"


# ---------------------------------------------------------------- common harness parts
def feature_trees(E, shapes_, feats):
    """trees with symbolic numbers, feature ids chosen among feats"""
    def rec(s, tag, cnt):
        i = cnt[0]
        cnt[0] += 1
        if s is None:
            return E.real("%sv%d" % (tag, i), -8, 8)
        f = E.pick("%sf%d" % (tag, i), feats) if len(feats) > 1 else feats[0]
        th = E.real("%st%d" % (tag, i), -8, 8)
        return (f, th, rec(s[0], tag, cnt), rec(s[1], tag, cnt))
    return [rec(s, "t%d_" % k, [0]) for k, s in enumerate(shapes_)]


def docs(E, n, feats, width=None):
    """n documents: symbolic at the features in use, 0 elsewhere"""
    width = width or max(feats) + 1
    return [[E.real("x%d_%d" % (i, f), -9, 9) if f in feats else 0.0 for f in range(width)] for i in range(n)]


def values_of(t):
    if is_leaf(t):
        return [t]
    return [t[1]] + values_of(t[2]) + values_of(t[3])


def check_values(E, m, trees, weights, what, thr=True):
    """every node has the feature and, to single precision, the threshold or leaf value it should have"""
    def rec(i, t):
        if is_leaf(t):
            E.near(m.trees_nodes_value[i], t, what + ": value of a leaf")
            return
        E.check(int(m.trees_nodes_feature[i]) == t[0], what + ": feature of a split")
        if thr:
            E.near(m.trees_nodes_value[i], t[1], what + ": threshold of a split")
        rec(int(m.trees_left_child[i]), t[2])
        rec(int(m.trees_right_child[i]), t[3])
    for k, (t, w) in enumerate(zip(trees, weights)):
        E.near(m.trees_weight[k], w, what + ": weight of a tree")
        rec(int(m.trees_root[k]), t)


def check_model(E, m, trees, weights, X, base, lr, what, thr=True):
    """m consists of exactly these trees and scores like them"""
    E.check(int(m.n_trees) == len(trees), what + ": number of trees")
    E.check([int(v) for v in m.num_nodes()] == [num_nodes(t) for t in trees] and int(m.n_nodes) == sum(num_nodes(t) for t in trees), what + ": number of nodes")
    E.check([int(v) for v in m.num_leaves()] == [num_leaves(t) for t in trees], what + ": number of leaves")
    E.check([int(v) for v in m.height_trees()] == [height(t) for t in trees], what + ": height of the trees")
    check_values(E, m, trees, weights, what, thr)
    n = len(X)
    d = make_dataset(E, X, [0.0] * n, [1] * n)
    y = m.score(d)
    E.observe("y", y)
    ref = ref_scores(E, [conc_tree(E, t) for t in trees], weights, cmatrix(E, X), base, lr)
    for i in range(n):
        E.close(y[i], ref[i], what + ": the score of a document is not what the file says")
