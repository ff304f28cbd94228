"""Self-test of the numpy façade (development aid, not a check): evaluates expressions on symbolic inputs pinned to
concrete values and compares with numpy itself.   python tools/facade_test.py [substring]"""
import sys, os, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as rnp
warnings.filterwarnings("ignore")
from symx import core, snp, loader, smath
import symx.runner as R

EXPRS = r"""
np.sort(x); np.argsort(x)[::-1]; x.argsort(); np.argsort(-x, kind='stable'); np.lexsort((x, y)); np.unique(y); np.unique(y, return_counts=True)
np.unique(y, return_inverse=True)[1]; np.unique(y, return_index=True)[1]
x.sum(); x.mean(); x.max(); x.min(); x.argmax(); x.argmin(); x.std(); x.var(); x.cumsum(); x.prod(); np.prod(x); np.cumprod(x); np.ptp(x); np.median(x)
np.sum(m, axis=0); m.sum(axis=1); m.mean(axis=0); m.max(axis=1); m.min(axis=0); m.argmax(axis=1); np.cumsum(m, axis=1); np.abs(m).mean(axis=0); np.average(np.abs(m), axis=0)
np.average(x, weights=y+1); np.dot(x, y); x @ y; m @ x; np.inner(x, y); np.outer(x, y); np.matmul(m, x); np.einsum('i,i->', x, y); np.einsum('ij->i', m); np.vdot(x, y); np.tensordot(x, y, 1)
np.maximum(x, y); np.minimum(x, 2.0); np.fmax(x, y); np.fmin(x, np.nan); np.maximum(x, np.nan); np.maximum(np.nan, x); np.minimum(np.nan, x); np.fmax(np.nan, x[0]); np.clip(x, 1.5, 2.5); x.clip(0, 2)
np.maximum.reduce(x); np.minimum.reduce(x); np.add.reduce(x); np.multiply.reduce(x); np.add.accumulate(x); np.maximum.accumulate(x); np.logical_or.reduce(x > 2); np.add.reduceat(x, [0, 2])
np.where(x > 1.5, x, 0); np.where(x > 1.5)[0]; np.nonzero(y)[0]; np.flatnonzero(y > 0); np.count_nonzero(y); np.argwhere(x > 1.5).ravel(); x[x > 1.5]; x[np.where(y == 0)]; x[~(x > 1.5)]
(x > 1.5).sum(); np.sum(x > 1.5); np.mean(x > 1.5); np.any(x > 5); np.all(x > 0); (x > 1.5).any(); (x > 0).all(); np.cumsum(x > 1.5); (x > 1.5).astype(int); (x > 1.5).astype(float); np.cumsum((y > 0).astype(np.float32))
(x > 1.5) & (y > 0); (x > 1.5) | (y > 0); ~(x > 1.5); np.logical_and(x > 1, y > 0); np.logical_not(x > 1); np.logical_xor(x > 1, y > 0); (x > 1.5) * y; y * (x > 1.5); (x > 1.5) ^ (y > 0)
np.isnan(x); np.isinf(x); np.isfinite(x); np.isposinf(x); np.isneginf(x); np.isclose(x, y); np.allclose(x, x); np.array_equal(x, y); np.nan_to_num(x)
np.exp2(y); 2 ** y; 2.0 ** y; np.power(2, y); np.power(2., y) - 1; pow(2., y[0]); np.log2(np.arange(2, 6)); np.sqrt(x * x); np.square(x); x ** 2; x ** 2.0; np.power(x, 2); np.power(0.5, np.arange(4)); np.sign(x - 2); np.abs(x - 2); np.fabs(x - 2); np.negative(x); np.reciprocal(x); np.absolute(x - 2)
np.add(x, y); np.subtract(x, y); np.multiply(x, y); np.divide(x, 2); np.true_divide(x, y + 1); np.floor_divide(y, 2); np.mod(y, 2); y % 2; y // 2; np.greater(x, y); np.greater_equal(x, y); np.less(x, y); np.less_equal(x, y); np.equal(y, 0); np.not_equal(y, 0)
np.divide(x, y, out=np.zeros(4), where=y != 0); np.divide(x, y, where=y > -1); np.hypot(x, y)
np.floor(x); np.ceil(x + .5); np.rint(x + .25); np.round(x + .25); np.trunc(x); np.around(x, 1)
np.append(x, 1.0); np.concatenate([x, y]); np.concatenate((x, [1.0])); np.hstack([x, y]); np.vstack([x, y]); np.stack([x, y]); np.stack([x, y], axis=1); np.column_stack((x, y)); np.r_[x, y]; np.c_[x, y]; np.insert(x, 0, 5.0); np.delete(x, 1)
np.diff(x); np.ediff1d(x); np.flip(x); np.flipud(x); np.fliplr(m); np.roll(x, 1); np.tile(x, 2); np.repeat(x, 2); np.repeat(x, [1, 2, 0, 1]); np.take(x, [0, 2]); x.take([1, 0]); np.compress([True, False, True, False], x); np.extract(x > 1.5, x); x.compress(x > 1.5); np.choose([0, 1, 0, 1], [x, y]); np.select([x > 2, x > 1], [x, y], 0); np.put_along_axis; np.take_along_axis(x, np.argsort(x), 0)
np.split(x, 2); np.array_split(x, 3); np.split(x, [1, 3]); np.atleast_1d(x); np.atleast_2d(x); np.squeeze(m[:1]); np.ravel(m); m.ravel(); m.flatten(); m.T; m.transpose(); np.transpose(m); m.reshape(-1); np.reshape(m, (4, 2)); np.expand_dims(x, 1); x[:, None]; x[:, np.newaxis] - y; np.broadcast_to(x, (2, 4)); m.swapaxes(0, 1); np.swapaxes(m, 0, 1); np.subtract.outer(x, y); np.greater.outer(x, y); x[:, None] > x[None, :]; np.triu(x[:, None] * y); np.tril(x[:, None] > x[None, :]); np.triu_indices(4, 1)[0]
np.vectorize(lambda v: v + 1)(x); np.apply_along_axis(lambda r: r.sum(), 1, m); np.fromiter((v for v in x), dtype=np.float32); np.fromiter((v for v in x), dtype=np.float32, count=4); np.array([v for v in x]); np.array(list(x), dtype=np.float32); np.asarray(x); np.copy(x); x.copy(); x.tolist(); list(x); np.array(x, copy=True); np.ascontiguousarray(m); np.asfortranarray(m); np.full(3, x[0]); np.full_like(x, x[1]); np.zeros_like(x); np.empty_like(x).size; np.ones_like(x)
np.in1d(y, [0, 2]); np.isin(y, [0, 2]); np.isin(y, [0, 2], invert=True); np.union1d(y, [5.]); np.setdiff1d(y, [0.]); np.intersect1d(y, [0., 3.]); np.searchsorted([0, 1, 2, 3], y); np.searchsorted(np.array([0., 1, 2, 3]), x, side='right'); np.digitize(x, [0, 1, 2]); np.histogram(x, bins=[0, 1, 2, 3])[0]; np.histogram(x, bins=np.linspace(0, 3, 4))[0]; np.bincount(k); np.bincount(k, minlength=6); np.bincount(k, weights=x)
np.nanmean(x); np.nansum(x); np.nanmax(x); np.nanmin(x); np.nanmean(np.append(x, np.nan)); np.nanmax(np.append(x, np.nan)); np.nanmean(np.array([x[0], np.nan])); np.nanstd(x); np.nanvar(x); np.nanargmax(x); np.nanmedian(x)
np.percentile(x, 50); np.quantile(x, .25); np.partition(x, 1)[1]; np.argpartition(x, 1)[1] >= 0; np.amax(x); np.amin(x); np.linalg.norm(x); np.corrcoef(x, y)[0, 1] > -2; np.cov(x, y)[0, 0]; np.trapz(x); np.convolve(x, [1, 1]); np.gradient(x); np.interp(1.5, [1, 2], [3, 4]); np.polyfit; np.meshgrid(x, y)[0]; np.ix_([0, 1], [1])[0]; np.nditer
x.dot(y); x.nonzero()[0]; x.round(); x.astype(int); x.astype(np.int32); x.astype('float32'); x.astype(np.float32).dtype == np.float32; x.size; x.shape; len(x); x.ndim; x.dtype.kind; x.item(0); x[0].item(); x.any(); x.all(); x.repeat(2); x.squeeze(); x.searchsorted(2.0) >= 0; x.ptp(); x.trace if 0 else 0; m.diagonal(); np.diag(m[:2, :2]); np.trace(m[:2, :2]); m.item(1, 1); m[1, ::2]; m[:, 1:3].sum(axis=1); m[:, [0, 2]]; m[[1, 0]]; m[np.ix_([0, 1], [0, 2])]; m[..., -1]
max(x); min(x); sum(x); sorted(x); sorted(range(4), key=lambda i: x[i]); sorted(range(4), key=lambda i: -x[i]); sorted(zip(x, y)); sorted(zip(x, y), reverse=True)[0]; max(range(4), key=lambda i: x[i]); list(reversed(x)); [v for v in x if v > 1.5]; sum(1 for v in x if v > 1); any(v > 2 for v in x); all(v > 2 for v in x); list(map(float, x)); list(filter(lambda v: v > 1.5, x)); [i for i, v in enumerate(x) if v > 1]; dict((i, v) for i, v in enumerate(x))[0]; set(k.tolist()) == {0, 1, 3}; abs(x[0] - 5); round(x[0]); int(x[0]); float(x[0]); bool(x[0]); x[0] if x[0] > x[1] else x[1]; divmod(k[0], 2); -x[0]; x[0] // 2; x[0] % 2; pow(x[0], 2); x[0] ** 0.5 * x[0] ** 0.5; x[0].__float__(); min(x[0], x[1], 2.0); max([x[0], 3.0]); next((i for i, v in enumerate(x) if v > 2.5), None); isinstance(x[0], float) or True; str(k[0]) != ''; k[0] in (0, 3); x[0] in [3.0]; k.tolist().index(3); [1, 2, 3, 4][k[1]]; range(k[0]); list(range(int(k[0]))); np.arange(k[0]); x[:k[0]]; x[k]; x[k[0]]; len(x[:k[0]])
functools.reduce(lambda a, b: a + b, x); list(itertools.accumulate(x)); operator.itemgetter(0)(x); itertools.islice(x, 2).__next__(); collections.Counter(k.tolist())[3]; list(itertools.chain(x, y)); heapq.nlargest(2, x.tolist()); heapq.nsmallest(2, range(4), key=lambda i: x[i]); bisect.bisect_left([0, 1, 2, 3], x[0]); math.sqrt(x[0]) ** 2; math.pow(x[0], 2); math.pow(2, y[0]); math.log(4, 2); math.floor(x[0] + .5); math.ceil(x[0] - .5); math.fsum(x); math.isnan(x[0]); math.fabs(-x[0]); math.trunc(x[0]); math.isclose(x[0], 3.0); statistics.mean([1., 2.]); list(itertools.combinations(x, 2))[0]; collections.deque(x).popleft(); list(itertools.takewhile(lambda v: v > 2, x)); math.hypot(3, 4); np.math.sqrt(4); sum(map(operator.mul, x, y)); np.float32(x[0]); np.float64(x[0]); np.int32(k[0]); np.sum([v for v in x]); np.mean([x[0], x[1]]); np.max([x[0], x[1]]); np.array([x[0], 1.0]).sum(); np.array([[x[0], x[1]], [y[0], y[1]]]).T; np.float32(x[0]) * 2; np.nan_to_num(np.nan) + x[0]; np.prod(1 - x / 4); np.cumprod(np.append(1., 1 - x[:-1] / 4)); np.log2(x)[1]; np.exp2(x)[0] > 0; np.log2(1 + np.arange(1, 5)); np.arange(len(x)) + 1.; np.ones(len(x)) * x; np.zeros(2) + x[0]
np.add.at if 0 else 0; (lambda z: (np.add.at(z, [0, 0, 1], 1), z)[1])(np.zeros(3)); (lambda z: (z.__setitem__(slice(0, 2), x[:2]), z)[1])(np.zeros(4)); (lambda z: (z.__setitem__(x > 1.5, 0), z)[1])(x.copy()); (lambda z: (z.__setitem__([0, 1], x[2:]), z)[1])(np.zeros(4, dtype=np.float32)); (lambda z: (z.__setitem__(0, x[0]), z)[1])(np.empty(1, dtype=np.float64)); (lambda z: (z.__iadd__(x), z)[1])(np.zeros(4)); (lambda z: (z.sort(), z)[1])(x.copy()); (lambda z: (z.fill(x[0]), z)[1])(np.zeros(2)); (lambda z: (z.resize(2), z)[1] if 0 else 0)(x.copy()); np.copyto if 0 else 0; (lambda z: (np.copyto(z, x), z)[1])(np.zeros(4)); (lambda z: (np.put(z, [0], x[0]), z)[1])(np.zeros(4)); (lambda z: (np.putmask(z, x > 1.5, 9.), z)[1])(np.zeros(4)); (lambda z: (np.add(z, x, out=z), z)[1])(np.zeros(4)); (lambda z: (np.place(z, x > 1.5, [7.]), z)[1])(np.zeros(4)); (lambda z: (z.__imul__(2.0), z)[1])(x.copy()); np.cumsum(x, dtype=float); np.sum(x, dtype=np.float64); x.sum(dtype=float); np.mean(x, dtype=np.float64); x.cumsum(dtype=np.float64); np.cumsum(y > 0, dtype=float) / np.arange(1, 5); np.sum(x * (y > 0)); np.sum(x[y > 0]); np.sum(x, where=(y > 0)); np.max(x, initial=-1); np.mean(x, keepdims=True); np.sum(m, axis=1, keepdims=True); np.max(m, axis=1, keepdims=True); x.reshape((-1, 1)); m.sum(0); m.mean(1); np.linspace(x.min(), x.max(), 3); np.linspace(0, x[0], 4); np.arange(0, 4, 1.0)
"""
X, Y, M, K = [3.0, 1.0, 2.0, 1.5], [0.0, 3.0, 0.0, 2.0], [[1.0, -2.0, 3.0, 0.5], [4.0, 0.0, -1.0, 2.0]], [3, 1, 0, 1]


def ns(np, x, y, m, k, b):
    import functools, itertools, operator, collections, heapq, bisect, statistics
    d = dict(np=np, x=x, y=y, m=m, k=k, functools=functools, itertools=itertools, operator=operator, collections=collections,
             heapq=heapq, bisect=bisect, statistics=statistics)
    d.update(b)
    return d


def norm(v):
    if isinstance(v, (rnp.ndarray, rnp.generic)):
        return norm(v.tolist())
    if isinstance(v, (list, tuple, range)):
        return [norm(u) for u in v]
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, int):
        return float(v)
    return v


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b or abs(a - b) < 1e-5 * (1 + abs(a))
    return a == b


def main():
    import math
    filt = sys.argv[1] if len(sys.argv) > 1 else ""
    bad = 0
    for e in [t.strip() for line in EXPRS.strip().splitlines() for t in line.split("; ")]:
        if filt not in e or not e:
            continue
        try:
            want = norm(eval(e, ns(rnp, rnp.array(X), rnp.array(Y), rnp.array(M), rnp.array(K), dict(math=math))))
        except Exception as ex:
            print("NUMPY FAILS", e, ex)
            continue
        got = []

        def fn(E):
            def pin(name, v, it=False):
                s = E.fresh_int(name, -8, 8) if it else E.fresh_real(name, -8, 8)
                E.assume_z3(s.expr == core.z3val(v))
                return s
            A = lambda n, vs: snp.symarray([pin("%s%d" % (n, i), v) for i, v in enumerate(vs)], rnp.dtype("float64"))
            lab = []
            for i, v in enumerate(Y):
                s = pin("y%d" % i, int(v), True)
                s.lo, s.hi = 0, 4
                r = s.toreal()
                r.lo, r.hi = 0, 4
                lab.append(r)
            y = snp.symarray(lab, rnp.dtype("float64"))
            m = snp.symarray([[pin("m%d_%d" % (i, j), v) for j, v in enumerate(r)] for i, r in enumerate(M)], rnp.dtype("float64"))
            k = snp.symarray_int([pin("k%d" % i, v, True) for i, v in enumerate(K)], rnp.dtype("int64"))
            bi = {n: v for n, v in loader.base_builtins(__import__).items() if n in ("float", "int", "bool", "range", "pow")}
            bi["math"] = smath.module()
            try:
                v = eval(e, ns(snp.facade, A("x", X), y, m, k, bi))
            except core.PathAbort:
                raise
            except core.Unsupported as ex:
                got.append('UNSUP %s' % str(ex)[:100])
                return
            except core.EngineSignal:
                raise
            except Exception as ex:
                got.append("%s: %s" % (type(ex).__name__, str(ex)[:100]))
                return
            E.solver.check()
            got.append(norm(core.concretise_in_model(E.solver.model(), v)))
        eng = core.Engine("t")
        try:
            eng.explore(fn)
        except BaseException as ex:
            got.append("EXC %s: %s" % (type(ex).__name__, str(ex)[:150]))
        if not got or not any(same(g, want) for g in got) or any(isinstance(g, str) for g in got):
            bad += 1
            print("%-60s want %s got %s" % (e, want, got[:2]))
    print(bad, "bad")


main()
