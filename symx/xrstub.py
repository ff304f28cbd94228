"""The part of xarray the analyses build their results with: a labelled array with the checks of the real constructor."""
import types
import numpy as rnp
from . import snp
from .core import Unsupported


class Coord(object):
    def __init__(self, v):
        self.values = v

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)

    def __getitem__(self, k):
        return self.values[k]

    def __array__(self, dtype=None, copy=None):
        return rnp.asarray(self.values)

    @property
    def data(self):
        return self.values

    def tolist(self):
        return list(self.values)


class DataArray(object):
    def __init__(self, data, coords=None, dims=None, name=None, attrs=None):
        a = data if isinstance(data, rnp.ndarray) else snp.facade.array(data)
        self.values = a
        self.name = name
        self.attrs = dict(attrs or {})
        if isinstance(dims, str):
            dims = [dims]
        if dims is None and isinstance(coords, dict):
            dims = list(coords)
        if dims is None and isinstance(coords, (list, tuple)) and coords and all(isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], str) for c in coords):
            dims = [c[0] for c in coords]
            coords = [c[1] for c in coords]
        if dims is None:
            dims = ["dim_%d" % i for i in range(a.ndim)]
        self.dims = tuple(dims)
        if len(self.dims) != a.ndim:
            raise ValueError("different number of dimensions on data and dims: %d vs %d" % (a.ndim, len(self.dims)))
        self.coords = {}
        if coords is not None:
            items = coords.items() if isinstance(coords, dict) else zip(self.dims, coords)
            if not isinstance(coords, dict) and len(coords) != a.ndim:
                raise ValueError("coords is not dict-like, but it has %d items, which does not match the %d dimensions of the data" % (len(coords), a.ndim))
            for d, c in items:
                if isinstance(c, tuple) and len(c) == 2 and isinstance(c[0], str) and d not in self.dims:
                    c = c[1]
                c = getattr(c, "values", c)
                c = list(c) if not isinstance(c, rnp.ndarray) else c
                if d in self.dims and len(c) != a.shape[self.dims.index(d)]:
                    raise ValueError("conflicting sizes for dimension %r" % d)
                self.coords[d] = Coord(c)

    @property
    def shape(self):
        return self.values.shape

    @property
    def ndim(self):
        return self.values.ndim

    @property
    def size(self):
        return self.values.size

    @property
    def data(self):
        return self.values

    @property
    def dtype(self):
        return self.values.dtype

    def _index(self, d, want):
        if d not in self.dims:
            raise KeyError("%r is not a valid dimension or coordinate" % (d,))
        if d not in self.coords:
            return int(want)
        for i, c in enumerate(self.coords[d]):
            if c is want or (type(c) is type(want) or isinstance(c, (int, float, str, rnp.generic)) and isinstance(want, (int, float, str, rnp.generic))) and c == want:
                return i
        raise KeyError(want)

    def _pick(self, at):
        a = self.values
        if not isinstance(a, rnp.ndarray):
            raise Unsupported("selecting from a 0-d DataArray")
        v = a[tuple(at.get(d, slice(None)) for d in self.dims)]
        if not isinstance(v, rnp.ndarray):
            z = rnp.empty((), dtype=object)
            z[()] = v
            v = z
        dims = [d for d in self.dims if not isinstance(at.get(d), int)]
        coords = {}
        for d in dims:
            if d in self.coords:
                c = self.coords[d].values
                coords[d] = c[at[d]] if d in at else c
        return DataArray(v, coords=coords, dims=dims, name=self.name)

    def sel(self, indexers=None, drop=False, **kw):
        at = {}
        for d, w in dict(indexers or {}, **kw).items():
            if isinstance(w, (list, rnp.ndarray)) and not isinstance(w, str):
                raise Unsupported("DataArray.sel with a list")
            at[d] = self._index(d, w)
        return self._pick(at)

    def isel(self, indexers=None, drop=False, **kw):
        at = {}
        for d, w in dict(indexers or {}, **kw).items():
            if d not in self.dims:
                raise ValueError("dimension %r does not exist" % d)
            at[d] = w if isinstance(w, slice) else int(w)
        return self._pick(at)

    @property
    def loc(self):
        return _Loc(self)

    @property
    def sizes(self):
        return dict(zip(self.dims, self.values.shape))

    def to_numpy(self):
        return self.values

    def squeeze(self, *a, **k):
        if a or k:
            raise Unsupported("DataArray.squeeze of one dimension")
        return self.isel(**{d: 0 for d, n in self.sizes.items() if n == 1})

    @property
    def indexes(self):
        return dict(self.coords)

    @property
    def T(self):
        return DataArray(self.values.T, coords={d: self.coords[d] for d in reversed(self.dims) if d in self.coords}, dims=list(reversed(self.dims)), name=self.name)

    def transpose(self, *dims):
        dims = list(dims) or list(reversed(self.dims))
        return DataArray(self.values.transpose([self.dims.index(d) for d in dims]), coords={d: self.coords[d] for d in dims if d in self.coords}, dims=dims, name=self.name)

    def __array__(self, dtype=None, copy=None):
        return rnp.asarray(self.values)

    def _bin(self, f, o):
        return DataArray(f(self.values, getattr(o, "values", o)), coords=dict(self.coords), dims=list(self.dims), name=self.name)

    def __mul__(self, o):
        return self._bin(lambda a, b: a * b, o)
    __rmul__ = __mul__

    def __add__(self, o):
        return self._bin(lambda a, b: a + b, o)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(lambda a, b: a - b, o)

    def __truediv__(self, o):
        return self._bin(lambda a, b: a / b, o)

    def max(self, *a, **k):
        return self._reduce("nanmax", a, k)

    def min(self, *a, **k):
        return self._reduce("nanmin", a, k)

    def _reduce(self, n, a, k):
        if a or set(k) - {"skipna"}:
            raise Unsupported("DataArray.%s over dimensions" % n)
        z = rnp.empty((), dtype=object)
        z[()] = getattr(snp.facade, n)(self.values)
        return DataArray(z, dims=[])

    def item(self):
        return self.values.item()

    def __float__(self):
        return float(self.values.item())

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.coords[k]
        return self.values[k]

    def __setitem__(self, k, v):
        self.values[k] = v

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = self.__dict__.get("coords") or {}
        if n in c:
            return c[n]
        raise Unsupported("xarray.DataArray." + n)


class _Loc(object):
    def __init__(self, da):
        self.da = da

    def __getitem__(self, k):
        if isinstance(k, dict):
            return self.da.sel(**k)
        k = k if isinstance(k, tuple) else (k,)
        return self.da.sel(**{d: v for d, v in zip(self.da.dims, k) if not (isinstance(v, slice) and v == slice(None))})


def module():
    m = types.ModuleType("xarray")
    m.DataArray = DataArray

    def missing(n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("xarray." + n)
    m.__getattr__ = missing
    return m
