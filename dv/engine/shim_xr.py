"""xarray (the part the verified functions use) over symbolic arrays.  These are the assumed contracts of xarray."""
from . import core, arr, vc
from .core import S, Sc, B, Unsupported, binop, ite, truth, isnan, norm_const, NAN, Fraction, is_f
from .arr import Arr, lazy, as_value, emap, CodeError, same_size, isx


class SymDA:
    __sym_da__ = True
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, data=None, dims=None, coords=None, attrs=None, name=None, **k):
        if hasattr(data, '__sym_da__'):
            dims = data.dims if dims is None else dims
            attrs = dict(data.attrs) if attrs is None else attrs
            data = data.arr
        if hasattr(data, 'mag_units'):
            data = data.m
        data = as_value(data)
        if not isinstance(data, Arr):
            data = arr.full((), data) if not dims else arr.full(tuple(1 for _ in dims), data)
        self.arr = data
        if dims is None and isinstance(coords, dict) and len(coords) == data.ndim and not any(isinstance(x, tuple) for x in coords.values()):
            for x, n in zip(coords.values(), data._shape):
                x = as_value(x.arr if hasattr(x, '__sym_da__') else x)
                if not isinstance(x, Arr) or x.ndim != 1 or not same_size(x._shape[0], n):
                    raise Unsupported("coordinates of another size")
            dims = tuple(coords)
        if dims is None:
            dims = tuple(f"dim_{i}" for i in range(data.ndim))
        if isinstance(dims, str):
            dims = (dims,)
        self.dims = tuple(dims)
        if len(self.dims) != data.ndim:
            raise CodeError(f"different number of dimensions on data and dims: {data.ndim} vs {len(self.dims)}")
        self.attrs = dict(attrs) if attrs else {}
        self.name = name
        self.coords = {}
        self.encoding = {}

    # ------------------------------------------------------------- basics
    @property
    def values(self):
        return self.arr

    @values.setter
    def values(self, v):
        v = as_value(v)
        if isinstance(v, Arr):
            if v.ndim != self.arr.ndim or not all(same_size(a, b) for a, b in zip(v._shape, self.arr._shape)):
                raise CodeError("replacement data must match the variable's shape")
            self.arr.buf, self.arr.view, self.arr._shape = v.buf, v.view, v._shape
        else:
            self.arr.assign(v)
    data = values

    @property
    def shape(self):
        return self.arr.shape

    @property
    def size(self):
        return self.arr.size

    @property
    def ndim(self):
        return self.arr.ndim

    @property
    def dtype(self):
        return self.arr.dtype

    @property
    def sizes(self):
        return dict(zip(self.dims, self.arr.shape))

    @property
    def T(self):
        return self._mk(self.arr.T, self.dims[::-1])

    @property
    def magnitude(self):
        return self

    def __sym_len__(self):
        return self.arr.shape[0]

    def __len__(self):
        return len(self.arr)

    def _mk(self, a, dims, attrs=None):
        if not isinstance(a, Arr):
            return a
        return SymDA(a, dims=dims, attrs=attrs)

    def _new(self, a, keep=True):
        return SymDA(a, dims=self.dims, attrs=self.attrs if keep else None)

    def copy(self, deep=True, data=None):
        return self._new(self.arr.copy() if data is None else as_value(data))

    def load(self):
        return self
    compute = persist = load

    def astype(self, t, **k):
        return self._new(self.arr.astype(t))

    def item(self):
        return self.arr.item()

    def __getitem__(self, key):
        if isinstance(key, str):
            raise Unsupported("coordinate access")
        if isinstance(key, dict):
            return self.isel(key)
        r = self.arr[key]
        if not isinstance(r, Arr):
            if isinstance(r, arr.Masked):
                return r
            return SymDA(arr.full((), r), dims=(), attrs=self.attrs) if False else r
        k = key if isinstance(key, tuple) else (key,)
        if any(x is None or x is Ellipsis or not isinstance(x, (slice, int, Sc)) for x in k):
            if any(x is None for x in k):
                raise Unsupported("newaxis on a DataArray")
            if isinstance(k[0], Arr) and len(k) == 1 and r.ndim == self.ndim:
                return SymDA(r, dims=self.dims, attrs=self.attrs)
            raise Unsupported("DataArray advanced indexing")
        k = list(k) + [slice(None)] * (self.ndim - len(k))
        return SymDA(r, dims=[d for d, x in zip(self.dims, k) if isinstance(x, slice)], attrs=self.attrs)

    def __setitem__(self, key, val):
        if hasattr(val, '__sym_da__'):
            val = val.arr
        self.arr[key] = val

    def isel(self, ind=None, **k):
        ind = dict(ind or {}, **k)
        return self[tuple(ind.get(d, slice(None)) for d in self.dims)]

    def transpose(self, *dims):
        if not dims:
            return self.T
        return self._mk(arr.transpose(self.arr, [self.dims.index(d) for d in dims]), dims, self.attrs)

    def swap_dims(self, m):
        return SymDA(self.arr, dims=[m.get(d, d) for d in self.dims], attrs=self.attrs)

    def expand_dims(self, dim, axis=0):
        if isinstance(dim, str) and axis == 0:
            return SymDA(self.arr[None], dims=(dim,) + self.dims, attrs=self.attrs)
        raise Unsupported("expand_dims")

    def drop_vars(self, *a, **k):
        return self
    reset_coords = drop_vars

    def assign_attrs(self, *a, **k):
        r = self._new(self.arr)
        for d in a:
            r.attrs.update(d)
        r.attrs.update(k)
        return r

    def __iter__(self):
        n = self.arr._shape[0]
        if isx(n):
            raise Unsupported("iteration over a symbolic DataArray")
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        return bool(self.arr)

    # -------------------------------------------------------- named methods
    def fillna(self, v):
        if hasattr(v, '__sym_da__'):
            return self._bin2(lambda a, b: ite(isnan(a), b, a), self, v, keep=True)
        v = norm_const(v) if not isinstance(v, Sc) else v
        return self._new(emap(lambda x: ite(isnan(x), v, x) if is_f(x) else x, self.arr))

    def where(self, cond, other=None, drop=False):
        if drop:
            raise Unsupported("where(drop=True)")
        if callable(cond) and not isinstance(cond, (Arr, SymDA)):
            cond = cond(self)
        oth = NAN if other is None else other
        if hasattr(cond, '__sym_da__') or hasattr(oth, '__sym_da__'):
            return nary(lambda a, c, o: ite(B(truth(c)), a, o), [self, cond, oth], self.attrs)
        return self._new(arr.ew(lambda a, c, o: ite(B(truth(c)), a, o), self.arr, cond, oth))

    def isnull(self):
        return self._new(emap(isnan, self.arr), keep=False)

    def notnull(self):
        return self._new(emap(lambda x: core.s_not(isnan(x)), self.arr), keep=False)

    def clip(self, min=None, max=None):
        from .shim_np import np
        return self._new(np.clip(self.arr, min, max))

    def round(self, *a):
        from .shim_np import np
        return self._new(np.round(self.arr))

    def isin(self, v):
        from .shim_np import np
        return np.isin(self, v)

    def _red(self, name, dim=None, axis=None, skipna=None, **k):
        from .shim_np import np
        if dim is not None:
            ds = (dim,) if isinstance(dim, str) else dim
            axis = tuple(self.dims.index(d) for d in ds)
        if axis is not None and not isinstance(axis, (tuple, list)):
            axis = (axis,)
        a = self.arr
        if name == 'sum' and skipna is not False:
            name = 'nansum'
        if name in ('mean', 'max', 'min') and skipna is not False:
            i = tuple(core.z3.Int(f"pk{d}") for d in range(a.ndim))
            v = a.at(i)
            if isinstance(v, Sc) and v.k == 'f' and v.nan is not False:
                raise Unsupported(f"skipna {name}")
        r = getattr(np, name)(a, axis=tuple(axis) if axis is not None else None)
        if axis is None:
            return r
        ax = [x % self.ndim for x in axis]
        return self._mk(r, [d for i, d in enumerate(self.dims) if i not in ax])

    def sum(self, dim=None, axis=None, **k): return self._red('sum', dim, axis, **k)
    def mean(self, dim=None, axis=None, **k): return self._red('mean', dim, axis, **k)
    def max(self, dim=None, axis=None, **k): return self._red('max', dim, axis, **k)
    def min(self, dim=None, axis=None, **k): return self._red('min', dim, axis, **k)
    def any(self, dim=None, axis=None, **k): return self._red('any', dim, axis, skipna=False)
    def all(self, dim=None, axis=None, **k): return self._red('all', dim, axis, skipna=False)

    # ---------------------------------------------------------- arithmetic
    def _bin2(self, f, a, b, keep=False):
        return nary(f, [a, b], self.attrs if keep else None)

    def _b(self, op, o, rev=False):
        if isinstance(o, arr.Masked):
            raise Unsupported("DataArray with masked")
        if hasattr(o, 'mag_units'):
            return o.op_da(op, self, rev)
        f = (lambda a, b: binop(op, b, a)) if rev else (lambda a, b: binop(op, a, b))
        return nary(f, [self, o], None)

    def __add__(self, o): return self._b('+', o)
    def __radd__(self, o): return self._b('+', o, True)
    def __sub__(self, o): return self._b('-', o)
    def __rsub__(self, o): return self._b('-', o, True)
    def __mul__(self, o): return self._b('*', o)
    def __rmul__(self, o): return self._b('*', o, True)
    def __truediv__(self, o): return self._b('/', o)
    def __rtruediv__(self, o): return self._b('/', o, True)
    def __pow__(self, o): return self._b('**', o)
    def __rpow__(self, o): return self._b('**', o, True)
    def __lt__(self, o): return self._b('<', o)
    def __le__(self, o): return self._b('<=', o)
    def __gt__(self, o): return self._b('>', o)
    def __ge__(self, o): return self._b('>=', o)
    def __eq__(self, o): return self._b('==', o)
    def __ne__(self, o): return self._b('!=', o)
    def __and__(self, o): return self._b('&', o)
    def __or__(self, o): return self._b('|', o)
    def __rand__(self, o): return self._b('&', o, True)
    def __ror__(self, o): return self._b('|', o, True)
    def __neg__(self): return self._new(-self.arr, keep=False)
    def __abs__(self): return self._new(abs(self.arr), keep=False)
    def __invert__(self): return self._new(~self.arr, keep=False)
    __hash__ = None

    def _ip(self, op, o):
        r = nary(lambda a, b: binop(op, a, b), [self, o], None)
        if r.dims != self.dims:
            raise Unsupported("in-place operation changing dimensions")
        self.arr.assign(r.arr)
        return self

    def __iadd__(self, o): return self._ip('+', o)
    def __isub__(self, o): return self._ip('-', o)
    def __imul__(self, o): return self._ip('*', o)
    def __itruediv__(self, o): return self._ip('/', o)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in self.__dict__.get('attrs', {}):
            return self.attrs[n]
        if n in ('units_', 'mag_units', '__sym_arr__', 'units'):
            raise AttributeError(n)
        raise Unsupported(f"DataArray.{n}")

    def __repr__(self):
        return f"DA{self.dims}"


def nary(f, ops, attrs):
    """element-wise over DataArrays, matching dimensions by name; plain arrays match by position of the first DataArray"""
    das = [o for o in ops if hasattr(o, '__sym_da__')]
    dims = []
    for o in das:
        for d in o.dims:
            if d not in dims:
                dims.append(d)
    first = das[0]
    arrs = []
    for o in ops:
        if hasattr(o, '__sym_da__'):
            # bring to dims order
            have = [d for d in dims if d in o.dims]
            a = arr.transpose(o.arr, [o.dims.index(d) for d in have]) if tuple(have) != o.dims else o.arr
            key = tuple(slice(None) if d in o.dims else None for d in dims)
            a = a[key] if a.ndim and len(have) != len(dims) else a
            arrs.append(a)
        else:
            o = as_value(o)
            if isinstance(o, Arr):
                if len(das) > 1 and len(dims) != first.ndim:
                    raise Unsupported("array mixed with differently shaped DataArrays")
                if o.ndim > len(dims):
                    raise CodeError("dimension mismatch")
            arrs.append(o)
    r = arr.ew(f, *arrs)
    if not isinstance(r, Arr):
        r = arr.full((), r)
    if r.ndim != len(dims):
        raise CodeError("dimension mismatch")
    # named dimensions must agree exactly (no size-1 broadcasting in xarray)
    for o in das:
        for d in o.dims:
            if not same_size(o.arr._shape[o.dims.index(d)], r._shape[dims.index(d)]):
                raise CodeError(f"conflicting sizes for dimension {d}")
    return SymDA(r, dims=dims, attrs=attrs)


class _Vars:
    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)

    def __getitem__(self, k):
        return self.d[k]

    def items(self):
        return self.d.items()

    def __len__(self):
        return len(self.d)


class SymDS:
    __sym_ds__ = True

    def __init__(self, vars=None, sizes=None, attrs=None):
        self.__dict__['v'] = {}
        self.__dict__['levels'] = set()        # coordinates that are not dimensions
        self.__dict__['sizes_'] = dict(sizes or {})
        self.__dict__['attrs'] = attrs or {}
        for k, x in (vars or {}).items():
            self[k] = x

    def __getitem__(self, k):
        if isinstance(k, (list, tuple)) and not isinstance(k, str):
            return SymDS({x: self.v[x] for x in k}, self.sizes_)
        if k not in self.v:
            raise KeyError(k)
        return self.v[k]

    def __setitem__(self, k, x):
        if isinstance(x, tuple):
            x = SymDA(x[1], dims=x[0], attrs=x[2] if len(x) > 2 else None)
        if not hasattr(x, '__sym_da__'):
            x = as_value(x)
            if isinstance(x, Arr) and x.ndim:
                raise CodeError("cannot add an array without dimensions to a dataset")
            x = SymDA(arr.full((), x) if not isinstance(x, Arr) else x, dims=())
        for d, n in zip(x.dims, x.arr._shape):
            if d in self.sizes_:
                if not same_size(self.sizes_[d], n):
                    raise CodeError(f"conflicting sizes for dimension {d}")
            else:
                self.sizes_[d] = n
        # a dataset shares the data of an assigned DataArray but owns its attributes
        y = SymDA(Arr(x.arr.buf, x.arr.view, x.arr._shape), dims=x.dims, attrs=x.attrs, name=k)
        self.v[k] = y

    def __delitem__(self, k):
        del self.v[k]

    def __contains__(self, k):
        return k in self.v

    # a Dataset is a mapping of its data variables; coordinates are found by name and among the variables
    def _data(self):
        return {k: x for k, x in self.v.items() if k not in self.sizes_ and k not in self.levels}

    def __iter__(self):
        return iter(list(self._data()))

    def __len__(self):
        return len(self._data())

    def keys(self):
        return self._data().keys()

    def items(self):
        return self._data().items()

    @property
    def variables(self):
        return _Vars(self.v)

    @property
    def data_vars(self):
        return _Vars(self._data())

    @property
    def coords(self):
        return _Vars({k: x for k, x in self.v.items() if k in self.sizes_ or k in self.levels})

    @property
    def dims(self):
        return {k: arr.out_size(n) for k, n in self.sizes_.items()}
    sizes = dims

    def close(self):
        return None

    def to_netcdf(self, path=None, **k):
        if k or path is None:
            raise Unsupported("to_netcdf with options")
        S.files[path] = self.copy(deep=True)

    def load(self):
        return self

    def isel(self, ind=None, **k):
        """selection along dimensions: integer, slice or truth values"""
        ind = dict(ind or {}, **k)
        how, size = {}, dict(self.sizes_)
        for d, x in ind.items():
            if d not in self.sizes_:
                raise CodeError(f"no dimension {d}")
            x = x.arr if hasattr(x, '__sym_da__') else x
            if isinstance(x, Arr) and x.ndim == 1 and arr.is_boolean(x):
                if not same_size(x._shape[0], self.sizes_[d]):
                    raise CodeError("boolean index of another length")
                m, sel = region_enum(x)
                how[d] = sel
                size[d] = m
            elif isinstance(x, arr.IdxSet):
                m, sel = region_enum(x.mask)
                how[d] = sel
                size[d] = m
            else:
                raise Unsupported("Dataset.isel")
        r = SymDS(None, size, dict(self.attrs))
        for n, x in self.v.items():
            g = x.arr.snap()

            def fn(i, g=g, dims=x.dims):
                return g(tuple(how[d](a) if d in how else a for d, a in zip(dims, i)))
            shp = [size[d] if d in how else q for d, q in zip(x.dims, x.arr._shape)]
            r.v[n] = SymDA(lazy(shp, fn) if any(d in how for d in x.dims) else Arr(x.arr.buf, x.arr.view, x.arr._shape), dims=x.dims, attrs=x.attrs, name=n)
        return r

    def sel(self, **k):
        """label slices of coordinates that are known to ascend: the points within the bounds, both included"""
        ind = {}
        for d, x in k.items():
            if not isinstance(x, slice) or x.step is not None or d not in self.v or self.v[d].dims != (d,):
                raise Unsupported("Dataset.sel")
            if d not in S.ascending:
                raise Unsupported("sel on a coordinate not known to ascend")
            c = self.v[d].arr
            lo = True if x.start is None else c >= x.start
            hi = True if x.stop is None else c <= x.stop
            ind[d] = lo & hi if isinstance(lo, Arr) and isinstance(hi, Arr) else lo if isinstance(lo, Arr) else hi
        return self.isel({d: x for d, x in ind.items() if isinstance(x, Arr)})

    def drop_vars(self, names, errors=None):
        names = [names] if isinstance(names, str) else list(names)
        r = SymDS(None, None, self.attrs)
        r.__dict__['v'] = {k: x for k, x in self.v.items() if k not in names}
        r.__dict__['sizes_'] = dict(self.sizes_)
        r.__dict__['levels'] = self.levels - set(names)
        return r
    drop = drop_vars

    def copy(self, deep=False):
        r = SymDS(None, None, dict(self.attrs))
        r.__dict__['v'] = {k: (x.copy() if deep else SymDA(Arr(x.arr.buf, x.arr.view, x.arr._shape), dims=x.dims, attrs=x.attrs, name=k))
                           for k, x in self.v.items()}
        r.__dict__['sizes_'] = dict(self.sizes_)
        r.__dict__['levels'] = set(self.levels)
        return r

    def _with(self, v, sizes, levels=None):
        r = SymDS(None, sizes, dict(self.attrs))
        r.__dict__['v'] = v
        r.__dict__['levels'] = set(self.levels if levels is None else levels)
        return r

    def rename(self, m):
        for k in m:
            if k not in self.v and k not in self.sizes_:
                raise CodeError(f"cannot rename {k}: no such variable or dimension")
        new = [m.get(k, k) for k in self.v]
        if len(set(new)) != len(new):
            raise CodeError("the new names conflict")
        f = lambda x, n: SymDA(Arr(x.arr.buf, x.arr.view, x.arr._shape), dims=[m.get(d, d) for d in x.dims], attrs=x.attrs, name=n)
        return self._with({m.get(k, k): f(x, m.get(k, k)) for k, x in self.v.items()}, {m.get(d, d): n for d, n in self.sizes_.items()},
                          {m.get(k, k) for k in self.levels})

    def transpose(self, *dims):
        if set(dims) != set(self.sizes_):
            raise CodeError(f"{dims} is not a permutation of the dimensions {tuple(self.sizes_)}")
        f = lambda x: x.transpose(*[d for d in dims if d in x.dims]) if x.dims else x
        r = self._with({k: f(x) for k, x in self.v.items()}, dict(self.sizes_))
        for k, x in r.v.items():
            x.name = k
        return r

    def drop_dims(self, dims, errors=None):
        dims = {dims} if isinstance(dims, str) else set(dims)
        for d in dims:
            if d not in self.sizes_:
                raise CodeError(f"no dimension {d}")
        return self._with({k: x for k, x in self.v.items() if not dims & set(x.dims)},
                          {d: n for d, n in self.sizes_.items() if d not in dims}, None)

    def squeeze(self, dim=None, drop=False):
        if dim is None or drop:
            raise Unsupported("squeeze")
        dims = [dim] if isinstance(dim, str) else list(dim)
        for d in dims:
            if d not in self.sizes_:
                raise CodeError(f"no dimension {d}")
            if not same_size(self.sizes_[d], 1):
                raise CodeError(f"cannot select dimension {d}: size is not one")
        f = lambda x: SymDA(x.arr[tuple(0 if d in dims else slice(None) for d in x.dims)] if x.ndim > sum(d in dims for d in x.dims)
                            else arr.full((), x.arr.at((0,) * x.ndim)), dims=[d for d in x.dims if d not in dims], attrs=x.attrs)
        return self._with({k: f(x) if set(dims) & set(x.dims) else x for k, x in self.v.items()},
                          {d: n for d, n in self.sizes_.items() if d not in dims}, self.levels | (set(dims) & set(self.v)))

    def expand_dims(self, dim, **k):
        if k or not isinstance(dim, str) or dim in self.sizes_:
            raise Unsupported("expand_dims")
        if dim in self.v and dim not in self.levels:
            raise Unsupported("expand_dims")
        v = {n: x if n in self.levels and n != dim or n in self.sizes_ else x.expand_dims(dim) for n, x in self.v.items()}
        return self._with(v, {dim: 1, **self.sizes_}, self.levels - {dim})

    def stack(self, dimensions=None, **k):
        """one dimension for several: row-major over the given order; every variable with one of them gets all of them"""
        (new, dims), = dict(dimensions or {}, **k).items()
        for d in dims:
            if d not in self.sizes_:
                raise CodeError(f"no dimension {d}")
        if S.loops:
            raise Unsupported("stack in a loop")
        ns = [self.sizes_[d] for d in dims]
        tot = ns[0]
        for n in ns[1:]:
            tot = arr.isimp(arr.zi(tot) * arr.zi(n))
        pk = packing(ns)
        v, lev = {}, set(self.levels)
        for n, x in self.v.items():
            if not set(dims) & set(x.dims):
                v[n] = x
                continue
            other = [d for d in x.dims if d not in dims]
            g = x.arr.snap()

            def fn(i, g=g, xd=x.dims, other=other):
                c = dict(zip(other, i), **dict(zip(dims, pk.unpack(i[-1]))))
                return g(tuple(c[d] for d in xd))
            v[n] = SymDA(lazy([x.arr._shape[x.dims.index(d)] for d in other] + [tot], fn), dims=other + [new], attrs=x.attrs, name=n)
            if n in dims:
                lev.add(n)
        S.trusted.add("stacking dimensions is row-major in the order given (xarray)")
        return self._with(v, {**{d: n for d, n in self.sizes_.items() if d not in dims}, new: tot}, lev)

    def assign(self, **k):
        r = self.copy()
        for a, b in k.items():
            r[a] = b
        return r

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in self.__dict__['v']:
            return self.v[n]
        raise Unsupported(f"Dataset.{n}")

    def __setattr__(self, n, x):
        raise Unsupported("Dataset attribute assignment")


class packing:
    """row-major position of an index vector in a grid of the given sizes, and back.  Both are kept as symbols: pack(unpack(x)) = x and
    unpack(pack(i)) = i for positions and indices in range is all that is used of them."""

    def __new__(cls, ns):
        key = tuple(str(arr.isimp(n)) for n in ns)
        if key in S.packs:
            return S.packs[key]
        p = S.packs[key] = object.__new__(cls)
        z3 = core.z3
        p.ns = [arr.zi(n) for n in ns]
        q = len(S.packs)
        Int = z3.IntSort()
        p.f = z3.Function(f"PACK%{q}", *[Int] * len(ns), Int)
        p.g = [z3.Function(f"UNPACK%{q}_{d}", Int, Int) for d in range(len(ns))]

        def py(a, ev):
            r = 0
            for x, n in zip(a, p.ns):
                r = r * int(ev.val(n)) + int(x)
            return r

        def upy(d):
            def f(a, ev):
                x = int(a[0])
                for n in p.ns[:d:-1]:
                    x //= max(1, int(ev.val(n)))
                return x % max(1, int(ev.val(p.ns[d])))
            return f

        def unfold(a):
            x = p.f(*a)
            inr = z3.And(*[z3.And(i >= 0, i < n) for i, n in zip(a, p.ns)])
            return [z3.Implies(inr, z3.And(x >= 0, x < z3.Product(*p.ns), *[g(x) == i for g, i in zip(p.g, a)]))]

        def back(d):
            def u(a):
                x, = a
                inr = z3.And(x >= 0, x < z3.Product(*p.ns))
                return [z3.Implies(inr, z3.And(p.g[d](x) >= 0, p.g[d](x) < p.ns[d]))]
            return u
        S.defs[p.f.name()] = vc.Def(unfold=unfold, py=py, rounds=1)
        for d, g in enumerate(p.g):
            S.defs[g.name()] = vc.Def(unfold=back(d), py=upy(d), rounds=1)
        return p

    def pack(self, i):
        return i[0] if len(i) == 1 else self.f(*[arr.zi(x) for x in i])

    def unpack(self, x):
        if len(self.ns) == 1:
            return [x]
        x = arr.zi(x)
        if x.decl().name() == self.f.name():
            # indices of an array are in range
            return [arr.isimp(a) for a in x.children()]
        return [g(x) for g in self.g]


def region_enum(mask):
    """(number, j -> j-th index) of the indices at which a 1-D mask holds, in increasing order"""
    from .shim_np import big_sum, contains
    from . import vc
    z3 = core.z3
    n = mask._shape[0]
    g = mask.snap()
    if S.loops:
        raise Unsupported("boolean selection inside a loop")
    m = big_sum(n, lambda t: ite(B(truth(g((t,)))), 1, 0))
    m = core.as_int(m if isinstance(m, Sc) else core.I(m))
    nm = core.fresh_name('SEL')
    f = z3.Function(nm, z3.IntSort(), z3.IntSort())
    h = z3.Function(nm + '#rank', z3.IntSort(), z3.IntSort())

    def unfold(a):
        j = a[0]
        return [z3.Implies(z3.And(j >= 0, j < m), z3.And(f(j) >= 0, f(j) < arr.zi(n), core.zb(truth(g((f(j),)))), h(f(j)) == j))]

    def pair(a, b):
        return [z3.Implies(z3.And(a[0] >= 0, b[0] < m, a[0] < b[0]), f(a[0]) < f(b[0])),
                z3.Implies(z3.And(b[0] >= 0, a[0] < m, b[0] < a[0]), f(b[0]) < f(a[0]))]
    S.defs[nm] = vc.Def(unfold=unfold, pair=pair, rounds=2)
    S.trusted.add("selection by truth values keeps the indices at which they hold, in increasing order")
    return m, lambda j: f(arr.zi(j))


class xr:
    DataArray = SymDA
    Dataset = SymDS

    @staticmethod
    def zeros_like(a, dtype=None):
        from .shim_np import np
        return a._new(np.zeros_like(a.arr, dtype))

    @staticmethod
    def ones_like(a, dtype=None):
        from .shim_np import np
        return a._new(np.ones_like(a.arr, dtype))

    @staticmethod
    def full_like(a, v, dtype=None):
        return a._new(arr.full(a.arr._shape, norm_const(v) if not isinstance(v, Sc) else v))

    @staticmethod
    def where(c, a, b, **k):
        ops = [c, a, b]
        if any(hasattr(o, '__sym_da__') for o in ops):
            return nary(lambda p, q, r: ite(B(truth(p)), q, r), ops, None)
        from .shim_np import np
        return np.where(c, a, b)

    # what is written to a file is what is read back: names, dimensions, values, attributes
    @staticmethod
    def open_dataset(path, **k):
        if k or path not in S.files:
            raise Unsupported("open_dataset of a file not written here")
        S.trusted.add("a dataset read from a file has the names, dimensions, values and attributes that were written (xarray, netCDF)")
        return S.files[path].copy(deep=True)

    @staticmethod
    def merge(objects, compat='no_conflicts', join='outer', **k):
        """union of the variables; a variable of several datasets must not differ where both have values"""
        if k or compat not in ('no_conflicts', 'override'):
            raise Unsupported("merge")
        r = SymDS()
        for o in objects:
            if hasattr(o, '__sym_da__'):
                raise Unsupported("merge of arrays")
            for d, n in o.sizes_.items():
                if not same_size(r.sizes_.setdefault(d, n), n):
                    raise Unsupported("merge of datasets of different size")
            for n, x in o.v.items():
                if n not in r.v:
                    r.v[n] = SymDA(Arr(x.arr.buf, x.arr.view, x.arr._shape), dims=x.dims, attrs=x.attrs, name=n)
                    continue
                y = r.v[n]
                if compat == 'override':
                    continue
                if set(x.dims) != set(y.dims):
                    raise CodeError(f"conflicting dimensions of {n}")
                x = x.transpose(*y.dims)
                if S.on_merge is None:
                    raise Unsupported("merge of datasets with common variables")
                S.on_merge(n, y, x)
                f, g = y.arr.snap(), x.arr.snap()
                r.v[n] = SymDA(lazy(y.arr._shape, lambda i, f=f, g=g: ite(B(truth(core.isnan(f(i)))), g(i), f(i))), dims=y.dims, attrs=y.attrs, name=n)
        S.trusted.add("merge of datasets is the union of their variables; common ones must agree where both have values (xarray)")
        return r

    def __getattr__(self, n):
        raise Unsupported(f"xarray.{n}")
