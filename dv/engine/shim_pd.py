"""pandas (the part the table loaders use): read_csv gives the file's columns in order under the given names."""
from . import arr, core
from .arr import lazy
from .core import Unsupported
from .shim_xr import SymDA, SymDS


class File:
    """the content of a table file: `ncol` columns of `n` rows, arbitrary numbers"""

    def __init__(self, name, n, ncol):
        self.name, self.n, self.ncol = name, n, ncol
        self.data = arr.inp(name, (n, ncol))
        self.sep = None

    def col(self, j):
        g = self.data.snap()
        return lazy((self.n,), lambda i: g((i[0], j)))


class SymDF:
    def __init__(self, cols):
        self.cols = cols

    @property
    def columns(self):
        return list(self.cols)

    def __getitem__(self, k):
        if isinstance(k, list):
            return SymDF({x: self.cols[x] for x in k})
        return self.cols[k]

    def __setitem__(self, k, v):
        a = v.arr if hasattr(v, '__sym_da__') else arr.as_value(v)
        if not isinstance(a, arr.Arr):
            a = arr.full(next(iter(self.cols.values())).arr._shape, a)
        self.cols[k] = SymDA(a.copy(), dims=('index',))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in self.__dict__.get('cols', {}):
            return self.cols[k]
        raise Unsupported(f"DataFrame.{k}")

    def copy(self, deep=True):
        return SymDF({k: SymDA(v.arr.copy(), dims=v.dims) for k, v in self.cols.items()})

    def to_xarray(self):
        d = SymDS(None, {})
        for k, v in self.cols.items():
            d[k] = SymDA(v.arr.copy(), dims=('index',))
        return d


class pd_:
    DataFrame = SymDF

    @staticmethod
    def read_csv(f, sep=None, names=None, delimiter=None, delim_whitespace=False, **k):
        if not isinstance(f, File):
            raise Unsupported("read_csv of another file")
        if any(v is not None for x, v in k.items() if x != 'header') or names is None:
            raise Unsupported(f"read_csv options {sorted(k)}")
        f.sep = r'\s+' if delim_whitespace else (sep or delimiter or ',')
        if len(names) != f.ncol:
            raise arr.CodeError(f"{len(names)} names for {f.ncol} columns")
        return SymDF({n: SymDA(f.col(j), dims=('index',)) for j, n in enumerate(names)})
