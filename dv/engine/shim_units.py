"""pint quantities over symbolic arrays; the unit algebra and the conversion factors are pint's own"""
from . import core, arr
from .core import S, Sc, Unsupported, Fraction, norm_const, binop
from .arr import Arr, as_value, emap


def _reg():
    from emc2.core.instrument import ureg as r
    return r


def _unit(u):
    r = _reg()
    if isinstance(u, str):
        return r.Unit(u)
    if isinstance(u, SymQ):
        return u.u
    return r.Unit(u)


def affine(src, dst):
    """value in dst = a * value in src + b, exact decimals of pint's factors"""
    r = _reg()
    if src == dst:
        return Fraction(1), Fraction(0)
    z = r.Quantity(0., src).to(dst).magnitude
    o = r.Quantity(1., src).to(dst).magnitude
    h = r.Quantity(1000., src).to(dst).magnitude
    b = Fraction(repr(round(float(z), 9)))
    a = (float(h) - float(z)) / 1000. if z else float(o)
    a = Fraction(repr(float(f"{a:.12g}")))
    return a, b


class SymQ:
    mag_units = True
    __array_ufunc__ = None
    __array_priority__ = 5000

    def __init__(self, m, u):
        self.m, self.u = m, u

    @property
    def magnitude(self):
        return self.m

    @property
    def units(self):
        return SymUnit(self.u)

    @property
    def shape(self):
        return self.m.shape

    def to(self, dst):
        u = _unit(dst.u if isinstance(dst, SymUnit) else dst)
        a, b = affine(self.u, u)
        m = self.m
        if a != 1:
            m = m * a
        if b != 0:
            m = m + b
        if a == 1 and b == 0 and isinstance(m, Arr):
            m = m.copy() if False else m
        return SymQ(m, u)

    def m_as(self, dst):
        return self.to(dst).m

    def astype(self, t):
        return SymQ(self.m.astype(t) if hasattr(self.m, 'astype') else core.cast(self.m, t), self.u)

    def _b(self, o):
        if isinstance(o, SymQ):
            return o.m, o.u
        if isinstance(o, SymUnit):
            return 1, o.u
        return o, _reg().Unit('')

    def __mul__(self, o):
        m, u = self._b(o)
        if hasattr(m, '__sym_da__'):
            return SymQ(self.m * m, self.u)
        return SymQ(_mul(self.m, m), self.u * u)

    def __rmul__(self, o):
        m, u = self._b(o)
        return SymQ(_mul(m, self.m), u * self.u)

    def __truediv__(self, o):
        m, u = self._b(o)
        return SymQ(_div(self.m, m), self.u / u)

    def __rtruediv__(self, o):
        m, u = self._b(o)
        return SymQ(_div(m, self.m), u / self.u)

    def _same(self, o):
        if isinstance(o, SymQ):
            return o.to(self.u).m
        if self.u.dimensionless:
            return o
        raise arr.CodeError("DimensionalityError")

    def __add__(self, o): return SymQ(self.m + self._same(o), self.u)
    __radd__ = __add__
    def __sub__(self, o): return SymQ(self.m - self._same(o), self.u)
    def __rsub__(self, o): return SymQ(self._same(o) - self.m, self.u)
    def __lt__(self, o): return self.m < self._same(o)
    def __gt__(self, o): return self.m > self._same(o)
    def __le__(self, o): return self.m <= self._same(o)
    def __ge__(self, o): return self.m >= self._same(o)
    def __neg__(self): return SymQ(-self.m, self.u)

    def __pow__(self, n):
        n = norm_const(n)
        return SymQ(binop('**', self.m, n) if not isinstance(self.m, Arr) else self.m ** n, self.u ** (int(n) if Fraction(n).denominator == 1 else float(n)))

    def __rpow__(self, o):
        if not self.u.dimensionless:
            raise arr.CodeError("DimensionalityError")
        return SymQ(o ** self.m, _reg().Unit(''))

    def __getitem__(self, k):
        return SymQ(self.m[k], self.u)

    def op_da(self, op, da, rev):
        # DataArray op Quantity: xarray keeps a quantity as its data; the magnitudes are combined
        f = (lambda a, b: binop(op, b, a)) if rev else (lambda a, b: binop(op, a, b))
        from .shim_xr import nary
        return nary(f, [da, self.m], None)

    def __repr__(self):
        return f"Q({self.m}, {self.u})"

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f"Quantity.{n}")


def _mul(a, b):
    return binop('*', a, b) if not hasattr(a, '__sym_arr__') and not hasattr(b, '__sym_arr__') and not hasattr(a, '__sym_da__') else a * b


def _div(a, b):
    return binop('/', a, b) if not hasattr(a, '__sym_arr__') and not hasattr(b, '__sym_arr__') and not hasattr(a, '__sym_da__') else a / b


class SymUnit:
    mag_units = True

    def __init__(self, u):
        self.u = u

    @property
    def m(self):
        return 1

    def __rmul__(self, o):
        return SymQ(1, _reg().Unit('')) * SymQ(o, self.u) if not isinstance(o, SymQ) else SymQ(o.m, o.u * self.u)

    def __mul__(self, o):
        if isinstance(o, SymUnit):
            return SymUnit(self.u * o.u)
        return SymQ(o, self.u) if not isinstance(o, SymQ) else SymQ(o.m, self.u * o.u)

    def __truediv__(self, o):
        if isinstance(o, SymUnit):
            return SymUnit(self.u / o.u)
        return SymQ(_div(1, o), self.u)

    def __rtruediv__(self, o):
        return SymQ(o, 1 / self.u)

    def __pow__(self, n):
        return SymUnit(self.u ** norm_const(n))

    def __eq__(self, o):
        return isinstance(o, SymUnit) and self.u == o.u
    __hash__ = None


class _U:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n == 'Quantity':
            return quantity
        return SymUnit(_reg().Unit(n))

    def __call__(self, n):
        return SymQ(1, _unit(n))


def quantity(m, u=None):
    if hasattr(m, '__sym_da__'):
        m = m.arr
    return SymQ(as_value(m) if not isinstance(m, SymQ) else m.m, _unit(u if u is not None else ''))


ureg = _U()
