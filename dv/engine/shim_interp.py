"""scipy interpolators: the interpolant is an unknown function of the table and the query point (its values are bounded by the
table's sign); nothing else is assumed about it"""
from . import core, arr
from .core import S, Sc, Unsupported, z3, as_real, And, Or
from .arr import Arr, Flat, as_value, ew, lazy
from .shim_np import table_key, elem_sign


class _Interp:
    def __init__(self, base, pts, vals, fill):
        vals = vals.arr if isinstance(vals, Flat) or hasattr(vals, '__sym_da__') else as_value(vals)
        self.pts = pts
        arrs = []
        for p in pts:
            p = p.arr if isinstance(p, Flat) else as_value(p)
            arrs.append(p)
        self.name = table_key(base, *arrs, vals)
        self.sign = elem_sign(vals)
        if self.sign:
            S.signs[self.name] = self.sign
        self.nd = len(arrs)
        self.fill = fill

    def __call__(self, *q, **k):
        if len(q) == 1 and isinstance(q[0], (tuple, list)):
            q = tuple(q[0])
        if len(q) != self.nd:
            raise Unsupported("interpolator called with a point array")
        f = z3.Function(self.name, *[z3.RealSort()] * self.nd, z3.RealSort())
        out = z3.Function(self.name + '#out', *[z3.RealSort()] * self.nd, z3.BoolSort())

        def g(*v):
            rs = [as_real(x) for x in v]
            nan = Or(*[r[1] for r in rs])
            a = [r[0] for r in rs]
            return Sc('f', f(*a), Or(nan, *( [] if self.fill == 'extrap' else [out(*a)])))
        q = [x.arr if hasattr(x, '__sym_da__') else x for x in q]
        return ew(g, *q)


def LinearNDInterpolator(pts, vals, fill_value=None, **k):
    return _Interp('LND', pts.parts if isinstance(pts, arr.FlatPoints) else list(pts) if isinstance(pts, (tuple, list)) else [pts], vals, fill_value)


_NAN = object()


def RegularGridInterpolator(pts, vals, method='linear', bounds_error=True, fill_value=_NAN, **k):
    """scipy: outside the grid an error, or the fill value (missing by default); only an explicit None extrapolates"""
    if k or method != 'linear' or not (fill_value is None or fill_value is _NAN or fill_value != fill_value):
        raise Unsupported("RegularGridInterpolator options")
    return _Interp('RGI', list(pts), vals, 'extrap' if fill_value is None and bounds_error is False else None)
