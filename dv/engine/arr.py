"""Symbolic arrays: every array is a function from an index vector to a scalar; sizes may be symbolic, so a statement about a
generic index is a statement about every element of every array of every size."""
import itertools
from . import core
from .core import (S, Sc, z3, And, Or, Not, If, B, I, Unsupported, binop, ite, truth, lift, norm_const, known, NAN,
                   as_real, fresh, is_f, is_b, cast)

EMPTY = object()


def raw(n):
    """size/index scalar -> python int or z3 Int term"""
    if isinstance(n, Sc):
        return core.as_int(n)
    if isinstance(n, bool):
        return int(n)
    n = norm_const(n) if not z3.is_expr(n) else n
    if isinstance(n, core.Fraction) and n.denominator == 1:
        return int(n)
    if not isinstance(n, int) and not z3.is_expr(n):
        raise Unsupported(f"index {n!r}")
    return n


def isx(x):
    return z3.is_expr(x)


def isimp(x):
    """simplify a raw int"""
    if isx(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
    return x


def ieq(a, b):
    """raw ints equal? raw bool"""
    if not isx(a) and not isx(b):
        return a == b
    return core.fold_cmp('==', zi(a), zi(b))


def ile(a, b):
    if not isx(a) and not isx(b):
        return a <= b
    return core.fold_cmp('<=', zi(a), zi(b))


def ilt(a, b):
    if not isx(a) and not isx(b):
        return a < b
    return core.fold_cmp('<', zi(a), zi(b))


def zi(a):
    return a if isx(a) else z3.IntVal(a)


def same_size(a, b):
    a, b = raw(a), raw(b)
    r = ieq(a, b)
    if r is True:
        return True
    if r is False:
        return False
    return known(r)


def out_size(n):
    n = isimp(raw(n))
    return n if not isx(n) else Sc('i', n)


class Buf:
    """storage of an array: a function of the index vector, evaluated in the context (path condition, loops) it was written in"""

    def __init__(self, shape, fn, name=None):
        self.shape, self.name = shape, name
        self.state = _mkstate(fn)
        self.frozen = False
        self.guard = None
        S.uid += 1
        self.uid = S.uid

    @property
    def fn(self):
        st = self.state
        g = self.guard
        if g is None:
            return lambda idx: _eval(st, idx)
        return lambda idx: g(idx, st)

    def set(self, fn, view=None):
        if self.frozen:
            raise FrozenWrite(self.name)
        for lp in S.symloops:
            lp.log_write(self, view)
        if S.watch is not None and self.uid not in S.watch:
            S.watch[self.uid] = (self, self.state)
        self.state = _mkstate(fn)


S.watch = None


def _mkstate(fn):
    return (fn, {}, list(S.pc), list(S.loops), list(S.assume_local))


def _eval(st, idx):
    fn, memo, pc, loops, al = st
    k = tuple(x.get_id() if isx(x) else ('c', x) for x in idx)
    r = memo.get(k)
    if r is None:
        S.eval_depth += 1
        if S.eval_depth > 400:
            S.eval_depth = 0
            raise Unsupported("evaluation too deep")
        save = S.pc, S.loops
        S.pc, S.loops = pc, loops
        try:
            v = fn(idx)
        finally:
            S.pc, S.loops = save
            S.eval_depth -= 1
        memo[k] = r = (v, idx)
    return r[0]


class FrozenWrite(Exception):
    pass


class Arr:
    __sym_arr__ = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, buf, view=None, shape=None):
        self.buf = buf
        self.view = view if view is not None else [('s', i, 0, 1) for i in range(len(buf.shape))]
        self._shape = tuple(isimp(raw(x)) for x in (shape if shape is not None else buf.shape))

    # ------------------------------------------------------------ basics
    @property
    def shape(self):
        return tuple(out_size(x) for x in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for x in self.shape:
            r = binop('*', r, x) if isinstance(r, Sc) or r != 1 else x
        return r

    def __len__(self):
        n = self._shape[0]
        if isx(n):
            raise Unsupported("len() of symbolic size through the C protocol")
        return n

    @property
    def values(self):
        return self

    @property
    def magnitude(self):
        return self

    @property
    def T(self):
        return transpose(self)

    @property
    def flat(self):
        raise Unsupported("flat")

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        return 'float64'

    def bidx(self, idx):
        out = []
        for v in self.view:
            if v[0] == 'f':
                out.append(v[1])
            else:
                _, ax, st, sp = v
                i = idx[ax]
                out.append(isimp(st + sp * i) if not (isinstance(st, int) and st == 0 and sp == 1) else i)
        return tuple(out)

    def at(self, idx):
        """element at raw index vector"""
        return self.buf.fn(self.bidx(idx))

    def snap(self):
        fn, view = self.buf.fn, self

        def g(idx):
            return fn(view.bidx(idx))
        return g

    def copy(self):
        return lazy(self._shape, self.snap())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t, **k):
        return emap(lambda x: cast(x, t), self)

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        return Flat(self)
    ravel = flatten

    def item(self):
        return self.at((0,) * self.ndim)

    def reshape(self, *shape):
        from .shim_np import np_reshape
        return np_reshape(self, shape[0] if len(shape) == 1 else shape)

    def transpose(self, *ax):
        return transpose(self, ax[0] if len(ax) == 1 and isinstance(ax[0], (tuple, list)) else ax or None)

    def _red(self, name, axis=None, **k):
        from . import shim_np
        return getattr(shim_np.np, name)(self, axis=axis)

    def sum(self, axis=None, **k): return self._red('sum', axis)
    def any(self, axis=None, **k): return self._red('any', axis)
    def all(self, axis=None, **k): return self._red('all', axis)
    def min(self, axis=None, **k): return self._red('min', axis)
    def max(self, axis=None, **k): return self._red('max', axis)
    def mean(self, axis=None, **k): return self._red('mean', axis)

    def __iter__(self):
        n = self._shape[0]
        if isx(n):
            return SymSeq(n, lambda t: self[Sc('i', t)]).__iter__()
        return iter([self[i] for i in range(n)])

    # ------------------------------------------------------------ indexing
    def __getitem__(self, key):
        if isinstance(key, str):
            raise Unsupported("field access")
        k = parse_key(self, key)
        if k[0] == 'basic':
            v = subview(self, k[1])
            return v.at(()) if v.ndim == 0 else v
        return adv_read(self, k)

    def __setitem__(self, key, val):
        k = parse_key(self, key)
        if k[0] == 'basic':
            subview(self, k[1]).assign(val)
        else:
            adv_write(self, k, val)

    def assign(self, val):
        """write val (broadcast) into the whole view"""
        val = as_value(val)
        shp, view, old = self._shape, self.view, self.buf.fn
        if isinstance(val, Arr):
            check_bcast(val, shp)
            vfn = bcast_fn(val, shp)
        else:
            def vfn(i):
                return val
        nb = len(self.buf.shape)
        used = {v[1] for v in view if v[0] == 's'}

        def new(b):
            conds, own = [], [0] * len(shp)
            for d in range(nb):
                v = view[d]
                if v[0] == 'f':
                    conds.append(ieq(b[d], v[1]))
                else:
                    _, ax, st, sp = v
                    full = isinstance(st, int) and st == 0 and sp == 1 and ieq(shp[ax], self.buf.shape[d]) is True
                    if sp == 1:
                        o = b[d] if isinstance(st, int) and st == 0 else isimp(b[d] - st)
                    elif sp == -1:
                        o = isimp(st - b[d])
                    else:
                        raise Unsupported("strided write")
                    own[ax] = o
                    if not full:
                        lo = ile(st, b[d]) if sp == 1 else ile(b[d], st)
                        conds += [lo, ilt(o, shp[ax])]
            c = And(*conds)
            if c is False:
                return old(b)
            if c is True:
                return vfn(tuple(own))
            return ite(B(c), vfn(tuple(own)), old(b))
        self.buf.set(new, view)

    # ---------------------------------------------------------- arithmetic
    def __add__(self, o): return ew2('+', self, o)
    def __radd__(self, o): return ew2('+', o, self)
    def __sub__(self, o): return ew2('-', self, o)
    def __rsub__(self, o): return ew2('-', o, self)
    def __mul__(self, o): return ew2('*', self, o)
    def __rmul__(self, o): return ew2('*', o, self)
    def __truediv__(self, o): return ew2('/', self, o)
    def __rtruediv__(self, o): return ew2('/', o, self)
    def __floordiv__(self, o): return ew2('//', self, o)
    def __pow__(self, o): return ew2('**', self, o)
    def __rpow__(self, o): return ew2('**', o, self)
    def __mod__(self, o): return ew2('%', self, o)
    def __lt__(self, o): return ew2('<', self, o)
    def __le__(self, o): return ew2('<=', self, o)
    def __gt__(self, o): return ew2('>', self, o)
    def __ge__(self, o): return ew2('>=', self, o)
    def __eq__(self, o): return ew2('==', self, o)
    def __ne__(self, o): return ew2('!=', self, o)
    def __and__(self, o): return ew2('&', self, o)
    def __rand__(self, o): return ew2('&', o, self)
    def __or__(self, o): return ew2('|', self, o)
    def __ror__(self, o): return ew2('|', o, self)
    def __neg__(self): return emap(core.s_neg, self)
    def __pos__(self): return self
    def __abs__(self): return emap(core.s_abs, self)
    def __invert__(self): return emap(core.s_not, self)
    __hash__ = None

    def _ip(self, op, o):
        r = ew2(op, self, o)
        if r is NotImplemented:
            return r
        if not isinstance(r, Arr):
            raise Unsupported("in-place broadcast")
        check_bcast(r, self._shape)
        if r.ndim > self.ndim:
            raise Unsupported("in-place broadcast")
        self.assign(r)
        return self

    def __iadd__(self, o): return self._ip('+', o)
    def __isub__(self, o): return self._ip('-', o)
    def __imul__(self, o): return self._ip('*', o)
    def __itruediv__(self, o): return self._ip('/', o)
    def __iand__(self, o): return self._ip('&', o)
    def __ior__(self, o): return self._ip('|', o)

    def __bool__(self):
        if all(ieq(n, 1) is True for n in self._shape):
            return bool(self.item())
        raise Unsupported("truth value of an array")

    def __repr__(self):
        return f"Arr{self._shape}"


class Flat:
    """flattened multi-dimensional array (only usable as an opaque table)"""
    __sym_flat__ = True

    def __init__(self, arr):
        self.arr = arr

    @property
    def size(self):
        return self.arr.size


class FlatPoints:
    """np.stack of flattened tables (only usable as the points of an interpolator)"""
    __sym_flat__ = True

    def __init__(self, parts):
        self.parts = parts


class IdxSet:
    """np.where(mask)[0] for a 1-D mask: the increasing indices at which the mask holds"""

    def __init__(self, mask):
        self.mask = mask

    @property
    def size(self):
        from .shim_np import np
        return core.cast(np.sum(self.mask), 'int')

    def __sym_len__(self):
        return self.size

    @property
    def shape(self):
        return (self.size,)


class IdxTuple(tuple):
    """np.where(mask) of a multi-dimensional mask: usable as a whole (region read/write) or for the number of elements"""
    mask = None


def idx_tuple(mask):
    n = IdxSet(mask)

    class Comp:
        shape = property(lambda self: n.shape)
        size = property(lambda self: n.size)

        def __sym_len__(self):
            return n.size
    t = IdxTuple(Comp() for _ in range(mask.ndim))
    t.mask = mask
    return t


class Masked:
    """arr[mask] with a full boolean mask: the values of a region, in order"""
    __sym_arr__ = True

    def __init__(self, shape, mask, fn):
        self.shape0, self.mask, self.fn = shape, mask, fn

    def _op(self, op, o, rev=False):
        f = self.fn
        if isinstance(o, Masked):
            if o.mask is not self.mask and not same_mask(o.mask, self.mask):
                raise Unsupported("different masks")
            g = o.fn
        elif isinstance(o, Arr):
            raise Unsupported("masked with array")
        else:
            ov = as_value(o)

            def g(i):
                return ov
        if rev:
            f, g = g, f
        return Masked(self.shape0, self.mask, lambda i: binop(op, f(i), g(i)))

    def __add__(self, o): return self._op('+', o)
    def __radd__(self, o): return self._op('+', o, True)
    def __sub__(self, o): return self._op('-', o)
    def __rsub__(self, o): return self._op('-', o, True)
    def __mul__(self, o): return self._op('*', o)
    def __rmul__(self, o): return self._op('*', o, True)
    def __truediv__(self, o): return self._op('/', o)
    def __rtruediv__(self, o): return self._op('/', o, True)
    def __pow__(self, o): return self._op('**', o)

    def map(self, f):
        g = self.fn
        return Masked(self.shape0, self.mask, lambda i: f(g(i)))


def same_mask(a, b):
    if a is b:
        return True
    idx = tuple(z3.Int(f"mk{i}") for i in range(a.ndim))
    x, y = truth(a.at(idx)), truth(b.at(idx))
    return (x is y) or (not isinstance(x, bool) and not isinstance(y, bool) and x.eq(y))


class SymSeq:
    """a sequence of symbolic length: t -> value"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn
        self.memo = {}

    def get(self, t):
        k = t.get_id() if isx(t) else ('c', t)
        if k not in self.memo:
            self.memo[k] = (self.fn(t), t)
        return self.memo[k][0]

    def __iter__(self):
        raise Unsupported("iteration over a symbolic sequence outside a rewritten loop")


# ------------------------------------------------------------------ builders
def lazy(shape, fn):
    return Arr(Buf(tuple(isimp(raw(x)) for x in shape), fn))


def as_value(v):
    """values usable as array operands: Arr, Sc or python constant"""
    if isinstance(v, (Arr, Sc, Masked)):
        return v
    if hasattr(v, '__sym_da__'):
        return v.arr
    if isinstance(v, (list, tuple)):
        return from_list(v)
    if hasattr(v, 'mag_units'):
        return v.m
    if type(v).__module__ == 'numpy' and hasattr(v, 'shape') and v.shape != ():
        return from_list(v.tolist())
    return norm_const(v)


def from_list(v):
    v = [as_value(x) for x in v]
    if v and isinstance(v[0], Arr):
        from .shim_np import np
        return np.stack(v, axis=0)
    n = len(v)

    def fn(i):
        i = i[0]
        if not isx(i):
            return v[i]
        r = v[-1]
        for k in range(n - 2, -1, -1):
            r = ite(B(ieq(i, k)), v[k], r)
        return r
    return lazy((n,), fn)


def full(shape, val):
    return lazy(shape, lambda i: val)


def inp(name, shape, kind='f', sign=None, flags=False, fact=None):
    """declared input array: an uninterpreted function of the index"""
    shape = tuple(isimp(raw(x)) for x in shape)
    sort = {'b': z3.BoolSort(), 'i': z3.IntSort(), 'f': z3.RealSort()}[kind]
    f = z3.Function(name, *[z3.IntSort()] * len(shape), sort)
    if sign:
        S.signs[name] = sign
    if flags:
        fn_ = z3.Function(name + '#nan', *[z3.IntSort()] * len(shape), z3.BoolSort())
    if fact:
        from .vc import Def
        S.defs[name] = Def(unfold=lambda a: fact(f(*a), a), rounds=3)

    def g(idx):
        r = Sc(kind, f(*[zi(i) for i in idx]))
        if flags:
            r.nan = fn_(*[zi(i) for i in idx])
        return r
    a = lazy(shape, g)
    a.buf.name = name
    return a


# ------------------------------------------------------------- broadcasting
def bshape(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            n = s[k]
            if not isx(n) and n == 1:
                continue
            if not isx(cur) and cur == 1:
                cur = n
            elif not same_size(cur, n):
                if not isx(cur) and not isx(n):
                    raise CodeError(f"operands could not be broadcast together: {cur} vs {n}")
                raise Unsupported(f"broadcast {cur} with {n}")
        out.append(cur)
    return tuple(out)


class CodeError(Exception):
    """the real code would raise here"""


def check_bcast(v, shp):
    for k in range(1, v.ndim + 1):
        n = v._shape[-k]
        if not isx(n) and n == 1:
            continue
        if k > len(shp):
            raise CodeError("could not broadcast input array")
        if not same_size(n, shp[-k]):
            raise Unsupported(f"assignment broadcast {v._shape} into {shp}")


def bcast_fn(a, shp):
    """index function of a, taking index vectors of the broadcast shape"""
    g = a.snap()
    nd, n = len(shp), a.ndim
    ones = [not isx(x) and x == 1 for x in a._shape]

    def f(idx):
        own = tuple(0 if ones[d] else idx[nd - n + d] for d in range(n))
        return g(own)
    return f


def emap(f, a):
    if isinstance(a, Masked):
        return a.map(f)
    if hasattr(a, '__sym_da__'):
        return a._new(emap(f, a.arr), keep=False)
    a = as_value(a)
    if not isinstance(a, Arr):
        return f(a)
    g = a.snap()
    return lazy(a._shape, lambda i: f(g(i)))


def ew(f, *ops):
    """element-wise function of arrays/scalars with broadcasting"""
    ops = [as_value(o) for o in ops]
    arrs = [o for o in ops if isinstance(o, Arr)]
    ms = [o for o in ops if isinstance(o, Masked)]
    if ms:
        if arrs or any(not same_mask(o.mask, ms[0].mask) for o in ms[1:]):
            raise Unsupported("masked in element-wise function")
        return Masked(ms[0].shape0, ms[0].mask, lambda i: f(*[o.fn(i) if isinstance(o, Masked) else o for o in ops]))
    if not arrs:
        return f(*ops)
    shp = bshape(*[a._shape for a in arrs])
    gs = [bcast_fn(o, shp) if isinstance(o, Arr) else (lambda i, o=o: o) for o in ops]
    return lazy(shp, lambda i: f(*[g(i) for g in gs]))


def ew2(op, a, b):
    for x in (a, b):
        if hasattr(x, '__sym_da__') or hasattr(x, 'mag_units'):
            return NotImplemented
    if isinstance(a, Masked) or isinstance(b, Masked):
        return a._op(op, b) if isinstance(a, Masked) else b._op(op, a, True)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return {'==': False, '!=': True}[op]
    return ew(lambda x, y: binop(op, x, y), a, b)


# ----------------------------------------------------------------- indexing
def parse_key(a, key):
    if isinstance(key, IdxTuple):
        key = key.mask
    if not isinstance(key, tuple):
        key = (key,)
    if len(key) == 1 and isinstance(key[0], IdxTuple):
        key = (key[0].mask,)
    key = list(key)
    key = [k.arr if hasattr(k, '__sym_da__') else k for k in key]
    key = [as_value(k) if isinstance(k, list) or (type(k).__module__ == 'numpy' and getattr(k, 'ndim', 0)) else k for k in key]
    # full boolean mask
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].ndim == a.ndim and (a.ndim > 1 or is_boolean(key[0])):
        return ('mask', key[0])
    if any(k is Ellipsis for k in key):
        i = [n for n, k in enumerate(key) if k is Ellipsis][0]
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        key[i:i + 1] = [slice(None)] * (a.ndim - n_real)
    n_real = sum(1 for k in key if k is not None)
    key += [slice(None)] * (a.ndim - n_real)
    if all(k is None or isinstance(k, (slice, int, Sc)) or _isint(k) for k in key):
        return ('basic', key)
    return ('adv', key)


def is_boolean(a):
    i = tuple(z3.Int(f"pk{d}") for d in range(a.ndim))
    return is_b(a.at(i))


def _isint(k):
    return type(k).__module__ == 'numpy' and getattr(k, 'shape', None) == ()


def slice_bounds(sl, n):
    """(start, length, step) raw, for a slice of an axis of raw length n"""
    st, en, sp = sl.start, sl.stop, sl.step
    sp = 1 if sp is None else int(norm_const(sp))
    if sp not in (1, -1):
        if all(not isx(raw(x)) for x in (st or 0, n)) and en is None or (en is not None and not isx(raw(en)) and not isx(n)):
            r = range(*slice(st, en, sp).indices(n))
            return r.start, len(r), sp
        raise Unsupported("slice step")

    def clip(v):
        v = raw(v)
        if not isx(v):
            if v < 0:
                r = isimp(n + v) if isx(n) else n + v
                if isx(r) and known(zi(r) >= 0) or not isx(r) and r >= 0:
                    return r
                if not isx(r):
                    return 0
                return isimp(z3.If(zi(r) >= 0, zi(r), z3.IntVal(0)))
            if not isx(n):
                return min(v, n)
            if known(zi(n) >= v):
                return v
            return isimp(z3.If(zi(n) >= v, z3.IntVal(v), zi(n)))
        neg = known(v < 0)
        if neg:
            v = isimp(v + n)
            if isx(v) and not known(v >= 0):
                v = z3.If(v >= 0, v, z3.IntVal(0))
        elif not known(v >= 0):
            raise Unsupported("slice bound of unknown sign")
        if known(v <= zi(n)):
            return v
        return isimp(z3.If(v <= zi(n), v, zi(n)))
    if sp == 1:
        s = 0 if st is None else clip(st)
        e = n if en is None else clip(en)
        if not isx(s) and not isx(e):
            return s, max(0, e - s), 1
        ln = isimp(zi(e) - zi(s))
        if isx(ln) and not known(ln >= 0):
            ln = z3.If(ln >= 0, ln, z3.IntVal(0))
        elif not isx(ln):
            ln = max(0, ln)
        return s, ln, 1
    if st is None and en is None:
        return isimp(zi(n) - 1), n, -1
    raise Unsupported("negative-step slice with bounds")


def norm_index(k, n):
    k = raw(k)
    if not isx(k):
        if k < 0:
            return isimp(zi(n) + k) if isx(n) else n + k
        if not isx(n) and k >= n:
            raise CodeError("index out of bounds")
        return k
    s = core.sign(k)
    if s in ('+', '0+', '0') or known(k >= 0):
        return k
    if known(k < 0):
        return isimp(k + n)
    return isimp(z3.If(k < 0, k + n, k))


def subview(a, key):
    """basic indexing"""
    view, shape, axmap = [], [], {}
    own = 0
    for k in key:
        if k is None:
            shape.append(1)
            continue
        n = a._shape[own]
        if isinstance(k, slice):
            st, ln, sp = slice_bounds(k, n)
            axmap[own] = ('s', len(shape), st, sp)
            shape.append(ln)
        else:
            axmap[own] = ('f', norm_index(k, n))
        own += 1
    for v in a.view:
        if v[0] == 'f':
            view.append(v)
            continue
        _, ax, st, sp = v
        m = axmap[ax]
        if m[0] == 'f':
            view.append(('f', isimp(st + sp * zi(m[1])) if (isx(st) or isx(m[1])) else st + sp * m[1]))
        else:
            s2, p2 = m[2], m[3]
            ns = isimp(zi(st) + sp * zi(s2))
            view.append(('s', m[1], ns, sp * p2))
    return Arr(a.buf, view, shape)


def adv_read(a, k):
    if k[0] == 'mask':
        m = k[1]
        if m.ndim != a.ndim:
            raise Unsupported("mask rank")
        return Masked(a._shape, m, a.snap())
    key = k[1]
    pos = [i for i, x in enumerate(key) if isinstance(x, (Arr, IdxSet)) or hasattr(x, '__idx__')]
    if len(pos) == 1 and isinstance(key[pos[0]], Arr) and not is_boolean(key[pos[0]]):
        ia = key[pos[0]]
        if any(x is None for x in key):
            raise Unsupported("newaxis with index array")
        g = a.snap()
        shape, spec = [], []
        for d, x in enumerate(key):
            if d == pos[0]:
                spec.append(('a', len(shape)))
                shape.extend(ia._shape)
            elif isinstance(x, slice):
                st, ln, sp = slice_bounds(x, a._shape[d])
                spec.append(('s', len(shape), st, sp))
                shape.append(ln)
            else:
                spec.append(('f', norm_index(x, a._shape[d])))
        if any(s[0] == 'f' for s in spec):
            raise Unsupported("mixed int/array index")
        ig = ia.snap()

        def fn(i):
            b = []
            for d, s in enumerate(spec):
                if s[0] == 'a':
                    b.append(norm_index(ig(tuple(i[s[1]:s[1] + ia.ndim])), a._shape[d]))
                else:
                    b.append(isimp(zi(s[2]) + s[3] * zi(i[s[1]])))
            return g(tuple(b))
        return lazy(shape, fn)
    if len(pos) == 1 and isinstance(key[pos[0]], (IdxSet, Arr)):
        # region read along one axis: only meaningful under symmetric use
        m = key[pos[0]]
        m = m.mask if isinstance(m, IdxSet) else m
        d = pos[0]
        others = [x for i, x in enumerate(key) if i != d]
        if all(not isinstance(x, slice) and x is not None for x in others):
            g = a.snap()
            ks = [norm_index(x, a._shape[i]) if i != d else None for i, x in enumerate(key)]
            return Masked((a._shape[d],), m, lambda i: g(tuple(i[0] if q == d else ks[q] for q in range(len(ks)))))
    raise Unsupported("advanced read")


def adv_write(a, k, val):
    val = as_value(val)
    old = a.buf.fn
    if k[0] == 'mask':
        m = k[1].snap()
        if isinstance(val, Masked):
            if not same_mask(val.mask, k[1]):
                raise Unsupported("masked assignment with another mask")
            vf = val.fn
        elif isinstance(val, Arr):
            raise Unsupported("masked assignment of an array")
        else:
            def vf(i):
                return val
        g = a.snap()
        cp = lazy(a._shape, lambda i: ite(m(i), vf(i), g(i)))
        a.assign(cp)
        return
    key = k[1]
    pos = [i for i, x in enumerate(key) if isinstance(x, (Arr, IdxSet))]
    if len(pos) == 1 and not any(x is None for x in key) and all(isinstance(v, tuple) for v in a.view):
        d = pos[0]
        m = key[d].mask if isinstance(key[d], IdxSet) else key[d]
        if not is_boolean(m):
            raise Unsupported("write through an index array")
        by_rank = None
        if isinstance(val, Arr):
            if not hasattr(key[d], 'rank') or val.ndim != 1 or getattr(key[d], 'col', False) or any(isinstance(x, slice) for x in key):
                raise Unsupported("region write of an array")
            by_rank = key[d].values(val)
        mg = m.snap()
        # basic part for the other axes, full slice on the region axis
        sub = subview(a, [slice(None) if i == d else x for i, x in enumerate(key)])
        ax = sum(1 for i, x in enumerate(key[:d]) if isinstance(x, slice))
        g = sub.snap()
        if isinstance(val, Masked):
            vf = lambda i: val.fn((i[ax],))
        elif by_rank is not None:
            vf = lambda i: by_rank(i[ax])
        else:
            vf = lambda i: val
        sub.assign(lazy(sub._shape, lambda i: ite(mg((i[ax],)), vf(i), g(i))))
        return
    raise Unsupported("advanced write")


def transpose(a, axes=None):
    n = a.ndim
    axes = tuple(range(n))[::-1] if axes is None else tuple(int(x) % n for x in axes)
    inv = {ax: i for i, ax in enumerate(axes)}
    view = [v if v[0] == 'f' else ('s', inv[v[1]], v[2], v[3]) for v in a.view]
    return Arr(a.buf, view, [a._shape[x] for x in axes])
