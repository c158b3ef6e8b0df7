"""numpy (the part the verified functions use) over symbolic arrays.  These are the assumed contracts of numpy."""
import types
from . import core, arr
from .core import (S, Sc, z3, And, Or, Not, If, B, I, Unsupported, binop, ite, truth, lift, norm_const, known, NAN, INF, Fraction,
                   as_real, fresh, is_f, is_b, cast, s_min, s_max, isnan, isfinite, simp, sign)
from .arr import (Arr, Masked, IdxSet, Flat, SymSeq, lazy, raw, isx, zi, isimp, ieq, ile, ilt, ew, emap, as_value, full as _full, bshape,
                  CodeError, out_size, is_boolean, same_size, transpose as _transpose, bcast_fn)
from . import vc


def is_sym_iter(x):
    from .loops import is_sym_iter as f
    return f(x)


def nax(axis, nd):
    a = int(norm_const(axis))
    return a + nd if a < 0 else a


# ------------------------------------------------------------ big operators
def _ph():
    """a placeholder index, unique to one big operator"""
    S.uid += 1
    return z3.Int(f"ph%{S.uid}")


def contains(e, c):
    return any(x.eq(c) for x in vc.subterms([e]))


def _free_loops(e):
    """loop index constants and placeholders occurring in e"""
    out = []
    use = {}
    for x in vc.subterms([e]):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.sort() == z3.IntSort():
            nm = x.decl().name()
            if nm.startswith(('ph%', 'ix%', 'lp%')):
                out.append(x)
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for n, a in enumerate(x.children()):
                if z3.is_const(a):
                    use.setdefault(a.get_id(), set()).add((x.decl().name(), n))
    # by the places where they are used, so that the order does not depend on the names
    return sorted(out, key=lambda x: (sorted(use.get(x.get_id(), ())), x.decl().name()))


def linsplit(e, p):
    """e (Real) as [(coefficient free of p, term)]"""
    one = z3.RealVal(1)
    if not contains(e, p):
        return [(e, one)]
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        return [x for c in ch for x in linsplit(c, p)]
    if k == z3.Z3_OP_SUB:
        r = linsplit(ch[0], p)
        for c in ch[1:]:
            r = r + [(-a, b) for a, b in linsplit(c, p)]
        return r
    if k == z3.Z3_OP_UMINUS:
        return [(-a, b) for a, b in linsplit(ch[0], p)]
    if k == z3.Z3_OP_MUL:
        r = [(one, one)]
        for c in ch:
            s = linsplit(c, p)
            r = [(_m(a, x), _m(b, y)) for a, b in r for x, y in s]
            if len(r) > 64:
                return [(one, e)]
        return r
    if k == z3.Z3_OP_DIV:
        s = linsplit(ch[0], p)
        if not contains(ch[1], p):
            return [(a / ch[1], b) for a, b in s]
        return [(a, b / ch[1]) for a, b in s]
    if k == z3.Z3_OP_ITE and not contains(ch[0], p):
        z = z3.RealVal(0)
        return [(z3.If(ch[0], a, z), b) for a, b in linsplit(ch[1], p)] + [(z3.If(ch[0], z, a), b) for a, b in linsplit(ch[2], p)]
    return [(one, e)]


def _m(a, b):
    if z3.is_rational_value(a) and a.as_fraction() == 1:
        return b
    if z3.is_rational_value(b) and b.as_fraction() == 1:
        return a
    return a * b


def _keyed(base, key, nargs, sort):
    k = (base, key, nargs, str(sort))
    if k not in S.keys:
        nm = f"{base}${len(S.keys)}"
        S.keys[k] = (nm, z3.Function(nm, *[z3.IntSort()] * nargs, sort))
    return S.keys[k]


def _canon_bound(e, frees, p):
    """rename free index constants to positional ones; -> (key, ordered actual args)"""
    ren = [(f, z3.Int(f"cf%{i}")) for i, f in enumerate(frees)] + [(p, z3.Int("cp%"))]
    return vc.canon_key(z3.substitute(e, *ren))


def big_sum(n, fn, what='SUM'):
    """sum over t in [0,n) of fn(t)"""
    n = isimp(raw(n))
    if not isx(n):
        r = 0
        first = True
        for t in range(n):
            r = fn(t) if first else binop('+', r, fn(t))
            first = False
        return Fraction(0) if n == 0 else r
    p = _ph()
    S.assume_local.append(z3.And(p >= 0, p < n))
    try:
        b = fn(p)
    finally:
        S.assume_local.pop()
    kind = 'i' if not is_f(b) else 'f'
    v, bn, bp, bm = as_real(b)
    nanf = Or(bn, bp, bm)
    res = z3.RealVal(0)
    for coef, term in linsplit(v, p):
        if z3.is_rational_value(term) and term.as_fraction() == 1:
            res = res + coef * z3.ToReal(zi(n))
            continue
        res = res + _m(coef, sum_uf(n, p, term))
    res = vc.fold_ites(z3.simplify(res)) if z3.is_rational_value(z3.simplify(res)) else res
    if kind == 'i':
        # integer valued
        res = z3.simplify(res)
        if res.decl().kind() == z3.Z3_OP_TO_REAL:
            return Sc('i', res.arg(0))
        w = z3.ToInt(res)
        S.integral[w.get_id()] = w
        return I(w) if z3.is_rational_value(res) else Sc('i', w)
    nan = False
    if nanf is not False:
        nan = big_any(n, lambda t: B(z3.substitute(core.zb(nanf), (p, zi(t)))))
        nan = truth(nan)
    return Sc('f', res, nan)




def sum_uf(n, p, term):
    frees = [f for f in _free_loops(term) if not f.eq(p)]
    nfree = [f for f in _free_loops(zi(n)) if not any(f.eq(g) for g in frees)]
    frees = frees + nfree
    key = ('sum', _canon_bound(term, frees, p), vc.canon_key(z3.substitute(zi(n), *[(f, z3.Int(f"cf%{i}")) for i, f in enumerate(frees)]) if frees else zi(n)))
    nm, f = _keyed('SUM', key, len(frees), z3.RealSort())
    app = f(*frees) if frees else f()
    if nm not in S.defs:
        s = sign(term)
        frees_ = list(frees)

        def unfold(args):
            a = f(*args)
            out = []
            nn = _sub(zi(n), frees_, args)
            if s in ('0+', '+', '0'):
                out.append(a >= 0)
            if s == '+':
                out.append(z3.Implies(nn > 0, a > 0))
            out.append(z3.Implies(nn <= 0, a == 0))
            # all terms zero -> sum zero; a non-zero term of a non-negative sum -> positive
            q = z3.Int('q%' + nm)
            body = _sub(term, frees_ + [p], list(args) + [q])
            rngq = z3.And(q >= 0, q < nn)
            out.append(z3.Implies(z3.ForAll([q], z3.Implies(rngq, body == 0)), a == 0))
            if s in ('0+', '+'):
                out.append(z3.ForAll([q], z3.Implies(rngq, body <= a)))
            return out

        def py(args, ev):
            nn = ev.val(_sub(zi(n), frees_, [z3.IntVal(int(x)) for x in args]))
            return float(sum(ev.val(_sub(term, frees_ + [p], [z3.IntVal(int(x)) for x in args] + [z3.IntVal(t)])) for t in range(int(nn))))
        S.defs[nm] = vc.Def(unfold=unfold, py=py, rounds=2)
        S.sumdefs[nm] = (n, p, term, frees_)
    if sign(term) in ('0+', '+', '0'):
        S.signs[nm] = '0+'
    return app




def _sub(e, olds, news):
    if not olds:
        return e
    return z3.substitute(e, *[(o, zi(x) if not isx(x) else x) for o, x in zip(olds, news)])


def big_any(n, fn, forall=False):
    """exists (or forall) t in [0,n): fn(t)"""
    n = isimp(raw(n))
    if not isx(n):
        xs = [truth(fn(t)) for t in range(n)]
        return B(And(*xs) if forall else Or(*xs))
    p = _ph()
    S.assume_local.append(z3.And(p >= 0, p < n))
    try:
        b = truth(fn(p))
    finally:
        S.assume_local.pop()
    if isinstance(b, bool):
        if forall:
            return True if b else B(ile(n, 0))
        return B(ilt(0, n)) if b else False
    if not contains(b, p):
        return B(Or(b, ile(n, 0))) if forall else B(And(b, ilt(0, n)))
    frees = [f for f in _free_loops(b) if not f.eq(p)]
    key = ('all' if forall else 'any', _canon_bound(b, frees, p), vc.canon_key(zi(n)))
    nm, f = _keyed('ALL' if forall else 'ANY', key, len(frees), z3.BoolSort())
    app = f(*frees) if frees else f()
    if nm not in S.defs:
        fr = list(frees)

        def unfold(args):
            q = z3.Int('q%' + nm)
            body = _sub(b, fr + [p], list(args) + [q])
            nn = _sub(zi(n), fr, args)
            r = z3.And(q >= 0, q < nn)
            if forall:
                return [f(*args) == z3.ForAll([q], z3.Implies(r, body))]
            return [f(*args) == z3.Exists([q], z3.And(r, body))]

        def py(args, ev):
            nn = int(ev.val(_sub(zi(n), fr, [z3.IntVal(int(x)) for x in args])))
            it = (ev.val(_sub(b, fr + [p], [z3.IntVal(int(x)) for x in args] + [z3.IntVal(t)])) for t in range(nn))
            return all(it) if forall else any(it)
        S.defs[nm] = vc.Def(unfold=unfold, py=py, rounds=2)
        S.anydefs[nm] = (n, p, b, fr)
    return B(app)


def is01(t):
    """a term with values 0 and 1 only"""
    if z3.is_rational_value(t):
        return t.as_fraction() in (0, 1)
    if z3.is_int_value(t):
        return t.as_long() in (0, 1)
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        return is01(t.arg(1)) and is01(t.arg(2))
    return k == z3.Z3_OP_TO_REAL and is01(t.arg(0))


def cum_sum(a, axis):
    axis = nax(axis, a.ndim)
    n = a._shape[axis]
    g = a.snap()
    if not isx(n):
        def fnc(i):
            if isx(i[axis]):
                raise Unsupported("cumsum at symbolic index of concrete axis")
            r = g(i[:axis] + (0,) + i[axis + 1:])
            for t in range(1, i[axis] + 1):
                r = binop('+', r, g(i[:axis] + (t,) + i[axis + 1:]))
            return r
        return lazy(a._shape, fnc)
    cache = {}

    def build():
        phs = [z3.Int(f"ph%c{d}") for d in range(a.ndim)]
        b = g(tuple(phs))
        v, bn, bp, bm = as_real(b)
        if not (bn is False and bp is False and bm is False):
            bad = Or(bn, bp, bm)
            rng = [And(p >= 0, p < zi(s)) for p, s in zip(phs, a._shape)]
            if not vc.entails([*S.assume, *S.pc, *rng], Not(bad), 3000):
                raise Unsupported("cumsum of possibly non-finite values")
        p = phs[axis]
        parts = []
        for coef, term in linsplit(v, p):
            frees = _free_loops(term)
            key = ('cs', vc.canon_key(z3.substitute(term, *[(f, z3.Int(f"cf%{i}") if not f.eq(p) else z3.Int("cp%")) for i, f in enumerate(frees)]) if frees else term))
            others = [f for f in frees if not f.eq(p)]
            nm, f = _keyed('CS', key, len(others) + 1, z3.RealSort())
            sib = None
            if nm in S.defs and not z3.substitute(S.csterm[nm], *[(z3.Int(f"cf%{i}"), o) for i, o in enumerate(others)], (z3.Int("cp%"), p)).eq(term):
                # the same sums written differently: a name of its own, equal to the first
                sib = f
                nm, f = _keyed('CS', (key, term.sexpr()), len(others) + 1, z3.RealSort())
            if nm not in S.defs:
                S.csterm[nm] = z3.substitute(term, *[(o, z3.Int(f"cf%{i}")) for i, o in enumerate(others)], (p, z3.Int("cp%")))

                def unfold(args, f=f, term=term, others=others, sib=sib):
                    k = args[-1]
                    ap = f(*args)
                    here = _sub(term, others + [p], list(args))
                    prev = f(*args[:-1], z3.simplify(k - 1))
                    s = sign(term)
                    out = [z3.Implies(k == 0, ap == here), z3.Implies(k > 0, ap == prev + here)]
                    if sib is not None:
                        out.append(z3.Implies(k >= 0, ap == sib(*args)))
                    if s in ('0+', '+', '0'):
                        out.append(z3.Implies(k >= 0, ap >= 0))
                    if is01(term):
                        # a count: zero exactly when the condition held nowhere so far (induction over k)
                        q = z3.Int('q%' + str(f))
                        bq = _sub(term, others + [p], list(args[:-1]) + [q])
                        out.append(z3.Implies(k >= 0, z3.Or(ap == 0, ap >= 1)))
                        out.append(z3.Implies(k >= 0, (ap == 0) == z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= k), bq == 0))))
                        for ix in S.ixs:        # instances at the generic indices, counted from either end
                            for x in (ix, z3.simplify(zi(n) - 1 - ix)):
                                bx = _sub(term, others + [p], list(args[:-1]) + [x])
                                out.append(z3.Implies(z3.And(x >= 0, x <= k, ap == 0), bx == 0))
                    return out

                def py(args, ev, term=term, others=others):
                    return float(sum(ev.val(_sub(term, others + [p], [z3.IntVal(int(x)) for x in args[:-1]] + [z3.IntVal(t)]))
                                     for t in range(int(args[-1]) + 1)))
                S.defs[nm] = vc.Def(unfold=unfold, py=py, rounds=2)
            if sign(term) in ('0+', '+', '0'):
                S.signs[nm] = '0+'
            parts.append((coef, f, others, sign(term)))
        return phs, parts

    def fn(i):
        if 'd' not in cache:
            cache['d'] = build()
        phs, parts = cache['d']
        sub = [(p, zi(x)) for p, x in zip(phs, i)]
        r = z3.RealVal(0)
        first = True
        for coef, f, others, sg in parts:
            app = f(*[z3.substitute(o, *sub) for o in others], zi(i[axis]))
            t = _m(z3.substitute(coef, *sub), app)
            r = t if first else r + t
            first = False
        return Sc('f', r)
    return lazy(a._shape, fn)


# ----------------------------------------------------------------- the shim
def A(x):
    x = as_value(x)
    return x


def da_wrap(fn):
    """ufunc-like: a DataArray argument gives a DataArray"""
    def w(a, *r, **k):
        if hasattr(a, '__sym_da__'):
            return a._new(fn(a.arr, *r, **k), keep=False)
        return fn(a, *r, **k)
    return w


def ufunc1(f):
    return da_wrap(lambda a, **k: emap(f, A(a)))


def ufunc2(f):
    def g(a, b, **k):
        for x in (a, b):
            if hasattr(x, '__sym_da__'):
                return x._bin2(f, a, b)
        return ew(f, a, b)
    return g


class np_:
    nan = NAN
    NaN = NAN
    inf = INF
    pi = core.PI
    newaxis = None
    float64 = 'float64'
    float32 = 'float32'
    int64 = 'int64'
    int32 = 'int32'
    int8 = 'int8'
    uint8 = 'uint8'
    bool_ = 'bool'
    ndarray = Arr
    integer = int
    floating = float
    number = float

    @staticmethod
    def seterr(**k):
        return {}

    # -- construction
    @staticmethod
    def zeros(shape, dtype=None):
        t = getattr(dtype, '__name__', dtype)
        return _full(_shp(shape), False if t in ('bool', 'bool_') else 0 if t in ('int', 'int64', 'int8', 'uint8') else Fraction(0))

    @staticmethod
    def ones(shape, dtype=None):
        t = getattr(dtype, '__name__', dtype)
        return _full(_shp(shape), True if t in ('bool', 'bool_') else 1 if t in ('int', 'int64', 'int8', 'uint8') else Fraction(1))

    @staticmethod
    def full(shape, v, dtype=None):
        v = A(v)
        if isinstance(v, Arr):
            raise Unsupported("full of array")
        t = getattr(dtype, '__name__', dtype)
        if t is None and isinstance(v, int) and not isinstance(v, bool):
            return _full(_shp(shape), v)
        return _full(_shp(shape), v if t is None else cast(v, t))

    @staticmethod
    def empty(shape, dtype=None):
        nm = core.fresh_name('empty')
        return arr.inp(nm, _shp(shape), 'f')

    @staticmethod
    def zeros_like(a, dtype=None):
        if hasattr(a, '__sym_da__'):
            return a._new(np_.zeros_like(a.arr, dtype), keep=False)
        a = A(a)
        if not isinstance(a, Arr):
            return Fraction(0)
        i = tuple(z3.Int(f"pk{d}") for d in range(a.ndim))
        k = a.at(i)
        t = getattr(dtype, '__name__', dtype)
        z = False if (t in ('bool', 'bool_') or (t is None and is_b(k))) else 0 if (t in ('int', 'int64', 'int8', 'uint8') or (t is None and not is_f(k))) else Fraction(0)
        return _full(a._shape, z)

    @staticmethod
    def ones_like(a, dtype=None):
        if hasattr(a, '__sym_da__'):
            return a._new(np_.ones_like(a.arr, dtype), keep=False)
        return _full(A(a)._shape, Fraction(1))

    @staticmethod
    def full_like(a, v, dtype=None):
        return _full(A(a)._shape, A(v))

    @staticmethod
    def empty_like(a, dtype=None):
        return np_.empty(A(a)._shape)

    @staticmethod
    def array(x, dtype=None, **k):
        x = A(x)
        x = x.copy() if isinstance(x, Arr) else x
        return np_._cast(x, dtype)

    @staticmethod
    def _cast(x, dtype):
        if dtype is None:
            return x
        return emap(lambda v: cast(v, dtype), x)

    @staticmethod
    def asarray(x, dtype=None, **k):
        return np_._cast(A(x), dtype)
    asanyarray = ascontiguousarray = atleast_1d = asarray

    @staticmethod
    def copy(a):
        a = A(a)
        return a.copy() if isinstance(a, Arr) else a

    @staticmethod
    def arange(*a, **k):
        a = [norm_const(x) if not isinstance(x, Sc) else x for x in a]
        st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if not any(isinstance(x, Sc) for x in (st, en, sp)):
            import numpy
            return arr.from_list([norm_const(x) for x in numpy.arange(st, en, sp).tolist()])
        if sp != 1:
            raise Unsupported("arange step")
        n = isimp(zi(raw(en)) - zi(raw(st)))
        r = lazy((n,), lambda i: I(zi(raw(st)) + zi(i[0])) if not (isinstance(st, int) and st == 0) else I(zi(i[0])))
        return r

    @staticmethod
    def tile(a, reps):
        a = A(a)
        if not isinstance(a, Arr):
            a = _full((1,), a)
        reps = [raw(x) for x in (reps if isinstance(reps, (tuple, list)) else (reps,))]
        nd = max(len(reps), a.ndim)
        reps = [1] * (nd - len(reps)) + list(reps)
        sh = [1] * (nd - a.ndim) + list(a._shape)
        g = a.snap()
        out, mode = [], []
        for n, r in zip(sh, reps):
            if not isx(r) and r == 1:
                out.append(n)
                mode.append('id')
            elif not isx(n) and n == 1:
                out.append(r)
                mode.append('0')
            else:
                out.append(isimp(zi(n) * zi(r)) if isx(n) or isx(r) else n * r)
                mode.append('mod')

        def fn(i):
            b = []
            for d in range(nd):
                if d < nd - a.ndim:
                    continue
                b.append(i[d] if mode[d] == 'id' else 0 if mode[d] == '0' else isimp(zi(i[d]) % zi(sh[d])))
            return g(tuple(b))
        return lazy(out, fn)

    @staticmethod
    def repeat(a, n, axis=None):
        raise Unsupported("repeat")

    @staticmethod
    def concatenate(xs, axis=0):
        if S.sets is not None and any(isinstance(x, IdxSet) for x in xs):
            return _sets().concat(xs)
        xs = [A(x) for x in xs]
        if any(isinstance(x, IdxSet) for x in xs):
            raise Unsupported("concatenate index sets")
        axis = nax(axis, xs[0].ndim)
        gs = [x.snap() for x in xs]
        offs, tot = [], 0
        for x in xs:
            offs.append(tot)
            tot = isimp(zi(tot) + zi(x._shape[axis])) if isx(tot) or isx(x._shape[axis]) else tot + x._shape[axis]
        for d in range(xs[0].ndim):
            if d != axis:
                for x in xs[1:]:
                    if not same_size(x._shape[d], xs[0]._shape[d]):
                        raise CodeError("concatenate: dimensions differ")

        def fn(i):
            r = None
            for k in range(len(xs) - 1, -1, -1):
                j = i[:axis] + (isimp(zi(i[axis]) - zi(offs[k])) if isx(i[axis]) or isx(offs[k]) else i[axis] - offs[k],) + i[axis + 1:]
                if r is None:
                    lo = ile(offs[k], i[axis])
                    if lo is False:
                        continue
                    r = gs[k](j)
                else:
                    c = ilt(i[axis], offs[k + 1])
                    if c is False:
                        continue
                    r = ite(B(c), gs[k](j), r)
            return r
        shp = list(xs[0]._shape)
        shp[axis] = tot
        return lazy(shp, fn)

    @staticmethod
    def stack(xs, axis=0):
        if isinstance(xs, SymSeq):
            n = isimp(raw(xs.n))
            t0 = S_seqvar()
            first = xs.get(t0)
            if not isinstance(first, Arr):
                return lazy((n,), lambda i: seq_elem(xs, i[0], ()))
            nd = first.ndim + 1
            ax = nax(axis, nd)
            shp = list(first._shape)
            shp.insert(ax, n)
            return lazy(shp, lambda i: seq_elem(xs, i[ax], i[:ax] + i[ax + 1:]))
        if any(isinstance(x, Flat) for x in xs):
            if axis not in (1, -1):
                raise Unsupported("stack of flattened tables")
            return arr.FlatPoints(list(xs))
        xs = [A(x) for x in xs]
        if not isinstance(xs[0], Arr):
            return arr.from_list(xs)
        nd = xs[0].ndim + 1
        ax = nax(axis, nd)
        for x in xs[1:]:
            for p, q in zip(x._shape, xs[0]._shape):
                if not same_size(p, q):
                    raise CodeError("all input arrays must have the same shape")
        gs = [x.snap() for x in xs]
        shp = list(xs[0]._shape)
        shp.insert(ax, len(xs))

        def fn(i):
            j = i[:ax] + i[ax + 1:]
            if not isx(i[ax]):
                return gs[i[ax]](j)
            r = gs[-1](j)
            for k in range(len(gs) - 2, -1, -1):
                r = ite(B(ieq(i[ax], k)), gs[k](j), r)
            return r
        return lazy(shp, fn)

    @staticmethod
    def expand_dims(a, axis):
        a = A(a)
        ax = nax(axis, a.ndim + 1)
        return a[tuple(slice(None) for _ in range(ax)) + (None,)]

    @staticmethod
    def squeeze(a, axis=None):
        a = A(a)
        if not isinstance(a, Arr):
            return a
        keep = []
        for d, n in enumerate(a._shape):
            if not isx(n) and n == 1:
                continue
            if isx(n) and not known(zi(n) != 1):
                raise Unsupported("squeeze of an axis of unknown size")
            keep.append(d)
        g = a.snap()

        def fn(i):
            b, j = [], 0
            for d in range(a.ndim):
                if d in keep:
                    b.append(i[j])
                    j += 1
                else:
                    b.append(0)
            return g(tuple(b))
        return lazy([a._shape[d] for d in keep], fn)

    @staticmethod
    def transpose(a, axes=None):
        if hasattr(a, '__sym_da__'):
            a = a.arr
        return _transpose(A(a), axes)

    @staticmethod
    def moveaxis(a, s, d):
        a = A(a)
        s, d = nax(s, a.ndim), nax(d, a.ndim)
        o = [x for x in range(a.ndim) if x != s]
        o.insert(d, s)
        return _transpose(a, o)

    @staticmethod
    def swapaxes(a, s, d):
        o = list(range(a.ndim))
        o[s], o[d] = o[d], o[s]
        return _transpose(A(a), o)

    @staticmethod
    def broadcast_to(a, shape):
        a = A(a)
        if not isinstance(a, Arr):
            return _full(_shp(shape), a)
        shp = tuple(isimp(raw(x)) for x in _shp(shape))
        return lazy(shp, bcast_fn(a, shp))

    @staticmethod
    def reshape(a, shape):
        return np_reshape(A(a), shape)

    # -- element-wise
    @staticmethod
    def where(c, a=None, b=None):
        if a is None and b is None:
            c = A(c)
            if isinstance(c, Arr) and c.ndim == 1:
                return (_idxset(c),)
            if isinstance(c, Arr):
                return arr.idx_tuple(c)
            raise Unsupported("np.where(cond) of rank > 1")
        for x in (c, a, b):
            pass
        return ew(lambda p, q, r: ite(B(truth(p)), q, r), c, a, b)

    @staticmethod
    def place(a, mask, vals):
        vals = as_value(vals)
        m = A(mask)
        if isinstance(vals, Masked):
            if not arr.same_mask(vals.mask, m):
                raise Unsupported("np.place with other mask")
            a[m] = vals
        elif not isinstance(vals, Arr):
            a[m] = vals
        else:
            raise Unsupported("np.place of an array")

    @staticmethod
    def putmask(a, mask, v):
        a[A(mask)] = v

    @staticmethod
    def nan_to_num(a, nan=Fraction(0), copy=True, **k):
        def f(x):
            if isinstance(x, Sc) and x.k == 'f' and x.flagged():
                r = ite(B(x.nan), norm_const(nan), Sc('f', x.v, False, x.pi, x.ni))
                if x.pi is not False or x.ni is not False:
                    big = Sc('f', z3.Real('HUGE'))
                    S.signs['HUGE'] = '+'
                    r = ite(B(x.pi), big, ite(B(x.ni), core.s_neg(big), Sc('f', r.v if isinstance(r, Sc) else core.rv(r))))
                return r
            if isinstance(x, float):
                if x != x:
                    return norm_const(nan)
            return x
        return da_wrap(lambda q: emap(f, A(q)))(a)

    @staticmethod
    def clip(a, lo, hi):
        r = a
        if lo is not None:
            r = np_.maximum(r, lo)
        if hi is not None:
            r = np_.minimum(r, hi)
        return r

    @staticmethod
    def isin(a, vals):
        if isinstance(a, str) or a is None:
            return a in (vals if isinstance(vals, (list, tuple)) else [vals])
        if hasattr(a, '__sym_da__'):
            return a._new(np_.isin(a.arr, vals), keep=False)
        if is_sym_iter(vals):
            lo, n = _seq_range(vals)
            return emap(lambda x: _in_range(x, lo, n), A(a))
        vals = list(vals) if isinstance(vals, (list, tuple, set, range)) else (list(vals) if isinstance(vals, Arr) and not isx(vals._shape[0]) else [vals])
        if isinstance(a, (list, tuple)) and all(isinstance(x, str) for x in a):
            return arr.from_list([x in vals for x in a])
        return emap(lambda x: B(Or(*[truth(binop('==', x, v)) for v in vals])), A(a))
    in1d = isin

    # -- reductions
    @staticmethod
    def sum(a, axis=None, **k):
        if isinstance(a, SymSeq):
            return fresh('i', 'seqsum')
        if isinstance(a, (list, tuple)):
            r = 0
            for x in a:
                r = r + x
            return r
        if S.sets is not None:
            b = A(a)
            if isinstance(b, Arr) and b.ndim == 1 and isx(b._shape[0]) and same_size(b._shape[0], S.sets.n) and is_boolean(b):
                return Sc('i', _sets().from_mask(b).length)
            ax = norm_const(axis) if axis is not None else None
            if isinstance(b, Arr) and b.ndim > 1 and ax == 0 and isx(b._shape[0]) and same_size(b._shape[0], S.sets.n) and is_boolean(b):
                g = b.snap()
                return lazy(b._shape[1:], lambda i: Sc("i", S.sets.count(lambda e: core.zb(truth(g((e, *i)))))))
        return _reduce(a, axis, lambda n, f: big_sum(n, f))

    @staticmethod
    def nansum(a, axis=None, **k):
        def f(x):
            return ite(isnan(x), Fraction(0), x) if is_f(x) else x
        return np_.sum(emap(f, A(a)), axis=axis)

    @staticmethod
    def count_nonzero(a, axis=None, **k):
        return np_.sum(emap(lambda x: B(truth(x)), A(a)), axis=axis)

    @staticmethod
    def mean(a, axis=None, **k):
        a = A(a)
        s = np_.sum(a, axis=axis)
        if axis is None:
            return binop('/', s, a.size)
        axes = axis if isinstance(axis, (tuple, list)) else (axis,)
        n = 1
        for x in axes:
            n = binop('*', n, a.shape[nax(x, a.ndim)])
        return s / n

    @staticmethod
    def any(a, axis=None, **k):
        if isinstance(a, (list, tuple)):
            return B(Or(*[truth(x if not isinstance(x, Arr) else x.item()) for x in a]))
        return _reduce(a, axis, lambda n, f: big_any(n, f))

    @staticmethod
    def all(a, axis=None, **k):
        if isinstance(a, SymSeq):
            return big_any(a.n, lambda t: a.get(t), forall=True)
        if isinstance(a, (list, tuple)):
            return B(And(*[truth(x if not isinstance(x, Arr) else x.item()) for x in a]))
        return _reduce(a, axis, lambda n, f: big_any(n, f, forall=True))

    @staticmethod
    def max(a, axis=None, **k):
        return _reduce(a, axis, _mm(s_max))
    amax = max

    @staticmethod
    def min(a, axis=None, **k):
        return _reduce(a, axis, _mm(s_min))
    amin = min

    @staticmethod
    def argmax(a, axis=None):
        return _arg(a, axis, '>')

    @staticmethod
    def argmin(a, axis=None):
        return _arg(a, axis, '<')

    @staticmethod
    def cumsum(a, axis=None, **k):
        a = A(a)
        if axis is None:
            if a.ndim != 1:
                raise Unsupported("cumsum without axis")
            axis = 0
        return cum_sum(a, axis)

    @staticmethod
    def diff(a, axis=-1, prepend=None, append=None, n=1):
        a = A(a)
        axis = nax(axis, a.ndim)
        parts = []
        shp = list(a._shape)
        shp[axis] = 1
        if prepend is not None:
            parts.append(_full(shp, norm_const(prepend) if not isinstance(prepend, Sc) else prepend))
        parts.append(a)
        if append is not None:
            parts.append(_full(shp, norm_const(append) if not isinstance(append, Sc) else append))
        if len(parts) > 1:
            a = np_.concatenate(parts, axis=axis)
        sl = [slice(None)] * a.ndim
        hi, lo = list(sl), list(sl)
        hi[axis], lo[axis] = slice(1, None), slice(None, -1)
        return a[tuple(hi)] - a[tuple(lo)]

    @staticmethod
    def flip(a, axis=None):
        a = A(a)
        axes = range(a.ndim) if axis is None else [nax(x, a.ndim) for x in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        key = [slice(None)] * a.ndim
        for x in axes:
            key[x] = slice(None, None, -1)
        return a[tuple(key)]

    @staticmethod
    def fliplr(a):
        return np_.flip(a, 1)

    @staticmethod
    def flipud(a):
        return np_.flip(a, 0)

    @staticmethod
    def roll(a, shift, axis=None):
        a = A(a)
        g = a.snap()
        s = int(norm_const(shift))
        axis = nax(axis, a.ndim)
        n = a._shape[axis]

        def fn(i):
            k = i[axis]
            if s == -1:
                c = ieq(k, isimp(zi(n) - 1))
                return ite(B(c), g(i[:axis] + (0,) + i[axis + 1:]), g(i[:axis] + (isimp(zi(k) + 1),) + i[axis + 1:]))
            if s == 1:
                c = ieq(k, 0)
                return ite(B(c), g(i[:axis] + (isimp(zi(n) - 1),) + i[axis + 1:]), g(i[:axis] + (isimp(zi(k) - 1),) + i[axis + 1:]))
            raise Unsupported("roll")
        return lazy(a._shape, fn)

    @staticmethod
    def trapz(y, x=None, dx=None, axis=-1):
        y = A(y)
        axis = nax(axis, y.ndim)
        n = y._shape[axis]
        g = y.snap()
        if x is None:
            raise Unsupported("trapz without x")
        x = A(x)
        xg = x.snap()
        if not same_size(x._shape[0], n):
            raise CodeError("trapz: shapes")

        def fn(i):
            def term(t):
                t1 = isimp(zi(t) + 1)
                dxx = binop('-', xg((t1,)), xg((t,)))
                # weights 1/2 (x[t+1]-x[t])
                return binop('*', binop('*', Fraction(1, 2), dxx), binop('+', g(i[:axis] + (t1,) + i[axis:]), g(i[:axis] + (t,) + i[axis:])))
            return trapz_sum(n, lambda t: g(i[:axis] + (t,) + i[axis:]), xg)
        shp = list(y._shape)
        del shp[axis]
        if not shp:
            return fn(())
        return lazy(shp, fn)
    trapezoid = trapz

    @staticmethod
    def meshgrid(a, b, indexing='xy'):
        a, b = A(a), A(b)
        ga, gb = a.snap(), b.snap()
        shp = (b._shape[0], a._shape[0])
        if indexing != 'xy':
            raise Unsupported("meshgrid indexing")
        return [lazy(shp, lambda i: ga((i[1],))), lazy(shp, lambda i: gb((i[0],)))]

    @staticmethod
    def interp(x, xp, fp, left=None, right=None):
        xp, fp = A(xp), A(fp)
        if left is not None or right is not None:
            raise Unsupported("interp left/right")
        name = table_key('INTERP', xp, fp)
        sg = elem_sign(fp)
        f = z3.Function(name, z3.RealSort(), z3.RealSort())
        if sg:
            S.signs[name] = sg

        def g(v):
            r, n, p, m = as_real(v)
            if p is not False or m is not False:
                # clamps to the ends
                r = If(p, z3.Real(name + '#hi'), If(m, z3.Real(name + '#lo'), r))
            return Sc('f', f(r), n)
        if sg:
            S.signs[name] = sg
        return ew(g, x)

    @staticmethod
    def polyval(p, x):
        p = list(p) if isinstance(p, (list, tuple)) else [A(p).at((k,)) for k in range(A(p)._shape[0])]

        def f(v):
            r = 0
            for c in p:
                r = binop('+', binop('*', r, v), norm_const(c) if not isinstance(c, Sc) else c)
            return r
        return da_wrap(lambda q: emap(f, A(q)))(x)

    @staticmethod
    def round(a, decimals=0):
        if norm_const(decimals):
            f = Fraction(10) ** int(norm_const(decimals))
            return da_wrap(lambda q: emap(lambda x: binop('/', core.s_round(binop('*', x, f)), f), A(q)))(a)
        return da_wrap(lambda q: emap(core.s_round, A(q)))(a)
    around = rint = round

    @staticmethod
    def unique(a):
        raise Unsupported("unique")

    @staticmethod
    def argwhere(m):
        m = A(m)
        if m.ndim == 1:
            return _idxset(m, col=True)
        raise Unsupported("argwhere")

    @staticmethod
    def nonzero(m):
        return np_.where(m)

    @staticmethod
    def flatnonzero(m):
        return np_.where(m)[0]

    @staticmethod
    def setdiff1d(x, y, **k):
        return _sets().setop('setdiff1d')(x, y)

    @staticmethod
    def setxor1d(x, y, **k):
        return _sets().setop('setxor1d')(x, y)

    @staticmethod
    def union1d(x, y):
        return _sets().setop('union1d')(x, y)

    @staticmethod
    def intersect1d(x, y, **k):
        return _sets().setop('intersect1d')(x, y)

    @staticmethod
    def digitize(*a, **k):
        raise Unsupported("digitize")

    @staticmethod
    def histogram(*a, **k):
        raise Unsupported("histogram")

    @staticmethod
    def errstate(**k):
        import contextlib
        return contextlib.nullcontext()

    @staticmethod
    def ndim(a):
        a = A(a)
        return a.ndim if isinstance(a, Arr) else 0

    @staticmethod
    def shape(a):
        return A(a).shape

    @staticmethod
    def size(a):
        return A(a).size

    @staticmethod
    def ravel(a):
        a = A(a)
        if hasattr(a, '__sym_da__'):
            a = a.arr
        if not isinstance(a, Arr):
            return arr.from_list([a])
        if a.ndim == 1:
            return a
        raise Unsupported("ravel")
    atleast_1d = ravel

    @staticmethod
    def isscalar(a):
        return not isinstance(a, Arr) and not hasattr(a, '__sym_da__')

    @staticmethod
    def nanmax(a, axis=None):
        if axis is not None:
            raise Unsupported("nanmax over an axis")
        return _extreme(a, '<=', 'max')

    @staticmethod
    def nanmin(a, axis=None):
        if axis is not None:
            raise Unsupported("nanmin over an axis")
        return _extreme(a, '>=', 'min')


def _extreme(a, op, name):
    """largest / smallest element of a non-empty array without missing values: bounds every element and is one of them"""
    a = A(a)
    if hasattr(a, '__sym_da__'):
        a = a.arr
    phs = [z3.Int(f"mx%{d}") for d in range(a.ndim)]
    e = a.at(tuple(phs))
    v, n, p, m = as_real(e)
    if not (n is False and p is False and m is False):
        raise Unsupported("extreme of possibly missing values")
    r = fresh('f' if is_f(e) else 'i', name)
    rng = [And(q >= 0, q < zi(x)) for q, x in zip(phs, a._shape)]
    S.pc.append(z3.ForAll(phs, z3.Implies(z3.And(*rng), core.zb(truth(binop(op, e, r))))))
    at = [fresh('i', 'at').v for _ in phs]
    S.pc.append(z3.And(*[z3.And(x >= 0, x < zi(y)) for x, y in zip(at, a._shape)]))
    S.pc.append(core.zb(truth(binop('==', a.at(tuple(at)), r))))
    return r


def _seq_range(s):
    """(first, count) of a run of consecutive integers"""
    if not isinstance(s, SymSeq):
        if getattr(s, 'step', None) == 1:
            return zi(s.lo), zi(s.n)
        raise Unsupported("membership in a symbolic sequence")
    t = z3.Int('sq%')
    v = core.as_int(s.get(t))
    lo = z3.simplify(v - t)
    if contains(lo, t):
        raise Unsupported("membership in a symbolic sequence")
    return lo, zi(s.n)


def _in_range(x, lo, n):
    v = core.as_int(x) if not is_f(x) else None
    if v is None:
        raise Unsupported("membership of a non-integer")
    out = []
    for c in (v >= lo, v < lo + n):
        out.append(True if vc.entails([*S.assume, *S.pc, *S.assume_local], c, 1500) else c)
    return B(And(*out))


def _fmin(a, b):
    return ite(isnan(a), b, ite(isnan(b), a, ite(binop('<=', a, b), a, b)))


def _fmax(a, b):
    return ite(isnan(a), b, ite(isnan(b), a, ite(binop('>=', a, b), a, b)))


for _n, _f in dict(exp=lambda x: core.s_fn('exp', x), log10=lambda x: core.s_fn('log10', x), log=lambda x: core.s_fn('log', x),
                   cos=lambda x: core.s_fn('cos', x), sin=lambda x: core.s_fn('sin', x), sqrt=core.s_sqrt, abs=core.s_abs,
                   absolute=core.s_abs, fabs=core.s_abs, isnan=isnan, isfinite=isfinite, floor=core.s_floor, ceil=core.s_ceil,
                   square=lambda x: binop('*', x, x), negative=core.s_neg, logical_not=lambda x: B(Not(truth(x))),
                   isinf=lambda x: B(Or(x.pi, x.ni)) if isinstance(x, Sc) and x.k == 'f' else (isinstance(x, float) and x == x),
                   invert=core.s_not, real=lambda x: x).items():
    setattr(np_, _n, staticmethod(ufunc1(_f)))
for _n, _f in dict(logical_and=lambda a, b: B(And(truth(a), truth(b))), logical_or=lambda a, b: B(Or(truth(a), truth(b))),
                   minimum=s_min, maximum=s_max, fmin=_fmin, fmax=_fmax,
                   power=lambda a, b: binop('**', a, b), multiply=lambda a, b: binop('*', a, b), add=lambda a, b: binop('+', a, b),
                   subtract=lambda a, b: binop('-', a, b), divide=lambda a, b: binop('/', a, b), true_divide=lambda a, b: binop('/', a, b),
                   greater=lambda a, b: binop('>', a, b), less=lambda a, b: binop('<', a, b),
                   greater_equal=lambda a, b: binop('>=', a, b), less_equal=lambda a, b: binop('<=', a, b),
                   equal=lambda a, b: binop('==', a, b), not_equal=lambda a, b: binop('!=', a, b)).items():
    setattr(np_, _n, staticmethod(ufunc2(_f)))


def _sets():
    from . import sets
    return sets


def _idxset(m, col=False):
    if S.sets is not None and isx(m._shape[0]):
        return _sets().from_mask(m, col)
    return IdxSet(m)


class _NP:
    """attribute access to an unlisted numpy function is outside the verifier's reach"""

    def __getattr__(self, n):
        if hasattr(np_, n):
            return getattr(np_, n)
        if n == 'random':
            return RANDOM
        raise Unsupported(f"numpy.{n}")


class _Random:
    def __getattr__(self, n):
        if S.random and n in S.random:
            return S.random[n]
        if S.sets is not None and n in ('permutation', 'choice'):
            return getattr(_sets(), n)
        raise Unsupported(f"numpy.random.{n}")


RANDOM = _Random()
np = _NP()


def _shp(s):
    if isinstance(s, (tuple, list)):
        return tuple(s)
    return (s,)


def S_seqvar():
    return z3.Int('ix%seq')


def seq_elem(seq, t, idx):
    v = seq.get(t)
    return v.at(idx) if isinstance(v, Arr) else v


def table_key(base, *arrs):
    ks = []
    for a in arrs:
        i = tuple(z3.Int(f"tk{d}") for d in range(a.ndim))
        v = as_real(a.at(i))[0]
        ks.append((repr(vc.canon_key(v)), str(a._shape)))
    k = (base, tuple(ks))
    if k not in S.keys:
        S.keys[k] = f"{base}${len(S.keys)}"
    return S.keys[k]


def elem_sign(a):
    """sign shared by every element, structurally"""
    i = tuple(z3.Int(f"tk{d}") for d in range(a.ndim))
    v = a.at(i)
    if not isinstance(v, Sc):
        return None
    return sign(as_real(v)[0])


def trapz_sum(n, f, xg):
    """trapezoid rule as a linear functional of the integrand; S.trapz_x names the abscissa"""
    n = isimp(raw(n))
    if not isx(n):
        r = Fraction(0)
        for t in range(n - 1):
            r = binop('+', r, binop('*', binop('*', Fraction(1, 2), binop('-', xg((t + 1,)), xg((t,)))), binop('+', f(t), f(t + 1))))
        return r
    # abscissa identity
    kx = z3.Int("tk0")
    xkey = vc.canon_key(as_real(xg((kx,)))[0])
    p = _ph()
    S.assume_local.append(z3.And(p >= 0, p < n))
    try:
        b = f(p)
    finally:
        S.assume_local.pop()
    v, bn, bp, bm = as_real(b)
    nanf = Or(bn, bp, bm)
    res = z3.RealVal(0)
    first = True
    for coef, term in linsplit(v, p):
        frees = [q for q in _free_loops(term) if not q.eq(p)]
        key = ('trapz', _canon_bound(term, frees, p), xkey, vc.canon_key(zi(n)))
        nm, F = _keyed('TRAPZ', key, len(frees), z3.RealSort())
        app = F(*frees) if frees else F()
        s = sign(term)
        if nm not in S.defs:
            def unfold(args, F=F, s=s, term=term, frees=frees):
                a = F(*args)
                out = []
                if s in ('0+', '+', '0') and S.x_increasing:
                    out.append(a >= 0)
                if s == '+' and S.x_increasing:
                    out.append(z3.Implies(zi(n) > 1, a > 0))
                return out

            def py(args, ev, term=term, frees=frees):
                nn = int(ev.val(zi(n)))
                ys = [ev.val(_sub(term, frees + [p], [z3.IntVal(int(x)) for x in args] + [z3.IntVal(t)])) for t in range(nn)]
                xs = [ev.val(as_real(xg((z3.IntVal(t),)))[0]) for t in range(nn)]
                return float(sum((xs[t + 1] - xs[t]) * (ys[t] + ys[t + 1]) / 2 for t in range(nn - 1)))
            S.defs[nm] = vc.Def(unfold=unfold, py=py, rounds=2)
            S.sumdefs[nm] = (n, p, term, list(frees))
        if s in ('0+', '+', '0') and S.x_increasing:
            S.signs[nm] = '+' if s == '+' and S.x_increasing == 'n>1' else '0+'
        t = _m(coef, app)
        res = t if first else res + t
        first = False
    nan = False
    if nanf is not False:
        nan = truth(big_any(n, lambda t: B(z3.substitute(core.zb(nanf), (p, zi(t))))))
    return Sc('f', res, nan)




def _reduce(a, axis, red):
    if hasattr(a, '__sym_da__'):
        if axis is None:
            return _reduce(a.arr, None, red)
        d = [x for k, x in enumerate(a.dims) if k != nax(axis, len(a.dims))]
        r = _reduce(a.arr, axis, red)
        return a._mk(r, d)
    a = A(a)
    if isinstance(a, IdxSet):
        raise Unsupported("reduction of an index set")
    if not isinstance(a, Arr):
        return red(1, lambda t: a)
    if axis is None:
        axis = tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        axes = sorted((nax(x, a.ndim) for x in axis), reverse=True)
        r = a
        for x in axes:
            r = _reduce(r, x, red)
        return r
    axis = nax(axis, a.ndim)
    n = a._shape[axis]
    g = a.snap()
    shp = list(a._shape)
    del shp[axis]

    def fn(i):
        return red(n, lambda t: g(i[:axis] + (t,) + i[axis:]))
    if not shp:
        return fn(())
    return lazy(shp, fn)


def _mm(f):
    def red(n, g):
        n = isimp(raw(n))
        if isx(n):
            raise Unsupported("max/min over a symbolic axis")
        r = g(0)
        for t in range(1, n):
            r = f(r, g(t))
        return r
    return red


def _arg(a, axis, op):
    a = A(a)

    def red(n, g):
        n = isimp(raw(n))
        if isx(n):
            raise Unsupported("argmax over a symbolic axis")
        best, ix = g(0), 0
        for t in range(1, n):
            c = binop(op, g(t), best)
            if S.sets is not None and not isinstance(c, bool):
                # small vectors of counts: one path per position
                if bool(c):
                    best, ix = g(t), t
                continue
            best, ix = ite(c, g(t), best), ite(c, t, ix)
        return ix
    return _reduce(a, axis if axis is not None else (0 if a.ndim == 1 else None), red)


def np_reshape(a, shape):
    shape = [raw(x) for x in _shp(shape)]
    if len(shape) == a.ndim and all(same_size(x, y) for x, y in zip(shape, a._shape)):
        return a
    p = a.ndim - 1
    if len(shape) > p and p >= 0 and all(same_size(x, y) for x, y in zip(shape[:p], a._shape[:p])):
        # the last axis split (row-major)
        from .shim_xr import packing
        z3 = core.z3
        d = z3.simplify(z3.Product(*[zi(x) for x in shape[p:]]) - zi(a._shape[p]), som=True)
        if z3.is_int_value(d) and d.as_long() == 0:
            pk = packing(shape[p:])
            g = a.snap()
            return lazy(shape, lambda i: g(tuple(i[:p]) + (pk.pack(i[p:]),)))
    raise Unsupported("reshape")
