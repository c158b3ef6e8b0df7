"""Contracts of the stratiform cloud and precipitation subcolumn allocation (S02, S03, S04): the level loop is verified with an
invariant (each level already processed satisfies its own postcondition) for an arbitrary level, an arbitrary state of the level above
it that satisfies the invariant, and every outcome of the random permutations."""
from ..prove import contract
from ..symmodel import M, sizes, D3
from .. import core, arr, sets, vc
from ..arr import inp, raw, zi, lazy, isx, isimp
from ..core import z3, And, Or, Not, Imp, truth, Fraction, Sc, I, B, S, Unsupported
from .subcol import SC, unit_frac, rint

F = Fraction
Int = z3.IntSort()


def rounding(c, s):
    """np.round of a quantity in [0, number of subcolumns] as a count of its own: an integer in the same range"""
    from ..shim_np import _free_loops, _keyed, _canon_bound
    n = zi(raw(s.NS))

    def rnd(v):
        """-> z3 Int"""
        if z3.is_rational_value(v):
            f = v.as_fraction()
            return z3.IntVal(round(Fraction(f.numerator, f.denominator)))
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(v.arg(0), rnd(v.arg(1)), rnd(v.arg(2)))
        if z3.is_mul(v):
            for q, x in enumerate(v.children()):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                    rest = [y for p, y in enumerate(v.children()) if p != q]
                    a = z3.simplify(z3.Product(x.arg(1), *rest))
                    b = z3.simplify(z3.Product(x.arg(2), *rest))
                    return z3.If(x.arg(0), rnd(a), rnd(b))
        frees = _free_loops(v)
        nm, f = _keyed('RND', _canon_bound(v, frees, z3.Int('none%')), len(frees), Int)
        t = f(*frees) if frees else f()
        if nm not in S.defs:
            ok = vc.prove([*S.assume], z3.And(v >= 0, v <= z3.ToReal(n)), 5.)[0] == 'proved'
            S.defs[nm] = vc.Def(unfold=lambda a, f=f: [f(*a) >= 0, f(*a) <= n] if ok else [])
        return t

    def r(a):
        if a.flagged():
            return None
        return Sc('f', z3.ToReal(rnd(z3.simplify(a.v))))
    return r


class Level:
    """invariant of the level loop: the level array (rank 3, one axis of subcolumns) holds UF `ST` at the levels processed so far"""

    def __init__(self, c, s, axes, post):
        self.c, self.s, self.axes, self.post = c, s, axes, post
        self.n = 0

    def __call__(self, loop):
        if loop.step != -1 or not loop_is_levels(loop, self.s) or not S.loops:
            return None
        r = LevelRun(self, loop)
        return r


def loop_is_levels(loop, s):
    return arr.ieq(loop.lo, 0) is True and core.known(zi(loop.hi) == zi(raw(s.NZ)) - 1)


class LevelRun:
    def __init__(self, lv, loop):
        self.lv, self.c = lv, lv.c
        lv.n += not S.muted
        self.name = f"ST@{lv.n}" if not S.muted else "STpre@0"
        self.outer = list(S.loops)
        if len(self.outer) != 1:
            raise Unsupported("level loop outside a loop over columns")
        self.f = z3.Function(self.name, *[Int] * 4, z3.BoolSort())
        self.buf = None
        S.defs[self.name] = vc.Def(unfold=self.facts, rounds=2)

    def start(self, loop, keys):
        ms = [(b, k) for b, k in keys.values() if len(b.shape) == 3]
        if len(ms) != 1 or ms[0][1] is None:
            raise Unsupported("level loop writes other than one array of rank 3, level by level")
        self.buf, (self.d, off) = ms[0]
        if not (arr.isimp(off) == 0):
            raise Unsupported("level loop writes another level")
        if self.d != self.lv.axes.index('k'):
            raise Unsupported("level axis")
        # before the loop every element is False
        t = [z3.Int(f"ini%{q}") for q in range(3)]
        self.c.ensure('starts-empty', Not(truth(self.buf.fn(tuple(t)))))

    def main(self, loop, buf, key):
        return buf is self.buf

    def value(self, loop, buf, key, idx):
        if buf is not self.buf:
            return None
        return B(self.f(*self.outer, *[zi(x) for x in idx]))

    def split(self, idx):
        """(subcolumn, class, level) of an index vector of the level array"""
        d = dict(zip(self.lv.axes, idx))
        return d['i'], d['p'], d['k']

    def join(self, i, p, k):
        d = dict(i=i, p=p, k=k)
        return tuple(d[x] for x in self.lv.axes)

    def st(self, tt, i, p, k):
        return self.f(zi(tt), *[zi(x) for x in self.join(i, p, k)])

    def facts(self, args):
        tt = args[0]
        i, p, k = self.split(args[1:])
        return self.lv.post.invariant(self, tt, i, k)

    def assume(self, loop):
        f = getattr(self.lv.post, 'assume', None)
        return f(self, loop) if f else []

    def step(self, loop, keys):
        if S.muted:
            return
        self.lv.post.step(self, loop)


def spec_round(x, n):
    """the specification's nearest integer of fraction * number (through the same assumed contract of np.round)"""
    return core.cast(core.s_round(core.binop('*', x, n)), 'int').v


class StratPost:
    """what each processed level satisfies"""

    def __init__(self, c, s, d, conv, what):
        self.c, self.s, self.d, self.conv, self.what = c, s, d, conv, what

    def invariant(self, run, tt, i, k):
        a0, a1 = run.st(tt, i, 0, k), run.st(tt, i, 1, k)
        d0, d1 = self.d(0, tt, k), self.d(1, tt, k)
        return [z3.Implies(d0 <= d1, z3.Implies(a0, a1)), z3.Implies(d1 <= d0, z3.Implies(a1, a0)),
                z3.Implies(z3.And(d0 == 0, d1 == 0), z3.Not(z3.Or(a0, a1)))]

    def step(self, run, loop):
        c, s = self.c, self.s
        tt, j = run.outer[0], loop.lp
        n = zi(raw(s.NS))
        cnt = S.sets.count
        now = lambda i, p: core.zb(truth(run.buf.fn(run.join(i, p, j))))
        top = zi(raw(s.NZ)) - 1
        above = lambda i: z3.And(j + 1 < top, z3.Or(run.st(tt, i, 0, j + 1), run.st(tt, i, 1, j + 1)))
        cv = lambda i: core.zb(self.conv(i, tt, j))
        d = [self.d(0, tt, j), self.d(1, tt, j)]
        full = z3.And(d[0] == n, d[1] == n)
        A = [cnt(lambda i, p=p: now(i, p)) for p in (0, 1)]
        goals = [("level/invariant-empty", z3.Implies(z3.And(d[0] == 0, d[1] == 0), z3.And(A[0] == 0, A[1] == 0)), []),
                 ("level/less-within-more", z3.And(z3.Implies(d[0] <= d[1], cnt(lambda i: z3.And(now(i, 0), Not(now(i, 1)))) == 0),
                                                   z3.Implies(d[1] <= d[0], cnt(lambda i: z3.And(now(i, 1), Not(now(i, 0)))) == 0)), [])]
        if self.what == 'S02':
            free = cnt(lambda i: z3.Not(cv(i)))
            goals.append(("level/no-convective", z3.Or(full, cnt(lambda i: z3.And(cv(i), z3.Or(now(i, 0), now(i, 1)))) == 0), []))
            goals += [(f"level/count-{h}", A[p] == z3.If(full, n, z3.If(d[p] <= free, d[p], free)), []) for p, h in ((0, 'cl'), (1, 'ci'))]
        else:
            ov = lambda i: z3.And(above(i), z3.Not(cv(i)))
            O = cnt(ov)
            for p, h in ((0, 'cl'), (1, 'ci')):
                X = cnt(lambda i, p=p: z3.And(now(i, p), ov(i)))
                goals.append((f"level/overlap-{h}", X == z3.If(A[p] <= O, A[p], O), []))
        sets.ensure_card(c, goals)


def lean(c):
    """the facts about physical constants play no part in the allocation"""
    drop = ('LR_', 'LDR_', 'RHO_', 'FL_', 'VA_', 'VB_')
    S.assume[:] = [f for f in S.assume if not any(n.startswith(drop) for n in vc._base_names(core.zb(f)) | _consts(core.zb(f)))]


def _consts(f):
    return {x.decl().name() for x in vc.subterms([f]) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}


def strat(c, rad, conv, mode, what):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    thr = core.const('q_trunc', 'f', '0+')
    n = s.NS

    def body():
        m = M(c, s, conv=conv)
        m.m.num_subcolumns = s.NS
        fr, q = {}, {}
        for h in ('cl', 'ci'):
            fr[h] = unit_frac(s, m, f"f_s_{h}"), unit_frac(s, m, f"fr_s_{h}")
            q[h] = m.field2(f"q_s_{h}", sign='0+')
        cf = [m.field3(f"conv_frac_subcolumns_{h}", kind='b') for h in ('cl', 'ci')] if conv else None

        def d(p, tt, kk):
            h = ('cl', 'ci')[p]
            r = spec_round(fr[h][1 if rad else 0].at((tt, kk)), n)
            if rad:
                r = z3.If(truth(q[h].at((tt, kk)) > thr), r, z3.IntVal(0))
            return r

        def cv(ii, tt, kk):
            return Or(*[truth(x.at((ii, tt, kk))) for x in cf]) if conv else False
        lean(c)
        S.sets = sets.Sets(c, s.NS)
        S.round = rounding(c, s)
        post = StratPost(c, s, d, cv, what)
        lv = S.loop_rule = Level(c, s, ('p', 'i', 'k'), post)
        kw = dict(parallel=mode != 'serial')
        r = c.fn(SC, 'set_stratiform_sub_col_frac')(m.m, None, use_rad_logic=rad, q_trunc_thresh=thr, **kw)
        S.loop_rule = None
        c.require(lv.n == 1, "the level loop was not found")
        c.ensure('returns/model', r is m.m)
        f = z3.Function('ST@1', *[Int] * 4, z3.BoolSort())
        for p, h in ((0, 'cl'), (1, 'ci')):
            a = m.m.ds[f"strat_frac_subcolumns_{h}"]
            c.ensure(f"{h}/dims", tuple(a.dims) == D3)
            v = truth(a.arr.at((i, t, k)))
            # the array the level loop built for the column of time index t, in every level below the top
            c.ensure(f"{h}/placed", v == f(t, p, i, k), [k < zi(raw(s.NZ)) - 1])
            c.ensure(f"{h}/top-never-marked", Not(v), [k == zi(raw(s.NZ)) - 1])
    c.paths(body)


for _w in ('S02', 'S03'):
    for _r in (True, False):
        for _c in (True, False):
            for _m in ('serial', 'parallel'):
                contract(_w, f"set_stratiform_sub_col_frac[{'radiation' if _r else 'microphysics'}{',convection' if _c else ''},{_m}]",
                         ['simulator.subcolumn.set_stratiform_sub_col_frac', 'simulator.subcolumn._allocate_strat_sub_col',
                          'simulator.subcolumn._randperm', 'simulator.subcolumn._setxor'], limit=200.,
                         tier='quick' if _m == 'serial' or _r and _c else 'thorough')(
                             lambda c, a=_r, b=_c, d=_m, e=_w: strat(c, a, b, d, e))


# ------------------------------------------------------------------------------------------------------------- S04
class PrecipPost:
    def __init__(self, c, s, d, cloud, np_, case):
        self.c, self.s, self.d, self.cloud, self.np, self.case = c, s, d, cloud, np_, case

    def invariant(self, run, tt, i, k):
        P = range(self.np)
        return [z3.Implies(z3.And(*[self.d(p, tt, k) == 0 for p in P]), z3.Not(z3.Or(*[run.st(tt, i, p, k) for p in P])))]

    def assume(self, run, loop):
        return self.case([self.d(p, run.outer[0], loop.lp) for p in range(self.np)]) if self.case else []

    def step(self, run, loop):
        s = self.s
        tt, j = run.outer[0], loop.lp
        n = zi(raw(s.NS))
        P = range(self.np)
        cnt = S.sets.count
        now = lambda i, p: core.zb(truth(run.buf.fn(run.join(i, p, j))))
        top = zi(raw(s.NZ)) - 1
        above = lambda i: z3.And(j + 1 < top, z3.Or(*[run.st(tt, i, p, j + 1) for p in P]))
        cl = lambda i: core.zb(self.cloud(i, tt, j))
        d = [self.d(p, tt, j) for p in P]
        O = cnt(above)
        C = cnt(lambda i: z3.And(cl(i), z3.Not(above(i))))
        goals = []
        for p in P:
            A = cnt(lambda i: now(i, p))
            X = cnt(lambda i: z3.And(now(i, p), above(i)))
            Y = cnt(lambda i: z3.And(now(i, p), z3.Not(above(i)), cl(i)))
            goals += [(f"level/count-{p}", A == d[p], []),
                      (f"level/overlying-first-{p}", X == z3.If(d[p] <= O, d[p], O), []),
                      (f"level/cloudy-before-clear-{p}", Y == z3.If(d[p] - X <= C, d[p] - X, C), [])]
            for q in range(p):
                goals.append((f"level/nested-{q}-{p}", z3.And(z3.Implies(d[p] <= d[q], cnt(lambda i: z3.And(now(i, p), Not(now(i, q)))) == 0),
                                                              z3.Implies(d[q] <= d[p], cnt(lambda i: z3.And(now(i, q), Not(now(i, p)))) == 0)), []))
        sets.ensure_card(self.c, goals)


def precip(c, rad, is_conv, mode, types, case=None):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    thr = core.const('q_trunc', 'f', '0+')
    cl, cls = ('conv', 'c') if is_conv else ('strat', 's')

    def body():
        m = M(c, s, hyd=['cl', 'ci', *types])
        m.m.num_subcolumns = s.NS
        fr = [(unit_frac(s, m, f"f_{cls}_{h}"), unit_frac(s, m, f"fr_{cls}_{h}")) for h in types]
        q = [m.field2(f"q_{cls}_{h}", sign='0+') for h in types]
        occ = [m.field3(f"{a}_frac_subcolumns_{h}", kind='b') for a in ('conv', 'strat') for h in ('cl', 'ci')]
        mine = occ[:2] if is_conv else occ[2:]

        def d(p, tt, kk):
            r = spec_round(fr[p][1 if rad else 0].at((tt, kk)), s.NS)
            if rad:
                r = z3.If(truth(q[p].at((tt, kk)) > thr), r, z3.IntVal(0))
            return r

        def cloud(ii, tt, kk):
            return Or(*[truth(x.at((ii, tt, kk))) for x in mine])
        lean(c)
        S.sets = sets.Sets(c, s.NS)
        S.round = rounding(c, s)
        lv = S.loop_rule = Level(c, s, ('i', 'k', 'p'), PrecipPost(c, s, d, cloud, len(types), case))
        r = c.fn(SC, 'set_precip_sub_col_frac')(m.m, is_conv, use_rad_logic=rad, parallel=mode != 'serial', precip_types=list(types), q_trunc_thresh=thr)
        S.loop_rule = None
        c.require(lv.n == 1, "the level loop was not found")
        c.ensure('returns/model', r is m.m)
        f = z3.Function('ST@1', *[Int] * 4, z3.BoolSort())
        for p, h in enumerate(types):
            a = m.m.ds[f"{cl}_frac_subcolumns_{h}"]
            c.ensure(f"{h}/dims", tuple(a.dims) == D3)
            v = truth(a.arr.at((i, t, k)))
            c.ensure(f"{h}/placed", v == f(t, i, k, p), [k < zi(raw(s.NZ)) - 1])
            c.ensure(f"{h}/top-never-marked", Not(v), [k == zi(raw(s.NZ)) - 1])
    c.paths(body)


_FN = ['simulator.subcolumn.set_precip_sub_col_frac', 'simulator.subcolumn._allocate_precip_sub_col', 'simulator.subcolumn._randperm']
for _r in (True, False):
    for _c in (True, False):
        for _m in ('serial', 'parallel'):
            contract('S04', f"set_precip_sub_col_frac[{'radiation' if _r else 'microphysics'},{'conv' if _c else 'strat'},{_m}]", _FN, limit=250.,
                     tier='quick' if _m == 'serial' or _r and not _c else 'thorough')(lambda c, a=_r, b=_c, d=_m: precip(c, a, b, d, ['pl', 'pi']))
contract('S04', "set_precip_sub_col_frac[one class]", _FN, limit=200.)(lambda c: precip(c, True, False, 'serial', ['pl']))
