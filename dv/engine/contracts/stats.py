"""Contracts of the statistics package (A01..A03)."""
from ..prove import contract
from .. import core, arr
from ..arr import inp, raw, zi
from ..core import z3, And, Or, Not, Imp, truth, Fraction, isnan, binop, Sc, I, B, ite
from ..shim_np import np

ST = 'statistics_LLNL.statistical_aggregation'
F = Fraction


def one(pred):
    return lambda t: ite(B(pred(t)), 1, 0)


def count(n, pred):
    """number of t in [0, n) with pred(t)"""
    from ..shim_np import big_sum
    return big_sum(n, one(pred))


def lift(t):
    return Sc('i', zi(t)) if not isinstance(t, Sc) else t


# ------------------------------------------------------------------------------------------------------------- A02
@contract('A02', 'calculate_lidar_CF', [ST + '.calculate_lidar_CF'])
def lidar_cf(c):
    N, T, G, K = (c.size(x) for x in ('N', 'T', 'G', 'K'))
    ix = (c.idx('t', T), c.idx('g', G), c.idx('k', K))

    def body():
        sr = inp('SR', (N, T, G, K), flags=True)
        r = c.fn(ST, 'calculate_lidar_CF')(sr, T, G, K)
        c.ensure('shape', len(r.shape) == 3 and all(arr.same_size(x, y) for x, y in zip(r._shape, (T, G, K))))
        v = r.at(ix)

        def above(lim):
            return lambda s: And(Not(truth(isnan(sr.at((s, *ix))))), truth(sr.at((s, *ix)) > lim))
        cloudy, usable = count(N, above(F(5))), count(N, above(F('0.01')))
        le = c.sum_le('cloudy-is-usable', N, one(above(F(5))), one(above(F('0.01'))))
        none = truth(usable == 0)
        c.ensure("missing-iff-unusable", truth(isnan(v)) == none)
        c.ensure('cloudy-over-usable', c.eq(v, cloudy * F(1) / usable), [Not(none)])
        c.ensure('at-least-0', truth(v >= 0), [Not(none)])
        c.ensure('at-most-1', truth(v <= 1), [Not(none), le])
        s = c.idx('s', N)
        c.ensure('frame/input', c.eq(sr.at((s, *ix)), inp('SR', (N, T, G, K), flags=True).at((s, *ix))))
    c.paths(body)


# ------------------------------------------------------------------------------------------------------------- A03
def cfad(c, fname):
    N, T, G, K, NB = (c.size(x) for x in ('N', 'T', 'G', 'K', 'NB'))
    k, b, col, t = c.idx('k', G), c.idx('b', NB), c.idx('col', K), c.idx('t', T)

    def body():
        E = inp('E', (NB + 1,))
        mid = inp('mid', (G,))
        a = inp('a', (N, T, G, K), flags=True)
        # the bin edges do not decrease
        e = lambda i: E.at((i,))
        nb = raw(NB)
        mono = [truth(e(0) <= e(b)), truth(e(b) <= e(b + 1)), truth(e(b + 1) <= e(nb)), truth(e(0) <= e(nb))]
        r = c.fn(ST, fname)(E, mid, T, N, a, Sc('i', col))
        c.ensure('shape', len(r.shape) == 2 and arr.same_size(r._shape[0], G) and arr.same_size(r._shape[1], NB))
        x = lambda s, tt: a.at((s, tt, k, col))
        inb = lambda tt, lo, hi: lambda s: And(Not(truth(isnan(x(s, tt)))), truth(x(s, tt) >= lo), truth(x(s, tt) < hi))
        from ..shim_np import big_sum
        v = r.at((k, b))
        share = lambda tt: count(N, inb(tt, e(b), e(b + 1))) / lift(N)
        anyin = lambda tt: truth(count(N, inb(tt, e(0), e(nb))) > 0)
        shown = lambda tt: ite(B(anyin(tt)), share(tt), F(0))
        c.ensure('share-when-any-in-range', c.eq(v, big_sum(raw(T), shown) / lift(T)), mono)
        # no value in range: none in the bin
        le = c.sum_le('bin-within-range', N, one(inb(t, e(b), e(b + 1))), one(inb(t, e(0), e(nb))), mono)
        same = c.sum_eq('no-value-in-range', T, shown, share, t, [*mono, le])
        c.ensure('share-of-subcolumns', c.eq(v, big_sum(raw(T), share) / lift(T)), [*mono, same])
        le = c.sum_le('in-bin-counts-once', N, one(inb(t, e(b), e(b + 1))), lambda s: I(1))
        c.ensure('bin-share-at-most-1', truth(count(N, inb(t, e(b), e(b + 1))) / lift(N) <= 1), [le])
        # bins add up to the share in range: induction over the number of bins
        c.ensure('bins-add-up/no-bins', truth(count(N, inb(t, e(0), e(0))) == 0))
        st = c.sum_split('bins-add-up/one-more', N, one(inb(t, e(0), e(b + 1))), [one(inb(t, e(0), e(b))), one(inb(t, e(b), e(b + 1)))], mono)
        c.ensure('bins-add-up/step', truth(count(N, inb(t, e(0), e(b + 1))) == count(N, inb(t, e(0), e(b))) + count(N, inb(t, e(b), e(b + 1)))), [st])
        s = c.idx('s', N)
        c.ensure('frame/input', c.eq(a.at((s, t, k, col)), inp('a', (N, T, G, K), flags=True).at((s, t, k, col))))
        c.ensure('frame/edges', c.eq(e(b), inp('E', (NB + 1,)).at((b,))))
    c.paths(body)


for _f in ('get_cfaddBZ', 'get_cfad_SR'):
    contract('A03', _f, [ST + '.' + _f, ST + '.cal_cfad_radar_40levels'])(lambda c, f=_f: cfad(c, f))


# ------------------------------------------------------------------------------------------------------------- A01
UNDEF, GROUND = F(-10) ** 30 * -1, F(10) ** 20 * -1


class Grids:
    """specification: the weight of a source layer in an output layer is the thickness of their overlap"""

    def __init__(self, c, db):
        self.c = c
        self.P, self.C, self.N, self.G = (c.size(x) for x in ('P', 'C', 'N', 'G'))
        self.size = self.N
        self.zf, self.zh = inp('ZF', (self.P, self.N)), inp('ZH', (self.P, self.N))
        self.y = inp('Y', (self.P, self.C, self.N))
        self.nb, self.nt = inp('NB', (self.G,)), inp('NT', (self.G,))
        self.db = db

    def args(self):
        return (self.P, self.C, self.N, self.zf, self.zh, self.y, self.G, self.nb, self.nt)

    def ob(self, i, l):
        return self.zh.at((i, l))

    def ot(self, i, l):
        n = zi(raw(self.N))
        return ite(B(zi(l) < n - 1), self.zh.at((i, zi(l) + 1)), 2 * self.zf.at((i, n - 1)) - self.zh.at((i, n - 1)))

    def weight(self, i, k, l):
        least = lambda a, b: ite(a < b, a, b)
        most = lambda a, b: ite(a > b, a, b)
        return most(least(self.ot(i, l), self.nt.at((k,))) - most(self.ob(i, l), self.nb.at((k,))), F(0))

    def value(self, i, k, j, l):
        """of one subcolumn; in linear units if those are asked for"""
        v = self.y.at((i, j, l))
        return ite(B(truth(v == UNDEF)), F(0), F(10) ** (v / F(10))) if self.db else v

    def hyps(self, i, k, a, b):
        """the source boundaries increase, the output layers have a thickness and follow each other"""
        n = zi(raw(self.N))
        r = [truth(self.nb.at((k,)) <= self.nt.at((k,)))]
        r.append(truth(self.zf.at((i, n - 1)) > self.zh.at((i, n - 1))))
        es = [a, a + 1, b, b + 1] if a is not b else [a, a + 1]
        zh = lambda l: self.zh.at((i, z3.simplify(l))).v
        ok = lambda l: z3.And(l >= 0, l < n)
        for p, x in enumerate(es):
            for q, y in enumerate(es):
                if p < q:
                    r.append(z3.Implies(z3.And(ok(x), ok(y)), z3.And(z3.Implies(x < y, zh(x) < zh(y)), z3.Implies(y < x, zh(y) < zh(x)),
                                                                    z3.Implies(x == y, zh(x) == zh(y)))))
            r.append(z3.Implies(ok(x), zh(x) <= zh(n - 1)))
        return r

    # the source layer the search of the next output layer starts after
    def carried(self, i, k, v):
        n = zi(raw(self.N))
        return z3.And(v >= -1, v <= n - 2, z3.Implies(v >= 0, core.zb(truth(self.ot(i, v) <= self.nb.at((k,))))))

    def carried_hyps(self, i, k, v0, v):
        e = v + 2
        nx = truth(self.nt.at((k,)) <= self.nb.at((k + 1,)))
        return [nx, truth(self.nb.at((k,)) <= self.nt.at((k,))), *self.hyps(i, k, v, v + 1), *self.hyps(i, k, v + 1, v + 2), *self.hyps(i, k, v0, v0 + 1),
                *self.hyps(i, k, v0, v), *self.hyps(i, k, v0 + 1, v + 1)]


def regrid(c, db):
    from ..loops import Sweep, Carry
    S = core.S

    def body():
        g = Grids(c, db)
        i, j, k = c.idx('i', g.P), c.idx('j', g.C), c.idx('k', g.G)
        S.loop_rule = lambda loop: Carry(c, loop, g.carried, g.carried_hyps) if len(S.loops) == 1 and arr.ieq(loop.hi, raw(g.G)) is True else None
        S.while_rules = lambda names, flags, fname, loc: Sweep(c, g, names, flags, loc)
        r = c.fn(ST, 'COSP_CHANGE_VERTICAL_GRID')(*g.args(), lunits=db)
        S.loop_rule = S.while_rules = None
        c.ensure('shape', len(r.shape) == 3 and all(arr.same_size(x, y) for x, y in zip(r._shape, (g.P, g.C, g.G))))
        from ..shim_np import big_sum
        v = r.at((i, j, k))
        w = lambda l: g.weight(i, k, l)
        wy = lambda l: g.weight(i, k, l) * g.value(i, k, j, l)
        tot, row = big_sum(raw(g.N), w), big_sum(raw(g.N), wy)
        below = truth(g.nt.at((k,)) <= g.zh.at((i, 0)))
        some = truth(tot > 0)
        c.ensure('below-ground', c.eq(v, GROUND), [below])
        mean = row / tot
        if db:
            c.ensure('mean-in-linear-units', c.eq(v, F(10) * np.log10(mean)), [Not(below), some, truth(mean > 0)])
            c.ensure('nothing-to-show', c.eq(v, UNDEF), [Not(below), some, Not(truth(mean > 0))])
        else:
            c.ensure('overlap-weighted-mean', c.eq(v, mean), [Not(below), some])
            # between the smallest and the largest of the values that contribute
            for nm, op in (('least', lambda a, b: a <= b), ('greatest', lambda a, b: a >= b)):
                m = core.const(nm + '%', 'f')
                p = c.idx(f"sl_{nm}", g.N)
                con = lambda t: m * w(t)
                hy = [Imp(truth(w(p) > 0), truth(op(m, g.value(i, k, j, p)))), truth(w(p) >= 0)]
                f = c.sum_le(nm, g.N, *((con, wy) if nm == 'least' else (wy, con)), hyps=hy)
                c.ensure(f"{nm}-contributing-value", truth(op(m, mean)), [some, f])
        for a, nm in ((g.zf, 'zfull'), (g.zh, 'zhalf')):
            n = c.idx('n', g.N)
            c.ensure('frame/' + nm, c.eq(a.at((i, n)), inp('ZF' if nm == 'zfull' else 'ZH', (g.P, g.N)).at((i, n))))
        n = c.idx('n', g.N)
        c.ensure('frame/y', c.eq(g.y.at((i, j, n)), inp('Y', (g.P, g.C, g.N)).at((i, j, n))))
    c.paths(body)


for _d in (False, True):
    contract('A01', 'regrid' + ('/linear-units' if _d else ''), [ST + '.COSP_CHANGE_VERTICAL_GRID'])(lambda c, d=_d: regrid(c, d))


def wrapper(c, fname):
    """the wrappers regrid every column on its own grid, every subcolumn and time on its own"""
    N, T, L, G, K = (c.size(x) for x in ('N', 'T', 'L', 'G', 'K'))
    s, t, g, col = c.idx('s', N), c.idx('t', T), c.idx('g', G), c.idx('col', K)
    l = c.idx('l', L)
    Int = z3.IntSort()

    def body():
        ratio = fname == 'calculate_SR'
        names = ('TOT', 'MOL') if ratio else ('ZE',)
        src = {n: inp(n, (N, T, L, K), flags=True) for n in names}
        zf, zh = inp('ZF3', (T, L, K)), inp('ZH3', (T, L, K))
        nb, nt = inp('NB', (G,)), inp('NT', (G,))
        filled = lambda n, ix: ite(isnan(src[n].at(ix)), UNDEF, src[n].at(ix))
        seen = []

        def cosp(Npoints, Ncolumns, Nlevels, zfull, zhalf, y, Nglevels, newgrid_bot, newgrid_top, lunits=False):
            """contract of COSP_CHANGE_VERTICAL_GRID: a function of its arguments; which they are is checked here"""
            kk = core.S.loops[-1] if core.S.loops else z3.IntVal(0)
            nm = names[len({x for x, _ in seen if x in names}) % len(names)] if not ratio else None
            if ratio:
                for q in names:
                    h = c.eq(y.at((t, s, l)), filled(q, (s, t, l, kk)))
                    if h is True or core.known(h) or vc_holds(c, h):
                        nm = q
            if nm is None:
                raise core.Unsupported("which field is regridded is not found")
            seen.append((nm, lunits))
            c.ensure(f"regrids/{nm}/sizes", And(truth(Npoints == T), truth(Ncolumns == N), truth(Nlevels == L), truth(Nglevels == G)))
            c.ensure(f"regrids/{nm}/shape", all(arr.same_size(a, b) for a, b in zip((*y._shape, *zfull._shape, *zhalf._shape), map(raw, (T, N, L, T, L, T, L)))))
            c.ensure(f"regrids/{nm}/profile", c.eq(y.at((t, s, l)), filled(nm, (s, t, l, kk))))
            c.ensure(f"regrids/{nm}/own-grid", And(c.eq(zfull.at((t, l)), zf.at((t, l, kk))), c.eq(zhalf.at((t, l)), zh.at((t, l, kk)))))
            c.ensure(f"regrids/{nm}/target", And(c.eq(newgrid_bot.at((g,)), nb.at((g,))), c.eq(newgrid_top.at((g,)), nt.at((g,)))))
            c.ensure(f"regrids/{nm}/units", not lunits if isinstance(lunits, bool) else Not(truth(lunits)))
            f = z3.Function('RG' + nm, Int, Int, Int, Int, z3.RealSort())
            return arr.Arr(arr.Buf((T, N, G), lambda ix: Sc('f', f(kk, *[zi(x) for x in ix]))))
        c.stub(ST, 'COSP_CHANGE_VERTICAL_GRID', cosp)
        f = c.fn(ST, fname)
        if ratio:
            r = f(src['TOT'], src['MOL'], N, T, zf, zh, N, T, L, G, K, nb, nt)
        else:
            r = f(src['ZE'], zf, zh, N, T, G, K, nb, nt, N, T, L)
        c.ensure('shape', len(r.shape) == 4 and all(arr.same_size(a, b) for a, b in zip(r._shape, map(raw, (N, T, G, K)))))
        out = {n: Sc('f', z3.Function('RG' + n, Int, Int, Int, Int, z3.RealSort())(col, t, s, g)) for n in names}
        out = {n: ite(B(truth(v == UNDEF)), Fraction(0) * Sc('f', v.v, True), v) for n, v in out.items()}
        v = r.at((s, t, g, col))
        w = out['TOT'] / out['MOL'] if ratio else out['ZE']
        c.ensure('ratio-of-the-regridded' if ratio else 'regridded-where-defined', c.eq(v, w))
        for n in names:
            c.ensure(f"frame/{n}", c.eq(src[n].at((s, t, l, col)), inp(n, (N, T, L, K), flags=True).at((s, t, l, col))))
    c.paths(body)


def vc_holds(c, h):
    from ..vc import prove
    return prove([*core.S.assume, *core.S.pc], h, 2.)[0] == 'proved'


for _f in ('calculate_SR', 'get_regridded_ze_att_tot'):
    contract('A01', _f, [ST + '.' + _f])(lambda c, f=_f: wrapper(c, f))
