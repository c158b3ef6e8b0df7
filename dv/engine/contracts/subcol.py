"""Contracts of the subcolumn generator (S01..S07)."""
from ..prove import contract
from ..symmodel import M, sizes, HYD, D3, D2
from .. import core, arr
from ..arr import inp, raw, zi
from ..core import z3, And, Or, Not, Imp, truth, Fraction, isnan, binop, Sc, I, B, ite

SC = 'simulator.subcolumn'
F = Fraction


def rint(x):
    """nearest integer of a finite real, ties to even (the specification's own)"""
    v = core.as_real(x)[0]
    f = z3.ToInt(v)
    r = v - z3.ToReal(f)
    half = core.rv(F(1, 2))
    return z3.If(r < half, f, z3.If(r > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def unit_frac(s, m, name):
    """a cloud fraction field: 0 <= f <= 1"""
    return m.field2(name, sign='0+', fact=lambda v, a: [v >= 0, v <= 1])


def numset(m, s, given):
    m.m.num_subcolumns = 0 if given else s.NS


def conv(c, rad, h, given):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    thr = core.const('q_trunc', 'f', '0+')

    def body():
        m = M(c, s)
        if given:
            m.m.ds.v.pop('subcolumn')
        fr = unit_frac(s, m, f"f_c_{h}")
        frr = unit_frac(s, m, f"fr_c_{h}")
        q = m.field2(f"q_c_{h}", sign='0+')
        r = c.fn(SC, 'set_convective_sub_col_frac')(m.m, h, **(dict(N_columns=s.NS) if given else {}), use_rad_logic=rad, q_trunc_thresh=thr)
        c.ensure('returns/model', r is m.m)
        a = m.m.ds[f"conv_frac_subcolumns_{h}"]
        c.ensure('dims', tuple(a.dims) == D3)
        n = rint((frr if rad else fr).at((t, k)) * s.NS)
        if rad:
            n = z3.If(truth(q.at((t, k)) > thr), n, 0)
        # the n lowest-numbered subcolumns and no other, with 0 <= n <= N: so their number is n
        c.ensure('count/within', And(n >= 0, n <= raw(s.NS)))
        c.ensure('marked/lowest-numbered', truth(a.arr.at((i, t, k))) == (i < n))
        c.ensure('frame/q', c.eq(m.at(f"q_c_{h}", t, k), q.at((t, k))))
        c.ensure('frame/fraction', And(c.eq(m.at(f"f_c_{h}", t, k), fr.at((t, k))), c.eq(m.at(f"fr_c_{h}", t, k), frr.at((t, k)))))
    c.paths(body)


for _h in HYD:
    for _r in (True, False):
        for _g in (True, False):
            contract('S01', f"set_convective_sub_col_frac[{_h},{'radiation' if _r else 'microphysics'},{'number given' if _g else 'number set before'}]",
                     ['simulator.subcolumn.set_convective_sub_col_frac', 'core.model.Model.num_subcolumns'])(
                         lambda c, a=_r, b=_h, d=_g: conv(c, a, b, d))


# ------------------------------------------------------------------------------------------------------------- S05
def means(c, h, is_conv, rad, qc):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    thr = core.const('q_trunc', 'f', '0+')
    cl, cls = ('conv', 'c') if is_conv else ('strat', 's')

    def body():
        m = M(c, s)
        fn = f"{'fr' if rad else 'f'}_{cls}_{h}"
        fr = unit_frac(s, m, fn)
        q = m.field2(f"q_{cls}_{h}", sign='0+')
        n = m.field2(f"n_{h}", sign='0+')

        # S01/S02/S04: a subcolumn holds the class only where its (rounded) fraction is positive
        def occ(v, a):
            z = [z3.Implies(v, fr.at(a[1:]).v > 0)]
            if rad:
                z.append(z3.Implies(v, q.at(a[1:]).v > thr.v))
            return z
        o = m.field3(f"{cl}_frac_subcolumns_{h}", kind='b', fact=occ)
        kw = dict(N_columns=None) if False else {}
        r = c.fn(SC, 'set_q_n')(m.m, h, is_conv=is_conv, qc_flag=qc, use_rad_logic=rad, q_trunc_thresh=thr, **kw)
        c.ensure('returns/model', r is m.m)
        x = m.m.ds[f"{cl}_q_subcolumns_{h}"]
        c.ensure('q/dims', tuple(x.dims) == D3)
        v = x.arr.at((i, t, k))
        oc, f, qq = truth(o.at((i, t, k))), fr.at((t, k)), q.at((t, k))
        c.ensure('q/finite-nonneg', c.ge(v, F(0)))
        c.ensure('q/mean-where-present', c.eq(v, qq / f), [oc, truth(qq > thr)])
        c.ensure('q/zero-below-threshold', c.eq(v, F(0)), [truth(qq <= thr)])
        c.ensure('q/zero-elsewhere', c.eq(v, F(0)), [Not(oc)])
        if not is_conv:
            y = m.m.ds[f"strat_n_subcolumns_{h}"]
            c.ensure('n/dims', tuple(y.dims) == D3)
            w = y.arr.at((i, t, k))
            c.ensure('n/finite-nonneg', c.ge(w, F(0)))
            c.ensure('n/mean-where-present', c.eq(w, n.at((t, k)) / f), [oc])
            c.ensure('n/zero-elsewhere', c.eq(w, F(0)), [Not(oc)])
        for nm, a in ((fn, fr), (f"q_{cls}_{h}", q), (f"n_{h}", n)):
            c.ensure('frame/' + nm, c.eq(m.at(nm, t, k), a.at((t, k))))
        c.ensure('frame/occurrence', truth(m.at(f"{cl}_frac_subcolumns_{h}", i, t, k)) == oc)
    c.paths(body)


for _h in HYD:
    for _c in (True, False):
        for _r in (True, False):
            for _q in (True, False):
                if _q and not (_r or _c) or _q and _h != 'cl':
                    continue
                contract('S05', f"set_q_n[{_h},{'conv' if _c else 'strat'},{'radiation' if _r else 'microphysics'}{',qc_flag' if _q else ''}]",
                         ['simulator.subcolumn.set_q_n'])(lambda c, a=_h, b=_c, d=_r, e=_q: means(c, a, b, d, e))
