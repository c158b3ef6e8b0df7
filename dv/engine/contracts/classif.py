"""Contracts of the classification module (L06, L07, R05, C01)."""
from ..prove import contract
from ..symmodel import M, sizes, instrument, HYD, D2, D3
from .. import core
from ..arr import inp, from_list
from ..core import as_int, z3, And, Or, Not, truth, Fraction, ite, isnan, s_fn, Sc, binop

CL = 'simulator.classification'


def fz(x):
    return ite(isnan(x), Fraction(0), x)


def num(c, x, v, missing=False):
    """x holds the number v (or is missing)"""
    return truth(isnan(x)) if missing else c.eq(x, Fraction(v))


# ------------------------------------------------------------------ L06
def phase_lidar(c, conv, inds, own, nanopt, sub):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    c.S.x_increasing = True

    def body():
        m = M(c, s, conv=conv)
        ins = instrument(c)
        n = c.size('NPT', 2)
        tab = []
        for j, ci in enumerate(inds):
            tab.append(dict(LDR=inp(f"curve{j}.LDR", (n,)), beta_p=inp(f"curve{j}.beta", (n,), sign='+'), class_ind=ci))
            tab[-1]['class'] = f"class {ci}"
        ins.beta_p_phase_thresh = None if own else tab
        parts = [('strat_phase_mask_HSRL', '_strat'), ('conv_phase_mask_HSRL', '_conv'), ('phase_mask_HSRL_all_hyd', '')] if conv else \
            [('phase_mask_HSRL_all_hyd', '')]
        for cl in ('tot', 'strat', 'conv'):
            m.field3(f"sub_col_LDR_{cl}", sign='0+', flags=True)
        for p in ('', '_strat', '_conv'):
            m.field3('sub_col_OD_tot' + p, sign='0+', flags=True)
            m.field3('sub_col_beta_p_tot' + p, sign='0+', flags=True)
        r = c.fn(CL, 'lidar_classify_phase')(ins, m.m, tab if own else None, convert_zeros_to_nan=nanopt, remove_sub_detect=sub)
        from ..shim_np import np
        for name, p in parts:
            x = r.ds[name].arr.at((i, t, k))
            c.ensure(name + '/dims', tuple(r.ds[name].dims) == D3)
            bp = m.at('sub_col_beta_p_tot' + p, i, t, k)
            ldr = m.at('sub_col_LDR_' + (p[1:] or 'tot'), i, t, k)
            od = m.at('sub_col_OD_tot' + p, i, t, k)
            reached = [And(truth(bp > 0), truth(s_fn('log10', bp) >= np.interp(ldr, e['LDR'], np.log10(e['beta_p'])))) for e in tab]
            # generic points only use the interpolant through equal table and equal argument
            cut = truth(od > ins.ext_OD) if sub else False
            for j, e in enumerate(tab):
                c.ensure(f"{name}/class{e['class_ind']}", num(c, x, e['class_ind']), [reached[j], Not(cut), *[Not(q) for q in reached[j + 1:]]])
            c.ensure(f"{name}/clear-where-no-curve-reached", num(c, x, 0, nanopt), [Not(q) for q in reached])
            c.ensure(f"{name}/clear-where-no-backscatter", num(c, x, 0, nanopt), [Not(truth(bp > 0))])
            if sub:
                c.ensure(f"{name}/clear-where-undetectable", num(c, x, 0, nanopt), [cut])
            c.ensure(f"{name}/no-other-value", Or(num(c, x, 0, nanopt), *[num(c, x, e['class_ind']) for e in tab]))
    c.paths(body)


for _cv in (True, False):
    for _inds, _own in (((1, 2, 3, 4), False), ((2, 1, 3), True)):
        for _nan in (False, True):
            for _sub in (True, False):
                contract('L06', f"lidar_classify_phase[{'conv+strat' if _cv else 'strat'},{len(_inds)} curves {'given' if _own else 'of the instrument'}"
                                f"{',missing' if _nan else ''}{',detectable only' if _sub else ''}]", ['simulator.classification.lidar_classify_phase'])(
                    lambda c, a=_cv, b=_inds, d=_own, e=_nan, f=_sub: phase_lidar(c, a, b, d, e, f))


# ------------------------------------------------------------------ L07
def cosp(c, conv, up, precip, hyd, nanopt, own):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    j = c.idx('j', s.NZ)

    def body():
        m = M(c, s, conv=conv)
        ins = instrument(c)
        cls = ['conv', 'strat'] if conv else ['strat']
        for cl in ('strat', 'conv'):
            m.field3(f"{cl}_q_subcolumns_cl", sign='0+')
            m.field3(f"sub_col_beta_p_tot_{cl}", sign='0+')
            for h in HYD:
                for v in ('beta_p', 'OD'):
                    m.field3(f"sub_col_{v}_{h}_{cl}", sign='0+', flags=True)
        m.field2('sigma_180_vol', sign='+')
        m.field2('tau', sign='+')
        eta = core.const('eta', 'f', '+')
        th, un = core.const('cloud_thresh', 'f', '+'), core.const('undef_thresh', 'f', '+')
        curve = [core.const(f"pd{n}", 'f') for n in range(6)] if own else None
        cc = {'liq': [core.const(f"cl{n}", 'f') for n in range(3)], 'ice': [core.const(f"ci{n}", 'f') for n in range(2)]} if own else None
        kw = dict(eta=eta, OD_from_sfc=up, phase_disc_curve=curve, atb_cross_coeff=cc, cloud_SR_thresh=th, undef_SR_thresh=un,
                  inc_precip_hyd_atb=precip, convert_zeros_to_nan=nanopt, hyd_types=hyd)
        f = c.fn(CL, 'lidar_emulate_cosp_phase')
        first = f(ins, m.m, **kw)
        plain = {p: first.ds[n].arr for p, n in names(cls)}
        r = f(ins, m.m, output_ATB=True, **kw)
        F = Fraction
        curve = curve or [F(x) for x in ('9032', '-2136', '173.394', '-3.951', '0.256', '-0.0009478')]
        cc = cc or {'liq': [F('0.4099'), F('0.009'), F(0)], 'ice': [F('0.2904'), F(0)]}
        hc = {'liq': ['cl', 'pl'] if precip else ['cl'], 'ice': ['ci', 'pi'] if precip else ['ci']}
        sel = hyd or HYD
        tt = m.at('t', t, k)
        kel = tt if m.m.ds['t'].attrs['units'] == 'kelvin' else tt + F('273.15')

        def poly(p, x):
            q = F(0)
            for a in p:
                q = q * x + a
            return q
        sg, tau = m.at('sigma_180_vol', t, k), m.at('tau', t, k)
        for part, name in names(cls):
            x = r.ds[name].arr.at((i, t, k))
            c.ensure(part + '/dims', tuple(r.ds[name].dims) == D3)
            c.ensure(part + '/same-without-output', c.eq(x, plain[part].at((i, t, k))))
            SR = lambda kk: r.ds[f"COSP_SR_{part}"].arr.at((i, t, kk))
            X, T = (r.ds[f"COSP_ATB{q}_{part}"].arr.at((i, t, k)) for q in ('cross', 'tot'))
            # the signals
            b, o, bx = F(0), F(0), F(0)
            for cl in (cls if part == 'all_hyd' else [part]):
                for w in ('liq', 'ice'):
                    bw, ow = F(0), F(0)
                    for h in hc[w]:
                        if h in sel:
                            bw = bw + fz(m.at(f"sub_col_beta_p_{h}_{cl}", i, t, k))
                            ow = ow + fz(m.at(f"sub_col_OD_{h}_{cl}", i, t, k))
                    e = s_fn('exp', F(-2) * eta * ow)
                    co = (sg + bw) * tau * e
                    bx = bx + poly(cc[w], co * F(1000)) / F(1000) / e / tau - sg * F('0.0284') / F('1.0284')
                    b, o = b + bw, o + ow
            e = s_fn('exp', F(-2) * eta * o)
            tot = (b + bx + sg * F('1.0284')) * e * tau
            c.ensure(part + '/total-signal', c.eq(T, tot))
            c.ensure(part + '/cross-polarised-signal', c.eq(X, (bx + sg * F('0.0284') / F('1.0284')) * e * tau))
            c.ensure(part + '/scattering-ratio', c.eq(SR(k), T / (sg * F('1.0284') * tau)))
            # the labels
            lab = truth(SR(k) > th)
            near = (lambda a: a < k) if up else (lambda a: a > k)
            q = z3.Int('q%near')
            none = z3.ForAll([q], z3.Implies(And(q >= 0, q < s.NZ.v, near(q)), core.zb(Not(truth(SR(q) > un)))))
            clear = num(c, x, 0, nanopt)
            c.ensure(part + '/unlabelled-where-below-threshold', clear, [Not(lab)])
            c.ensure(part + '/undefined-beyond-attenuating-level', num(c, x, 3), [lab, near(j), truth(SR(j) > un)])
            ice = Or(truth(kel < F('233.15')), And(Not(truth(kel > F('273.15'))), truth(X > poly(curve, T * F(1000)) / F(1000))))
            c.ensure(part + '/ice', num(c, x, 2), [lab, none, ice])
            c.ensure(part + '/liquid', num(c, x, 1), [lab, none, Not(ice)])
    c.paths(body)


def names(cls):
    return [(cl, f"{cl}_COSP_phase_mask") for cl in cls] + [('all_hyd', 'COSP_phase_mask_all_hyd')]


for _cv, _up, _pr, _hy, _nan, _own in [(True, True, True, None, False, False), (True, False, True, None, True, True), (False, True, False, None, True, True),
                                       (False, False, True, ['cl', 'pi'], False, True), (True, True, True, ['ci', 'pl'], True, True),
                                       (True, False, False, None, False, False)]:
    contract('L07', f"lidar_emulate_cosp_phase[{'conv+strat' if _cv else 'strat'},{'up' if _up else 'down'},{'with' if _pr else 'no'} precipitation,"
                    f"{'+'.join(_hy or HYD)}{',missing' if _nan else ''}{',own coefficients' if _own else ''}]",
             ['simulator.classification.lidar_emulate_cosp_phase'], limit=100)(
        lambda c, a=_cv, b=_up, d=_pr, e=_hy, f=_nan, g=_own: cosp(c, a, b, d, e, f, g))


# ------------------------------------------------------------------ R05
def sounding(c, conv, rng, nanopt):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        m = M(c, s, conv=conv)
        ins = instrument(c, 'radar')
        for cl in ('strat', 'conv'):
            m.field3(f"{cl}_frac_subcolumns_cl", sign='0+', fact=lambda v, a: [z3.Or(v == 0, v == 1)])
        for p in ('_strat', '_conv', ''):
            m.field3('sub_col_Ze_att_tot' + p, flags=True)
        m.field2('Ze_min')
        lim = (core.const('z_lo', 'f'), core.const('z_hi', 'f')) if rng else None
        r = c.fn(CL, 'radar_classify_phase')(ins, m.m, mask_height_rng=lim, convert_zeros_to_nan=nanopt)
        parts = [('strat_phase_mask_KAZR_sounding', '_strat', ['strat']), ('conv_phase_mask_KAZR_sounding', '_conv', ['conv']),
                 ('phase_mask_KAZR_sounding_all_hyd', '', ['strat', 'conv'])] if conv else [('phase_mask_KAZR_sounding_all_hyd', '', ['strat'])]
        for name, p, cls in parts:
            x = r.ds[name].arr.at((i, t, k))
            c.ensure(name + '/dims', tuple(r.ds[name].dims) == D3)
            liq = Or(*[truth(m.at(f"{cl}_frac_subcolumns_cl", i, t, k) != 0) for cl in cls])
            det = truth(m.at('sub_col_Ze_att_tot' + p, i, t, k) >= m.at('Ze_min', t, k))
            inside = True
            if rng:
                z = m.at('z', t, k)
                inside = Not(Or(truth(z < lim[0]), truth(z > lim[1])))
                c.ensure(name + '/clear-outside-height-range', num(c, x, 0, nanopt), [Not(inside)])
            c.ensure(name + '/mixed', num(c, x, 2), [inside, liq, det])
            c.ensure(name + '/precipitation', num(c, x, 3), [inside, Not(liq), det])
            c.ensure(name + '/cloud', num(c, x, 1), [inside, liq, Not(det)])
            c.ensure(name + '/clear', num(c, x, 0, nanopt), [inside, Not(liq), Not(det)])
    c.paths(body)


for _cv in (True, False):
    for _r in (True, False):
        for _nan in (True, False):
            contract('R05', f"radar_classify_phase[{'conv+strat' if _cv else 'strat'}{',height range' if _r else ''}{',missing' if _nan else ''}]",
                     ['simulator.classification.radar_classify_phase'])(lambda c, a=_cv, b=_r, d=_nan: sounding(c, a, b, d))


# ------------------------------------------------------------------ C01
def mask_field(c, m, s, missing):
    """labels 0..127, a float field with missing where unlabelled, or an integer field"""
    def fact(v, a):
        return [v <= 127]
    lab = inp('label', (s.NS, s.NT, s.NZ), 'i', '0+', fact=fact)
    from ..arr import lazy
    if missing:
        m.put('msk', lazy((s.NS, s.NT, s.NZ), lambda ix: ite(Sc('b', (as_int(lab.at(ix)) == 0)), float('nan'), core.cast(lab.at(ix), 'float'))))
    else:
        m.put('msk', lab)
    return lab


def freq(c, missing, cls, allh):
    from ..core import as_int
    from ..shim_np import big_sum
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        m = M(c, s)
        lab = mask_field(c, m, s, missing)
        before = m.m.ds['msk'].arr.at((i, t, k))
        r = c.fn(CL, 'calculate_phase_ratio')(m.m, 'msk', cls, mask_allhyd=allh)
        out = r.ds['msk_fpr']
        x = out.arr.at((t, k))
        c.ensure('dims', tuple(out.dims) == D2)
        cs = cls if isinstance(cls, list) else [cls]
        one = lambda b: Sc('i', z3.If(core.zb(b), 1, 0)) if not isinstance(b, bool) else int(b)
        isnum = lambda l: Or(*[as_int(l) == v for v in cs])
        isden = lambda l: as_int(l) > 0 if allh is None else Or(*[as_int(l) == v for v in allh])
        num = big_sum(s.NS.v, lambda q: one(isnum(lab.at((q, t, k)))))
        den = big_sum(s.NS.v, lambda q: one(isden(lab.at((q, t, k)))))
        pos = truth(den > 0)
        c.ensure('ratio-of-subcolumn-counts', c.eq(x, num / den), [pos])
        c.ensure('missing-where-no-hydrometeor', truth(isnan(x)), [truth(den == 0)])
        c.ensure('count-non-negative', Or(pos, truth(den == 0)))
        # within [0,1]: term by term, and by induction over the subcolumns
        c.ensure('counted-in-the-numerator-only-if-in-the-denominator', isden(lab.at((i, t, k))), [isnum(lab.at((i, t, k)))])
        unit_lemma(c)
        c.ensure('frame/mask', c.eq(r.ds['msk'].arr.at((i, t, k)), before))
    c.paths(body)


def unit_lemma(c):
    a, b = core.const('part', 'f', '0+'), core.const('whole', 'f', '0+')
    u, v = core.const('part_term', 'f', '0+'), core.const('whole_term', 'f', '0+')
    c.ensure('unit-interval/sums-keep-the-order', truth(a + u <= b + v), [truth(a <= b), truth(u <= v)])
    c.ensure('unit-interval/ratio', And(truth(a / b >= 0), truth(a / b <= 1)), [truth(a <= b), truth(b > 0)])


def mass(c, conv, sub, missing, hyd):
    from ..shim_np import big_sum
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        m = M(c, s, conv=conv)
        lab = mask_field(c, m, s, missing)
        for cl in ('strat', 'conv'):
            m.field3(f"{cl}_frac_subcolumns_cl", sign='0+')
            for h in HYD:
                m.field3(f"{cl}_q_subcolumns_{h}", sign='0+')
        for h in HYD:
            m.field2(f"q_s_{h}", sign='0+')
        r = c.fn(CL, 'calculate_phase_ratio')(m.m, 'msk', 1, mass_pr=True, mpr_subcolmod=sub, hyd_types=hyd)
        cls = ['conv', 'strat'] if conv else ['strat']
        sel = hyd or HYD
        F = Fraction

        def part(names, q):
            x = F(0)
            for h in names:
                if h in sel:
                    x = x + q(h)
            return x

        def ratio(name, x, l, w):
            pos = truth(l + w > 0)
            c.ensure(name + '/liquid-over-total', c.eq(x, l / (l + w)), [pos])
            c.ensure(name + '/missing-where-no-mass', truth(isnan(x)), [Not(pos)])
            c.ensure(name + '/masses-non-negative', And(truth(l >= 0), truth(w >= 0)))
        if sub:
            def mass_at(names, q):
                x = F(0)
                for cl in cls:
                    x = x + part(names, lambda h: ite(Sc('b', core.as_int(lab.at((q, t, k))) > 0), m.at(f"{cl}_q_subcolumns_{h}", q, t, k), F(0)))
                return x
            liq, ic = (lambda q: mass_at(('cl', 'pl'), q)), (lambda q: mass_at(('ci', 'pi'), q))
            ratio('per-subcolumn', r.ds['msk_mpr'].arr.at((i, t, k)), liq(i), ic(i))
            ratio('summed', r.ds['msk_mpr_sum'].arr.at((t, k)), big_sum(s.NS.v, liq), big_sum(s.NS.v, ic))
            c.ensure('dims', tuple(r.ds['msk_mpr'].dims) == D3 and tuple(r.ds['msk_mpr_sum'].dims) == D2)
        else:
            l, w = (part(n, lambda h: m.at(f"q_s_{h}", t, k)) for n in (('cl', 'pl'), ('ci', 'pi')))
            ratio('model-output', r.ds['mpr_q'].arr.at((t, k)), l, w)
            c.ensure('dims', tuple(r.ds['mpr_q'].dims) == D2)
        l, w = core.const('liquid', 'f', '0+'), core.const('ice', 'f', '0+')
        c.ensure('unit-interval', And(truth(l / (l + w) >= 0), truth(l / (l + w) <= 1)), [truth(l + w > 0)])
        for cl in cls:
            for h in HYD:
                c.ensure(f"frame/{cl}_{h}", c.eq(r.ds[f"{cl}_q_subcolumns_{h}"].arr.at((i, t, k)), inp(f"{cl}_q_subcolumns_{h}", (s.NS, s.NT, s.NZ)).at((i, t, k))))
            if not sub:
                break
    c.paths(body)


CPR = ['simulator.classification.calculate_phase_ratio', 'core.model.Model.set_hyd_types']
for _mis in (False, True):
    for _c, _a in ((1, None), ([1, 3], None), ([2], [1, 2, 3]), (2, [1, 2])):
        contract('C01', f"calculate_phase_ratio[frequency,{_c} of {_a or 'all labels'}{',missing' if _mis else ''}]", CPR)(
            lambda c, a=_mis, b=_c, d=_a: freq(c, a, b, d))
    for _cv in (True, False):
        for _sub in (True, False):
            for _hy in (None, ['pi', 'cl'], ['ci']):
                contract('C01', f"calculate_phase_ratio[mass,{'subcolumns' if _sub else 'model output'},{'conv+strat' if _cv else 'strat'},"
                                f"{'+'.join(_hy or HYD)}{',missing' if _mis else ''}]", CPR)(
                    lambda c, a=_cv, b=_sub, d=_mis, e=_hy: mass(c, a, b, d, e))
