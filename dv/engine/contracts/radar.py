"""Contracts of the radar simulator (R01-R03)."""
from ..prove import contract
from ..symmodel import M, sizes, heights, instrument, tables, subcols, p3, p3_model, P3_HYD, NSSL_HYD, model_of, stub_fall_speed, fall_speed, HYD, D2, D3
from .. import core
from ..arr import inp, lazy, same_size
from ..shim_xr import SymDA
from ..core import z3, And, Or, Not, truth, Fraction, ite, isnan, s_fn, Sc, binop

RM = 'simulator.radar_moments'
TEN = Fraction(10)


def fz(x):
    return ite(isnan(x), Fraction(0), x)


def f1(x):
    return ite(isnan(x), Fraction(1), x)


def lin(x):
    """linear reflectivity of a dBZ value"""
    return binop('**', TEN, x / Fraction(10))


def dB(x):
    return Fraction(10) * s_fn('log10', x)


def iff(a, b):
    return And(Or(Not(a), b), Or(a, Not(b)))


# ------------------------------------------------------------------ R01
def total_Ze(c, conv):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def unit01(a):
        return lambda v, x: [v > 0, v <= 1]

    def body():
        m = M(c, s, conv=conv)
        parts = ('strat', 'conv') if conv else ('strat',)
        for p in ('strat', 'conv'):
            m.field3(f"sub_col_Ze_tot_{p}", flags=True)
            m.field3(f"hyd_ext_{p}", sign='+', flags=True, fact=unit01(p))
        m.field2('atm_ext', sign='+', flags=True, fact=unit01('a'))
        m.field2('Ze_min')
        before = {p: m.m.ds[f"sub_col_Ze_tot_{p}"].arr.copy() for p in parts}
        r = c.fn(RM, 'calc_total_reflectivity')(m.m)
        g = lambda n: r.ds[n].arr.at((i, t, k))
        tot = Fraction(0)
        for p in parts:
            x = before[p].at((i, t, k))
            tot = tot + ite(isnan(x), Fraction(0), lin(x))
        some = Or(*[Not(truth(isnan(before[p].at((i, t, k))))) for p in parts])
        Z, A = g('sub_col_Ze_tot'), g('sub_col_Ze_att_tot')
        for nm in ('sub_col_Ze_tot', 'sub_col_Ze_att_tot'):
            c.ensure(nm + '/dims', tuple(r.ds[nm].dims) == D3)
        c.ensure('missing-iff-nothing-present', iff(truth(isnan(Z)), Not(some)))
        c.ensure('linear-sum', c.eq(Z, dB(tot)), [some])
        tr = f1(m.at('hyd_ext_strat', i, t, k)) * f1(m.at('atm_ext', t, k))
        if conv:
            tr = tr * f1(m.at('hyd_ext_conv', i, t, k))
        c.ensure('attenuated/missing-iff-nothing-present', iff(truth(isnan(A)), Not(some)))
        c.ensure('attenuated/two-way-transmittances', c.eq(A, dB(tot * tr)), [some])
        c.ensure('attenuated/transmittance-at-most-one', truth(tr <= 1))
        c.ensure('attenuated/not-above', Or(Not(some), truth(dB(tot * tr) <= dB(tot))), [truth(tr <= 1), truth(tr > 0), truth(tot > 0)])
        for p in parts:
            c.ensure(f"frame/{p}", c.eq(g(f"sub_col_Ze_tot_{p}"), before[p].at((i, t, k))))
        # R04: the detection mask
        d = truth(r.ds['detect_mask'].arr.at(tuple(dict(subcolumn=i, time=t, height=k)[x] for x in r.ds['detect_mask'].dims)))
        c.ensure('detect-mask/undetected-iff-present-and-not-above', iff(d, And(Not(truth(isnan(A))), Not(truth(A > m.at('Ze_min', t, k))))))
    c.paths(body)


for _cv in (True, False):
    for _p in ('R01', 'R04'):
        contract(_p, f"calc_total_reflectivity[{'conv+strat' if _cv else 'strat'}]", ['simulator.radar_moments.calc_total_reflectivity'])(
            lambda c, a=_cv: total_Ze(c, a))


def stub_approach(c, s, log):
    def mk(name):
        def f(model, hyd_types, OD_from_sfc, atm_ext, z_values, is_conv=False, **k):
            cl = 'conv' if is_conv else 'strat'
            log.append((name, OD_from_sfc, is_conv, list(hyd_types), atm_ext, z_values, k))
            for h in ['tot'] + list(hyd_types):
                nm = f"sub_col_Ze_{h}_{cl}"
                model.ds[nm] = SymDA(inp('lin_' + nm, (s.NS, s.NT, s.NZ), sign='0+', flags=h != 'tot'), dims=D3)
            le1 = lambda v, a: [v <= 1]
            model.ds[f"hyd_ext_{cl}"] = SymDA(inp(f"he_{cl}", (s.NS, s.NT, s.NZ), sign='+', fact=le1), dims=D3)
            model.ds['atm_ext'] = SymDA(inp('ae', (s.NT, s.NZ), sign='+', fact=le1), dims=D2)
            return model
        return f
    for n in ('bulk', 'micro', 'empirical'):
        c.stub(RM, f"calc_radar_{n}", mk(n))


def stub_gas(c, s):
    def gas(instrument, model, **k):
        model.ds['kappa_att'] = SymDA(inp('kappa_att', (s.NT, s.NZ), sign='+'), dims=D2)
        return model
    c.stub(RM, 'calc_radar_atm_attenuation', gas)


def moments(c, cl, ap, up, hyd):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        log = []
        stub_gas(c, s)
        stub_approach(c, s, log)
        m = M(c, s)
        m.field3(f"{cl}_q_subcolumns_cl", sign='0+')
        ins = instrument(c, 'radar')
        r0 = c.fn(RM, 'calc_radar_moments')(ins, m.m, cl == 'conv', OD_from_sfc=up, hyd_types=hyd, use_rad_logic=ap == 'bulk',
                                          use_empiric_calc=ap == 'empirical')
        r = r0 if r0 is not None else m.m
        c.require(log, 'approach not reached through its name')
        want = 'bulk' if cl == 'conv' and ap == 'micro' else ap
        sel = hyd or HYD
        for x in log:
            c.ensure('approach', x[0] == want and bool(x[2]) == (cl == 'conv'))
            c.ensure('requested-side', bool(x[1]) == up)
            c.ensure('exactly-the-selected-classes', sorted(x[3]) == sorted(sel))
            c.ensure('gaseous-extinction-passed-on', c.eq(x[4].at((t, k)), inp('kappa_att', (s.NT, s.NZ), sign='+').at((t, k))))
        g = lambda n: r.ds[n].arr.at((i, t, k))
        f3 = lambda nm, fl: inp('lin_' + nm, (s.NS, s.NT, s.NZ), sign='0+', flags=fl).at((i, t, k))
        L = f3(f"sub_col_Ze_tot_{cl}", False)
        he, ae = inp(f"he_{cl}", (s.NS, s.NT, s.NZ), sign='+').at((i, t, k)), inp('ae', (s.NT, s.NZ), sign='+').at((t, k))
        pos = truth(L > 0)
        Z, A = g(f"sub_col_Ze_tot_{cl}"), g(f"sub_col_Ze_att_tot_{cl}")
        c.ensure('total/missing-iff-none', iff(truth(isnan(Z)), Not(pos)))
        c.ensure('total/dBZ', c.eq(Z, dB(L)), [pos])
        c.ensure('attenuated/missing-iff-none', iff(truth(isnan(A)), Not(pos)))
        c.ensure('attenuated/two-way-transmittances', c.eq(A, dB(L * he * ae)), [pos])
        for h in sel:
            x, l = g(f"sub_col_Ze_{h}_{cl}"), f3(f"sub_col_Ze_{h}_{cl}", True)
            some = And(Not(truth(isnan(l))), truth(l > 0))
            c.ensure(f"{h}/missing-iff-none", iff(truth(isnan(x)), Not(some)))
            c.ensure(f"{h}/dBZ", c.eq(x, dB(l)), [some])
        for nm in ['tot'] + sel:
            c.ensure(f"{nm}/dims", tuple(r.ds[f"sub_col_Ze_{nm}_{cl}"].dims) == D3)
    c.paths(body)


for _cl in ('strat', 'conv'):
    for _ap in ('bulk', 'micro', 'empirical'):
        for _up, _hy in ((True, None), (False, ['pi', 'cl'])):
            contract('R01', f"calc_radar_moments[{_cl},{_ap},{'up' if _up else 'down'},{'+'.join(_hy or HYD)}]",
                     ['simulator.radar_moments.calc_radar_moments'])(lambda c, a=_cl, b=_ap, d=_up, e=_hy: moments(c, a, b, d, e))


# ------------------------------------------------------------------ R02
def accum(c, cl, up, emp):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        m = M(c, s)
        m.field3(f"{cl}_q_subcolumns_cl", sign='0+')
        m.field3(f"sub_col_Ze_tot_{cl}", sign='0+')
        z = heights(s, 'zz', '+')
        he = inp('ext_h', (s.NS, s.NT, s.NZ), sign='0+')
        ae = inp('ext_a', (s.NT, s.NZ), sign='+')
        r = c.fn(RM, 'accumulate_attenuation')(m.m, cl == 'conv', z, he, ae, OD_from_sfc=up, use_empiric_calc=emp)
        r = r if r is not None else m.m
        c.ensure('dims', tuple(r.ds[f"hyd_ext_{cl}"].dims) == D3 and tuple(r.ds['atm_ext'].dims) == D2)
        H = lambda kk: r.ds[f"hyd_ext_{cl}"].arr.at((i, t, kk))
        A = lambda kk: r.ds['atm_ext'].arr.at((t, kk))
        F = Fraction
        zz = lambda kk: z.at((t, kk))
        pow10 = lambda x: binop('**', TEN, F(-2) * x / F(10))
        two = pow10 if emp else (lambda x: s_fn('exp', F(-2) * F(1000) * x))       # dB/km, or 1/m
        near = z3.IntVal(0) if up else s.NZ.v - 1
        prev = k - 1 if up else k + 1
        dz = (zz(k) - zz(prev)) / F(1000) if up else (zz(prev) - zz(k)) / F(1000)
        inside = k >= 1 if up else k < s.NZ.v - 1
        for nm, f, e, law in (('hydrometeors', H, lambda q: he.at((i, t, q)), two), ('gases', A, lambda q: ae.at((t, q)), pow10)):
            c.ensure(nm + '/one-nearest-the-radar', c.eq(f(near), F(1)))
            c.ensure(nm + '/crossed-level', c.eq(f(k), f(prev) * law(e(prev) * dz)), [inside])
            c.ensure(nm + '/level-transmittance', And(truth(law(e(prev) * dz) > 0), truth(law(e(prev) * dz) <= 1)), [inside])
            c.ensure(nm + '/positive', truth(f(k) > 0))
            # with f(k) = f(prev) * law:  never increasing, and at most one by induction away from the radar
            l = core.const('l', 'f', '+')
            p = core.const('p', 'f', '+')
            c.ensure(nm + '/never-increases', truth(p * l <= p), [truth(l <= 1)])
            c.ensure(nm + '/at-most-one/step', truth(p * l <= 1), [truth(l <= 1), truth(p <= 1)])
    c.paths(body)


for _cl in ('strat', 'conv'):
    for _up in (True, False):
        for _em in (True, False):
            contract('R02', f"accumulate_attenuation[{_cl},{'up' if _up else 'down'},{'dB/km' if _em else '1/m'}]",
                     ['simulator.radar_moments.accumulate_attenuation'])(lambda c, a=_cl, b=_up, d=_em: accum(c, a, b, d))


def radar_run(c, s, approach, cl, fam, mie, hyd, up, ins, only=None, width=True, ref=None, par=dict(parallel=False)):
    """runs one approach with stubs for its callees -> (model, log of accumulate_attenuation)"""
    log = []

    def acc(model, is_conv, z_values, hyd_ext, atm_ext, OD_from_sfc, use_empiric_calc, **k):
        log.append(('conv' if is_conv else 'strat', hyd_ext, atm_ext, OD_from_sfc, use_empiric_calc))
        return model
    c.stub(RM, 'accumulate_attenuation', acc)
    hybrid = int(fam[3:]) if fam.startswith('P3') else None          # 'P3:0', 'P3:1', 'P3:2': use_hybrid_scat
    m = model_of(c, s, fam)
    if fam == 'NSSL':
        stub_fall_speed(c, RM)
    if hybrid is not None:
        p3(c, m, ins, hybrid)
    if ref is not None:
        m.m.Vd_rhoa_scaling_ref = dict(ref)
    subcols(m, cl, hyd)
    for h in HYD:
        if h not in hyd:
            m.field3(f"{cl}_q_subcolumns_{h}", sign='0+')
    stub_psd(c, s, m, cl)
    for h in list(hyd) + ['tot']:
        m.field3(f"sub_col_Ze_{h}_{cl}", flags=True)
    m.field2('rho_a', sign='+')
    p = inp('P', (s.NT, s.NZ), sign='+')
    tt = inp('T_above_-90C', (s.NT, s.NZ), sign='+') - Fraction(90)
    z = heights(s, 'zz', '+')
    ae = inp('kappa_att', (s.NT, s.NZ), sign='+')
    kw = dict(OD_from_sfc=up, hyd_types=list(only or hyd))
    if approach == 'bulk':
        if fam == 'CESM':
            m.m.lambda_field = {h: f"lam_{h}" if h in ('cl', 'pl') else None for h in hyd}
            m.m.mu_field = {h: f"mu_{h}" if h in ('cl', 'pl') else None for h in hyd}
            for h in hyd:
                if h in ('cl', 'pl'):
                    m.field2(f"lam_{h}", sign='+')
                    m.field2(f"mu_{h}", sign='0+')
        r = c.fn(RM, 'calc_radar_bulk')(ins, m.m, cl == 'conv', p, z, ae, mie_for_ice=mie, **kw)
    elif approach == 'empirical':
        r = c.fn(RM, 'calc_radar_empirical')(ins, m.m, cl == 'conv', p, tt, z, ae, **kw)
    else:
        r = c.fn(RM, 'calc_radar_micro')(ins, m.m, z, ae, mie_for_ice=mie, calc_spectral_width=width, **par, **kw)
    return m, (r if r is not None else m.m), log, ae


def stub_psd(c, s, m, cl='strat', mod=None):
    """contract of psd.calc_and_set_psd_params (P01): slope positive, intercept not negative, zero or missing where the class is absent,
    exponential distribution (mu = 0) for every class but cloud liquid"""
    def psd(model, hyd_type, **k):
        if model.mcphys_scheme == 'P3' and hyd_type == 'ci':       # one ice distribution per grid cell
            sh = (s.NT, s.NZ)
            return {'N_0': SymDA(inp('psd_N0_ci', sh, sign='+'), dims=D2), 'lambda': SymDA(inp('psd_la_ci', sh, sign='+'), dims=D2),
                    'mu': SymDA(inp('psd_mu_ci', sh, sign='0+'), dims=D2)}
        fr = f"{m.pre}{cl}_frac_subcolumns_{hyd_type}"
        sh = (s.NS, s.NT, s.NZ)
        n0, lam, mu = f"psd_N0_{hyd_type}", f"psd_la_{hyd_type}", f"psd_mu_{hyd_type}"

        def fact(v, a):
            f = z3.Function(fr, *[z3.IntSort()] * 3, z3.RealSort())(*a)
            nan = z3.Function(n0 + '#nan', *[z3.IntSort()] * 3, z3.BoolSort())(*a)
            return [v >= 0, z3.Implies(f == 0, z3.Or(nan, v == 0)), z3.Implies(f == 1, z3.And(z3.Not(nan), v > 0))]
        mus = inp(mu, sh, sign='0+') if hyd_type == 'cl' else lazy(sh, lambda i: Fraction(0))
        return {'N_0': SymDA(inp(n0, sh, sign='0+', flags=True, fact=fact), dims=D3),
                'lambda': SymDA(inp(lam, sh, sign='+'), dims=D3), 'mu': SymDA(mus, dims=D3)}
    c.stub(mod or RM, 'calc_and_set_psd_params', psd)


def parts(c, approach, cl, fam, mie, hyd, up, pid):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    c.S.x_increasing = True

    def body():
        ins = tables(c, instrument(c, 'radar'))
        m, r, log, ae = radar_run(c, s, approach, cl, fam, mie, hyd, up, ins, width=False)
        g = lambda n: r.ds[n].arr.at((i, t, k))
        if pid == 'R01':
            tot = Fraction(0)
            for h in hyd:
                x = g(f"sub_col_Ze_{h}_{cl}")
                tot = tot + fz(x)
                f = m.at(f"{cl}_frac_subcolumns_{h}", i, t, k)
                c.ensure(f"{h}/not-negative", Or(truth(isnan(x)), truth(x >= 0)))
                q = m.at(f"{cl}_q_subcolumns_{h}", i, t, k)
                c.ensure(f"{h}/nothing-where-absent", Or(truth(isnan(x)), c.eq(x, Fraction(0))), [truth(f == 0), truth(q == 0)])
            c.ensure('linear-sum-over-the-selected-classes', c.eq(g(f"sub_col_Ze_tot_{cl}"), tot))
            c.ensure('dims', tuple(r.ds[f"sub_col_Ze_tot_{cl}"].dims) == D3)
            return
        c.require(log, 'accumulate_attenuation not reached through its name')
        val = lambda e: (e.arr if hasattr(e, '__sym_da__') else e).at((i, t, k))
        full = val(log[-1][1])
        c.ensure('attenuation-from-the-requested-side', all(bool(x[3]) == up and x[0] == cl for x in log))
        c.ensure('attenuation-unit', all(bool(x[4]) == (approach == 'empirical') for x in log))
        c.ensure('gaseous-extinction-passed-on', c.eq(log[-1][2].at((t, k)), ae.at((t, k))))
        c.ensure('not-negative', truth(full >= 0))
        tot = Fraction(0)
        for h in hyd:
            m1, r1, log1, _ = radar_run(c, s, approach, cl, fam, mie, hyd, up, ins, only=[h], width=False)
            e = val(log1[-1][1])
            tot = tot + e
            f = m.at(f"{cl}_frac_subcolumns_{h}", i, t, k)
            c.ensure(f"{h}/none-where-absent", c.eq(e, Fraction(0)), [truth(f == 0)])
        c.ensure('every-selected-class-counted', c.eq(full, tot))
    c.paths(body)


for _ap, _cl, _fam, _mie, _hy, _up in [('bulk', 'strat', 'ModelE', False, HYD, True), ('bulk', 'conv', 'ModelE', True, ['pi', 'cl'], False),
                                       ('bulk', 'strat', 'CESM', False, HYD, False), ('bulk', 'conv', 'CESM', True, ['ci', 'pl'], True),
                                       ('empirical', 'strat', 'ModelE', False, HYD, True), ('empirical', 'conv', 'CESM', False, ['ci', 'pl'], False),
                                       ('micro', 'strat', 'ModelE', False, HYD, True), ('micro', 'strat', 'ModelE', True, ['pi', 'cl'], False),
                                       ('micro', 'strat', 'CESM', False, ['ci', 'cl', 'pl'], True),
                                       ('bulk', 'strat', 'P3:0', False, P3_HYD, True), ('bulk', 'conv', 'P3:0', True, ['ci', 'cl'], False),
                                       ('bulk', 'strat', 'P3:1', False, P3_HYD, False), ('bulk', 'strat', 'P3:1', True, P3_HYD, True),
                                       ('bulk', 'strat', 'P3:2', False, P3_HYD, True), ('bulk', 'strat', 'P3:2', True, ['pl', 'ci'], False),
                                       ('micro', 'strat', 'P3:0', False, P3_HYD, True), ('micro', 'strat', 'P3:1', True, P3_HYD, False),
                                       ('micro', 'strat', 'P3:2', False, ['ci', 'cl'], True),
                                       ('bulk', 'strat', 'NSSL', False, NSSL_HYD, True), ('micro', 'strat', 'NSSL', False, NSSL_HYD, True),
                                       ('micro', 'strat', 'NSSL', True, ['gr', 'cl', 'sn'], False), ('empirical', 'strat', 'NSSL', False, NSSL_HYD, False)]:
    for _p in ('R01', 'R02'):
        contract(_p, f"calc_radar_{_ap}[{_cl},{_fam},{'Mie' if _mie else 'table'},{'+'.join(_hy)},{'up' if _up else 'down'}]",
                 [f"simulator.radar_moments.calc_radar_{_ap}", 'simulator.radar_moments._calculate_observables_liquid',
                  'simulator.radar_moments._calculate_other_observables'])(
            lambda c, a=_ap, b=_cl, d=_fam, e=_mie, f=_hy, u=_up, p=_p: parts(c, a, b, d, e, f, u, p))


# ------------------------------------------------------------------ R03
def moments3(c, fam, mie, hyd, order):
    """the Doppler moments of calc_radar_micro against the definition of weighted mean and standard deviation"""
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    c.S.x_increasing = True
    from ..shim_np import np_

    def body():
        ins = tables(c, instrument(c, 'radar'))
        ref = {h: core.const(f"rho_ref_{h}", 'f', '+') for h in hyd[:-1]}
        m, r, log, ae = radar_run(c, s, 'micro', 'strat', fam, mie, hyd, True, ins, only=order, width=True, ref=ref)
        g = lambda n: r.ds[n].arr.at((i, t, k))
        rho = inp('rho_a', (s.NT, s.NZ), sign='+').at((t, k))
        spec = {}
        for h in hyd:
            ice = h[-1] != 'l'
            p3i = fam.startswith('P3') and h == 'ci'
            tab = (ins.mie_table[h if not ice or h == 'ci' else 'pi'] if not ice or mie else ins.scat_table['p3_ice' if p3i else 'CESM_ice' if fam == 'CESM' else 'E3_ice'])
            D = tab['p_diam_eq_V' if ice and not mie and fam in ('ModelE', 'NSSL') else 'p_diam'].arr
            B = tab['beta_p'].arr
            psd = m.c.mod(RM).calc_and_set_psd_params(m.m, h)
            n0, la, mu = (psd[q].arr.at((t, k) if p3i else (i, t, k)) for q in ('N_0', 'lambda', 'mu'))
            va, vb = m.m.vel_param_a[h].magnitude, m.m.vel_param_b[h].magnitude
            corr = binop('**', ref[h] / rho, Fraction(54, 100)) if h in ref else Fraction(1)

            def ND(j, D=D, n0=n0, la=la, mu=mu):
                d = D.at((j,))
                x = n0 * s_fn('exp', -la * d)
                return x if isinstance(mu, Fraction) and mu == 0 else x * binop('**', d, mu)
            v = lambda j, D=D, va=va, vb=vb, corr=corr: -(va * binop('**', D.at((j,)), vb)) * corr
            if fam == 'NSSL':
                rh = m.at(m.m.variable_density[h], t, k) if h in m.m.variable_density else None
                v = lambda j, D=D, corr=corr, h=h, rh=rh: -fall_speed(h, D.at((j,)), rh) * corr
            if p3i:                      # tables interpolated at the cell's rime fraction and density
                from ..shim_interp import RegularGridInterpolator as RGI
                T = ins.scat_table['p3_ice']
                Fr, rr = m.at('Fr', t, k), m.at('rho_r', t, k)
                ax = tuple(T[q].values for q in ('Fr', 'rho_r', 'p_diam'))
                if not mie:
                    bt = RGI(ax, T['beta_p_eq_V' if int(fam[3:]) > 0 else 'beta_p'].values, bounds_error=False)
                    B = lazy((D.shape[0],), lambda j, bt=bt, D=D: bt((Fr, rr, D.at((j[0],)))))
                vt = m.m.interpobj['single']['vt']
                v = lambda j, D=D, corr=corr, vt=vt: -vt((Fr, rr, D.at((j,)))) * corr
            tz = lambda fn, D=D, ND=ND, B=B: np_.trapz(lazy((D.shape[0],), lambda j: fn(j[0]) * (B.at((j[0],)) * ND(j[0]))), x=D)
            inside = [Not(truth(isnan(tz(v))))]            # within the tables
            spec[h] = dict(v=v, tz=tz, M0=tz(lambda j: Fraction(1)), MV=tz(v),
                           on=[truth(m.at(f"strat_frac_subcolumns_{h}", i, t, k) == 1), truth(m.at(f"strat_n_subcolumns_{h}", i, t, k) > 0), *inside],
                           off=[truth(m.at(f"strat_frac_subcolumns_{h}", i, t, k) == 0), truth(m.at(f"strat_n_subcolumns_{h}", i, t, k) == 0)])
        # every class on its own
        for h, q in spec.items():
            V, W = g(f"sub_col_Vd_{h}_strat"), g(f"sub_col_sigma_d_{h}_strat")
            hy = [*q['on'], truth(q['M0'] > 0)]
            mean = q['MV'] / q['M0']
            c.ensure(f"{h}/mean-velocity", c.eq(V, mean), hy)
            c.ensure(f"{h}/width", c.eq(W, core.s_sqrt(q['tz'](lambda j: (q['v'](j) - mean) * (q['v'](j) - mean)) / q['M0'])), hy)
            c.ensure(f"{h}/downward", truth(mean <= 0), hy)
            c.ensure(f"{h}/width-not-negative", Or(truth(isnan(W)), truth(W >= 0)))
            c.ensure(f"{h}/dims", tuple(r.ds[f"sub_col_Vd_{h}_strat"].dims) == D3 and tuple(r.ds[f"sub_col_sigma_d_{h}_strat"].dims) == D3)
        # the totals: presence of the classes by cases
        import itertools
        V, W = g('sub_col_Vd_tot_strat'), g('sub_col_sigma_d_tot_strat')
        combos = [x for x in itertools.product((True, False), repeat=len(hyd)) if any(x)]
        if len(hyd) > 2:
            combos = [x for x in combos if sum(x) in (1, len(hyd))] + combos[1:2]
        for x in combos:
            on = [h for h, a in zip(hyd, x) if a]
            hy = [f for h, a in zip(hyd, x) for f in spec[h]['on' if a else 'off']] + [truth(spec[h]['M0'] > 0) for h in on]
            den, num = Fraction(0), Fraction(0)
            for h in on:
                den, num = den + spec[h]['M0'], num + spec[h]['MV']
            mean = num / den
            var = Fraction(0)
            for h in on:
                var = var + spec[h]['tz'](lambda j: (spec[h]['v'](j) - mean) * (spec[h]['v'](j) - mean))
            nm = 'total[' + '+'.join(on) + ']'
            c.ensure(nm + '/mean-velocity', c.eq(V, mean), hy)
            c.ensure(nm + '/width', c.eq(W, core.s_sqrt(var / den)), hy)
        c.ensure('total/width-not-negative', Or(truth(isnan(W)), truth(W >= 0)))
    c.paths(body)


for _fam, _mie, _hy, _or in [('ModelE', True, ['cl'], ['cl']), ('ModelE', False, ['pl', 'ci'], ['ci', 'pl']), ('CESM', False, ['ci', 'cl'], ['cl', 'ci']),
                             ('CESM', True, ['cl', 'pi'], ['pi', 'cl']), ('ModelE', True, ['cl', 'pl', 'pi'], ['pl', 'pi', 'cl']),
                             ('P3:0', False, ['cl', 'ci'], ['ci', 'cl']), ('P3:1', False, ['ci', 'pl'], ['pl', 'ci']), ('P3:0', True, ['ci'], ['ci']),
                             ('NSSL', False, ['cl', 'gr'], ['gr', 'cl']), ('NSSL', True, ['pl', 'ha'], ['ha', 'pl']), ('NSSL', False, ['sn', 'ci'], ['sn', 'ci'])]:
    contract('R03', f"calc_radar_micro[{_fam},{'Mie' if _mie else 'table'},{'>'.join(_or)}]",
             ['simulator.radar_moments.calc_radar_micro', 'simulator.radar_moments._calculate_observables_liquid', 'simulator.radar_moments._calculate_other_observables',
              'simulator.radar_moments._calc_sigma_d_tot', 'simulator.radar_moments._calc_sigma_d_tot_cl'], limit=100.)(
        lambda c, a=_fam, b=_mie, d=_hy, e=_or: moments3(c, a, b, d, e))


@contract('R03', 'lemma/weighted-mean-in-range', [])
def lemma_range(c):
    """trapezoid-weighted mean of values between lo and hi lies between lo and hi; with several groups too"""
    c.S.x_increasing = True
    from ..shim_np import np_
    nd = c.size('ND', 2)

    def body():
        D = tables(c, instrument(c, 'radar')).mie_table['cl']['p_diam'].arr
        nd = D.shape[0]
        w = inp('w', (nd,), sign='0+')
        lo, hi = core.const('lo', 'f'), core.const('hi', 'f')
        u, o = inp('u', (nd,), sign='0+'), inp('o', (nd,), sign='0+')
        M = np_.trapz(w, x=D)
        for nm, v, goal in (('lower', lambda j: lo + u.at(j), lambda x: x >= lo), ('upper', lambda j: hi - o.at(j), lambda x: x <= hi)):
            num = np_.trapz(lazy((nd,), lambda j: w.at(j) * v(j)), x=D)
            c.ensure(nm + '/product', truth(num >= lo * M) if nm == 'lower' else truth(num <= hi * M))
        a, b, x, y = (core.const(n, 'f') for n in ('A', 'B', 'MA', 'MB'))
        # groups: a mean of means
        c.ensure('groups/lower', truth((a + b) >= lo * (x + y)), [truth(a >= lo * x), truth(b >= lo * y)])
        c.ensure('quotient/lower', truth(a / x >= lo), [truth(a >= lo * x), truth(x > 0)])
        c.ensure('quotient/upper', truth(a / x <= hi), [truth(a <= hi * x), truth(x > 0)])
    c.paths(body)


def nssl_speed(c, h):
    """calc_velocity_nssl meets the contract its callers rely on (symmodel.fall_speed)"""
    nd = c.size('ND', 2)
    j = c.idx('j', nd)

    def body():
        D = inp('D', (nd,), sign='+')
        rho = core.const('rho', 'f', '+')
        f = c.fn('simulator.psd', 'calc_velocity_nssl')
        v = f(D, rho, h)
        one = v.at((j,))
        c.ensure('one-per-diameter', v.ndim == 1 and same_size(v._shape[0], D._shape[0]))
        c.ensure('not-missing', Not(truth(isnan(one))))
        c.ensure('not-negative', truth(one >= 0))
        if h not in ('gr', 'ha'):
            c.ensure('density-not-used', c.eq(one, f(D, None, h).at((j,))))
        c.ensure('name-in-any-case', c.eq(one, f(D, rho, h.upper()).at((j,))))
    c.paths(body)


def p3_distribution(c):
    """calc_and_set_psd_params for P3 ice: the model's own intercept (scaled by the number), slope and shape, one per grid cell"""
    s = sizes(c)
    t, k = s.t, s.k

    def body():
        m = model_of(c, s, 'P3:0')
        subcols(m, 'strat', P3_HYD)
        p3_model(c, m, 0)
        sup = {n: m.at(n, t, k) for n in ('in_cld_Ni', 'N0_norm_ice', 'lambda_ice', 'mu_ice')}
        r = c.fn('simulator.psd', 'calc_and_set_psd_params')(m.m, 'ci')
        g = lambda n: r[n].arr.at((t, k))
        for n in ('N_0', 'lambda', 'mu'):
            c.ensure(n + '/one-per-grid-cell', tuple(r[n].dims) == D2)
        c.ensure('intercept', c.eq(g('N_0'), sup['in_cld_Ni'] * sup['N0_norm_ice']))
        c.ensure('intercept/not-negative', truth(g('N_0') >= 0))
        c.ensure('slope', c.eq(g('lambda'), sup['lambda_ice']))
        c.ensure('shape', c.eq(g('mu'), sup['mu_ice']))
        for n, x in sup.items():
            c.ensure('frame/' + n, c.eq(m.at(n, t, k), x))
    c.paths(body)


contract('R03', 'calc_and_set_psd_params[P3,ci]', ['simulator.psd.calc_and_set_psd_params'])(p3_distribution)
for _h in NSSL_HYD:
    contract('R03', f"calc_velocity_nssl[{_h}]", ['simulator.psd.calc_velocity_nssl'])(lambda c, a=_h: nssl_speed(c, a))
