"""Contracts of the molecular and gaseous profiles (M01, part of R04) and of the unit conversions (M02)."""
from ..prove import contract
from ..symmodel import M, sizes, heights, instrument, tables, subcols, p3, model_of, HYD, D2, D3
from .. import core
from ..arr import inp, lazy
from ..core import z3, And, Or, Not, truth, Fraction, ite, isnan, s_fn, binop

AT = 'simulator.attenuation'
F = Fraction


# ------------------------------------------------------------------ R04
def ze_min(c, unit, given):
    s = sizes(c)
    t, k = s.t, s.k

    def body():
        m = M(c, s, units=('hPa', 'kelvin', unit))
        z = m.put('z', heights(s, 'zz', '+'), units=unit)
        ins = instrument(c, 'radar')
        ref = core.const('ref_rng', 'f', '+') if given else F(1000)
        kw = dict(ref_rng=ref) if given else {}
        r = c.fn(AT, 'calc_radar_Ze_min')(ins, m.m, **kw)
        r = r if r is not None else m.m
        zm = z.at((t, k)) * F(dict(meter=1, kilometer=1000)[unit])
        out = r.ds['Ze_min']
        c.ensure('dims', tuple(out.dims) == D2)
        v = out.arr.at((t, k))
        c.ensure('twenty-log10-of-relative-height', c.eq(v, ins.Z_min_1km + F(20) * s_fn('log10', zm / ref)))
        # the spec above at zm = ref
        c.ensure('sensitivity-at-the-reference-range', c.eq(F(20) * s_fn('log10', ref / ref), F(0)))
        c.ensure('rises', truth(v < out.arr.at((t, k + 1))), [k + 1 < s.NZ.v])
        c.ensure('frame/heights', c.eq(r.ds['z'].arr.at((t, k)), z.at((t, k))))
    c.paths(body)


for _u in ('meter', 'kilometer'):
    for _g in (True, False):
        contract('R04', f"calc_radar_Ze_min[{_u},{'given' if _g else 'default'}]", ['simulator.attenuation.calc_radar_Ze_min'])(
            lambda c, a=_u, b=_g: ze_min(c, a, b))


# ------------------------------------------------------------------ M01
def molecular(c, up, units):
    s = sizes(c)
    t, k = s.t, s.k

    def body():
        m = M(c, s, units=units)
        # wavelengths above 0.2 um (the refractivity formula has poles at 0.083 and 0.156 um)
        lam = F(1, 5) + core.const('lambda_above_0.2um', 'f', '0+')
        c.fn(AT, 'calc_theory_beta_m')(m.m, lam, OD_from_sfc=up)
        g = lambda n, kk=k: m.m.ds[n].arr.at((t, kk))
        for n in ('tau', 'u_atm', 'beta', 'sigma_180_vol', 'sigma_180', 'sigma', 'kappa', 'N_s', 'n_s'):
            c.ensure(n + '/dims', tuple(m.m.ds[n].dims) == D2)
        n = g('n_s')
        c.ensure('refractive-index-excess-positive', truth(n > 1))
        c.ensure('number-density-positive', c.gt(g('N_s'), F(0)))
        cut = [(n, core.const('n_s_excess', 'f', '+') + 1)]
        for q in ('beta', 'sigma_180_vol', 'sigma_180', 'sigma', 'kappa'):
            c.ensure(q + '-positive', truth(c.cut(g(q), cut) > 0))
            c.ensure(q + '-finite', c.finite(c.cut(g(q), cut)))
        u = lambda kk: g('u_atm', kk)
        z = m.m.ds['z'].arr
        zz = lambda kk: z.at((t, kk)) * F(dict(meter=1, kilometer=1000)[units[2]])
        near, prev, inside = (z3.IntVal(0), k - 1, k >= 1) if up else (s.NZ.v - 1, k + 1, k < s.NZ.v - 1)
        c.ensure('optical-depth/zero-nearest-the-instrument', c.eq(u(near), F(0)))
        dz = (zz(k) - zz(prev)) if up else (zz(prev) - zz(k))
        b0, b1 = g('beta', prev), g('beta')
        c.ensure('optical-depth/trapezoid-rule', c.eq(u(k), u(prev) + F(1, 2) * dz * (b0 + b1)), [inside])
        # with beta > 0 (above): the increment is positive, so by induction u >= 0 and u never decreases
        p, q, d = (core.const(x, 'f', '+') for x in ('beta_a', 'beta_b', 'dz'))
        c.ensure('optical-depth/increment-positive', truth(F(1, 2) * d * (p + q) > 0))
        c.ensure('heights/increase-in-metres', truth(dz > 0), [inside])
        c.ensure('transmittance', c.eq(g('tau'), s_fn('exp', F(-2) * u(k))))
        a, b = core.const('u_a', 'f', '0+'), core.const('u_b', 'f', '0+')
        c.ensure('transmittance/in-0-1', And(truth(s_fn('exp', F(-2) * a) > 0), truth(s_fn('exp', F(-2) * a) <= 1)))
        c.ensure('transmittance/never-increases', truth(s_fn('exp', F(-2) * b) <= s_fn('exp', F(-2) * a)), [truth(a <= b)])
    c.paths(body)


for _up in (True, False):
    for _un in (('hPa', 'kelvin', 'meter'), ('pascal', 'kelvin', 'kilometer')):
        contract('M01', f"calc_theory_beta_m[{'up' if _up else 'down'},{'+'.join(_un)}]", ['simulator.attenuation.calc_theory_beta_m'])(
            lambda c, a=_up, b=_un: molecular(c, a, b))


def gaseous(c, units):
    s = sizes(c)
    t, k = s.t, s.k

    def body():
        m = M(c, s, units=units)
        ins = instrument(c, 'radar')
        c.fn(AT, 'calc_radar_atm_attenuation')(ins, m.m)
        g = lambda n: m.m.ds[n].arr.at((t, k))
        for n in ('kappa_wv', 'kappa_o2', 'kappa_att'):
            c.ensure(n + '/dims', tuple(m.m.ds[n].dims) == D2)
            c.ensure(n + '/positive', truth(g(n) > 0))
            c.ensure(n + '/finite', c.finite(g(n)))
        c.ensure('sum-of-both-gases', c.eq(g('kappa_att'), g('kappa_wv') + g('kappa_o2')))
        for n, x in (('p3d', 'p'), ('t', 'T'), ('qv', 'qv')):
            c.ensure('frame/' + n, c.eq(g(n), inp(x, (s.NT, s.NZ)).at((t, k))))
    c.paths(body)


for _un in (('hPa', 'kelvin', 'meter'), ('pascal', 'kelvin', 'meter')):
    contract('M01', f"calc_radar_atm_attenuation[{'+'.join(_un)}]", ['simulator.attenuation.calc_radar_atm_attenuation'])(lambda c, a=_un: gaseous(c, a))


# ------------------------------------------------------------------ M02
COMBOS = [('pascal', 'kelvin', 'meter'), ('hPa', 'degC', 'meter'), ('hPa', 'kelvin', 'kilometer'), ('pascal', 'degC', 'kilometer'),
          ('Pa', 'celsius', 'm')]


def supplied(c, s, units, cold=False, family='ModelE', **kw):
    """the same atmosphere (hPa, K, m symbols p, T, z) supplied in the given units"""
    m = model_of(c, s, family, units=('hPa', 'kelvin', 'meter'), **kw)
    sh = (s.NT, s.NZ)
    # positive heights (the layer above the top is measured from zero) and temperatures above -90 C (empirical radar formulas)
    if not cold:
        above = inp('T_above_-90C', sh, sign='+')
        m.put('t', lazy(sh, lambda i: above.at(i) + F('183.15')), units='kelvin')
    m.put('z', heights(s, 'zz', '+'), units='meter')
    p, T, z = (m.m.ds[n].arr for n in ('p3d', 't', 'z'))
    if units[0] in ('pascal', 'Pa'):
        m.put('p3d', lazy(sh, lambda i: p.at(i) * F(100)), units=units[0])
    if units[1] in ('degC', 'celsius'):
        m.put('t', lazy(sh, lambda i: T.at(i) - F('273.15')), units=units[1])
    if units[2] == 'kilometer':
        m.put('z', lazy(sh, lambda i: z.at(i) / F(1000)), units=units[2])
    elif units[2] != 'meter':
        m.put('z', lazy(sh, lambda i: z.at(i)), units=units[2])
    return m


def same_fields(c, a, b, names, ix):
    for n in names:
        x, y = a.ds[n], b.ds[n]
        c.ensure(n, And(tuple(x.dims) == tuple(y.dims), c.eq(x.arr.at(ix[len(x.dims)]), y.arr.at(ix[len(y.dims)]))))


def units_run(c, units, run, names, ndim):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    c.S.x_increasing = True

    def body():
        a, b = run(c, s, ('hPa', 'kelvin', 'meter')), run(c, s, units)
        same_fields(c, a, b, names(a), {2: (t, k), 3: (i, t, k)})
    c.paths(body)


def run_theory(up):
    def run(c, s, units):
        m = supplied(c, s, units, cold=True)
        c.fn(AT, 'calc_theory_beta_m')(m.m, F(1, 5) + core.const('lam', 'f', '0+'), OD_from_sfc=up)
        return m.m
    return run


def run_gas(c, s, units):
    m = supplied(c, s, units, cold=True)
    ins = instrument(c, 'radar')
    c.fn(AT, 'calc_radar_atm_attenuation')(ins, m.m)
    c.fn(AT, 'calc_radar_Ze_min')(ins, m.m)
    return m.m


def world_of(c, s, units, fam, kind):
    m = supplied(c, s, units, family=fam)
    ins = tables(c, instrument(c, kind))
    if fam.startswith('P3'):
        p3(c, m, ins, int(fam[3:]))
    return m, ins


def run_lidar(ap, cl, fam, up):
    def run(c, s, units):
        from .lidar import LM
        m, ins = world_of(c, s, units, fam, 'lidar')
        subcols(m, cl, m.m.hyd_types)
        sig, tau = inp('sig180', (s.NT, s.NZ), sign='+'), inp('tau_', (s.NT, s.NZ), sign='+')

        def theory(model, Lambda, OD_from_sfc=True, **k):
            from ..shim_xr import SymDA
            model.ds['sigma_180_vol'], model.ds['tau'] = SymDA(sig, dims=D2), SymDA(tau, dims=D2)
            return model
        c.stub(LM, 'calc_theory_beta_m', theory)
        if ap == 'micro':
            from .radar import stub_psd
            stub_psd(c, s, m, cl, LM)
        kw = dict(OD_from_sfc=up, use_rad_logic=ap == 'bulk', use_empiric_calc=ap == 'empirical')
        if ap != 'empirical':
            kw['mie_for_ice'] = False
        if ap == 'micro':
            kw['parallel'] = False
        r = c.fn(LM, 'calc_lidar_moments')(ins, m.m, cl == 'conv', hyd_types=['cl', 'ci'] if ap == 'micro' else None, **kw)
        return r if r is not None else m.m
    return run


def run_radar(ap, cl, fam, up):
    def run(c, s, units):
        from .radar import RM, stub_psd
        m, ins = world_of(c, s, units, fam, 'radar')
        subcols(m, cl, m.m.hyd_types)
        m.field2('rho_a', sign='+')
        if ap == 'micro':
            stub_psd(c, s, m, cl)
        kap = inp('kappa_att', (s.NT, s.NZ), sign='+')

        def gas(instrument, model, **k):
            from ..shim_xr import SymDA
            model.ds['kappa_att'] = SymDA(kap, dims=D2)
            return model
        c.stub(RM, 'calc_radar_atm_attenuation', gas)
        kw = dict(OD_from_sfc=up, use_rad_logic=ap == 'bulk', use_empiric_calc=ap == 'empirical', parallel=False)
        if ap == 'micro':
            kw['calc_spectral_width'] = False
        r = c.fn(RM, 'calc_radar_moments')(ins, m.m, cl == 'conv', hyd_types=['cl', 'ci' if fam.startswith('P3') else 'pi'] if ap == 'micro' else None, **kw)
        return r if r is not None else m.m
    return run


def simulated(cl):
    return lambda m: [n for n in m.ds.keys() if str(n).startswith(('sub_col_', 'hyd_ext', 'atm_ext'))]


ATM = ['tau', 'u_atm', 'beta', 'sigma_180_vol', 'sigma_180', 'sigma', 'kappa', 'N_s', 'n_s']
for _u in COMBOS:
    _nm = '+'.join(_u)
    for _up in (True, False):
        contract('M02', f"calc_theory_beta_m[{'up' if _up else 'down'},{_nm}]", ['simulator.attenuation.calc_theory_beta_m'])(
            lambda c, a=_u, b=_up: units_run(c, a, run_theory(b), lambda m: ATM, 2))
    contract('M02', f"calc_radar_atm_attenuation+calc_radar_Ze_min[{_nm}]", ['simulator.attenuation.calc_radar_atm_attenuation', 'simulator.attenuation.calc_radar_Ze_min'])(
        lambda c, a=_u: units_run(c, a, run_gas, lambda m: ['kappa_wv', 'kappa_o2', 'kappa_att', 'Ze_min'], 2))
for _u in COMBOS[3:]:
    _nm = '+'.join(_u)
    for _ap, _cl, _fam, _up in (('bulk', 'strat', 'ModelE', True), ('bulk', 'conv', 'ModelE', False), ('empirical', 'strat', 'ModelE', True), ('micro', 'strat', 'ModelE', True),
                                 ('bulk', 'strat', 'P3:1', True), ('micro', 'strat', 'P3:0', False)):
        contract('M02', f"calc_lidar_moments[{_ap},{_cl},{_fam},{_nm}]",
                 ['simulator.lidar_moments.calc_lidar_moments', f"simulator.lidar_moments.calc_lidar_{_ap}", 'simulator.lidar_moments.accumulate_OD'])(
            lambda c, a=_u, b=_ap, d=_cl, e=_fam, f=_up: units_run(c, a, run_lidar(b, d, e, f), simulated(d), 3))
        contract('M02', f"calc_radar_moments[{_ap},{_cl},{_fam},{_nm}]",
                 ['simulator.radar_moments.calc_radar_moments', f"simulator.radar_moments.calc_radar_{_ap}", 'simulator.radar_moments.accumulate_attenuation'])(
            lambda c, a=_u, b=_ap, d=_cl, e=_fam, f=_up: units_run(c, a, run_radar(b, d, e, f), simulated(d), 3))
