"""Frame contracts: what simulations leave unchanged (O03) and that their outputs depend on nothing an earlier simulation left (O02)."""
from ..prove import contract
from ..symmodel import M, sizes, heights, instrument, tables, subcols, p3_model, p3_tables, stub_fall_speed, P3_HYD, NSSL_HYD, HYD, D2, D3
from .. import core, arr
from ..arr import inp, lazy, raw, zi
from ..shim_xr import SymDA
from ..core import z3, And, Or, Not, truth, Fraction, Sc
from .atm import supplied
from .subcol import unit_frac

LM, RM, AT, CL, SC = ('simulator.' + x for x in ('lidar_moments', 'radar_moments', 'attenuation', 'classification', 'subcolumn'))
F = Fraction


def world(c, s, fam, units, conv=True, only=None):
    """a model with its input fields and generated subcolumns"""
    m = supplied(c, s, units, family=fam, conv=conv)
    if fam == 'NSSL':
        stub_fall_speed(c, RM)
    for h in m.m.hyd_types:
        for q in ('s', 'c'):
            unit_frac(s, m, f"f_{q}_{h}")
            unit_frac(s, m, f"fr_{q}_{h}")
            m.field2(f"q_{q}_{h}", sign='0+')
        m.field2(f"n_{h}", sign='0+')
    for cl in ('strat', 'conv'):
        subcols(m, cl, m.m.hyd_types)
    m.field2('rho_a', sign='+')
    if fam.startswith('P3'):            # 'P3:0' ...: the P3 scheme with use_hybrid_scat 0 ...
        p3_model(c, m, int(fam[3:]))
    if fam == 'CESM':
        m.m.lambda_field = {h: f"lam_{h}" if h in ('cl', 'pl') else None for h in HYD}
        m.m.mu_field = {h: f"mu_{h}" if h in ('cl', 'pl') else None for h in HYD}
        for h in ('cl', 'pl'):
            m.field2(f"lam_{h}", sign='+')
            m.field2(f"mu_{h}", sign='0+')
    m.m.num_subcolumns = s.NS
    for d, n in (('time', s.NT), ('height', s.NZ)):
        m.m.ds[d] = SymDA(inp('coord_' + d, (n,)), dims=(d,))
    return m


def device(c, s, kind, nm):
    """an instrument with its own tables, named apart from the others"""
    ins = instrument(c, kind, pre=nm)
    if kind == 'lidar':
        ins.wavelength = F(1, 5) + core.const(nm + 'lam', 'f', '0+')
        n = c.size('NPT', 2)
        ins.beta_p_phase_thresh = [dict(zip(('class', 'class_ind', 'LDR', 'beta_p'), (f"class {j}", j, inp(f"{nm}curve{j}.LDR", (n,)), inp(f"{nm}curve{j}.beta", (n,), sign='+'))))
                                   for j in (1, 2)]
    return p3_tables(c, tables(c, ins, pre=nm), nm)


def simulate(c, kind, ins, m, ap, up, hyd, classify=True, cls=('strat', 'conv'), mie=None):
    cls = cls if m.process_conv else ('strat',)
    kw = dict(OD_from_sfc=up, use_rad_logic=ap == 'bulk', use_empiric_calc=ap == 'empirical', hyd_types=hyd)
    if ap == 'micro':
        kw['parallel'] = False
    for cl in cls:
        k2 = dict(kw)
        if kind == 'radar' and ap == 'micro':
            k2['calc_spectral_width'] = False
        if ap != 'empirical':
            k2['mie_for_ice'] = cl == 'conv' if mie is None else mie
        m = c.fn(LM if kind == 'lidar' else RM, f"calc_{kind}_moments")(ins, m, cl == 'conv', **k2)
    if kind == 'lidar':
        m = c.fn(LM, 'calc_total_alpha_beta')(m, OD_from_sfc=up, eta=ins.eta)
        m = c.fn(LM, 'calc_LDR_and_ext')(m, ext_OD=ins.ext_OD, OD_from_sfc=up, hyd_types=hyd)
        if classify:
            m = c.fn(CL, 'lidar_classify_phase')(ins, m)
    else:
        m = c.fn(AT, 'calc_radar_Ze_min')(ins, m)
        m = c.fn(RM, 'calc_total_reflectivity')(m)
        if classify:
            m = c.fn(CL, 'radar_classify_phase')(ins, m)
    return m


def snap(ds, names=None):
    return {n: (ds[n].arr.copy(), tuple(ds[n].dims), dict(ds[n].attrs)) for n in (names or list(ds.variables))}


def ixs(s):
    return dict(subcolumn=s.i, time=s.t, height=s.k)


def kept(c, s, pre, ds, old, names=None, attrs=True):
    ix = ixs(s)
    for n in names or old:
        a, d, at = old[n]
        c.ensure(f"{pre}/present/{n}", n in ds.variables)
        if n not in ds.variables:
            continue
        c.ensure(f"{pre}/dims/{n}", tuple(ds[n].dims) == d)
        if tuple(ds[n].dims) == d:
            j = tuple(ix[x] for x in d)
            c.ensure(f"{pre}/values/{n}", c.eq(ds[n].arr.at(j), a.at(j)))
        if attrs:
            c.ensure(f"{pre}/attributes/{n}", dict(ds[n].attrs) == at)


def device_state(ins):
    st = dict(vars(ins))
    tabs = {(t, k): (v, snap(v)) for t in ('mie_table', 'scat_table', 'bulk_table') for k, v in getattr(ins, t).items()}
    curves = [(dict(e), {n: x.copy() for n, x in e.items() if isinstance(x, arr.Arr)}) for e in getattr(ins, 'beta_p_phase_thresh', None) or []]
    return st, tabs, curves


def same_device(c, pre, ins, old, gen):
    st, tabs, curves = old
    now = vars(ins)
    c.ensure(f"{pre}/same-attributes", sorted(now) == sorted(st))
    for n, v in st.items():
        if n in now:
            c.ensure(f"{pre}/{n}", now[n] is v or (isinstance(v, (int, float, str, bool, Fraction)) and now[n] == v))
    for (t, k), (v, fields) in tabs.items():
        w = getattr(ins, t).get(k)
        c.ensure(f"{pre}/{t}/{k}/fields", w is v and sorted(w.variables) == sorted(fields))
        for n, (a, d, at) in fields.items():
            j = tuple(gen(x) for x in a._shape)
            c.ensure(f"{pre}/{t}/{k}/{n}", And(tuple(w[n].dims) == d, dict(w[n].attrs) == at, c.eq(w[n].arr.at(j), a.at(j))))
    for (e, arrs), now in zip(curves, getattr(ins, 'beta_p_phase_thresh', None) or []):
        c.ensure(f"{pre}/curve/{e['class_ind']}", all(now.get(n) is x for n, x in e.items()) and len(now) == len(e))
        for n, a in arrs.items():
            j = (gen(a._shape[0]),)
            c.ensure(f"{pre}/curve/{e['class_ind']}/{n}", c.eq(now[n].at(j), a.at(j)))


def generic(c):
    memo = {}

    def gen(n):
        key = str(raw(n))
        if key not in memo:
            memo[key] = c.idx('g' + key, n)
        return memo[key]
    return gen


KM = ('pascal', 'degC', 'kilometer')
SI = ('hPa', 'kelvin', 'meter')
RUNS = [('lidar', 'bulk', 'ModelE', True, None, SI), ('lidar', 'bulk', 'CESM', False, ['cl', 'pi'], KM), ('lidar', 'empirical', 'ModelE', True, None, KM),
        ('lidar', 'micro', 'ModelE', False, ['cl', 'ci'], KM), ('radar', 'bulk', 'ModelE', True, None, KM), ('radar', 'bulk', 'CESM', False, ['cl', 'pi'], SI),
        ('radar', 'empirical', 'ModelE', False, None, KM), ('radar', 'micro', 'ModelE', True, ['cl', 'pi'], SI),
        ('lidar', 'bulk', 'P3:1', True, None, KM), ('lidar', 'micro', 'P3:0', False, ['ci', 'pl'], SI), ('radar', 'bulk', 'P3:2', True, None, SI),
        ('radar', 'micro', 'P3:0', False, ['ci', 'cl'], KM), ('lidar', 'bulk', 'NSSL', False, None, KM), ('lidar', 'micro', 'NSSL', True, ['gr', 'sn'], KM),
        ('radar', 'bulk', 'NSSL', False, ['ha', 'cl', 'sn'], SI), ('radar', 'micro', 'NSSL', True, ['gr', 'cl'], KM)]
FUNCS = {'lidar': ['simulator.lidar_moments.calc_lidar_moments', 'simulator.lidar_moments.calc_total_alpha_beta', 'simulator.lidar_moments.calc_LDR_and_ext',
                   'simulator.attenuation.calc_theory_beta_m', 'simulator.classification.lidar_classify_phase'],
         'radar': ['simulator.radar_moments.calc_radar_moments', 'simulator.attenuation.calc_radar_atm_attenuation', 'simulator.attenuation.calc_radar_Ze_min',
                   'simulator.radar_moments.calc_total_reflectivity', 'simulator.classification.radar_classify_phase']}


def psd_stub(c, s, m, mod, pre=''):
    """contract of psd.calc_and_set_psd_params (P01): a function of the model's subcolumn fields, which it leaves as they are"""
    def psd(model, hyd_type, **k):
        sh = (s.NS, s.NT, s.NZ)
        n0, lam, mu = f"psd_N0_{hyd_type}", f"psd_la_{hyd_type}", f"psd_mu_{hyd_type}"
        if model.mcphys_scheme == 'P3' and hyd_type == 'ci':       # one ice distribution per grid cell
            sh = (s.NT, s.NZ)
            return {'N_0': SymDA(inp(n0, sh, sign='0+'), dims=D2), 'lambda': SymDA(inp(lam, sh, sign='+'), dims=D2), 'mu': SymDA(inp(mu, sh, sign='0+'), dims=D2)}
        mus = inp(mu, sh, sign='0+') if hyd_type == 'cl' else lazy(sh, lambda i: F(0))
        return {'N_0': SymDA(inp(n0, sh, sign='0+', flags=True), dims=D3), 'lambda': SymDA(inp(lam, sh, sign='+', flags=True), dims=D3),
                'mu': SymDA(mus, dims=D3)}
    c.stub(mod, 'calc_and_set_psd_params', psd)


def untouched(c, kind, ap, fam, up, hyd, units):
    s = sizes(c)
    c.S.x_increasing = True
    gen = generic(c)

    def body():
        m = world(c, s, fam, units)
        ins = device(c, s, kind, 'ins_')
        psd_stub(c, s, m, LM if kind == 'lidar' else RM)
        old, dev = snap(m.m.ds), device_state(ins)
        setup = {n: (v, dict(v)) for n, v in vars(m.m).items() if isinstance(v, dict)}
        hy = list(m.m.hyd_types)
        sel = list(hyd) if hyd else None
        r = simulate(c, kind, ins, m.m, ap, up, sel, classify=kind == 'radar' or not fam.startswith('P3'))
        kept(c, s, 'model', r.ds, old)
        same_device(c, 'instrument', ins, dev, gen)
        for n, (v, w) in setup.items():
            c.ensure('setup/' + n, getattr(r, n) is v and sorted(v) == sorted(w) and all(v[x] is w[x] or v[x] == w[x] for x in w))
        c.ensure('setup/hyd_types', list(r.hyd_types) == hy and (sel is None or sel == hyd))
    c.paths(body)


for _r in RUNS:
    contract('O03', f"simulation[{_r[0]},{_r[1]},{_r[2]},{'up' if _r[3] else 'down'},{'+'.join(_r[4] or (P3_HYD if 'P3' in _r[2] else NSSL_HYD if _r[2] == 'NSSL' else HYD))},{'+'.join(_r[5])}]",
             FUNCS[_r[0]] + [f"simulator.{_r[0]}_moments.calc_{_r[0]}_{_r[1]}"], limit=200)(lambda c, a=_r: untouched(c, *a))


# ------------------------------------------------------------------------------------------------------------- O02
INTERMEDIATE = {"mu", "lambda", "N_0", "lambda_", "ze"}       # working fields of the size distributions, rewritten by every simulation
HIST = [(('lidar', 'bulk', True, None), [('lidar', 'bulk', False, ['cl', 'pi'])], 'ModelE'),
        (('lidar', 'bulk', True, None), [('radar', 'bulk', False, None)], 'CESM'),
        (('lidar', 'empirical', False, None), [('lidar', 'bulk', True, None), ('radar', 'empirical', True, None)], 'ModelE'),
        (('lidar', 'micro', True, ['cl', 'ci']), [('radar', 'micro', True, ['cl', 'pi'])], 'ModelE'),
        (('radar', 'bulk', True, None), [('radar', 'bulk', False, ['cl', 'pi'])], 'ModelE'),
        (('radar', 'bulk', True, ['pi', 'cl']), [('lidar', 'bulk', False, None)], 'CESM'),
        (('radar', 'empirical', True, None), [('radar', 'bulk', False, None)], 'ModelE'),
        (('radar', 'micro', True, ['cl', 'pi']), [('lidar', 'micro', True, ['cl', 'ci']), ('radar', 'bulk', True, ['ci', 'pl'])], 'ModelE'),
        (('lidar', 'bulk', True, None), [('lidar', 'bulk', False, ['cl', 'ci']), ('radar', 'bulk', True, None)], 'P3:0'),
        (('radar', 'bulk', False, None), [('radar', 'bulk', True, ['ci', 'cl']), ('lidar', 'bulk', True, None)], 'P3:1'),
        (('radar', 'micro', True, ['ci', 'pl']), [('lidar', 'micro', True, ['ci', 'cl']), ('radar', 'micro', False, ['ci'])], 'P3:2'),
        (('radar', 'micro', True, ['gr', 'cl']), [('lidar', 'bulk', True, ['ha', 'cl']), ('radar', 'micro', False, ['sn'])], 'NSSL'),
        (('lidar', 'bulk', True, ['ha', 'gr', 'cl']), [('radar', 'bulk', False, ['gr', 'pl'])], 'NSSL')]


def history(c, first, between, fam):
    s = sizes(c)
    c.S.x_increasing = True

    def body():
        m = world(c, s, fam, SI)
        for mod in (LM, RM):
            psd_stub(c, s, m, mod)
        base = set(m.m.ds.variables)
        theory_stub(c, s)
        one = device(c, s, first[0], 'ins_')
        P3 = fam.startswith('P3')
        mask = lambda kind: kind == 'radar' or not P3
        r = simulate(c, first[0], one, m.m, *first[1:], classify=mask(first[0]))
        out = [n for n in r.ds.keys() if n not in base and n not in INTERMEDIATE]
        old = snap(r.ds, out)
        for j, (kind, ap, up, hyd) in enumerate(between):
            other = device(c, s, kind, f"other{j}_")
            if P3:
                other.instrument_str = f"other{j}"        # the name of a device goes with its scattering tables (interpolators are kept under it)
            r = simulate(c, kind, other, r, ap, up, hyd, classify=mask(kind))
            if all(x[0] != first[0] for x in between[:j + 1]):
                kept(c, s, f"after-{kind}", r.ds, old)
        r = simulate(c, first[0], one, r, *first[1:], classify=mask(first[0]))
        kept(c, s, 'repeated', r.ds, old)
    c.paths(body)


ALONE = [([('lidar', 'micro', True, ['ci', 'cl'], True), ('lidar', 'micro', True, ['ci', 'cl'], False)], 'P3:0'),
         ([('radar', 'micro', True, ['ci'], True), ('radar', 'micro', True, ['ci'], False)], 'P3:0'),
         ([('lidar', 'micro', True, ['ci'], False), ('lidar', 'micro', False, ['ci'], True)], 'P3:2'),
         ([('radar', 'bulk', True, None, True), ('radar', 'bulk', False, None, False)], 'P3:0'),
         ([('lidar', 'bulk', False, None, False), ('lidar', 'bulk', True, None, True)], 'P3:2'),
         ([('lidar', 'micro', True, ['ci', 'cl'], False), ('lidar', 'bulk', True, None, True)], 'P3:1'),
         ([('lidar', 'bulk', True, ['ci', 'cl'], True), ('lidar', 'bulk', True, None, False)], 'ModelE'),
         ([('lidar', 'bulk', True, None, False), ('lidar', 'micro', True, ['pi', 'cl'], True)], 'ModelE'),
         ([('radar', 'bulk', False, ['pl', 'ci'], True), ('radar', 'bulk', True, None, False)], 'CESM'),
         ([('radar', 'micro', True, ['cl', 'ci'], False), ('radar', 'bulk', True, None, True)], 'CESM'),
         ([('radar', 'empirical', True, None, False), ('radar', 'bulk', True, ['cl', 'pl'], True)], 'ModelE'),
         ([('radar', 'micro', True, ['gr', 'cl'], True), ('radar', 'micro', False, ['gr', 'cl'], False)], 'NSSL'),
         ([('lidar', 'empirical', False, None, False), ('lidar', 'bulk', True, ['ha', 'sn', 'pl'], True)], 'NSSL')]


def alone(c, runs, fam):
    """the outputs of the last run are those of the run alone, on a model with the same subcolumns that no run was made on; the runs
    share one instrument and differ in approach, side, classes and kind of ice tables"""
    s = sizes(c)
    c.S.x_increasing = True

    def body():
        theory_stub(c, s)
        res = []
        for rs in (runs, runs[-1:]):
            m = world(c, s, fam, SI)
            for mod in (LM, RM):
                psd_stub(c, s, m, mod)
            base = set(m.m.ds.variables)
            ins = device(c, s, runs[0][0], 'ins_')
            r = m.m
            for kind, ap, up, hyd, mie in rs:
                r = simulate(c, kind, ins, r, ap, up, hyd, classify=kind == 'radar' or not fam.startswith('P3'), mie=mie)
            res.append(r)
        kept(c, s, 'as-alone', res[0].ds, snap(res[1].ds, [n for n in res[1].ds.keys() if n not in base and n not in INTERMEDIATE]), attrs=False)
    c.paths(body)


def theory_stub(c, s):
    """contract of calc_theory_beta_m (M01 and `profile` below): the profile is a function of the atmosphere, the wavelength and the side"""
    def theory(model, Lambda, OD_from_sfc=True, **k):
        nm = f"th[{Lambda.v if isinstance(Lambda, Sc) else Lambda},{bool(OD_from_sfc)}]"
        for n, sg in (('sigma_180_vol', '+'), ('tau', '+')):
            model.ds[n] = SymDA(inp(n + nm, (s.NT, s.NZ), sign=sg), dims=D2)
        return model
    c.stub(LM, 'calc_theory_beta_m', theory)


ATM = ['tau', 'u_atm', 'beta', 'sigma_180_vol', 'sigma_180', 'sigma', 'kappa', 'N_s', 'n_s']


def leftovers(c, s, m):
    """fields of any value that earlier simulations may have left"""
    for cl in ('strat', 'conv'):
        for h in HYD + ['tot']:
            for v in ('beta_p', 'alpha_p', 'OD', 'Ze', 'Vd', 'sigma_d'):
                m.field3(f"sub_col_{v}_{h}_{cl}", flags=True)
        for v in ('beta_att_tot', 'Ze_att_tot', 'LDR'):
            m.field3(f"sub_col_{v}_{cl}", flags=True)
        m.field3(f"hyd_ext_{cl}", flags=True)
        m.field3(f"{cl}_phase_mask_HSRL", flags=True)
        m.field3(f"{cl}_COSP_phase_mask", flags=True)
    for v in ('beta_p_tot', 'alpha_p_tot', 'OD_tot', 'Ze_tot', 'Ze_att_tot', 'beta_att_tot', 'LDR_tot'):
        m.field3('sub_col_' + v, flags=True)
    for v in ('ext_mask', 'detect_mask', 'phase_mask_HSRL_all_hyd', 'phase_mask_KAZR_sounding_all_hyd', 'COSP_phase_mask_all_hyd', 'mu', 'lambda', 'N_0'):
        m.field3(v, flags=True)
    for v in ['Ze_min', 'kappa_wv', 'kappa_o2', 'kappa_att', 'atm_ext'] + ATM:
        m.field2(v, flags=True)
    return m


def profile(c, up, units, own):
    """the profile depends on the atmosphere, the wavelength and the side only: not on what the model holds from before"""
    s = sizes(c)

    def body():
        f = c.fn(AT, 'calc_theory_beta_m')
        lam = F(1, 5) + core.const('lam', 'f', '0+')
        m, fresh = leftovers(c, s, world(c, s, 'ModelE', units)), world(c, s, 'ModelE', units)
        old = {n: x for n, x in snap(f(fresh.m, lam, OD_from_sfc=up).ds, ATM).items()}
        for o in own:
            f(m.m, F(1, 5) + core.const('lam2', 'f', '0+') if o[0] else lam, OD_from_sfc=o[1])
        r = f(m.m, lam, OD_from_sfc=up)
        kept(c, s, 'repeated', r.ds, old)
    c.paths(body)


for _r, _fam in ALONE:
    contract('O02', f"last-of[{'; '.join(f'{x[0]} {x[1]} ' + ('up ' if x[2] else 'down ') + '+'.join(x[3] or ['all']) + (' Mie' if x[4] else ' table') for x in _r)},{_fam}]",
             FUNCS[_r[0][0]] + [f"simulator.{k}_moments.calc_{k}_{a}" for k, a in sorted({x[:2] for x in _r})], limit=300)(lambda c, r=_r, d=_fam: alone(c, r, d))
for _up in (True, False):
    for _own in ([(True, _up)], [(False, not _up), (True, not _up)], [(False, _up)]):
        contract('O02', f"calc_theory_beta_m[{'up' if _up else 'down'}; after {', '.join(('other wavelength ' if o[0] else '') + ('up' if o[1] else 'down') for o in _own)}]",
                 ['simulator.attenuation.calc_theory_beta_m'], limit=150)(lambda c, a=_up, b=_own: profile(c, a, SI, b))
for _f, _b, _fam in HIST:
    contract('O02', f"history[{_f[0]} {_f[1]} {'up' if _f[2] else 'down'} {'+'.join(_f[3] or HYD)}; " + ', '.join(f"{x[0]} {x[1]}" for x in _b) + f"; again,{_fam}]",
             FUNCS[_f[0]] + [f"simulator.{_f[0]}_moments.calc_{_f[0]}_{_f[1]}"], limit=300)(lambda c, a=_f, b=_b, d=_fam: history(c, a, b, d))


# ------------------------------------------------------------------------------------------------------------- classification, size distributions, generator
def masks(c, s, kind, conv, units):
    """a model holding the outputs of a simulation, whatever their values"""
    m = world(c, s, 'ModelE', units, conv=conv)
    for cl in ('strat', 'conv'):
        if kind == 'lidar':
            for h in HYD:
                for v in ('beta_p', 'OD'):
                    m.field3(f"sub_col_{v}_{h}_{cl}", sign='0+', flags=True)
            m.field3(f"sub_col_beta_p_tot_{cl}", sign='0+')
        else:
            m.field3(f"sub_col_Ze_att_tot_{cl}", flags=True)
    if kind == 'lidar':
        for p in ('', '_strat', '_conv'):
            m.field3('sub_col_OD_tot' + p, sign='0+', flags=True)
            m.field3('sub_col_beta_p_tot' + p, sign='0+')
            m.field3(f"sub_col_LDR{p or '_tot'}", sign='0+', flags=True)
        m.field2('sigma_180_vol', sign='+')
        m.field2('tau', sign='+')
    else:
        m.field3('sub_col_Ze_att_tot', flags=True)
        m.field2('Ze_min')
    return m


def classify(c, kind, ins, m, up, hyd, opts):
    if kind == 'lidar':
        m = c.fn(CL, 'lidar_classify_phase')(ins, m, **opts)
        m = c.fn(CL, 'lidar_emulate_cosp_phase')(ins, m, eta=ins.eta, OD_from_sfc=up, hyd_types=hyd, output_ATB=True, **opts)
        mask = 'phase_mask_HSRL_all_hyd'
    else:
        m = c.fn(CL, 'radar_classify_phase')(ins, m, **opts)
        mask = 'phase_mask_KAZR_sounding_all_hyd'
    f = c.fn(CL, 'calculate_phase_ratio')
    m = f(m, mask, [1], mask_allhyd=[1, 2])
    m = f(m, mask, 1, mass_pr=True, mpr_subcolmod=True, hyd_types=hyd)
    return f(m, mask, 1, mass_pr=True, hyd_types=hyd)


def classified(c, pid, kind, conv, up, hyd, nan, units):
    s = sizes(c)
    c.S.x_increasing = True
    gen = generic(c)

    def body():
        m = masks(c, s, kind, conv, units)
        ins = device(c, s, kind, 'ins_')
        old, dev = snap(m.m.ds), device_state(ins)
        sel = list(hyd) if hyd else None
        opts = dict(convert_zeros_to_nan=True) if nan else {}
        r = classify(c, kind, ins, m.m, up, sel, opts)
        if pid == 'O03':
            kept(c, s, 'model', r.ds, old)
            same_device(c, 'instrument', ins, dev, gen)
            return
        out = snap(r.ds, [n for n in r.ds.keys() if n not in old])
        r = classify(c, kind, device(c, s, kind, 'other_'), r, not up, ['ci', 'pl'], {})
        r = classify(c, kind, ins, r, up, sel, opts)
        kept(c, s, 'repeated', r.ds, out)
    c.paths(body)


CLASSIF = ['simulator.classification.' + x for x in ('lidar_classify_phase', 'lidar_emulate_cosp_phase', 'radar_classify_phase', 'calculate_phase_ratio')]
for _p in ('O02', 'O03'):
    for _k in ('lidar', 'radar'):
        for _cv, _up, _hy, _nan, _un in ((True, True, None, False, KM), (False, False, ['cl', 'pi'], True, SI)):
            contract(_p, f"classification[{_k},{'conv+strat' if _cv else 'strat'},{'up' if _up else 'down'},{'+'.join(_hy or HYD)}{',missing' if _nan else ''},{'+'.join(_un)}]",
                     CLASSIF, limit=200)(lambda c, a=_p, b=_k, d=_cv, e=_up, f=_hy, g=_nan, h=_un: classified(c, a, b, d, e, f, g, h))


def psd_frame(c, scheme, h, cl):
    s = sizes(c)

    def body():
        if scheme == 'P3':
            m = world(c, s, 'P3:0', KM)
        else:
            m = world(c, s, 'ModelE', KM)
            m.m.mcphys_scheme, m.m.model_name = scheme, 'E3SM'
        old = snap(m.m.ds)
        c.fn('simulator.psd', 'calc_and_set_psd_params')(m.m, h, is_conv=cl == 'conv')
        kept(c, s, 'model', m.m.ds, old)
    c.paths(body)


for _s, _h, _cl in (('MG2', 'cl', 'strat'), ('MG2', 'pi', 'conv'), ('Morrison', 'ci', 'strat'), ('nssl', 'pl', 'strat'), ('P3', 'ci', 'strat'), ('P3', 'cl', 'strat')):
    contract('O03', f"calc_and_set_psd_params[{_s},{_h},{_cl}]", ['simulator.psd.calc_and_set_psd_params', 'simulator.psd.calc_mu_lambda'])(
        lambda c, a=_s, b=_h, d=_cl: psd_frame(c, a, b, d))


def generator_frame(c, which, h, rad):
    s = sizes(c)

    def body():
        m = world(c, s, 'ModelE', KM)
        gone = [n for n in m.m.ds.keys() if 'subcolumns' in n] if which == 'conv' else []
        for n in gone:
            m.m.ds.v.pop(n)
        old = {n: x for n, x in snap(m.m.ds).items() if which == 'conv' or not (h in n and 'subcolumns' in n)}
        if which == 'conv':
            c.fn(SC, 'set_convective_sub_col_frac')(m.m, h, use_rad_logic=rad)
        else:
            c.fn(SC, 'set_q_n')(m.m, h, is_conv=which == 'q conv', qc_flag=False, use_rad_logic=rad)
        kept(c, s, 'model', m.m.ds, old)
    c.paths(body)


for _w in ('conv', 'q strat', 'q conv'):
    for _h, _r in (('cl', True), ('pi', False)):
        contract('O03', f"{'set_convective_sub_col_frac' if _w == 'conv' else 'set_q_n'}[{_w},{_h},{'radiation' if _r else 'microphysics'}]",
                 ['simulator.subcolumn.' + ('set_convective_sub_col_frac' if _w == 'conv' else 'set_q_n')])(lambda c, a=_w, b=_h, d=_r: generator_frame(c, a, b, d))
