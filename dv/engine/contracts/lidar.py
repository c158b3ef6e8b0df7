"""Contracts of the lidar simulator (L01-L05)."""
from ..prove import contract
from ..symmodel import M, sizes, heights, instrument, tables, subcols, p3, P3_HYD, NSSL_HYD, model_of, HYD, D2, D3
from .. import core
from ..arr import inp
from ..shim_xr import SymDA
from ..core import S, Sc, z3, And, Or, Not, Imp, B, I, binop, truth, Fraction, ite, isnan, s_fn

LM = 'simulator.lidar_moments'
ACC = ['simulator.lidar_moments.accumulate_OD']


def acc_od(c, up, cloud):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        m = M(c, s)
        q = m.field3(f"{cloud}_q_subcolumns_cl", sign='0+')
        al = m.field3(f"sub_col_alpha_p_cl_{cloud}", sign='0+')
        z = m.m.ds['z'].values
        r = c.fn(LM, 'accumulate_OD')(m.m, cloud == 'conv', z, 'cl', OD_from_sfc=up)
        od = lambda kk: r.ds[f"sub_col_OD_cl_{cloud}"].arr.at((i, t, kk))
        c.ensure('dims', tuple(r.ds[f"sub_col_OD_cl_{cloud}"].dims) == D3)
        zz = lambda kk: z.at((t, kk))
        a = lambda kk: al.at((i, t, kk))
        if up:
            c.ensure('zero-at-lidar', c.eq(od(z3.IntVal(0)), Fraction(0)))
            c.ensure('path-integral', c.eq(od(k), binop('+', od(k - 1), binop('*', a(k - 1), binop('-', zz(k), zz(k - 1))))), [k >= 1])
            c.ensure('monotone', c.ge(od(k), od(k - 1)), [k >= 1])
            c.ensure('non-negative/step', c.ge(od(k), Fraction(0)), [k >= 1, truth(binop('>=', od(k - 1), 0))])
        else:
            top = s.NZ.v - 1
            c.ensure('zero-at-lidar', c.eq(od(top), Fraction(0)))
            c.ensure('path-integral', c.eq(od(k), binop('+', od(k + 1), binop('*', a(k + 1), binop('-', zz(k + 1), zz(k))))), [k < top])
            c.ensure('monotone', c.ge(od(k), od(k + 1)), [k < top])
            c.ensure('non-negative/step', c.ge(od(k), Fraction(0)), [k < top, truth(binop('>=', od(k + 1), 0))])
    c.paths(body)


for _up in (True, False):
    for _cl in ('strat', 'conv'):
        contract('L01', f"accumulate_OD[{'up' if _up else 'down'},{_cl}]", ACC)(lambda c, u=_up, w=_cl: acc_od(c, u, w))

# ------------------------------------------------------------------ L02
def fz(x):
    """missing counts as zero"""
    return ite(isnan(x), Fraction(0), x)


def exp_(x):
    return s_fn('exp', x)


def total_lidar(c, conv, up):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        m = M(c, s, conv=conv)
        m.m.ds['sub'] = m.m.ds['z']
        F = {}
        for cl in ('strat', 'conv') if conv else ('strat',):
            m.field3(f"{cl}_q_subcolumns_cl", sign='0+')
            for v in ('beta_p', 'alpha_p', 'OD'):
                F[v, cl] = m.field3(f"sub_col_{v}_tot_{cl}", sign='0+', flags=True)
        m.field2('sigma_180_vol', sign='+')
        m.field2('tau', sign='+')
        eta = core.const('eta', 'f', '+')
        r = c.fn(LM, 'calc_total_alpha_beta')(m.m, OD_from_sfc=up, eta=eta)
        g = lambda n: r.ds[n].arr.at((i, t, k))
        for v in ('beta_p', 'alpha_p', 'OD'):
            ex = fz(F[v, 'strat'].at((i, t, k)))
            if conv:
                ex = ex + fz(F[v, 'conv'].at((i, t, k)))
            c.ensure(f"{v}-sum", c.eq(g(f"sub_col_{v}_tot"), ex))
            c.ensure(f"{v}-dims", tuple(r.ds[f"sub_col_{v}_tot"].dims) == D3)
        c.ensure('lidar-equation', c.eq(g('sub_col_beta_att_tot'), (m.at('sigma_180_vol', t, k) + g('sub_col_beta_p_tot')) * m.at('tau', t, k)
                                        * exp_(Fraction(-2) * eta * g('sub_col_OD_tot'))))
        c.ensure('att-dims', tuple(r.ds['sub_col_beta_att_tot'].dims) == D3)
        for cl in ('strat', 'conv') if conv else ('strat',):
            for v in ('beta_p', 'alpha_p', 'OD'):
                c.ensure(f"frame[{v},{cl}]", c.eq(g(f"sub_col_{v}_tot_{cl}"), F[v, cl].at((i, t, k))))
    c.paths(body)


for _cv in (True, False):
    for _up in (True, False):
        contract('L02', f"calc_total_alpha_beta[{'conv+strat' if _cv else 'strat'},{'up' if _up else 'down'}]",
                 ['simulator.lidar_moments.calc_total_alpha_beta'])(lambda c, a=_cv, b=_up: total_lidar(c, a, b))


def stub_theory(c, s, log):
    def theory(model, Lambda, OD_from_sfc):
        log.append(('theory', OD_from_sfc, Lambda))
        for n, sg in (('sigma_180_vol', '+'), ('tau', '+')):
            model.ds[n] = SymDA(inp(n, (s.NT, s.NZ), sign=sg), dims=D2)
        return model
    c.stub(LM, 'calc_theory_beta_m', theory)


def stub_approach(c, s, log, flags=True):
    def mk(name):
        def f(model, OD_from_sfc, hyd_types, is_conv=False, **k):
            cl = 'conv' if is_conv else 'strat'
            log.append((name, OD_from_sfc, is_conv, hyd_types, k))
            for h in ['tot'] + list(hyd_types):
                for v in ('beta_p', 'alpha_p', 'OD'):
                    nm = f"sub_col_{v}_{h}_{cl}"
                    model.ds[nm] = SymDA(inp(nm, (s.NS, s.NT, s.NZ), sign='0+'), dims=D3)
            return model
        return f
    for n in ('bulk', 'micro', 'empirical'):
        c.stub(LM, f"calc_lidar_{n}", mk(n))


def lidar_moments(c, cloud, approach, up):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        log = []
        stub_theory(c, s, log)
        stub_approach(c, s, log)
        m = M(c, s)
        q = m.field3(f"{cloud}_q_subcolumns_cl", sign='0+')
        ins = instrument(c)
        eta = core.const('eta', 'f', '+')
        r = c.fn(LM, 'calc_lidar_moments')(ins, m.m, cloud == 'conv', OD_from_sfc=up, eta=eta,
                                          use_rad_logic=approach == 'bulk', use_empiric_calc=approach == 'empirical')
        g = lambda n: r.ds[n].arr.at((i, t, k))
        c.ensure('lidar-equation', c.eq(g(f"sub_col_beta_att_tot_{cloud}"),
                                        (m.at('sigma_180_vol', t, k) + g(f"sub_col_beta_p_tot_{cloud}")) * m.at('tau', t, k)
                                        * exp_(Fraction(-2) * eta * g(f"sub_col_OD_tot_{cloud}"))))
        c.ensure('dims', tuple(r.ds[f"sub_col_beta_att_tot_{cloud}"].dims) == D3)
        th = [x for x in log if x[0] == 'theory']
        ap = [x for x in log if x[0] != 'theory']
        c.require(th and ap, 'callee not reached through its name in this module')
        c.ensure('molecular-profile-from-the-requested-side', core.And(*[bool(x[1]) == up for x in th]))
        c.ensure('molecular-profile-at-the-wavelength', core.And(*[c.eq(x[2], ins.wavelength) for x in th]))
        c.ensure('scattering-calculation-from-the-requested-side', core.And(*[bool(x[1]) == up and bool(x[2]) == (cloud == 'conv') for x in ap]))
        want = 'bulk' if cloud == 'conv' and approach == 'micro' else approach
        c.ensure('approach', all(x[0] == want for x in ap))
        for v in ('beta_p', 'alpha_p', 'OD'):
            nm = f"sub_col_{v}_tot_{cloud}"
            c.ensure(f"frame[{v}]", c.eq(g(nm), inp(nm, (s.NS, s.NT, s.NZ), sign='0+').at((i, t, k))))
    c.paths(body)


for _cl in ('strat', 'conv'):
    for _ap in ('bulk', 'micro', 'empirical'):
        for _up in (True, False):
            contract('L02', f"calc_lidar_moments[{_cl},{_ap},{'up' if _up else 'down'}]", ['simulator.lidar_moments.calc_lidar_moments'])(
                lambda c, a=_cl, b=_ap, d=_up: lidar_moments(c, a, b, d))


# ------------------------------------------------------------------ L04, L05
def ldr_ext(c, pid, conv, up, own, sel):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        m = M(c, s, conv=conv)
        cls = ('conv', 'strat') if conv else ('strat',)
        for cl in cls:
            for h in HYD:
                m.field3(f"sub_col_beta_p_{h}_{cl}", sign='0+', flags=True)
        m.field3('sub_col_OD_tot', sign='0+')
        ext = core.const('ext_OD', 'f', '+')
        ldr = {h: core.const(f"my_ldr_{h}", 'f', '0+') for h in HYD} if own else None
        r = c.fn(LM, 'calc_LDR_and_ext')(m.m, ext_OD=ext, OD_from_sfc=up, LDR_per_hyd=ldr, hyd_types=sel)
        g = lambda n, kk=k: r.ds[n].arr.at((i, t, kk))
        used = sel or HYD
        L = {h: (ldr[h] if own else m.m.LDR_per_hyd[h].magnitude) for h in HYD}
        if pid == 'L04':
            for part in cls + ('tot',):
                w = [(L[h], fz(g(f"sub_col_beta_p_{h}_{cl}"))) for cl in (cls if part == 'tot' else (part,)) for h in used]
                num, den = Fraction(0), Fraction(0)
                for l, b in w:
                    num, den = num + l * b, den + b
                out = g(f"sub_col_LDR_{part}")
                pos = truth(den > 0)
                c.ensure(f"{part}/undefined-iff-no-backscatter", core.Or(core.And(core.Not(truth(isnan(out))), pos), core.And(truth(isnan(out)), core.Not(pos))))
                c.ensure(f"{part}/weighted-mean", c.eq(out, num / den), [pos])
                c.ensure(f"{part}/dims", tuple(r.ds[f"sub_col_LDR_{part}"].dims) == D3)
                lo, hi = core.const('lo', 'f', '0+'), core.const('hi', 'f', '0+')
                # bounds: every class ratio within [lo,hi] -> so is the mean (num/den, shown equal above)
                hy = [truth(L[h] >= lo) for h in used] + [truth(L[h] <= hi) for h in used]
                c.ensure(f"{part}/bounded-below", truth(lo * den <= num), hy)
                c.ensure(f"{part}/bounded-above", truth(num <= hi * den), hy)
        else:
            od = lambda kk: m.at('sub_col_OD_tot', i, t, kk)
            e = lambda kk: g('ext_mask', kk)
            far = (lambda kk: kk + 1) if up else (lambda kk: kk - 1)
            last = k == s.NZ.v - 1 if up else k == 0
            ex = truth(od(k) > ext)
            nex = core.And(z3.Not(last), truth(od(far(k)) > ext))
            c.ensure('extinct', c.eq(e(k), 2), [ex])
            c.ensure('crossing', c.eq(e(k), 1), [core.Not(ex), nex])
            c.ensure('clear', c.eq(e(k), 0), [core.Not(ex), core.Not(nex)])
            c.ensure('dims', tuple(r.ds['ext_mask'].dims) == D3)
    c.paths(body)


for _up in (True, False):
    for _cv in (True, False):
        contract('L05', f"calc_LDR_and_ext[{'conv+strat' if _cv else 'strat'},{'up' if _up else 'down'}]",
                 ['simulator.lidar_moments.calc_LDR_and_ext'])(lambda c, a=_cv, b=_up: ldr_ext(c, 'L05', a, b, False, None))
for _cv in (True, False):
    for _own in (True, False):
        for _sel in (None, ['cl'], ['pi', 'cl', 'ci']):
            contract('L04', f"calc_LDR_and_ext[{'conv+strat' if _cv else 'strat'},{'caller' if _own else 'model'} ratios,{'+'.join(_sel or HYD)}]",
                     ['simulator.lidar_moments.calc_LDR_and_ext'])(lambda c, a=_cv, b=_own, d=_sel: ldr_ext(c, 'L04', a, True, b, d))

# ------------------------------------------------------------------ L03
PRE = ('beta_p', 'alpha_p', 'OD')


def stub_acc(c, s, log):
    def acc(model, is_conv, z_values, hyd_type, OD_from_sfc, **k):
        cl = 'conv' if is_conv else 'strat'
        log.append((cl, hyd_type, OD_from_sfc, z_values))
        nm = f"sub_col_OD_{hyd_type}_{cl}"
        model.ds[nm] = SymDA(inp('acc_' + nm, (s.NS, s.NT, s.NZ), sign='0+'), dims=D3)
        return model
    c.stub(LM, 'accumulate_OD', acc)


def stub_psd(c, s, m):
    """contract of psd.calc_and_set_psd_params (P01): intercept and slope positive where the class is present, missing or zero elsewhere"""
    def psd(model, hyd_type, **k):
        if model.mcphys_scheme == 'P3' and hyd_type == 'ci':       # one ice distribution per grid cell
            sh = (s.NT, s.NZ)
            return {'N_0': SymDA(inp('psd_N0_ci', sh, sign='0+', flags=True), dims=D2),
                    'lambda': SymDA(inp('psd_la_ci', sh, sign='+', flags=True), dims=D2), 'mu': SymDA(inp('psd_mu_ci', sh, sign='0+'), dims=D2)}
        fr = f"{m.pre}strat_frac_subcolumns_{hyd_type}"
        sh = (s.NS, s.NT, s.NZ)
        n0, lam, mu = f"psd_N0_{hyd_type}", f"psd_la_{hyd_type}", f"psd_mu_{hyd_type}"

        def fact(v, a):
            f = z3.Function(fr, *[z3.IntSort()] * 3, z3.RealSort())(*a)
            nan = z3.Function(n0 + '#nan', *[z3.IntSort()] * 3, z3.BoolSort())(*a)
            q = z3.Function(f"{m.pre}strat_q_subcolumns_{hyd_type}", *[z3.IntSort()] * 3, z3.RealSort())(*a)
            return [v >= 0, z3.Implies(f == 0, z3.Or(nan, v == 0))]
        return {'N_0': SymDA(inp(n0, sh, sign='0+', flags=True, fact=fact), dims=D3),
                'lambda': SymDA(inp(lam, sh, sign='+', flags=True), dims=D3), 'mu': SymDA(inp(mu, sh, sign='0+'), dims=D3)}
    c.stub(LM, 'calc_and_set_psd_params', psd)


def lidar_class(c, approach, cl, fam, mie, hyd, up=True, hybrid=None, fluffy=True):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        log = []
        stub_acc(c, s, log)
        m = model_of(c, s, fam)
        if not fluffy:
            m.m.fluffy = None
        subcols(m, cl, hyd)
        if 'cl' not in hyd:
            m.field3(f"{cl}_q_subcolumns_cl", sign='0+')
        stub_psd(c, s, m)
        for h in list(hyd) + ['tot']:            # left by an earlier calculation
            for v in PRE:
                m.field3(f"sub_col_{v}_{h}_{cl}", sign='0+', flags=True)
        ins = tables(c, instrument(c))
        if fam == 'P3':
            p3(c, m, ins, hybrid)
        p = inp('P', (s.NT, s.NZ), sign='+')
        tt = inp('T_above_-90C', (s.NT, s.NZ), sign='+') - Fraction(90)
        z = heights(s, 'zz', '+')
        if approach == 'bulk':
            if fam == 'CESM':
                m.m.lambda_field = {h: f"lam_{h}" if h in ('cl', 'pl') else None for h in hyd}
                m.m.mu_field = {h: f"mu_{h}" if h in ('cl', 'pl') else None for h in hyd}
                for h in hyd:
                    if h in ('cl', 'pl'):
                        m.field2(f"lam_{h}", sign='+')
                        m.field2(f"mu_{h}", sign='0+')
            r = c.fn(LM, 'calc_lidar_bulk')(ins, m.m, cl == 'conv', p, z, OD_from_sfc=up, hyd_types=list(hyd), mie_for_ice=mie)
        elif approach == 'empirical':
            r = c.fn(LM, 'calc_lidar_empirical')(ins, m.m, cl == 'conv', p, tt, z, OD_from_sfc=up, hyd_types=list(hyd))
        else:
            r = c.fn(LM, 'calc_lidar_micro')(ins, m.m, z, OD_from_sfc=up, hyd_types=list(hyd), mie_for_ice=mie, parallel=False)
        g = lambda n: r.ds[n].arr.at((i, t, k))
        for v in PRE:
            tot = Fraction(0)
            for h in hyd:
                tot = tot + fz(g(f"sub_col_{v}_{h}_{cl}"))
            c.ensure(f"{v}/sum-over-selected-classes", c.eq(g(f"sub_col_{v}_tot_{cl}"), tot))
            c.ensure(f"{v}/dims", tuple(r.ds[f"sub_col_{v}_tot_{cl}"].dims) == D3)
        for h in hyd:
            f = m.at(f"{cl}_frac_subcolumns_{h}", i, t, k)
            for v in ('beta_p', 'alpha_p'):
                x = g(f"sub_col_{v}_{h}_{cl}")
                c.ensure(f"{v}/{h}/non-negative", truth(x >= 0))
                c.ensure(f"{v}/{h}/zero-where-absent", c.eq(x, Fraction(0)), [truth(f == 0)])
        c.require(log, 'accumulate_OD not reached through its name')
        c.ensure('optical-depth-from-the-requested-side', core.And(*[bool(x[2]) == up and x[0] == cl for x in log]))
    c.paths(body)


NSSL = ['cl', 'ci', 'pl', 'sn', 'gr', 'ha']
for _up in (True, False):
    for _ap, _cl, _fam, _mie, _hy in [('bulk', 'strat', 'ModelE', False, HYD), ('bulk', 'conv', 'ModelE', True, HYD), ('bulk', 'strat', 'CESM', False, HYD),
                                      ('bulk', 'conv', 'CESM', True, ['pi', 'cl']), ('empirical', 'strat', 'ModelE', False, HYD),
                                      ('empirical', 'conv', 'CESM', False, ['ci', 'pl']), ('micro', 'strat', 'ModelE', False, HYD),
                                      ('micro', 'strat', 'ModelE', True, HYD), ('micro', 'strat', 'CESM', False, ['pi', 'cl']), ('bulk', 'strat', 'NSSL', False, NSSL_HYD),
                                      ('bulk', 'strat', 'NSSL', True, ['ha', 'cl']), ('micro', 'strat', 'NSSL', False, NSSL_HYD), ('empirical', 'strat', 'NSSL', False, NSSL_HYD)]:
        if not _up and (_hy is HYD and _ap != 'bulk'):
            continue
        contract('L03', f"calc_lidar_{_ap}[{_cl},{_fam},{'Mie' if _mie else 'table'},{'+'.join(_hy)},{'up' if _up else 'down'}]",
                 [f"simulator.lidar_moments.calc_lidar_{_ap}", 'simulator.lidar_moments._calc_strat_lidar_properties'])(
            lambda c, a=_ap, b=_cl, d=_fam, e=_mie, f=_hy, u=_up: lidar_class(c, a, b, d, e, f, u))

for _hyb in (0, 1, 2):
    for _mie in (False, True):
        for _fl in ((True, False) if _hyb == 1 else (True,)):
            for _ap, _cl in (('bulk', 'strat'), ('bulk', 'conv'), ('micro', 'strat')):
                if _cl == 'conv' and (_mie or not _fl) or _ap == 'micro' and (_hyb == 2 or not _fl):
                    continue
                contract('L03', f"calc_lidar_{_ap}[P3,{_cl},{'Mie' if _mie else 'table'},hybrid {_hyb}{'' if _fl else ',no fluffiness'}]",
                         [f"simulator.lidar_moments.calc_lidar_{_ap}", 'simulator.lidar_moments._calc_strat_lidar_properties'])(
                    lambda c, a=_ap, b=_cl, e=_mie, h=_hyb, f=_fl: lidar_class(c, a, b, 'P3', e, P3_HYD, h != 1, h, f))
