"""Contracts of the fitted size distributions (P01)."""
from ..prove import contract
from ..symmodel import M, sizes, HYD, P3_HYD, p3_model, D2, D3
from ..shim_xr import SymDA
from .. import core
from ..arr import inp
from ..core import z3, And, Or, Not, truth, Fraction, isnan, s_fn, binop

PS = 'simulator.psd'
F = Fraction
GAMMA = "integral of D**s exp(-L D) over D from 0 to infinity is Gamma(s+1) / L**(s+1) for s > -1, L > 0 (textbook identity, not proved here)"
CASES = [('cl', 'strat', None, 'ModelE', None), ('cl', 'strat', None, 'DHARMA', None), ('cl', 'strat', None, 'E3SM', None),
         ('cl', 'strat', True, 'ModelE', (2, 15)), ('cl', 'strat', True, 'sym', 'symbolic'), ('cl', 'strat', False, 'sym', None),
         ('pl', 'strat', None, 'sym', None), ('ci', 'strat', None, 'sym', None), ('pi', 'strat', True, 'sym', None), ('cl', 'conv', None, 'sym', None),
         ('ci', 'conv', None, 'ModelE', None)]


def slope(c, n, g4, g1, q):
    return binop('**', c * n * g4 / (q * g1), F(1, 3))


def fit(c, via, h, cl, disp, name, bounds, rho):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    c.S.x_increasing = True

    def body():
        m = M(c, s)
        m.m.model_name = name
        q = m.field3(f"{cl}_q_subcolumns_{h}", sign='0+')
        N = m.field3(f"{cl}_n_subcolumns_{h}", sign='0+')
        if rho:
            m.m.Rho_hyd[h] = 'variable'
            m.m.variable_density = {h: 'rho_var'}
            m.field2('rho_var', sign='+')
            rh = m.at('rho_var', t, k)
        else:
            rh = m.m.Rho_hyd[h].magnitude
        lo, hi = (F(2), F(15)) if bounds != 'symbolic' else (core.const('mu_lo', 'f', '0+'), core.const('mu_hi', 'f', '+'))
        if bounds == 'symbolic':
            c.assume(lo <= hi)
        kw = dict(calc_dispersion=disp, is_conv=cl == 'conv')
        if bounds == 'symbolic':
            kw['dispersion_mu_bounds'] = (lo, hi)
        if via:
            m.m.mcphys_scheme = via
            r = c.fn(PS, 'calc_and_set_psd_params')(m.m, h, **kw)
        else:
            r = c.fn(PS, 'calc_mu_lambda')(m.m, h, **kw).ds
        g = lambda n: r[n].arr.at((i, t, k))
        for n in ('mu', 'lambda', 'N_0'):
            c.ensure(n + '/dims', tuple(r[n].dims) == D3)
        mu, la, n0, qq, nn = g('mu'), g('lambda'), g('N_0'), q.at((i, t, k)), N.at((i, t, k))
        fixed = not (h == 'cl' and cl == 'strat' and (disp or (disp is None and name not in ('ModelE', 'DHARMA'))))
        has = [truth(qq > 0), truth(nn > 0)]
        if fixed:
            if h == 'cl' and cl == 'strat':
                c.ensure('shape/fixed', c.eq(mu, F(1) / F('0.09')))
            else:
                c.ensure('shape/zero', c.eq(mu, F(0)))
        else:
            c.ensure('shape/within-bounds', And(truth(mu >= lo), truth(mu <= hi)))
            d = F('0.0005714') * (nn * F('0.000001')) + F('0.2714')
            raw = F(1) / (d * d) - F(1)
            c.ensure('shape/dispersion-formula', c.eq(mu, raw), [truth(raw >= lo), truth(raw <= hi)])
            c.ensure('shape/lower-bound-below', c.eq(mu, lo), [truth(raw < lo)])
            c.ensure('shape/upper-bound-above', c.eq(mu, hi), [truth(raw > hi)])
        c.ensure('slope/missing-without-mass', truth(isnan(la)), [truth(qq == 0)])
        c.ensure('intercept/missing-without-mass', truth(isnan(n0)), [truth(qq == 0)])
        # the rest holds for every shape parameter in the range just shown
        cut = [] if fixed else [(mu, core.const('shape', 'f', '0+'))]
        mu, la, n0 = ((c.cut(x, cut) if cut else x) for x in (mu, la, n0))
        c.ensure('slope/positive', c.gt(la, F(0)), has)
        c.ensure('intercept/positive', c.gt(n0, F(0)), has)
        G = lambda x: s_fn('gamma', x)
        pi = core.const('PI', 'f', '+')
        c.ensure('slope/formula', c.eq(la, slope(pi * rh / F(6), nn * F(10**6), G(mu + F(4)), G(mu + F(1)), qq)), has)
        # for any positive slope L: the intercept is N L**(mu+1) / Gamma(mu+1), so the number integral N_0 Gamma(mu+1) / L**(mu+1) is N
        n0 = c.cut(n0, [(la, core.const('slope', 'f', '+'))])
        L = core.const('slope', 'f', '+')
        p1 = binop('**', L, mu + F(1))
        c.ensure('number/integral', c.eq(n0 * G(mu + F(1)) / p1, nn * F(10**6)), has)
        # mass: c N_0 Gamma(mu+4) / L**(mu+4), with N_0 as just shown, i.e. c N Gamma(mu+4) / (Gamma(mu+1) L**3)
        C, NN, G4, G1, Q = (core.const(x, 'f', '+') for x in ('c_', 'N_', 'G4_', 'G1_', 'Q_'))
        L = slope(C, NN, G4, G1, Q)
        c.ensure('mass/integral', c.eq(C * NN * G4 / (G1 * L * L * L), Q))
        c.ensure('frame/mass', c.eq(m.at(f"{cl}_q_subcolumns_{h}", i, t, k), inp(f"{cl}_q_subcolumns_{h}", (s.NS, s.NT, s.NZ)).at((i, t, k))))
        c.ensure('frame/number', c.eq(m.at(f"{cl}_n_subcolumns_{h}", i, t, k), inp(f"{cl}_n_subcolumns_{h}", (s.NS, s.NT, s.NZ)).at((i, t, k))))
    c.paths(body)


for _h, _cl, _d, _nm, _b in CASES:
    contract('P01', f"calc_mu_lambda[{_h},{_cl},dispersion {_d},{_nm}{',own bounds' if _b == 'symbolic' else ''}]", ['simulator.psd.calc_mu_lambda'],
             assumes=[GAMMA])(lambda c, a=_h, b=_cl, d=_d, e=_nm, f=_b: fit(c, None, a, b, d, e, f, False))
contract('P01', 'calc_mu_lambda[pi,strat,variable density]', ['simulator.psd.calc_mu_lambda'], assumes=[GAMMA])(
    lambda c: fit(c, None, 'pi', 'strat', None, 'sym', None, True))
for _s in ('MG2', 'mg', 'Morrison', 'nssl', 'P3'):
    for _h in ('cl', 'pl', 'pi'):
        if _s == 'P3' and _h == 'pi':
            continue
        contract('P01', f"calc_and_set_psd_params[{_s},{_h}]", ['simulator.psd.calc_and_set_psd_params', 'simulator.psd.calc_mu_lambda'], assumes=[GAMMA])(
            lambda c, a=_s, b=_h: fit(c, a, b, 'strat', None, 'sym', None, False))


def p3_ice(c, via):
    """P3 ice: shape and normalised intercept from the slope; N_0 Gamma(mu+1) / L**(mu+1) is the in-cloud number"""
    s = sizes(c)
    i = (s.t, s.k)

    def body():
        L = inp('lam_ice', (s.NT, s.NZ), sign='+')
        mu, n0 = c.fn('core.model', 'E3SMv3').calc_mu_n0_from_lambda(L)
        m0, l0, x = mu.at(i), L.at(i), n0.at(i)
        raw = F('0.076') * binop('**', l0 / F(100), F('0.8')) - F(2)
        c.ensure('shape/within-bounds', And(truth(m0 >= 0), truth(m0 <= 6)))
        c.ensure('shape/formula', c.eq(m0, raw), [truth(raw >= 0), truth(raw <= 6)])
        c.ensure('shape/lower-bound-below', c.eq(m0, F(0)), [truth(raw < 0)])
        c.ensure('shape/upper-bound-above', c.eq(m0, F(6)), [truth(raw > 6)])
        c.ensure('frame/slope', c.eq(L.at(i), inp('lam_ice', (s.NT, s.NZ), sign='+').at(i)))
        if via:
            m = M(c, s, hyd=P3_HYD, family='P3', scheme='P3')
            p3_model(c, m, 0)
            for n, a in (('lambda_ice', L), ('mu_ice', mu), ('N0_norm_ice', n0)):
                m.m.ds[n] = SymDA(a, dims=D2)
            r = c.fn(PS, 'calc_and_set_psd_params')(m.m, 'ci')
            x, l1, m1 = (r[n].arr.at(i) for n in ('N_0', 'lambda', 'mu'))
            c.ensure('model-slope', c.eq(l1, l0))
            c.ensure('model-shape', c.eq(m1, m0))
            num = m.at('in_cld_Ni', *i)
        else:
            num = F(1)
        cut = [(m0, core.const('shape', 'f', '0+'))]
        m0, x = (c.cut(y, cut) for y in (m0, x))
        c.ensure('number/integral', c.eq(x * s_fn('gamma', m0 + F(1)) / binop('**', l0, m0 + F(1)), num))
        c.ensure('slope-and-intercept/positive', And(truth(l0 > 0), truth(x > 0) if not via else truth(x >= 0)))
    c.paths(body)


for _v in (False, True):
    contract('P01', f"P3 ice[{'calc_and_set_psd_params' if _v else 'calc_mu_n0_from_lambda'}]",
             ['core.model.E3SMv3.calc_mu_n0_from_lambda'] + ['simulator.psd.calc_and_set_psd_params'] * _v, assumes=[GAMMA])(lambda c, a=_v: p3_ice(c, a))
