"""Symbolic model and instrument objects: the documented attributes of emc2.core.Model / Instrument over symbolic arrays."""
from . import core, arr
from .core import S, Sc, z3, Fraction
from .arr import inp, raw, zi
from .shim_xr import SymDA, SymDS
from .shim_units import ureg, SymQ

HYD = ['cl', 'ci', 'pl', 'pi']
D3 = ('subcolumn', 'time', 'height')
D2 = ('time', 'height')


class SymInstrument:
    """stands for emc2.core.Instrument (its attributes only)"""


class SymComplex:
    """complex refractive quantity of an instrument; only the Clausius-Mossotti factor (e - 1) / (e + 2) has a (positive) imaginary part here"""

    def __init__(self, key='e'):
        self.key = key

    def __sub__(self, o): return SymComplex(f"({self.key} - {o})")
    def __add__(self, o): return SymComplex(f"({self.key} + {o})")

    def __truediv__(self, o):
        return SymComplex(f"{self.key} / {o.key}" if isinstance(o, SymComplex) else f"({self.key} / {o})")

    @property
    def imag(self):
        if self.key != '(e - 1) / (e + 2)':
            raise core.Unsupported(f"imaginary part of {self.key}")
        return core.const('ins_ImK', 'f', '+')


class Sizes:
    pass


def sizes(c, nsub_lo=2, nz_lo=2):
    s = Sizes()
    s.NT, s.NZ, s.NS = c.size('NT'), c.size('NZ', nz_lo), c.size('NSUB', nsub_lo)
    s.i, s.t, s.k = c.idx('i', s.NS), c.idx('t', s.NT), c.idx('k', s.NZ)
    return s


def heights(s, name='z', sign=None):
    """strictly increasing in height"""
    def fact(v, a):
        f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
        t, k = a
        return [z3.Implies(z3.And(k >= 1), f(t, k - 1) < f(t, k))]
    S.mono.add(name)
    return inp(name, (s.NT, s.NZ), fact=fact, sign=sign)


class M:
    """builds an instance of the extracted Model class without running a constructor (its documented attributes are set here)"""

    def __init__(self, c, s, hyd=None, conv=True, family='ModelE', scheme='MG2', units=('hPa', 'kelvin', 'meter'), pre='', names=None):
        cls = c.fn('core.model', 'Model')
        m = object.__new__(cls)
        cls.__init__(m)
        self.m, self.c, self.s, self.pre = m, c, s, pre
        hyd = list(hyd or HYD)
        m.ds = SymDS(None, dict(time=raw(s.NT), height=raw(s.NZ), subcolumn=raw(s.NS)))
        m.ds['subcolumn'] = SymDA(arr.lazy((s.NS,), lambda i: core.I(zi(i[0]))), dims=('subcolumn',))
        self.put('p3d', inp(pre + 'p', (s.NT, s.NZ), sign='+'), units=units[0])
        self.put('t', inp(pre + 'T', (s.NT, s.NZ), sign='+' if units[1] == 'kelvin' else None), units=units[1])
        self.put('z', heights(s, pre + 'z'), units=units[2])
        self.put('qv', inp(pre + 'qv', (s.NT, s.NZ), sign='0+'), units='kg/kg')
        m.p_field, m.T_field, m.z_field, m.q_field = 'p3d', 't', 'z', 'qv'
        m.hyd_types = hyd
        m.process_conv, m.rad_scheme_family, m.mcphys_scheme, m.model_name = conv, family, scheme, 'sym'
        m.q_names_convective = {h: f"q_c_{h}" for h in hyd}
        m.q_names_stratiform = {h: f"q_s_{h}" for h in hyd}
        m.N_field = {h: f"n_{h}" for h in hyd}
        m.conv_frac_names = {h: f"f_c_{h}" for h in hyd}
        m.strat_frac_names = {h: f"f_s_{h}" for h in hyd}
        m.conv_frac_names_for_rad = {h: f"fr_c_{h}" for h in hyd}
        m.strat_frac_names_for_rad = {h: f"fr_s_{h}" for h in hyd}
        m.conv_re_fields = {h: f"re_c_{h}" for h in hyd}
        m.strat_re_fields = {h: f"re_s_{h}" for h in hyd}
        m.lidar_ratio = {h: SymQ(core.const(f"{pre}LR_{h}", 'f', '+'), _u('')) for h in hyd}
        m.LDR_per_hyd = {h: SymQ(core.const(f"{pre}LDR_{h}", 'f', '0+'), _u('')) for h in hyd}
        m.Rho_hyd = {h: SymQ(core.const(f"{pre}RHO_{h}", 'f', '+'), _u('kg/m**3')) for h in hyd}
        m.fluffy = {h: SymQ(core.const(f"{pre}FL_{h}", 'f', '0+'), _u('')) for h in hyd if h[-1] != 'l'}
        for q in m.fluffy.values():
            c.assume(q.magnitude <= 1)
        m.vel_param_a = {h: SymQ(core.const(f"{pre}VA_{h}", 'f', '+'), _u('')) for h in hyd}
        m.vel_param_b = {h: SymQ(core.const(f"{pre}VB_{h}", 'f', '+'), _u('')) for h in hyd}

    def put(self, name, a, dims=None, **attrs):
        dims = dims or {2: D2, 3: D3, 1: ('time',)}[a.ndim]
        self.m.ds[name] = SymDA(a, dims=dims, attrs=attrs)
        return a

    def field2(self, name, sign=None, flags=False, kind='f', fact=None, **attrs):
        s = self.s
        return self.put(name, inp(self.pre + name, (s.NT, s.NZ), kind, sign, flags, fact), **attrs)

    def field3(self, name, sign=None, flags=False, kind='f', fact=None, **attrs):
        s = self.s
        return self.put(name, inp(self.pre + name, (s.NS, s.NT, s.NZ), kind, sign, flags, fact), **attrs)

    def at(self, name, *idx):
        return self.m.ds[name].arr.at(idx)


def _u(t):
    from .shim_units import _unit
    return _unit(t)


def instrument(c, cls='lidar', pre='ins_'):
    o = SymInstrument()
    o.instrument_class, o.instrument_str = cls, 'HSRL' if cls == 'lidar' else 'KAZR'
    for n, sg in (('R_d', '+'), ('ext_OD', '+'), ('eta', '+'), ('K_w', '+'), ('Z_min_1km', None), ('freq', '+'), ('wavelength', '+')):
        setattr(o, n, core.const(pre + n, 'f', sg))
    o.OD_from_sfc = True
    o.eps_liq = SymComplex()
    o.R_d = Fraction(repr(287.058))
    o.g = Fraction(repr(9.80665))
    o.rho_i = SymQ(Fraction(917), _u('kg/m**3'))
    o.rho_l = SymQ(Fraction(1000), _u('kg/m**3'))
    o.mie_table, o.scat_table, o.bulk_table = {}, {}, {}
    return o


def tables(c, ins, radar=False, pre=''):
    """scattering tables: positive increasing diameters, non-negative cross sections / efficiencies, of any length"""
    nd = c.size('ND', 2)
    c.S.x_increasing = True

    def incr(name, n=nd):
        name = pre + name

        def fact(v, a):
            f = core.z3.Function(name, core.z3.IntSort(), core.z3.RealSort())
            return [core.z3.Implies(a[0] >= 1, f(a[0] - 1) < f(a[0]))]
        S.mono.add(name)
        return inp(name, (n,), sign='+', fact=fact)

    def single(nm):
        d = SymDS()
        for v in ('p_diam', 'p_diam_eq_V'):
            d[v] = SymDA(incr(f"{nm}.{v}"), dims=('D',))
        for v in ('beta_p', 'alpha_p', 'beta_p_cross_pol'):
            d[v] = SymDA(inp(f"{pre}{nm}.{v}", (nd,), sign='0+'), dims=('D',))
        d['frac'] = SymDA(inp(f"{pre}{nm}.frac", (nd,), sign='0+'), dims=('D',))
        return d
    nr = c.size('NR', 2)
    for h in ('cl', 'ci', 'pl', 'pi'):
        ins.mie_table[h] = single('mie_' + h)
    for h in ('E3_ice', 'CESM_ice'):
        ins.scat_table[h] = single('scat_' + h)
    for h in ('E3_ice', 'mie_ice_E3_PSD', 'E3_liq', 'CESM_ice', 'mie_ice_CESM_PSD'):
        d = ins.bulk_table[h] = SymDS()
        d['r_e'] = SymDA(incr(f"bulk_{h}.r_e", nr), dims=('r',))
        for v in ('Q_back', 'Q_ext', 'crs_sec_back', 'crs_sec_ext'):
            d[v] = SymDA(inp(f"{pre}bulk_{h}.{v}", (nr,), sign='0+'), dims=('r',))
    nm, nl = c.size('NMU', 2), c.size('NLAM', 2)
    d = ins.bulk_table['CESM_liq'] = SymDS()
    d['mu'] = SymDA(inp(pre + 'liq.mu', (nm,), sign='0+'), dims=('mu',))
    d['lambdas'] = SymDA(inp(pre + 'liq.lambdas', (nl,), sign='+'), dims=('lambdas',))
    d['lambda'] = SymDA(inp(pre + 'liq.lambda', (nl, nm), sign='+'), dims=('lambdas', 'mu'))
    for v in ('Q_back', 'Q_ext'):
        d[v] = SymDA(inp(pre + 'liq.' + v, (nl, nm), sign='0+'), dims=('lambdas', 'mu'))
    return ins


def subcols(m, cl, hyd, q=True, n=True):
    """the subcolumn fields of one cloud type: occurrence flags 0/1, mixing ratio and number zero where the class is absent"""
    s = m.s
    for h in hyd:
        fr = f"{m.pre}{cl}_frac_subcolumns_{h}"
        re = f"{m.pre}re_{'c' if cl == 'conv' else 's'}_{h}"

        def ffact(v, a, re=re):
            rn = core.z3.Function(re + '#nan', core.z3.IntSort(), core.z3.IntSort(), core.z3.BoolSort())(*a[1:])
            return [core.z3.Or(v == 0, v == 1), core.z3.Implies(v == 1, core.z3.Not(rn))]

        def zero(v, a, fr=fr):
            f = core.z3.Function(fr, *[core.z3.IntSort()] * 3, core.z3.RealSort())(*a)
            return [v >= 0, core.z3.Implies(f == 0, v == 0), core.z3.Or(f == 0, f == 1)]
        m.field3(f"{cl}_frac_subcolumns_{h}", sign='0+', fact=ffact)
        m.field3(f"{cl}_q_subcolumns_{h}", sign='0+', fact=zero)
        m.field3(f"{cl}_n_subcolumns_{h}", sign='0+', fact=zero)
        m.field2(f"re_{'c' if cl == 'conv' else 's'}_{h}", sign='+', flags=True)


P3_HYD = ['cl', 'ci', 'pl']


def p3_axes(c, pre=''):
    ax = {v: inp(f"{pre}p3.{v}", (c.size(n, 2),), sign='0+') for v, n in (('Fr', 'NFR'), ('rho_r', 'NRR'), ('q_norm', 'NQN'))}

    def dfact(v, a):
        f = z3.Function(f"{pre}p3.p_diam", z3.IntSort(), z3.RealSort())
        return [z3.Implies(a[0] >= 1, f(a[0] - 1) < f(a[0]))]
    S.mono.add(f"{pre}p3.p_diam")
    ax['d'] = inp(f"{pre}p3.p_diam", (c.size('ND', 2),), sign='+', fact=dfact)
    return ax


def p3_tables(c, ins, pre=''):
    """the P3 ice tables of an instrument"""
    t, ax = SymDS(), p3_axes(c, pre)
    sh = lambda *v: tuple(ax[x].shape[0] for x in v)
    for v in ('Fr', 'rho_r', 'q_norm'):
        t[v] = SymDA(ax[v], dims=(v,))
    t['p_diam'] = SymDA(ax['d'], dims=('d',))
    for v in ('Q_back_bulk', 'Q_ext_bulk', 'Q_back_Mie_bulk', 'Q_ext_Mie_bulk'):
        t[v] = SymDA(inp(f"{pre}p3.{v}", sh('Fr', 'rho_r', 'q_norm'), sign='0+'), dims=('Fr', 'rho_r', 'q_norm'))
    for v in ('beta_p', 'alpha_p', 'beta_p_eq_V', 'alpha_p_eq_V'):
        t[v] = SymDA(inp(f"{pre}p3.{v}", sh('Fr', 'rho_r', 'd'), sign='0+'), dims=('Fr', 'rho_r', 'd'))
    ins.scat_table['p3_ice'] = ins.bulk_table['p3_ice'] = ins.bulk_table['mie_ice_P3_PSD'] = t
    ins.bulk_table['p3_liq'] = ins.bulk_table['CESM_liq']
    return ins


def p3_model(c, m, hybrid):
    """the P3 attributes of a model: ice tables interpolated in rime fraction, rime density and normalised mixing ratio"""
    from .shim_interp import RegularGridInterpolator as RGI
    mm = m.m
    for n in ('Fr', 'rho_r', 'qi_norm', 'in_cld_Ni', 'lambda_ice', 'mu_ice', 'N0_norm_ice'):
        m.field2(n, sign='0+')
    mm.lambda_field = {h: None for h in mm.hyd_types}
    mm.mu_field = {h: None for h in mm.hyd_types}
    for h in ('cl', 'pl'):
        if h in mm.hyd_types:
            mm.lambda_field[h], mm.mu_field[h] = f"lam_{h}", f"mu_{h}"
            m.field2(f"lam_{h}", sign='+')
            m.field2(f"mu_{h}", sign='0+')
    mm.lambda_field['ci'], mm.mu_field['ci'] = 'lambda_ice', 'mu_ice'
    mm.p3_kws = {'use_hybrid_scat': hybrid, 'in_cld_Ni_name': 'in_cld_Ni', 'N0_ice_name': 'N0_norm_ice'}
    ax = p3_axes(c, 'model_')
    sh = lambda *v: tuple(ax[x].shape[0] for x in v)
    mm.interpobj = {'single': {}, 'bulk': {}}
    for v in ('A_tot_norm', 'A_tot_eq_V_norm', 'A_tot_Mie_norm', 'ri_eff', 'rho_m_weight'):
        mm.interpobj['bulk'][v] = RGI((ax['Fr'], ax['rho_r'], ax['q_norm']), inp(f"model_p3.{v}", sh('Fr', 'rho_r', 'q_norm'), sign='+'), bounds_error=False)
    mm.interpobj['single']['vt'] = RGI((ax['Fr'], ax['rho_r'], ax['d']), inp("model_p3.vt", sh('Fr', 'rho_r', 'd'), sign='+'), bounds_error=False)


def p3(c, m, ins, hybrid):
    p3_model(c, m, hybrid)
    p3_tables(c, ins)


NSSL_HYD = ['cl', 'ci', 'pl', 'sn', 'gr', 'ha']


def model_of(c, s, fam, **kw):
    """a model of the given radiation family; 'P3' and 'NSSL' also name the microphysics scheme (NSSL: graupel and hail of variable density)"""
    if fam.startswith('P3'):
        return M(c, s, hyd=P3_HYD, family='P3', scheme='P3', **kw)
    if fam != 'NSSL':
        return M(c, s, family=fam, **kw)
    m = M(c, s, hyd=NSSL_HYD, family='ModelE', scheme='nssl', **kw)
    m.m.variable_density = {'gr': 'RHO_GRAUPEL', 'ha': 'RHO_HAIL'}
    for h, n in m.m.variable_density.items():
        m.m.Rho_hyd[h] = 'variable'
        m.field2(n, sign='+')
    return m


def fall_speed(h, d, rho):
    """contract of psd.calc_velocity_nssl: not negative, a function of the diameter and, for graupel and hail only, of the density"""
    from .arr import inp
    dens = h in ('gr', 'ha')
    f = z3.Function(f"vt_{h}", *[z3.RealSort()] * (2 + dens))
    args = [core.as_real(x) for x in ((d, rho) if dens else (d,))]
    v = f(*[a[0] for a in args])
    S.signs[f"vt_{h}"] = '0+'
    return Sc('f', v, core.Or(*[a[1] for a in args]))


def stub_fall_speed(c, mod):
    from .arr import ew

    def vel(dmax, rhoe, hyd_type):
        if hyd_type not in ('gr', 'ha'):
            return ew(lambda d: fall_speed(hyd_type, d, None), dmax)
        return ew(lambda d, r: fall_speed(hyd_type, d, r), dmax, rhoe)
    c.stub(mod, 'calc_velocity_nssl', vel)
