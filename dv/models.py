"""Builders of small synthetic models and instruments for the run-time (replay) layer.

Everything is derived from a numpy Generator, so a case is fully described by its parameters + seed.
"""
import io
import contextlib
import warnings
import numpy as np
import xarray as xr

warnings.filterwarnings("ignore")
np.seterr(all="ignore")
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    import emc2
    from emc2.core.model import Model
    from emc2.core.instrument import Instrument, ureg, quantity
from scipy.interpolate import RegularGridInterpolator
import dask
dask.config.set(scheduler="synchronous")

HYD = ["cl", "ci", "pl", "pi"]
QUNIT = "kg/kg"


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def frac_field(rng, shape, kind):
    """cloud fraction fields with many 'interesting' values"""
    if kind == "zero":
        return np.zeros(shape)
    if kind == "one":
        return np.ones(shape)
    if kind == "binary":
        return rng.integers(0, 2, shape).astype(float)
    if kind == "tenths":
        return rng.integers(0, 11, shape) / 10.
    x = rng.random(shape)
    m = rng.random(shape)
    x = np.where(m < 0.12, 0., x)
    x = np.where(m > 0.90, 1., x)
    x = np.where((m > 0.12) & (m < 0.2), 0.5, x)
    return x


class SynthModel(Model):
    """A small (time, height) model; nothing but the documented Model attributes is set."""

    def __init__(self, seed=0, nt=3, nz=6, conv=True, family="ModelE", scheme="MG2", frac_kind="mix",
                 hyd=None, units=("hPa", "kelvin", "meter"), q_scale=1., name="Synth", zero_q=True,
                 relvar=False, fluffy=True, variable_density=False, z0=0., hybrid=0, rhoa_ref=False,
                 rect=True):
        super().__init__()
        rng = np.random.default_rng(seed)
        hyd = list(hyd) if hyd is not None else (["cl", "ci", "pl"] if scheme == "P3" else list(HYD))
        shp = (nt, nz)
        dims = ("time", "height")
        dz = rng.uniform(20., 900., shp)
        z = z0 + np.cumsum(dz, axis=1)
        T = 300. - 0.0065 * z + rng.uniform(-3, 3, shp)
        p = 1013. * np.exp(-z / 8000.) * rng.uniform(0.995, 1.0, shp)
        p = -np.sort(-p, axis=1)
        qv = 0.012 * np.exp(-z / 2500.) * rng.uniform(0.3, 1.0, shp)
        ds = xr.Dataset()
        pu, tu, zu = units
        pv = {"hPa": p, "Pa": p * 100., "pascal": p * 100., "millibar": p}[pu]
        tv = {"kelvin": T, "degC": T - 273.15}[tu]
        zv = {"meter": z, "m": z, "km": z / 1e3, "kilometer": z / 1e3}[zu]

        def put(n, a, **attrs):
            ds[n] = xr.DataArray(np.array(a, dtype=float), dims=dims, attrs=attrs)
        put("p3d", pv, units=pu)
        put("t", tv, units=tu)
        put("z", zv, units=zu)
        put("qv", qv, units=QUNIT)
        ds["time"] = xr.DataArray(np.datetime64("2020-01-01T00:00:00") +
                                  np.arange(nt) * np.timedelta64(3600, "s"), dims="time")
        for h in hyd:
            for cls in ("s", "c"):
                q = 10 ** rng.uniform(-7, -3.3, shp) * q_scale
                if zero_q:
                    m = rng.random(shp)
                    q = np.where(m < 0.15, 0., q)
                    q = np.where((m > 0.15) & (m < 0.2), 1e-19, q)
                put(f"q_{cls}_{h}", q, units=QUNIT)
                put(f"f_{cls}_{h}", frac_field(rng, shp, frac_kind))
                put(f"fr_{cls}_{h}", frac_field(rng, shp, frac_kind))
                put(f"re_{cls}_{h}", rng.uniform(6., 15., shp) if h == "cl" else rng.uniform(20., 80., shp),
                    units="micron")
            n = 10 ** rng.uniform(1., 2.5, shp) if h == "cl" else 10 ** rng.uniform(-3.5, -1.5, shp)
            if zero_q:
                n = np.where(rng.random(shp) < 0.1, 0., n)
            put(f"n_{h}", n, units="cm-3")
        Rho = {"cl": 1000., "pl": 1000., "ci": 500., "pi": 250., "sn": 100., "gr": 400., "ha": 900.}
        LR = {"cl": 18., "ci": 24., "pl": 5.5, "pi": 26.}
        LDR = {"cl": 0.03, "ci": 0.35, "pl": 0.1, "pi": 0.40}
        va = {"cl": 3e7, "ci": 700., "pl": 841.997, "pi": 11.72}
        vb = {"cl": 2., "ci": 1., "pl": 0.8, "pi": 0.41}
        rho_u = ureg.kg / (ureg.m ** 3)
        g = lambda d, h, dflt: d.get(h, dflt)
        self.Rho_hyd = {h: g(Rho, h, 300.) * rho_u for h in hyd}
        self.fluffy = {h: 0.5 * ureg.dimensionless for h in hyd if h[-1] != "l"} if fluffy else None
        if variable_density:
            self.variable_density = {}
            for h in (["pi"] if variable_density is True else variable_density):
                if h in hyd:
                    self.Rho_hyd[h] = "variable"
                    self.variable_density[h] = f"rho_{h}"
                    put(f"rho_{h}", rng.uniform(100., 800., shp))
        self.lidar_ratio = {h: g(LR, h, 20.) * ureg.dimensionless for h in hyd}
        self.LDR_per_hyd = {h: g(LDR, h, 0.3) * ureg.dimensionless for h in hyd}
        self.vel_param_a = {h: g(va, h, 50.) for h in hyd}
        self.vel_param_b = {h: g(vb, h, .5) * ureg.dimensionless for h in hyd}
        super()._add_vel_units()
        self.q_names_convective = {h: f"q_c_{h}" for h in hyd}
        self.q_names_stratiform = {h: f"q_s_{h}" for h in hyd}
        self.q_field, self.p_field, self.z_field, self.T_field = "qv", "p3d", "z", "t"
        self.N_field = {h: f"n_{h}" for h in hyd}
        self.conv_frac_names = {h: f"f_c_{h}" for h in hyd}
        self.strat_frac_names = {h: f"f_s_{h}" for h in hyd}
        self.conv_frac_names_for_rad = {h: f"fr_c_{h}" for h in hyd}
        self.strat_frac_names_for_rad = {h: f"fr_s_{h}" for h in hyd}
        self.conv_re_fields = {h: f"re_c_{h}" for h in hyd}
        self.strat_re_fields = {h: f"re_s_{h}" for h in hyd}
        self.mcphys_scheme = scheme
        self.rad_scheme_family = family
        self.process_conv = conv
        self.model_name = name
        self.hyd_types = list(hyd)
        self.Vd_rhoa_scaling_ref = ({h: (1.1 if h == "pl" else (0.8 if h == "ci" else None)) for h in hyd}
                                    if rhoa_ref else {})
        if relvar:
            put("relvar", rng.uniform(0.2, 3., shp))
            self.strat_relvar_name = "relvar"
        if family in ("CESM", "P3"):
            self.lambda_field = {h: (f"lam_{h}" if h[-1] == "l" else None) for h in hyd}
            self.mu_field = {h: (f"mu_{h}" if h[-1] == "l" else None) for h in hyd}
            for h in hyd:
                if h[-1] == "l":
                    put(f"lam_{h}", rng.uniform(3.2, 9.8, shp))
                    put(f"mu_{h}", rng.uniform(2.2, 14., shp))
        if scheme == "P3":
            put("Fr", rng.uniform(0., 1., shp))
            put("rho_r", rng.uniform(60., 890., shp))
            put("qi_norm", rng.uniform(1.1, 2.9, shp))
            put("in_cld_Ni", 10 ** rng.uniform(1., 4., shp))
            put("lambda_ice", rng.uniform(2000., 8000., shp))
            put("mu_ice", rng.uniform(0., 6., shp))
            put("N0_norm_ice", 10 ** rng.uniform(3., 5., shp))
            self.lambda_field["ci"] = "lambda_ice"
            self.mu_field["ci"] = "mu_ice"
            self.p3_kws = {"use_hybrid_scat": hybrid, "in_cld_Ni_name": "in_cld_Ni", "N0_ice_name": "N0_norm_ice"}
            tab = p3_table(np.random.default_rng(4242))
            self.interpobj = {"single": {}, "bulk": {}}
            for key in ["A_tot_norm", "A_tot_eq_V_norm", "A_tot_Mie_norm", "ri_eff", "rho_m_weight"]:
                self.interpobj["bulk"][key] = RegularGridInterpolator(
                    (tab["Fr"].values, tab["rho_r"].values, tab["q_norm"].values), tab[key].values,
                    bounds_error=False)
            for key in ["vt"]:
                self.interpobj["single"][key] = RegularGridInterpolator(
                    (tab["Fr"].values, tab["rho_r"].values, tab["p_diam"].values), tab[key].values,
                    bounds_error=False)
        self.ds = ds
        self.time_dim, self.height_dim = "time", "height"
        pa = ds["p3d"].values * (1. if pu in ("hPa", "millibar") else 0.01)
        tk = ds["t"].values + (0. if tu == "kelvin" else 273.15)
        put("rho_a", pa * 1e2 / (self.consts["R_d"] * tk), units="kg / m ** 3")


def p3_table(rng):
    Fr = np.array([0., 0.33, 0.667, 1.])
    rr = np.array([50., 250., 650., 900.])
    qn = np.array([1., 1.7, 3.])
    d = np.linspace(5e-6, 4e-3, 12)
    t = xr.Dataset(coords={"Fr": Fr, "rho_r": rr, "q_norm": qn})
    f = lambda lo, hi, s: 10 ** rng.uniform(np.log10(lo), np.log10(hi), s)
    sb = (4, 4, 3)
    for k in ["Q_back_bulk", "Q_ext_bulk", "Q_back_Mie_bulk", "Q_ext_Mie_bulk"]:
        t[k] = (("Fr", "rho_r", "q_norm"), f(0.05, 2., sb))
    for k in ["A_tot_norm", "A_tot_eq_V_norm", "A_tot_Mie_norm"]:
        t[k] = (("Fr", "rho_r", "q_norm"), f(1e-10, 1e-8, sb))
    t["ri_eff"] = (("Fr", "rho_r", "q_norm"), f(1e-5, 1e-4, sb))
    t["rho_m_weight"] = (("Fr", "rho_r", "q_norm"), rng.uniform(100., 900., sb))
    ss = (4, 4, d.size)
    for k in ["beta_p", "alpha_p", "beta_p_eq_V", "alpha_p_eq_V"]:
        t[k] = (("Fr", "rho_r", "d"), f(1e-13, 1e-9, ss))
    t["vt"] = (("Fr", "rho_r", "d"), rng.uniform(0.05, 3., ss))
    t["p_diam"] = (("d",), d)
    return t


def _tables(inst, seed, npd=24):
    rng = np.random.default_rng(seed)

    def single(dmax):
        d = np.linspace(1e-6, dmax, npd)
        b = 10 ** rng.uniform(-13, -10, npd)
        a = 10 ** rng.uniform(-12, -9, npd)
        return d, a, b
    for h, dm in (("cl", 8e-5), ("pl", 4e-3), ("ci", 1.5e-3), ("pi", 5e-3)):
        d, a, b = single(dm)
        inst.mie_table[h] = xr.Dataset({"p_diam": ("index", d), "alpha_p": ("index", a), "beta_p": ("index", b)})
    for k in ("E3_ice", "CESM_ice"):
        d, a, b = single(5e-3)
        inst.scat_table[k] = xr.Dataset({"p_diam": ("index", d), "p_diam_eq_V": ("index", d * 0.6),
                                         "alpha_p": ("index", a), "beta_p": ("index", b)})
    for k in ("E3_ice", "E3_liq", "mie_ice_E3_PSD", "CESM_ice", "mie_ice_CESM_PSD"):
        r = np.linspace(2., 150., 12)
        inst.bulk_table[k] = xr.Dataset({"r_e": ("index", r), "Q_ext": ("index", rng.uniform(0.5, 2.5, 12)),
                                         "Q_back": ("index", rng.uniform(0.02, 0.5, 12))})
    mu = np.linspace(2., 15., 5)
    lam = np.tile(np.linspace(3., 10., 6)[:, None], (1, 5)) + 0.05 * mu[None, :]
    inst.bulk_table["CESM_liq"] = xr.Dataset(
        {"lambda": (("lambdas", "mu"), lam), "Q_ext": (("lambdas", "mu"), rng.uniform(0.5, 2.5, lam.shape)),
         "Q_back": (("lambdas", "mu"), rng.uniform(0.02, 0.5, lam.shape))},
        coords={"mu": mu, "lambdas": np.arange(6)})
    inst.scat_table["p3_ice"] = p3_table(np.random.default_rng(4242))
    inst.bulk_table["p3_ice"] = inst.scat_table["p3_ice"]
    inst.bulk_table["p3_liq"] = inst.bulk_table["CESM_liq"]
    inst.bulk_table["mie_ice_P3_PSD"] = inst.bulk_table["p3_ice"]


HSRL_THRESH = [
    {'class': 'ice', 'class_ind': 2, 'LDR': [0.0, 0.1, 0.100001, 0.2, 1.0],
     'beta_p': [2e-05, 2e-05, 2e-06, 5e-07, 5e-07]},
    {'class': 'undef2', 'class_ind': 4, 'LDR': [0.0, 0.1, 0.100001, 0.2, 0.200001, 1.0],
     'beta_p': [2e-05, 2e-05, 2e-06, 9e-06, 1.0, 1.0]},
    {'class': 'undef1', 'class_ind': 3, 'LDR': [0.0, 0.1, 0.100001, 0.2, 0.200001, 1.0],
     'beta_p': [2e-05, 2e-05, 0.000141421, 0.001, 1.0, 1.0]},
    {'class': 'liquid', 'class_ind': 1, 'LDR': [0.0, 0.2, 0.200001, 1.0], 'beta_p': [2e-05, 0.001, 1.0, 1.0]}]


def lidar(seed=7, name="HSRL", wavelength=0.532, from_sfc=True, ext_OD=4., eta=1.):
    i = Instrument(wavelength=wavelength * ureg.micrometer)
    i.instrument_class, i.instrument_str = "lidar", name
    i.ext_OD, i.OD_from_sfc, i.eta, i.K_w = ext_OD, from_sfc, eta, 0.64
    i.beta_p_phase_thresh = [dict(x) for x in HSRL_THRESH]
    _tables(i, seed)
    return i


def radar(seed=11, name="KAZR", freq=34.86, from_sfc=True, zmin=-48.5):
    i = Instrument(frequency=freq * ureg.GHz)
    i.instrument_class, i.instrument_str = "radar", name
    i.OD_from_sfc, i.K_w, i.Z_min_1km = from_sfc, 0.88, zmin
    i.eps_liq = (9.434798092191002 + 14.540111982200001j)
    i.ext_OD, i.eta = 10., 1.
    _tables(i, seed)
    # radar-sized backscatter so that reflectivities are in a realistic dBZ range
    for t in list(i.mie_table.values()) + [i.scat_table["E3_ice"], i.scat_table["CESM_ice"]]:
        t["alpha_p"] = t["alpha_p"] * 1e-3
    return i


def gen_subcols(m, N=8, rad=True, seed=0, parallel=False, chunk=None, qc_flag=True):
    """Run the documented sequence of subcolumn steps."""
    from emc2.simulator.subcolumn import (set_convective_sub_col_frac, set_stratiform_sub_col_frac,
                                          set_precip_sub_col_frac, set_q_n)
    np.random.seed(seed)
    hyd = list(m.conv_frac_names.keys())
    kw = dict(use_rad_logic=rad, parallel=parallel, chunk=chunk)
    with quiet():
        if m.process_conv:
            for h in hyd:
                set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad)
        set_stratiform_sub_col_frac(m, N_columns=N, **kw)
        pt = [h for h in hyd if h not in ("cl", "ci")]
        set_precip_sub_col_frac(m, is_conv=False, precip_types=pt, **kw)
        if m.process_conv:
            set_precip_sub_col_frac(m, is_conv=True, precip_types=pt, **kw)
        for h in hyd:
            set_q_n(m, h, is_conv=False, qc_flag=(h == "cl" and qc_flag), **kw)
            if m.process_conv:
                set_q_n(m, h, is_conv=True, qc_flag=False, **kw)
    return m
