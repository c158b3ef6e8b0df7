"""Run-time contracts of the atmospheric profiles and size distributions (M01, M02, P01)."""
import math
import numpy as np
import xarray as xr
from ..common import group, ensure, same
from .. import models as M
from ..models import SynthModel, gen_subcols, quiet
from .lidar import SUBD, VARIANTS, zmeters, molecular_u, run_lidar, prepared
from .radar import run_radar
import emc2.simulator.attenuation as AT
import emc2.simulator.psd as PSD
import emc2.simulator.classification as C
import emc2.simulator.lidar_moments as L
import emc2.simulator.radar_moments as RM
from emc2.core.model import E3SMv3

g1 = group("M01")
MOL = ["sigma", "sigma_180", "sigma_180_vol", "beta", "kappa", "N_s"]


def extreme(m, seed, kind):
    """spread the atmosphere over all physical conditions"""
    r = np.random.default_rng(seed + 5)
    sh = m.ds["t"].shape
    if kind:
        p = 10 ** r.uniform(-1, np.log10(1080.), sh)       # hPa
        p = -np.sort(-p, axis=1)
        t = r.uniform(170., 330., sh)
        qv = np.where(r.random(sh) < 0.1, 0., 10 ** r.uniform(-8, -1.4, sh))
        u = m.ds["p3d"].attrs["units"]
        m.ds["p3d"].values = p * (1. if u in ("hPa", "millibar") else 100.)
        m.ds["t"].values = t - (273.15 if m.ds["t"].attrs["units"] == "degC" else 0.)
        m.ds["qv"].values = qv
    return m


@g1.case
def molecular(seed, nt, nz, lam, up, kind, default=False, units=("hPa", "kelvin", "meter")):
    m = extreme(SynthModel(seed=seed, nt=nt, nz=nz, units=tuple(units)), seed, kind)
    with quiet():
        if default:
            up = True
            AT.calc_theory_beta_m(m, lam)
        else:
            AT.calc_theory_beta_m(m, lam, OD_from_sfc=up)
    for n in MOL:
        v = m.ds[n].values
        ensure(np.isfinite(v) & (v > 0), f"{n}-positive", f"wavelength {lam}")
        ensure(m.ds[n].dims == SUBD[1:], "dims", n)
    ensure(m.ds["n_s"].values - 1 >= 0, "refractive-excess-positive")
    big = m.ds["p3d"].values * (1 if units[0] == "hPa" else .01) > 0.2
    ensure((m.ds["n_s"].values > 1) | ~big, "refractive-excess-positive")
    u = molecular_u(m, up)
    same(m.ds["u_atm"].values, u, "optical-depth-trapezoid", f"up={up} wavelength={lam}:", rtol=1e-9, atol=1e-300)
    same(m.ds["tau"].values, np.exp(-2 * u), "two-way-transmittance", f"up={up}:", rtol=1e-9)
    t = m.ds["tau"].values
    ensure((t > 0) & (t <= 1), "transmittance-in-unit-interval")
    d = np.diff(t, axis=1)
    ensure((d if up else -d) <= 0, "transmittance-decreases-away", f"up={up}")
    # the volume quantities belong to the per-molecule ones
    same(m.ds["sigma_180_vol"].values, m.ds["sigma_180"].values * m.ds["N_s"].values, "volume-is-number-times-molecule", "", rtol=1e-9)
    same(m.ds["beta"].values, m.ds["sigma"].values * m.ds["N_s"].values, "volume-is-number-times-molecule", "extinction", rtol=1e-9)


@g1.case
def gaseous(seed, nt, nz, freq, kind, units=("hPa", "kelvin", "meter")):
    m = extreme(SynthModel(seed=seed, nt=nt, nz=nz, units=tuple(units)), seed, kind)
    i = M.radar(freq=freq)
    with quiet():
        AT.calc_radar_atm_attenuation(i, m)
    for n in ("kappa_o2", "kappa_wv", "kappa_att"):
        v = m.ds[n].values
        ensure(np.isfinite(v) & (v > 0), f"{n}-positive", f"frequency {freq}")
        ensure(m.ds[n].dims == SUBD[1:], "dims", n)
    same(m.ds["kappa_att"].values, m.ds["kappa_o2"].values + m.ds["kappa_wv"].values, "attenuation-sum", "", rtol=1e-12)


@g1.gen
def _(rng, tier):
    for i in range(140 if tier == "quick" else 1500):
        yield "molecular", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 5)), nz=int(rng.integers(1, 12)),
                                lam=float([0.532, 0.905, 0.355, 1.064, 0.91][i % 5]), up=bool(i % 2), kind=int((i // 2) % 2),
                                default=i % 17 == 0, units=[["hPa", "Pa"][(i // 3) % 2], ["kelvin", "degC"][(i // 5) % 2], "meter"])


@g1.gen
def _(rng, tier):
    for i in range(60 if tier == "quick" else 600):
        yield "gaseous", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 5)), nz=int(rng.integers(1, 12)),
                              freq=float([34.86, 94., 9.5, 3., 35.5][i % 5]), kind=int(i % 2),
                              units=[["hPa", "Pa"][(i // 3) % 2], ["kelvin", "degC"][(i // 5) % 2], "meter"])


# ---------------------------------------------------------------- M02
g2 = group("M02")
BASE = ("hPa", "kelvin", "meter")
KEEP = {"p3d", "t", "z"}


def outputs(m, before):
    return {k: m.ds[k].values for k in m.ds.variables if k not in KEEP and k not in before
            and m.ds[k].dtype.kind in "fiub"}


def agree(a, b, ob, what, rtol=1e-7):
    ensure(set(a) == set(b), ob, f"{what}: fields {set(a) ^ set(b)} only with one unit")
    for k in a:
        x, y = a[k], b[k]
        at = 1e-6 if "Ze" in k else 1e-12
        with np.errstate(all="ignore"):
            scale = np.nanmax(np.abs(np.where(np.isfinite(x), x, 0))) if x.size else 0
        same(x, y, ob, f"{what}: {k}", rtol=rtol, atol=max(at if "Ze" in k else 0, 1e-9 * scale * (k[:4] != "sub_")))


@g2.case
def profiles(seed, nt, nz, units, freq, lam, up):
    res = []
    for u in (BASE, tuple(units)):
        m = SynthModel(seed=seed, nt=nt, nz=nz, units=u)
        before = set(m.ds.variables)
        r = M.radar(freq=freq)
        with quiet():
            AT.calc_theory_beta_m(m, lam, OD_from_sfc=up)
            AT.calc_radar_atm_attenuation(r, m)
            AT.calc_radar_Ze_min(r, m)
        res.append(outputs(m, before))
    agree(res[0], res[1], "profiles-unit-independent", str(units), rtol=1e-9)


@g2.case
def moments(seed, nt, nz, N, units, approach, inst, up, variant, mie, conv, cold):
    res = []
    for u in (BASE, tuple(units)):
        m = prepared(seed, nt, nz, N, approach == "radiation", conv, variant, units=u)
        if cold:
            m.ds["t"].values = m.ds["t"].values - cold
        before = set(m.ds.variables)
        for c in ((False, True) if m.process_conv else (False,)):
            if inst == "radar":
                i = M.radar()
                with quiet():
                    AT.calc_radar_Ze_min(i, m)
                run_radar(m, i, approach, up, mie=mie, is_conv=c)
            else:
                run_lidar(m, M.lidar(), approach, up, mie=mie, is_conv=c, eta=0.8)
        with quiet():
            if inst == "radar":
                RM.calc_total_reflectivity(m, detect_mask=True)
            else:
                L.calc_total_alpha_beta(m, OD_from_sfc=up, eta=0.8)
                L.calc_LDR_and_ext(m, OD_from_sfc=up)
                C.lidar_emulate_cosp_phase(M.lidar(), m, eta=0.8, OD_from_sfc=up, hyd_types=m.hyd_types)
        res.append(outputs(m, before))
    for x in res:
        x.pop("detect_mask", None)
    agree(res[0], res[1], "moments-unit-independent", f"{units} {approach} {inst} conv={conv}")


@g2.gen
def _(rng, tier):
    combos = [(p, t, z) for p in ("hPa", "Pa") for t in ("kelvin", "degC") for z in ("meter", "km")][1:]
    combos += [("millibar", "kelvin", "kilometer"), ("pascal", "degC", "m")]
    for i in range(45 if tier == "quick" else 400):
        yield "profiles", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 8)),
                               units=combos[i % len(combos)], freq=[34.86, 94., 9.][i % 3], lam=[0.532, 0.905][i % 2], up=bool(i % 2))
    for i in range(0):
        pass


@g2.gen
def _(rng, tier):
    combos = [("Pa", "kelvin", "meter"), ("hPa", "degC", "meter"), ("hPa", "kelvin", "km"), ("Pa", "degC", "km")]
    for i in range(64 if tier == "quick" else 500):
        variant = [0, 1, 0, 2][(i // 6) % 4]
        ap = ["radiation", "micro", "empirical"][i % 3]
        if variant == 2 and ap == "empirical":
            ap = "radiation"
        yield "moments", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 3)), nz=int(rng.integers(2, 6)),
                              N=int(rng.integers(2, 5)), units=combos[i % 4], approach=ap,
                              inst=["radar", "lidar"][(i // 3) % 2], up=bool((i // 2) % 2), variant=variant,
                              mie=bool((i // 5) % 2) and variant != 2, conv=bool(i % 2), cold=[0., 30., 50.][(i // 4) % 3])


# ---------------------------------------------------------------- P01
gp = group("P01")


@gp.case
def p3_number(seed, nt, nz):
    """P3 ice: the table's slope with the shape and intercept derived from it integrates to the in-cloud number"""
    r = np.random.default_rng(seed)
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=False, scheme="P3", family="P3")
    lam = 10 ** r.uniform(2., 5.5, (nt, nz))
    mu, n0 = E3SMv3.calc_mu_n0_from_lambda(lam.copy())
    ensure((mu >= 0) & (mu <= 6), "shape-within-bounds", f"{mu.min(), mu.max()}")
    same(mu, np.clip(0.076 * (lam / 100.) ** 0.8 - 2, 0, 6), "shape-parameter", "P3 ice", rtol=1e-9)
    m.ds["lambda_ice"].values[:], m.ds["mu_ice"].values[:], m.ds["N0_norm_ice"].values[:] = lam, mu, n0
    ni = m.ds["in_cld_Ni"].values.copy()
    with quiet():
        d = PSD.calc_and_set_psd_params(m, "ci")
    N0, L, MU = (np.asarray(d[k].values, float) for k in ("N_0", "lambda", "mu"))
    ensure((L > 0) & (N0 >= 0), "slope-and-intercept-positive-finite", "P3 ice")
    M0 = np.exp(np.log(N0) + np.vectorize(math.lgamma)(MU + 1) - (MU + 1) * np.log(L))
    same(M0, ni, "number-reproduced", "P3 ice", rtol=1e-8)


@gp.gen
def _(rng, tier):
    for i in range(12 if tier == "quick" else 100):
        yield "p3_number", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(2, 6)))


@gp.case
def psd_moments(seed, nt, nz, N, cls, disp, bounds, is_conv, name, scheme, vd, via):
    hyd = ["cl", "ci", "pl", "pi"]
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=True, scheme=scheme, name=name, variable_density=vd)
    m.ds["subcolumn"] = xr.DataArray(np.arange(N), dims="subcolumn")
    r = np.random.default_rng(seed)
    sh = (N, nt, nz)
    c = "conv" if is_conv else "strat"
    q = np.where(r.random(sh) < 0.25, 0., 10 ** r.uniform(-9, -2.5, sh))
    n = np.where(r.random(sh) < 0.15, 0., 10 ** (r.uniform(0, 3.5, sh) if cls == "cl" else r.uniform(-4, 0, sh)))
    big = (r.random(sh) < 0.4) & (cls == "cl")
    n = np.where(big, 10 ** r.uniform(6, 9.5, sh), n)       # reaches both dispersion bounds
    m.ds[f"{c}_q_subcolumns_{cls}"] = xr.DataArray(q.copy(), dims=SUBD)
    m.ds[f"{c}_n_subcolumns_{cls}"] = xr.DataArray(n.copy(), dims=SUBD)
    kw = {}
    if disp is not None:
        kw["calc_dispersion"] = disp
    if bounds:
        kw["dispersion_mu_bounds"] = tuple(bounds)
    with quiet():
        if via == 0 or is_conv:
            d = PSD.calc_mu_lambda(m, cls, is_conv=is_conv, **kw).ds
        else:
            d = PSD.calc_and_set_psd_params(m, cls, **kw)
    mu, lam, n0 = (np.asarray(d[k].values, float) for k in ("mu", "lambda", "N_0"))
    lo, hi = bounds or (2, 15)
    d_eff = disp if disp is not None else name not in ("ModelE", "DHARMA")
    if cls == "cl" and not is_conv:
        if d_eff:
            ensure((mu >= lo) & (mu <= hi), "shape-within-bounds", f"bounds={lo, hi} range {mu.min(), mu.max()}")
            raw = 1 / (0.0005714 * n * 1e-6 + 0.2714) ** 2 - 1
            same(mu, np.clip(raw, lo, hi), "shape-parameter", "Martin et al. (1994):", rtol=1e-9)
        else:
            same(mu, np.full(sh, 1 / 0.09), "shape-parameter", "fixed:")
    else:
        same(mu, np.zeros(sh), "shape-zero-for-other-classes", cls)
    pos = (q > 0) & (n > 0)
    ensure(~pos | (np.isfinite(lam) & (lam > 0) & np.isfinite(n0) & (n0 > 0)), "slope-and-intercept-positive-finite", cls)
    ensure((q > 0) | (np.isnan(lam) & np.isnan(n0)), "missing-without-mass", cls)
    rho = m.Rho_hyd[cls]
    rho = m.ds[m.variable_density[cls]].values[None] * np.ones(sh) if isinstance(rho, str) else np.full(sh, rho.magnitude)
    w = np.argwhere(pos)
    lg = np.vectorize(math.lgamma)
    # all-diameter integrals of N0 D^mu exp(-lam D), in closed form and by quadrature on a sample
    with np.errstate(all="ignore"):
        M0 = np.exp(np.log(n0) + lg(mu + 1) - (mu + 1) * np.log(lam))
        M3 = np.exp(np.log(n0) + lg(mu + 4) - (mu + 4) * np.log(lam))
    same(np.where(pos, M0, 0), np.where(pos, n * 1e6, 0), "number-reproduced", f"{cls} conv={is_conv}:", rtol=1e-8)
    same(np.where(pos, M3 * np.pi * rho / 6, 0), np.where(pos, q, 0), "mass-reproduced", f"{cls} conv={is_conv}:", rtol=1e-8)
    for i in range(min(3, len(w))):
        k = tuple(w[i])
        x = np.linspace(0, 60 + 4 * mu[k], 20001)[1:]
        D = x / lam[k]
        nd = np.exp(np.log(n0[k]) + mu[k] * np.log(D) - x)
        s0 = ((nd[1:] + nd[:-1]) * np.diff(D)).sum() / 2 + nd[0] * D[0] * (1. if mu[k] == 0 else .5)
        ensure(abs(s0 / (n[k] * 1e6) - 1) < 1e-2, "number-reproduced", f"quadrature {s0} vs {n[k] * 1e6}")
    same(m.ds[f"{c}_q_subcolumns_{cls}"].values, q, "inputs-unchanged")
    same(m.ds[f"{c}_n_subcolumns_{cls}"].values, n, "inputs-unchanged")


@gp.gen
def _(rng, tier):
    for i in range(160 if tier == "quick" else 1600):
        yield "psd_moments", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 6)),
                                  N=int(rng.integers(1, 6)), cls=["cl", "pl", "cl", "ci", "pi"][i % 5],
                                  disp=[None, True, False][i % 3], bounds=[None, [2, 15], [1., 6.], [0.5, 3.]][(i // 2) % 4],
                                  is_conv=i % 7 == 3, name=["Synth", "ModelE", "DHARMA", "CESM2"][(i // 3) % 4],
                                  scheme=["MG2", "nssl", "MG", "morrison"][(i // 2) % 4], vd=bool((i // 5) % 2), via=i % 2)
