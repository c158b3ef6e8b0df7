"""Run-time contracts of the radar forward calculations (R01-R04)."""
import math
import numpy as np
import xarray as xr
from ..common import group, ensure, same
from .. import models as M
from ..models import SynthModel, gen_subcols, quiet
from .lidar import SUBD, VARIANTS, zmeters, cum_from, prepared, subset
import emc2.simulator.radar_moments as RM
import emc2.simulator.attenuation as AT

NSSL_HYD = ["cl", "ci", "pl", "sn", "gr", "ha"]


def make(seed, nt, nz, N, rad, conv, variant, **kw):
    if variant == 3:
        conv = False
        kw.setdefault("hyd", NSSL_HYD)
        kw.setdefault("variable_density", ["gr", "ha"])
        m = SynthModel(seed=seed, nt=nt, nz=nz, conv=conv, family="ModelE", scheme="nssl", **kw)
        m.ds = m.ds.copy()
        return gen_subcols(m, N, rad, seed=seed)
    return prepared(seed, nt, nz, N, rad, conv, variant, **kw)


def run_radar(m, inst, approach, up, hyd=None, mie=False, is_conv=False, **kw):
    with quiet():
        RM.calc_radar_moments(inst, m, is_conv, OD_from_sfc=up, hyd_types=hyd, parallel=False, mie_for_ice=mie,
                              use_rad_logic=approach == "radiation", use_empiric_calc=approach == "empirical", **kw)


def draw(rng, i, approaches=("radiation", "micro", "empirical")):
    variant = [0, 0, 1, 2, 3][i % 5]
    approach = approaches[i % len(approaches)]
    if variant == 2 and approach == "empirical":
        variant = 1
    if variant == 3 and approach == "radiation":
        variant = 0
    return dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(2, 7)),
                N=int(rng.integers(2, 6)), approach=approach, up=bool((i // 2) % 2), variant=variant,
                mie=bool((i // 3) % 2) and variant != 2, conv=bool((i // 4) % 3), sel=int(rng.integers(0, 9)),
                z0=float([0., 0., 350.][i % 3]))


def lin(a):
    with np.errstate(all="ignore"):
        return np.where(np.isfinite(a), 10 ** (np.asarray(a, float) / 10.), 0.)


def db(a):
    with np.errstate(all="ignore"):
        return np.where(a > 0, 10 * np.log10(np.where(a > 0, a, 1)), np.nan)


def close_db(a, b, ob, msg=""):
    """dB fields equal to 1e-7 dB, missing exactly where missing"""
    same(a, b, ob, msg, rtol=1e-9, atol=1e-7)


# ---------------------------------------------------------------- R01
g1 = group("R01")


@g1.case
def totals_direct(seed, nt, nz, N, conv, nanp=0.35):
    r = np.random.default_rng(seed)
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=conv)
    m.ds["subcolumn"] = xr.DataArray(np.arange(N), dims="subcolumn")
    sh = (N, nt, nz)
    ze, tr = {}, {}
    for c in ("strat", "conv"):
        ze[c] = np.where(r.random(sh) < nanp, np.nan, np.where(r.random(sh) < 0.1, r.uniform(-280, 200, sh), r.uniform(-90, 40, sh)))
        tr[c] = np.where(r.random(sh) < 0.15, np.nan, r.uniform(0.01, 1., sh))
        m.ds[f"sub_col_Ze_tot_{c}"] = xr.DataArray(ze[c].copy(), dims=SUBD)
        m.ds[f"hyd_ext_{c}"] = xr.DataArray(tr[c].copy(), dims=SUBD)
    ta = np.where(r.random((nt, nz)) < 0.1, np.nan, r.uniform(0.3, 1., (nt, nz)))
    m.ds["atm_ext"] = xr.DataArray(ta, dims=SUBD[1:])
    m.ds["Ze_min"] = xr.DataArray(r.uniform(-70, 0, (nt, nz)), dims=SUBD[1:])
    with quiet():
        RM.calc_total_reflectivity(m)
    cl = ("strat", "conv") if conv else ("strat",)
    tot = sum(lin(ze[c]) for c in cl)
    t = np.where(np.isnan(ta), 1, ta)[None]
    for c in cl:
        t = t * np.where(np.isnan(tr[c]), 1, tr[c])
    close_db(m.ds["sub_col_Ze_tot"].values, db(tot), "total-is-linear-sum", f"conv={conv}:")
    close_db(m.ds["sub_col_Ze_att_tot"].transpose(*SUBD).values, db(tot * t), "attenuated-total", f"conv={conv}:")
    ensure(m.ds["sub_col_Ze_tot"].dims == SUBD, "dims")
    for c in ze:
        same(m.ds[f"sub_col_Ze_tot_{c}"].values, ze[c], "parts-unchanged", c)
        same(m.ds[f"hyd_ext_{c}"].values, tr[c], "parts-unchanged", c)


@g1.case
def from_moments(seed, nt, nz, N, approach, up, variant, mie, conv, sel, z0):
    m = make(seed, nt, nz, N, approach == "radiation", conv, variant, z0=z0)
    hyd = None if sel < 4 else subset(m, sel)
    hs = hyd or m.hyd_types
    inst = M.radar()
    with quiet():
        AT.calc_radar_Ze_min(inst, m)
    cl = ("strat", "conv") if m.process_conv else ("strat",)
    for c in cl:
        run_radar(m, inst, approach, up, hyd=hyd, mie=mie, is_conv=c == "conv")
        tot = sum(lin(m.ds[f"sub_col_Ze_{h}_{c}"].values) for h in hs)
        for h in hs:
            v = m.ds[f"sub_col_Ze_{h}_{c}"].values
            ensure(~np.isinf(v), "class-reflectivity-finite-or-missing", f"{h} {c} {approach}")
        close_db(m.ds[f"sub_col_Ze_tot_{c}"].values, db(tot), f"type-total-is-linear-sum", f"{c} {approach} hyd={hs}:")
        tr = m.ds[f"hyd_ext_{c}"].fillna(1).values * m.ds["atm_ext"].fillna(1).values[None]
        close_db(m.ds[f"sub_col_Ze_att_tot_{c}"].transpose(*SUBD).values, db(tot * tr), "type-attenuated-total",
                 f"{c} {approach} hyd={hs}:")
        for x in ("", "_att"):
            ensure(m.ds[f"sub_col_Ze{x}_tot_{c}"].dims == SUBD, "dims")
    with quiet():
        RM.calc_total_reflectivity(m)
    tot = sum(lin(m.ds[f"sub_col_Ze_{h}_{c}"].values) for h in hs for c in cl)
    t = m.ds["atm_ext"].fillna(1).values[None]
    for c in cl:
        t = t * m.ds[f"hyd_ext_{c}"].fillna(1).values
    close_db(m.ds["sub_col_Ze_tot"].values, db(tot), "total-is-linear-sum", f"{approach} hyd={hs}:")
    a = m.ds["sub_col_Ze_att_tot"].transpose(*SUBD).values
    close_db(a, db(tot * t), "attenuated-total", f"{approach} hyd={hs}:")
    u = m.ds["sub_col_Ze_tot"].values
    ensure(np.isnan(a) | (a <= u + 1e-9), "attenuated-not-above-unattenuated", f"{approach} up={up}")


@g1.gen
def _(rng, tier):
    for i in range(60 if tier == "quick" else 700):
        yield "totals_direct", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 8)),
                                    N=int(rng.integers(2, 6)), conv=bool(i % 2))


@g1.gen
def _(rng, tier):
    for i in range(60 if tier == "quick" else 500):
        yield "from_moments", draw(rng, i)


# ---------------------------------------------------------------- R02
g2 = group("R02")


@g2.case
def transmittance_direct(seed, nt, nz, N, up, is_conv, emp):
    """accumulate_attenuation on arbitrary extinction fields"""
    r = np.random.default_rng(seed)
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=True)
    m.ds["subcolumn"] = xr.DataArray(np.arange(N), dims="subcolumn")
    c = "conv" if is_conv else "strat"
    sh = (N, nt, nz)
    m.ds[f"{c}_q_subcolumns_cl"] = xr.DataArray(r.random(sh), dims=SUBD)
    m.ds[f"sub_col_Ze_tot_{c}"] = xr.DataArray(r.random(sh), dims=SUBD)
    ext = np.where(r.random(sh) < 0.3, 0., 10 ** r.uniform(-6, -3, sh)) * (1e3 if emp else 1.)
    atm = 10 ** r.uniform(-3, 0.3, (nt, nz))
    z = np.cumsum(r.uniform(1., 900., (nt, nz)), axis=1) + r.uniform(0., 4000.)
    e0, a0, z0 = ext.copy(), atm.copy(), z.copy()
    with quiet():
        RM.accumulate_attenuation(m, is_conv, z, ext, atm, OD_from_sfc=up, use_empiric_calc=emp)
    acc = cum_from(e0, z0, up)
    want = 10 ** (-0.2 * acc / 1e3) if emp else np.exp(-2 * acc)
    same(m.ds[f"hyd_ext_{c}"].values, want, "hydrometeor-transmittance", f"up={up} empirical={emp}:", rtol=1e-9)
    same(m.ds["atm_ext"].values, 10 ** (-0.2 * cum_from(a0, z0, up) / 1e3), "gas-transmittance", f"up={up}:", rtol=1e-9)
    same(ext, e0, "inputs-unchanged")
    same(atm, a0, "inputs-unchanged")


def class_n_q(m, h, c="strat"):
    return m.ds[f"{c}_n_subcolumns_{h}"].values, m.ds[f"{c}_q_subcolumns_{h}"].values


def psd(m, h, d):
    """N(D) (subcolumn,time,height,D) of the microphysics approach, zero where the class is absent"""
    if m.mcphys_scheme == "P3" and h == "ci":
        n0 = (m.ds["in_cld_Ni"].values * m.ds["N0_norm_ice"].values)[None, ..., None]
        lam = m.ds["lambda_ice"].values[None, ..., None]
        mu = m.ds["mu_ice"].values[None, ..., None]
        f = (m.ds["strat_frac_subcolumns_ci"].values * m.ds["strat_n_subcolumns_ci"].values)[..., None]
        nd = n0 * d ** mu * np.exp(-lam * d) * np.ones(f.shape)
        return np.where(f > 0, nd, 0.)
    n, q = class_n_q(m, h)
    n, q = n[..., None], q[..., None]
    if h == "cl":
        if m.model_name in ("ModelE", "DHARMA"):
            mu = np.full(n.shape, 1 / 0.09)
        else:
            mu = np.clip(1 / (0.0005714 * n * 1e-6 + 0.2714) ** 2 - 1, 2, 15)
    else:
        mu = np.zeros(n.shape)
    rho = m.Rho_hyd[h]
    rho = m.ds[m.variable_density[h]].values[None, ..., None] if isinstance(rho, str) else rho.magnitude
    G = np.vectorize(math.gamma)
    with np.errstate(all="ignore"):
        lam = (np.pi * rho / 6 * n * 1e6 * G(mu + 4) / (q * G(mu + 1))) ** (1 / 3)
        n0 = n * 1e6 * lam ** (mu + 1) / G(mu + 1)
        nd = n0 * d ** mu * np.exp(-lam * d)
    f = m.ds[f"strat_frac_subcolumns_{h}"].values[..., None]
    return np.where((q > 0) & (n > 0) & (f > 0), nd, 0.)


def scatter(m, inst, h, mie):
    """diameters, backscatter, extinction as (time,height,D) or (D,)"""
    if h in ("cl", "pl"):
        t = inst.mie_table[h]
        return t["p_diam"].values, t["beta_p"].values, t["alpha_p"].values
    if m.rad_scheme_family == "P3":
        t = inst.scat_table["p3_ice"]
        d = t["p_diam"].values
        hy = m.p3_kws["use_hybrid_scat"] > 0
        sfx = "_eq_V" if hy else ""
        out = []
        for k in ("beta_p", "alpha_p"):
            out.append(p3_interp(t, t[k + sfx].values, m.ds["Fr"].values, m.ds["rho_r"].values))
        return d, out[0], out[1]
    if mie:
        t = inst.mie_table["ci" if h == "ci" else "pi"]
        return t["p_diam"].values, t["beta_p"].values, t["alpha_p"].values
    if m.rad_scheme_family == "CESM":
        t = inst.scat_table["CESM_ice"]
        return t["p_diam"].values, t["beta_p"].values, t["alpha_p"].values
    t = inst.scat_table["E3_ice"]
    return t["p_diam_eq_V"].values, t["beta_p"].values, t["alpha_p"].values


def p3_interp(t, tab, fr, rr):
    """bilinear in (Fr, rho_r) at the table's own diameters -> (time,height,D)"""
    F, R = t["Fr"].values, t["rho_r"].values
    i = np.clip(np.searchsorted(F, fr, side="right") - 1, 0, F.size - 2)
    j = np.clip(np.searchsorted(R, rr, side="right") - 1, 0, R.size - 2)
    a = ((fr - F[i]) / (F[i + 1] - F[i]))[..., None]
    b = ((rr - R[j]) / (R[j + 1] - R[j]))[..., None]
    return ((1 - a) * (1 - b) * tab[i, j] + a * (1 - b) * tab[i + 1, j] +
            (1 - a) * b * tab[i, j + 1] + a * b * tab[i + 1, j + 1])


def nssl_speed(d, rho, h):
    if h == "pl":
        return 10 * (1 - np.exp(-516.575 * d))
    if h in ("gr", "ha"):
        lo = 170 if h == "gr" else 500
        cd = np.clip(0.45 + 0.55 * (800 - np.clip(rho, lo, 800)), 0.45, 1.2)
        return np.sqrt(4 * rho * 9.81 / (3 * cd * 1.007)) * np.sqrt(d)
    if h == "sn":
        return 21.52823061429272 * d ** 0.42
    if h == "cl":
        return 131.6 * d ** 0.824
    return np.zeros_like(d) * rho


def speed(m, h, d):
    """downward fall speed (time,height,D), before the density correction"""
    shp = m.ds["t"].shape + (1,)
    if m.mcphys_scheme == "nssl":
        rho = m.Rho_hyd[h]
        rho = m.ds[m.variable_density[h]].values[..., None] if isinstance(rho, str) else rho.magnitude
        return nssl_speed(d, rho, h) * np.ones(shp)
    if m.mcphys_scheme == "P3" and h == "ci":
        t = M.p3_table(np.random.default_rng(4242))
        return p3_interp(t, t["vt"].values, m.ds["Fr"].values, m.ds["rho_r"].values)
    a, b = m.vel_param_a[h].magnitude, float(getattr(m.vel_param_b[h], "magnitude", m.vel_param_b[h]))
    return a * d ** b * np.ones(shp)


def trapz(y, d):
    return ((y[..., 1:] + y[..., :-1]) * np.diff(d)).sum(-1) / 2


@g2.case
def transmittance(seed, nt, nz, N, approach, up, variant, mie, conv, sel, z0, zu="meter"):
    m = make(seed, nt, nz, N, approach == "radiation", conv, variant, z0=z0, units=("hPa", "kelvin", zu))
    hyd = None if sel < 4 else subset(m, sel)
    hs = hyd or m.hyd_types
    z = zmeters(m)
    for c in (("strat", "conv") if m.process_conv else ("strat",)):
        inst = M.radar()
        run_radar(m, inst, approach, up, hyd=hyd, mie=mie, is_conv=c == "conv")
        T = m.ds[f"hyd_ext_{c}"].values.copy()
        ta = m.ds["atm_ext"].values
        same(ta, 10 ** (-0.2 * cum_from(m.ds["kappa_att"].values, z, up) / 1e3), "gas-transmittance", f"up={up}", rtol=1e-8)
        ensure(m.ds[f"hyd_ext_{c}"].dims == SUBD and m.ds["atm_ext"].dims == SUBD[1:], "dims")
        for n, x in (("hydrometeor", T), ("gas", ta)):
            ensure((x <= 1 + 1e-12) & (x >= 0), f"{n}-transmittance-in-unit-interval", f"{c} {approach} up={up}")
            d = np.diff(x, axis=-1)
            ensure((d if up else -d) <= 1e-12, f"{n}-transmittance-decreases-away", f"{c} {approach} up={up}")
            first = x[..., 0] if up else x[..., -1]
            same(first, np.ones(first.shape), f"{n}-transmittance-one-at-radar", f"{c} {approach} up={up}", rtol=1e-12)
        with np.errstate(all="ignore"):
            lt = -np.log(T)
        # every selected class counted: single-class runs multiply up
        tot, exts = 0., 0.
        for h in hs:
            run_radar(m, inst, approach, up, hyd=[h], mie=mie, is_conv=c == "conv")
            with np.errstate(all="ignore"):
                tot = tot - np.log(m.ds[f"hyd_ext_{c}"].values)
        ok = np.isfinite(tot) & (tot < 300)
        same(np.where(ok, lt, 0), np.where(ok, tot, 0), "every-selected-class-counted", f"{c} {approach} hyd={hs}:",
             rtol=1e-7, atol=1e-10)
        # extinction from the definition
        ext = None
        if approach == "micro" and c == "strat":
            ext = 0.
            for h in hs:
                d, b, a = scatter(m, inst, h, mie)
                ext = ext + np.nan_to_num(trapz(a * psd(m, h, d), d))
        elif approach == "empirical":
            w = 0.
            for h in hs:
                if h in ("cl", "pl"):
                    p = m.ds["p3d"].values * 100.
                    w = w + m.ds[f"{c}_q_subcolumns_{h}"].values * p / (inst.R_d * m.ds["t"].values) * 1e3
            e = inst.eps_liq
            k = 6 * np.pi / (inst.wavelength * 1000.) * ((e - 1) / (e + 2)).imag * 4.34e6
            ext = w * k * np.log(10) / 10 / 1e3 * np.ones(T.shape)
        elif approach == "radiation" and variant == 0:
            ext = sum(bulk_ext(m, inst, h, c, mie) for h in hs)
        elif approach == "micro":   # convective: radiation logic is used
            ext = sum(bulk_ext(m, inst, h, c, mie) for h in hs) if variant == 0 else None
        if ext is not None:
            same(T, np.exp(-2 * cum_from(ext, z, up)), "path-integral-of-extinction", f"{c} {approach} hyd={hs} up={up}:",
                 rtol=1e-6, atol=1e-12)


def bulk_ext(m, inst, h, c, mie):
    """geometric scatterers: area = 3/4 q rho_air / (rho re), extinction efficiency from the table (ModelE family)"""
    p, z = m.ds["p3d"].values * 100., zmeters(m)
    nz = p.shape[1]
    rhoa_dz = np.abs(np.diff(p, axis=1, append=0.)) / inst.g
    dz = np.abs(np.diff(z, axis=1, append=0.))
    q, f = m.ds[f"{c}_q_subcolumns_{h}"].values, m.ds[f"{c}_frac_subcolumns_{h}"].values
    re = m.ds[f"re_{c[0]}_{h}"].values
    if h in ("cl", "pl"):
        rho, t = m.Rho_hyd[h].magnitude, inst.bulk_table["E3_liq"]
    else:
        rho = inst.rho_i.magnitude
        rr = m.Rho_hyd[h].magnitude / rho
        fl = m.fluffy[h].magnitude
        re = re * (fl * rr + (1 - fl) * rr ** (1 / 3))
        t = inst.bulk_table["mie_ice_E3_PSD" if mie else "E3_ice"]
    A = np.where(f == 1, 3 * q * rhoa_dz / (2 * rho * re * 1e-6), 0) / (2 * dz)
    return np.interp(re, t["r_e"].values, t["Q_ext"].values) * A


@g2.gen
def _(rng, tier):
    for i in range(60 if tier == "quick" else 700):
        yield "transmittance_direct", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)),
                                           nz=int(rng.integers(1, 9)), N=int(rng.integers(2, 6)), up=bool(i % 2),
                                           is_conv=bool((i // 2) % 2), emp=bool((i // 4) % 2))


@g2.gen
def _(rng, tier):
    for i in range(42 if tier == "quick" else 350):
        p = draw(rng, i)
        p["zu"] = "km" if i % 7 == 0 else "meter"
        yield "transmittance", p


# ---------------------------------------------------------------- R03
g3 = group("R03")


@g3.case
def doppler(seed, nt, nz, N, up, variant, mie, sel, hybrid=0, rhoa_ref=False, order=0, width=True, name="Synth"):
    kw = dict(rhoa_ref=rhoa_ref, name=name)
    if variant == 2:
        kw["hybrid"] = hybrid
    m = make(seed, nt, nz, N, False, False, variant, **kw)
    hs = list(m.hyd_types) if sel < 4 else subset(m, sel)
    if order:
        hs = [hs[i] for i in np.random.default_rng(order).permutation(len(hs))]
    inst = M.radar()
    run_radar(m, inst, "micro", up, hyd=hs, mie=mie, calc_spectral_width=width)
    num, den, vmin, vmax, parts = 0., 0., np.inf, -np.inf, []
    one = np.zeros(m.ds["sub_col_Ze_tot_strat"].shape)
    for h in hs:
        d, b, a = scatter(m, inst, h, mie)
        w = psd(m, h, d) * b
        ref = m.Vd_rhoa_scaling_ref.get(h) if m.Vd_rhoa_scaling_ref else None
        corr = 1. if ref is None else (ref / m.ds["rho_a"].values) ** 0.54
        v = -speed(m, h, d) * (np.asarray(corr)[..., None] if ref is not None else 1.)
        v = v[None] * np.ones(w.shape)
        mom, mv = trapz(w, d), trapz(w * v, d)
        tiny = 1e-280
        has = mom > tiny
        with np.errstate(all="ignore"):
            vd = mv / mom
            sd = np.sqrt(trapz((v - vd[..., None]) ** 2 * w, d) / mom)
        gv, gs = m.ds[f"sub_col_Vd_{h}_strat"].values, m.ds[f"sub_col_sigma_d_{h}_strat"].values
        same(np.where(has, gv, 0), np.where(has, vd, 0), f"class-velocity", f"{h} {m.mcphys_scheme} mie={mie}:", rtol=1e-7)
        if width:
            same(np.where(has, gs, 0), np.where(has, sd, 0), "class-width", f"{h} {m.mcphys_scheme} mie={mie}:", rtol=1e-5,
                 atol=1e-9)
            ensure(~(gs < 0), "width-non-negative", h)
        lo, hi = v.min(-1), v.max(-1)
        ensure(~has | ((gv >= lo - 1e-9 * np.abs(lo)) & (gv <= hi + 1e-9 * np.abs(lo))), "velocity-in-range", h)
        ensure(~has | (gv <= 1e-12), "velocity-downward", h)
        num, den = num + mv, den + mom
        parts.append((w, v, d))
        vmin = np.where(has, np.minimum(vmin, lo), vmin)
        vmax = np.where(has, np.maximum(vmax, hi), vmax)
    has = den > 1e-280
    with np.errstate(all="ignore"):
        vt = num / den
        st = np.sqrt(sum(trapz((v - vt[..., None]) ** 2 * w, d) for w, v, d in parts) / den)
    gv = m.ds["sub_col_Vd_tot_strat"].values
    same(np.where(has, gv, 0), np.where(has, vt, 0), "total-velocity", f"hyd={hs} {m.mcphys_scheme}:", rtol=1e-7)
    ensure(~has | ((gv >= vmin - 1e-9 * np.abs(vmin)) & (gv <= vmax + 1e-9 * np.abs(vmin))), "velocity-in-range", "total")
    if width:
        gs = m.ds["sub_col_sigma_d_tot_strat"].values
        same(np.where(has, gs, 0), np.where(has, st, 0), "total-width", f"hyd={hs} {m.mcphys_scheme}:", rtol=1e-5, atol=1e-9)
        ensure(~(gs < 0), "width-non-negative", "total")
        for n in ("sub_col_Vd_tot_strat", "sub_col_sigma_d_tot_strat"):
            ensure(m.ds[n].dims == SUBD, "dims", n)


@g3.gen
def _(rng, tier):
    for i in range(60 if tier == "quick" else 500):
        v = [0, 3, 1, 2][i % 4]
        yield "doppler", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 6)),
                              N=int(rng.integers(2, 6)), up=bool(i % 3), variant=v, mie=bool((i // 4) % 2) and v != 2,
                              sel=int(rng.integers(0, 9)), hybrid=int((i // 4) % 3), rhoa_ref=bool((i // 2) % 2),
                              order=int(rng.integers(0, 5)), width=bool(i % 9), name=["Synth", "Synth", "ModelE"][i % 3])


# ---------------------------------------------------------------- R04
g4 = group("R04")


@g4.case
def detectability(seed, nt, nz, N, conv, ref, zmin, zu, full, up=True):
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=conv, units=("hPa", "kelvin", zu))
    r = np.random.default_rng(seed)
    inst = M.radar(zmin=zmin)
    z = zmeters(m)
    want = zmin + 20 * np.log10(z / (1000. if ref is None else ref))
    with quiet():
        if ref is None:
            AT.calc_radar_Ze_min(inst, m)
        else:
            AT.calc_radar_Ze_min(inst, m, ref)
    same(m.ds["Ze_min"].values, want, "minimum-detectable", f"ref={ref} {zu}:", rtol=1e-9, atol=1e-8)
    ensure(m.ds["Ze_min"].dims == SUBD[1:], "dims")
    ensure(inst.Z_min_1km == zmin, "instrument-unchanged")
    if full:
        gen_subcols(m, N, True, seed=seed)
        for c in ((False, True) if conv else (False,)):
            run_radar(m, inst, "radiation", up, is_conv=c)
        # make the floor cut through the signal
        with quiet():
            RM.calc_total_reflectivity(m)
        a = m.ds["sub_col_Ze_att_tot"].values
        if np.isfinite(a).any():
            inst2 = M.radar(zmin=float(np.nanmedian(a)))
            with quiet():
                AT.calc_radar_Ze_min(inst2, m)
    else:
        m.ds["subcolumn"] = xr.DataArray(np.arange(N), dims="subcolumn")
        sh = (N, nt, nz)
        for c in ("strat", "conv"):
            m.ds[f"sub_col_Ze_tot_{c}"] = xr.DataArray(np.where(r.random(sh) < 0.3, np.nan, r.uniform(zmin - 20, zmin + 40, sh)),
                                                       dims=SUBD)
            m.ds[f"hyd_ext_{c}"] = xr.DataArray(r.uniform(0.1, 1, sh), dims=SUBD)
        m.ds["atm_ext"] = xr.DataArray(r.uniform(0.1, 1, (nt, nz)), dims=SUBD[1:])
    with quiet():
        RM.calc_total_reflectivity(m, detect_mask=True)
    a = m.ds["sub_col_Ze_att_tot"].transpose(*SUBD).values
    zm = m.ds["Ze_min"].values
    dm = m.ds["detect_mask"].transpose(*SUBD).values.astype(bool)
    with np.errstate(all="ignore"):
        near = np.abs(a - zm[None]) < 1e-9
        same(np.where(near, 0, dm), np.where(near, 0, ~np.isnan(a) & (a <= zm[None])), "undetected-below-floor")
    # a floor that some signals meet exactly, or miss by very little
    g = np.isfinite(a).any(axis=0)
    i = np.argmax(np.isfinite(a), axis=0)
    floor = np.where(g, np.take_along_axis(a, i[None], axis=0)[0], zm) + np.where(r.random(zm.shape) < 0.5, 0., r.choice([-1e-3, 1e-3], zm.shape))
    m.ds["Ze_min"] = xr.DataArray(floor, dims=SUBD[1:])
    with quiet():
        RM.calc_total_reflectivity(m, detect_mask=True)
    b = m.ds["sub_col_Ze_att_tot"].transpose(*SUBD).values
    if np.array_equal(a, b, equal_nan=True):
        same(m.ds["detect_mask"].transpose(*SUBD).values.astype(bool), ~np.isnan(b) & (b <= floor[None]), "undetected-at-floor")


@g4.gen
def _(rng, tier):
    for i in range(90 if tier == "quick" else 700):
        yield "detectability", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(2, 8)),
                                    N=int(rng.integers(2, 6)), conv=bool(i % 2), ref=[None, 1000, 500., 2500][i % 4],
                                    zmin=float([-48.5, -60., -30.][i % 3]), zu=["meter", "km"][(i // 2) % 2],
                                    full=i % 6 == 0, up=bool(i % 5))
