"""Run-time contracts of the lidar forward calculations (L01-L05)."""
import numpy as np
import xarray as xr
from ..common import group, ensure, same
from .. import models as M
from ..models import SynthModel, gen_subcols, quiet
import emc2.simulator.lidar_moments as L

SUBD = ("subcolumn", "time", "height")
VARIANTS = [("ModelE", "MG2"), ("CESM", "MG2"), ("P3", "P3"), ("ModelE", "nssl")]


def zmeters(m):
    u = m.ds[m.z_field].attrs["units"]
    return m.ds[m.z_field].values * (1e3 if u in ("km", "kilometer") else 1.)


def cum_from(ext, z, up):
    """the path integral: 0 at the instrument's side, then + crossed level's value * height difference"""
    out = np.zeros(np.broadcast_shapes(ext.shape, z.shape))
    ext = np.broadcast_to(ext, out.shape)
    nz = out.shape[-1]
    if up:
        for k in range(1, nz):
            out[..., k] = out[..., k - 1] + ext[..., k - 1] * (z[..., k] - z[..., k - 1])
    else:
        for k in range(nz - 2, -1, -1):
            out[..., k] = out[..., k + 1] + ext[..., k + 1] * (z[..., k + 1] - z[..., k])
    return out


def prepared(seed, nt, nz, N, rad, conv=True, variant=0, **kw):
    fam, sch = VARIANTS[variant]
    if fam == "P3":
        conv = False
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=conv, family=fam, scheme=sch, **kw)
    gen_subcols(m, N, rad, seed=seed)
    return m


def run_lidar(m, inst, approach, up, hyd=None, eta=1., mie=False, is_conv=False, **kw):
    with quiet():
        L.calc_lidar_moments(inst, m, is_conv, OD_from_sfc=up, hyd_types=hyd, parallel=False, eta=eta,
                             mie_for_ice=mie, use_rad_logic=approach == "radiation",
                             use_empiric_calc=approach == "empirical", **kw)


def subset(m, rng_seed):
    r = np.random.default_rng(rng_seed)
    h = list(m.hyd_types)
    k = int(r.integers(1, len(h) + 1))
    return [h[i] for i in r.permutation(len(h))[:k]]


COMMON = dict()


def draw(rng, i):
    variant = [0, 0, 1, 2, 3][i % 5]
    approach = ["radiation", "micro", "empirical"][i % 3]
    if variant == 2 and approach == "empirical":
        approach = "micro"
    return dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(2, 8)),
                N=int(rng.integers(2, 7)), approach=approach, up=bool((i // 2) % 2), variant=variant,
                mie=bool((i // 3) % 2) and variant != 2, conv=bool((i // 4) % 3), sel=int(rng.integers(0, 9)),
                z0=float([0., 0., 350.][i % 3]))


g1 = group("L01")


@g1.case
def od_from_moments(seed, nt, nz, N, approach, up, variant, mie, conv, sel, z0, zu="meter"):
    m = prepared(seed, nt, nz, N, approach == "radiation", conv, variant, z0=z0, units=("hPa", "kelvin", zu))
    hyd = None if sel < 4 else subset(m, sel)
    for c in ((False, True) if m.process_conv else (False,)):
        run_lidar(m, M.lidar(), approach, up, hyd=hyd, mie=mie, is_conv=c)
        cs = "conv" if c else "strat"
        for h in hyd or m.hyd_types:
            ext = m.ds[f"sub_col_alpha_p_{h}_{cs}"].values
            od = m.ds[f"sub_col_OD_{h}_{cs}"]
            ensure(od.dims == SUBD, "dims", str(od.dims))
            same(od.values, cum_from(ext, zmeters(m), up), "OD-is-path-integral", f"{h} {cs} {approach} up={up}:",
                 rtol=1e-9, atol=1e-300)
            d = np.diff(od.values, axis=2)
            ensure((d if up else -d) >= -1e-12 * np.abs(od.values).max(), "OD-monotone", f"{h} {cs} {approach}")
            ensure(od.values >= 0, "OD-non-negative", f"{h} {cs} {approach}")


@g1.case
def od_direct(seed, nt, nz, N, up, is_conv, zero=0.3):
    """accumulate_OD alone on an arbitrary extinction field"""
    r = np.random.default_rng(seed)
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=True)
    m.ds["subcolumn"] = xr.DataArray(np.arange(N), dims="subcolumn")
    cs = "conv" if is_conv else "strat"
    m.ds[f"{cs}_q_subcolumns_pi"] = xr.DataArray(r.random((N, nt, nz)), dims=SUBD)
    a = np.where(r.random((N, nt, nz)) < zero, 0., 10 ** r.uniform(-6, -1, (N, nt, nz)))
    m.ds[f"sub_col_alpha_p_pi_{cs}"] = xr.DataArray(a, dims=SUBD)
    z = np.cumsum(r.uniform(1., 900., (nt, nz)), axis=1) + r.uniform(0, 3000.)
    with quiet():
        L.accumulate_OD(m, is_conv, z, "pi", OD_from_sfc=up)
    same(m.ds[f"sub_col_OD_pi_{cs}"].values, cum_from(a, z, up), "OD-is-path-integral", f"direct up={up}:", rtol=1e-9)
    same(m.ds[f"sub_col_alpha_p_pi_{cs}"].values, a, "extinction-unchanged")


@g1.gen
def _(rng, tier):
    for i in range(45 if tier == "quick" else 400):
        p = draw(rng, i)
        p["zu"] = "km" if i % 11 == 0 else "meter"
        yield "od_from_moments", p


@g1.gen
def _(rng, tier):
    for i in range(60 if tier == "quick" else 600):
        yield "od_direct", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 5)), nz=int(rng.integers(1, 14)),
                                N=int(rng.integers(2, 6)), up=bool(i % 2), is_conv=bool((i // 2) % 2))


# ---------------------------------------------------------------- L02
g2 = group("L02")


def molecular_u(m, up):
    b = m.ds["beta"].values
    z = zmeters(m)
    half = 0.5 * (b[:, 1:] + b[:, :-1]) * (z[:, 1:] - z[:, :-1])
    u = np.zeros_like(b)
    if up:
        for k in range(1, b.shape[1]):
            u[:, k] = u[:, k - 1] + half[:, k - 1]
    else:
        for k in range(b.shape[1] - 2, -1, -1):
            u[:, k] = u[:, k + 1] + half[:, k]
    return u


@g2.case
def lidar_equation(seed, nt, nz, N, approach, up, variant, mie, conv, sel, z0, eta, eta2):
    m = prepared(seed, nt, nz, N, approach == "radiation", conv, variant, z0=z0)
    hyd = None if sel < 4 else subset(m, sel)
    cl = ("strat", "conv") if m.process_conv else ("strat",)
    for c in cl:
        run_lidar(m, M.lidar(), approach, up, hyd=hyd, mie=mie, is_conv=c == "conv", eta=eta)
    r = np.random.default_rng(seed)
    with quiet():
        L.calc_total_alpha_beta(m, OD_from_sfc=up, eta=eta2)
    tau = np.exp(-2 * molecular_u(m, up))
    same(m.ds["tau"].values, tau, "molecular-transmittance-from-same-side", f"up={up}:", rtol=1e-8)
    bm = m.ds["sigma_180_vol"].values

    def v(n):
        return np.nan_to_num(m.ds[n].values)
    for c in cl:
        ods = sum(cum_from(v(f"sub_col_alpha_p_{h}_{c}"), zmeters(m), up) for h in (hyd or m.hyd_types))
        same(v(f"sub_col_OD_tot_{c}"), ods, "OD-from-requested-side", f"{c} up={up}:", rtol=1e-8, atol=1e-300)
        same(m.ds[f"sub_col_beta_att_tot_{c}"].values,
             (bm + m.ds[f"sub_col_beta_p_tot_{c}"].values) * tau * np.exp(-2 * eta * m.ds[f"sub_col_OD_tot_{c}"].values),
             f"lidar-equation-{c}", f"eta={eta} up={up} {approach}:", rtol=1e-8)
    for n in ("beta_p", "alpha_p", "OD"):
        same(v(f"sub_col_{n}_tot"), sum(v(f"sub_col_{n}_tot_{c}") for c in cl), f"total-{n}", "", rtol=1e-9)
    same(m.ds["sub_col_beta_att_tot"].values, (bm + v("sub_col_beta_p_tot")) * tau * np.exp(-2 * eta2 * v("sub_col_OD_tot")),
         "lidar-equation-total", f"eta={eta2}:", rtol=1e-8)


@g2.case
def totals_direct(seed, nt, nz, N, conv, eta, nanp=0.3):
    """calc_total_alpha_beta on arbitrary parts with missing values"""
    r = np.random.default_rng(seed)
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=conv)
    m.ds["subcolumn"] = xr.DataArray(np.arange(N), dims="subcolumn")
    sh = (N, nt, nz)
    f = {}
    for c in ("strat", "conv"):
        for n, hi in (("beta_p", 1e-4), ("alpha_p", 1e-2), ("OD", 5.)):
            a = np.where(r.random(sh) < nanp, np.nan, r.random(sh) * hi)
            f[n, c] = a
            m.ds[f"sub_col_{n}_tot_{c}"] = xr.DataArray(a.copy(), dims=SUBD)
    bm, tau = r.random((nt, nz)) * 1e-6, r.uniform(0.1, 1., (nt, nz))
    m.ds["sigma_180_vol"] = xr.DataArray(bm, dims=SUBD[1:])
    m.ds["tau"] = xr.DataArray(tau, dims=SUBD[1:])
    with quiet():
        L.calc_total_alpha_beta(m, eta=eta)
    cl = ("strat", "conv") if conv else ("strat",)
    tot = {n: sum(np.nan_to_num(f[n, c]) for c in cl) for n in ("beta_p", "alpha_p", "OD")}
    for n in tot:
        same(m.ds[f"sub_col_{n}_tot"].values, tot[n], f"total-{n}", f"conv={conv}:")
    same(m.ds["sub_col_beta_att_tot"].values, (bm + tot["beta_p"]) * tau * np.exp(-2 * eta * tot["OD"]),
         "lidar-equation-total", f"eta={eta}:")
    for k, a in f.items():
        same(m.ds[f"sub_col_{k[0]}_tot_{k[1]}"].values, a, "parts-unchanged", str(k))


@g2.gen
def _(rng, tier):
    for i in range(45 if tier == "quick" else 400):
        p = draw(rng, i)
        p.update(eta=[1., 0.7, 0.5, 0.][i % 4], eta2=[1., 0.7, 0.33][i % 3])
        yield "lidar_equation", p


@g2.gen
def _(rng, tier):
    for i in range(40 if tier == "quick" else 400):
        yield "totals_direct", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 8)),
                                    N=int(rng.integers(2, 6)), conv=bool(i % 2), eta=[1, 0.7, 0.3][i % 3])


# ---------------------------------------------------------------- L03
g3 = group("L03")


@g3.case
def class_totals(seed, nt, nz, N, approach, up, variant, mie, conv, sel, z0, reps=2):
    m = prepared(seed, nt, nz, N, approach == "radiation", conv, variant, z0=z0)
    hyd = None if sel < 3 else subset(m, sel)
    prev = None
    for rep in range(reps):
        for c in ((False, True) if m.process_conv else (False,)):
            run_lidar(m, M.lidar(), approach, up, hyd=hyd, mie=mie, is_conv=c)
            cs = "conv" if c else "strat"
            hs = hyd or m.hyd_types
            for n in ("beta_p", "alpha_p", "OD"):
                tot = sum(np.nan_to_num(m.ds[f"sub_col_{n}_{h}_{cs}"].values) for h in hs)
                same(m.ds[f"sub_col_{n}_tot_{cs}"].values, tot, f"sum-over-classes-{n}",
                     f"{cs} {approach} hyd={hs} run {rep + 1}:", rtol=1e-9)
            for h in hs:
                absent = m.ds[f"{cs}_frac_subcolumns_{h}"].values == 0
                for n in ("beta_p", "alpha_p"):
                    a = m.ds[f"sub_col_{n}_{h}_{cs}"].values
                    ensure(a >= 0, f"{n}-non-negative", f"{h} {cs} {approach} variant {variant}")
                    ensure((a == 0) | ~absent, f"{n}-zero-where-absent", f"{h} {cs} {approach} variant {variant}")


@g3.gen
def _(rng, tier):
    for i in range(80 if tier == "quick" else 700):
        yield "class_totals", draw(rng, i)


# ---------------------------------------------------------------- L04 / L05
g4, g5 = group("L04"), group("L05")


def ldr_model(seed, nt, nz, N, conv, nanp, zerop, neg=False):
    r = np.random.default_rng(seed)
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=conv)
    m.ds["subcolumn"] = xr.DataArray(np.arange(N), dims="subcolumn")
    sh = (N, nt, nz)
    b = {}
    for c in ("strat", "conv"):
        for h in m.hyd_types:
            a = np.where(r.random(sh) < zerop, 0., 10 ** r.uniform(-9, -3, sh))
            a = np.where(r.random(sh) < nanp, np.nan, a)
            b[h, c] = a
            m.ds[f"sub_col_beta_p_{h}_{c}"] = xr.DataArray(a.copy(), dims=SUBD)
    return m, b, r


@g4.case
def ldr(seed, nt, nz, N, conv, nanp, zerop, sel, custom, up=True):
    m, b, r = ldr_model(seed, nt, nz, N, conv, nanp, zerop)
    hyd = None if sel < 3 else subset(m, sel)
    hs = hyd or m.hyd_types
    tab = {h: m.LDR_per_hyd[h].magnitude for h in m.hyd_types}
    arg = None
    if custom:
        tab = {h: float(r.uniform(0, 1)) for h in m.hyd_types}
        arg = {h: (M.quantity(v, "dimensionless") if custom == 2 else v) for h, v in tab.items()}
    m.ds["sub_col_OD_tot"] = xr.DataArray(r.uniform(0, 8, (N, nt, nz)), dims=SUBD)
    with quiet():
        L.calc_LDR_and_ext(m, OD_from_sfc=up, LDR_per_hyd=arg, hyd_types=hyd)
    cl = ("strat", "conv") if conv else ("strat",)
    lo, hi = min(tab[h] for h in hs), max(tab[h] for h in hs)
    den_t = num_t = 0.
    for c in cl + ("tot",):
        if c == "tot":
            num, den = num_t, den_t
        else:
            num = sum(np.nan_to_num(b[h, c]) * tab[h] for h in hs)
            den = sum(np.nan_to_num(b[h, c]) for h in hs)
            num_t, den_t = num_t + num, den_t + den
        x = m.ds[f"sub_col_LDR_{c}"].values
        with np.errstate(all="ignore"):
            same(x, np.where(den > 0, num / den, np.nan), f"LDR-{c}", f"hyd={hs} custom={custom}:")
        ok = np.isnan(x) | ((x >= lo - 1e-12) & (x <= hi + 1e-12))
        ensure(ok, f"LDR-{c}-within-class-range", f"hyd={hs}")
    for k, a in b.items():
        same(m.ds[f"sub_col_beta_p_{k[0]}_{k[1]}"].values, a, "backscatter-unchanged", str(k))


@g4.gen
def _(rng, tier):
    for i in range(90 if tier == "quick" else 800):
        yield "ldr", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 6)),
                          N=int(rng.integers(2, 6)), conv=bool(i % 2), nanp=[0., 0.3][i % 2], zerop=[0.2, 0.6][(i // 2) % 2],
                          sel=int(rng.integers(0, 9)), custom=i % 3, up=bool(i % 4))


@g5.case
def ext_mask(seed, nt, nz, N, conv, up, ext_OD, mono, ties):
    m, b, r = ldr_model(seed, nt, nz, N, conv, 0., 0.3)
    od = r.uniform(0, 1.5 * ext_OD, (N, nt, nz))
    if mono:
        inc = np.where(r.random((N, nt, nz)) < 0.5, 0., r.exponential(ext_OD / 2.5, (N, nt, nz)))
        od = np.cumsum(inc, axis=2)
        if not up:
            od = np.flip(od, axis=2)
    if ties:
        od = np.where(r.random(od.shape) < 0.25, ext_OD, od)
    m.ds["sub_col_OD_tot"] = xr.DataArray(od.copy(), dims=SUBD)
    with quiet():
        L.calc_LDR_and_ext(m, ext_OD=ext_OD, OD_from_sfc=up)
    ex = od > ext_OD
    nxt = np.zeros_like(ex)
    if up:
        nxt[:, :, :-1] = ex[:, :, 1:]
    else:
        nxt[:, :, 1:] = ex[:, :, :-1]
    same(m.ds["ext_mask"].values, np.where(ex, 2, np.where(nxt, 1, 0)), "extinction-mask", f"up={up} ext_OD={ext_OD}:")
    ensure(m.ds["ext_mask"].dims == SUBD, "dims")
    same(m.ds["sub_col_OD_tot"].values, od, "OD-unchanged")


@g5.gen
def _(rng, tier):
    for i in range(120 if tier == "quick" else 1200):
        yield "ext_mask", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 12)),
                               N=int(rng.integers(2, 6)), conv=bool((i // 2) % 2), up=bool(i % 2),
                               ext_OD=[4., 1., 0.25, 10][i % 4], mono=bool(i % 3), ties=bool((i // 3) % 2))
