"""Run-time contracts of the classifiers and phase ratios (L06, L07, R05, C01)."""
import numpy as np
import xarray as xr
from ..common import group, ensure, same
from .. import models as M
from ..models import SynthModel, gen_subcols, quiet
from .lidar import SUBD, VARIANTS, prepared, subset, run_lidar, molecular_u
import emc2.simulator.classification as C


def blank(seed, nt, nz, N, conv, **kw):
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=conv, **kw)
    m.ds["subcolumn"] = xr.DataArray(np.arange(N), dims="subcolumn")
    return m


def put(m, n, a):
    m.ds[n] = xr.DataArray(np.array(a), dims=SUBD)


# ---------------------------------------------------------------- L06
g6 = group("L06")


def curve(th, ldr):
    """log10 threshold by linear interpolation in LDR, constant outside"""
    x, y = np.array(th["LDR"], float), np.log10(np.array(th["beta_p"], float))
    out = np.empty_like(ldr)
    for i, v in np.ndenumerate(ldr):
        if np.isnan(v):
            out[i] = np.nan
        elif v <= x[0]:
            out[i] = y[0]
        elif v >= x[-1]:
            out[i] = y[-1]
        else:
            j = int(np.searchsorted(x, v, side="right")) - 1
            out[i] = y[j] if v == x[j] else y[j] + (y[j + 1] - y[j]) * (v - x[j]) / (x[j + 1] - x[j])
    return out


@g6.case
def phase(seed, nt, nz, N, conv, nan_opt, remove, custom, ties=False):
    m = blank(seed, nt, nz, N, conv)
    r = np.random.default_rng(seed)
    inst = M.lidar(ext_OD=[4., 1.5][seed % 2])
    th = inst.beta_p_phase_thresh
    if custom:
        k = 1 + seed % 4
        base = np.sort(r.uniform(-6, -2, (k, 1)), axis=0) + np.zeros((k, 3))
        th = [dict(**{"class": f"c{i}", "class_ind": int(ci)}, LDR=[0., float(r.uniform(0.1, 0.4)), 1.],
                   beta_p=(10 ** base[i]).tolist()) for i, ci in enumerate(r.permutation(k) + 1)]
    sh = (N, nt, nz)
    f = {}
    for c in ("strat", "conv", "tot"):
        suf = "" if c == "tot" else "_" + c
        beta = np.where(r.random(sh) < 0.25, 0., 10 ** r.uniform(-7.5, 0.3, sh))
        ld = np.where(beta > 0, np.where(r.random(sh) < 0.4, r.choice([0., 0.1, 0.2, 0.03, 0.35, 0.4, 1.], sh),
                                         r.uniform(0, 0.5, sh)), np.nan)
        if ties:   # exactly on a curve at one of its knots
            t = th[int(r.integers(len(th)))]
            j = int(r.integers(len(t["LDR"])))
            w = r.random(sh) < 0.3
            beta = np.where(w, t["beta_p"][j], beta)
            ld = np.where(w, t["LDR"][j], ld)
        od = r.uniform(0, 2 * inst.ext_OD, sh)
        od = np.where(r.random(sh) < 0.2, inst.ext_OD, od)
        f[c] = (beta, ld, od)
        put(m, f"sub_col_beta_p_tot{suf}", beta)
        put(m, f"sub_col_LDR_{c}", ld)
        put(m, f"sub_col_OD_tot{suf}", od)
    with quiet():
        C.lidar_classify_phase(inst, m, beta_p_phase_thresh=th if custom else None, convert_zeros_to_nan=nan_opt,
                               remove_sub_detect=remove)
    names = {"tot": "phase_mask_HSRL_all_hyd"}
    if conv:
        names.update(strat="strat_phase_mask_HSRL", conv="conv_phase_mask_HSRL")
    for c, n in names.items():
        beta, ld, od = f[c]
        want = np.zeros(sh)
        near = np.zeros(sh, bool)
        with np.errstate(all="ignore"):
            lb = np.log10(beta)
        for t in th:
            cv = curve(t, ld)
            knot = np.isin(ld, t["LDR"])
            near |= (np.abs(lb - cv) < 1e-9) & ~knot
            want = np.where((beta > 0) & (lb >= cv), t["class_ind"], want)
        if remove:
            want = np.where(od > inst.ext_OD, 0, want)
        if nan_opt:
            want = np.where(want == 0, np.nan, want)
        got = m.ds[n]
        ensure(got.dims == SUBD, "dims")
        same(np.where(near, 0, got.values), np.where(near, 0, want), f"phase-mask-{c}",
             f"nan_opt={nan_opt} remove={remove} custom={custom}:")


@g6.gen
def _(rng, tier):
    for i in range(120 if tier == "quick" else 1200):
        yield "phase", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 8)),
                            N=int(rng.integers(2, 6)), conv=bool(i % 2), nan_opt=bool((i // 2) % 2),
                            remove=bool((i // 4) % 2), custom=bool((i // 8) % 2), ties=bool((i // 3) % 2))


# ---------------------------------------------------------------- L07
g7 = group("L07")
CURVE = [9.032e3, -2.136e3, 173.394, -3.951, 0.256, -9.478e-4]
CROSS = {"liq": [0.4099, 0.009, 0], "ice": [0.2904, 0]}
SPLIT = 0.0284


def cosp_signals(m, hyd, eta, precip, cross=None):
    """attenuated total / cross-polarised backscatter and scattering ratio from the class fields"""
    cross = cross or CROSS
    bm, tau = m.ds["sigma_180_vol"].values, m.ds["tau"].values
    cl = ("conv", "strat") if m.process_conv else ("strat",)
    out, acc = {}, [0., 0., 0.]
    for c in cl:
        b_t = x_t = o_t = 0.
        for ph, hs in (("liq", ["cl", "pl"] if precip else ["cl"]), ("ice", ["ci", "pi"] if precip else ["ci"])):
            hs = [h for h in hs if h in hyd]
            b = sum([np.nan_to_num(m.ds[f"sub_col_beta_p_{h}_{c}"].values) for h in hs],
                    np.zeros(m.ds["sub_col_beta_p_tot_strat"].shape))
            o = sum([np.nan_to_num(m.ds[f"sub_col_OD_{h}_{c}"].values) for h in hs], np.zeros(b.shape))
            att = np.exp(-2 * eta * o)
            co = (bm + b) * tau * att
            x = np.polyval(cross[ph], co * 1e3) / 1e3 / att / tau - bm * SPLIT / (1 + SPLIT)
            b_t, x_t, o_t = b_t + b, x_t + x, o_t + o
        out[c] = (b_t, x_t, o_t)
        acc = [acc[0] + b_t, acc[1] + x_t, acc[2] + o_t]
    out["all_hyd"] = tuple(acc)
    res = {}
    for c, (b, x, o) in out.items():
        t = np.exp(-2 * eta * o) * tau
        res[c] = ((b + x + bm * (1 + SPLIT)) * t, (x + bm * SPLIT / (1 + SPLIT)) * t,
                  (b + x + bm * (1 + SPLIT)) * t / (bm * (1 + SPLIT) * tau))
    return res


@g7.case
def cosp(seed, nt, nz, N, conv, up, eta, cloud_thr, undef_thr, nan_opt, precip, sel, curve_on, tu="kelvin", amp=1.,
         cold=0.):
    m = blank(seed, nt, nz, N, conv, units=("hPa", tu, "meter"))
    m.ds["t"].values = m.ds["t"].values - cold
    r = np.random.default_rng(seed)
    sh = (N, nt, nz)
    bm = 1.5e-6 * np.exp(-np.linspace(0, 1, nz))[None] * np.ones((nt, 1))
    tau = np.sort(r.uniform(0.6, 1., (nt, nz)), axis=1)
    m.ds["sigma_180_vol"] = xr.DataArray(bm, dims=SUBD[1:])
    m.ds["tau"] = xr.DataArray(tau[:, ::-1] if up else tau, dims=SUBD[1:])
    for c in ("strat", "conv"):
        tb = np.zeros(sh)
        for h in m.hyd_types:
            b = np.where(r.random(sh) < 0.45, 0., 10 ** r.uniform(-7, -3.6, sh) * amp)
            b = np.where(r.random(sh) < 0.05, np.nan, b)
            put(m, f"sub_col_beta_p_{h}_{c}", b)
            o = np.cumsum(np.nan_to_num(b) * 2000., axis=2)
            put(m, f"sub_col_OD_{h}_{c}", o if up else np.flip(o, axis=2))
            tb += np.nan_to_num(b)
        put(m, f"sub_col_beta_p_tot_{c}", tb)
    put(m, "strat_q_subcolumns_cl", r.random(sh))
    hyd = list(m.hyd_types) if sel < 3 else subset(m, sel)
    pc = [x * r.uniform(0.5, 2.) for x in CURVE] if curve_on else None
    kw = dict(eta=eta, OD_from_sfc=up, phase_disc_curve=pc, cloud_SR_thresh=cloud_thr, undef_SR_thresh=undef_thr,
              inc_precip_hyd_atb=precip, convert_zeros_to_nan=nan_opt, hyd_types=None if sel < 3 else hyd)
    inst = M.lidar()
    with quiet():
        C.lidar_emulate_cosp_phase(inst, m, output_ATB=True, **kw)
    masks1 = {k: m.ds[k].values.copy() for k in m.ds.variables if "COSP" in k and "mask" in k}
    sig = cosp_signals(m, hyd, eta, precip)
    T = m.ds["t"].values + (273.15 if tu == "degC" else 0.)
    for c, (at, ax, sr) in sig.items():
        same(m.ds[f"COSP_SR_{c}"].values, sr, f"scattering-ratio-{c}", f"eta={eta} precip={precip} hyd={hyd}:", rtol=1e-8)
        same(m.ds[f"COSP_ATBtot_{c}"].values, at, f"ATB-{c}", "", rtol=1e-8)
        same(m.ds[f"COSP_ATBcross_{c}"].values, ax, f"ATB-cross-{c}", "", rtol=1e-7, atol=1e-16)
        sr, at, ax = (m.ds[f"COSP_{n}_{c}"].values for n in ("SR", "ATBtot", "ATBcross"))
        d = np.polyval(pc or CURVE, at * 1e3) / 1e3
        near = (np.abs(sr / cloud_thr - 1) < 1e-9) | (np.abs(ax - d) < 1e-12 * np.abs(d))
        ex = sr > undef_thr
        before = np.zeros(sh, bool)
        if up:
            before[:, :, 1:] = np.logical_or.accumulate(ex, axis=2)[:, :, :-1]
        else:
            before[:, :, :-1] = np.flip(np.logical_or.accumulate(np.flip(ex, axis=2), axis=2), axis=2)[:, :, 1:]
        lab = np.where(T[None] > 273.15, 1, np.where(T[None] < 233.15, 2, np.where(ax > d, 2, 1)))
        want = np.where(sr > cloud_thr, np.where(before, 3, lab), 0).astype(float)
        if nan_opt:
            want = np.where(want == 0, np.nan, want)
        name = "COSP_phase_mask_all_hyd" if c == "all_hyd" else f"{c}_COSP_phase_mask"
        same(np.where(near, 0, m.ds[name].values), np.where(near, 0, want), f"label-{c}",
             f"up={up} eta={eta} thr={cloud_thr},{undef_thr} nan={nan_opt}:")
    with quiet():
        C.lidar_emulate_cosp_phase(inst, m, output_ATB=False, **kw)
    for k, a in masks1.items():
        same(m.ds[k].values, a, "label-independent-of-output-option", k)


@g7.gen
def _(rng, tier):
    for i in range(110 if tier == "quick" else 1100):
        yield "cosp", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 10)),
                           N=int(rng.integers(2, 6)), conv=bool(i % 2), up=bool((i // 2) % 2), eta=[0.7, 1., 0.4][i % 3],
                           cloud_thr=[5., 5., 3., 10.][i % 4], undef_thr=[30., 60., 12.][(i // 2) % 3],
                           nan_opt=bool((i // 4) % 2), precip=bool((i // 3) % 2), sel=int(rng.integers(0, 9)),
                           curve_on=bool(i % 5 == 0), tu="degC" if i % 4 == 0 else "kelvin", amp=[1., 1., 0.1][i % 3],
                           cold=[0., 35., 55.][(i // 2) % 3])


# ---------------------------------------------------------------- R05
g5 = group("R05")


@g5.case
def sounding(seed, nt, nz, N, conv, nan_opt, rng_on, zu="meter"):
    m = blank(seed, nt, nz, N, conv, units=("hPa", "kelvin", zu))
    r = np.random.default_rng(seed)
    sh = (N, nt, nz)
    inst = M.radar()
    zmin = r.uniform(-60, 0, (nt, nz))
    m.ds["Ze_min"] = xr.DataArray(zmin, dims=SUBD[1:])
    cl = {}
    for c in ("strat", "conv"):
        cl[c] = r.random(sh) < 0.4
        put(m, f"{c}_frac_subcolumns_cl", cl[c] if seed % 2 else cl[c].astype(float))
    cl["tot"] = cl["strat"] | cl["conv"] if conv else cl["strat"]
    ze = {}
    for c in ("strat", "conv", "tot"):
        ze[c] = np.where(r.random(sh) < 0.35, np.nan, r.uniform(-80, 20, sh))
        put(m, "sub_col_Ze_att_tot" + ("" if c == "tot" else "_" + c), ze[c])
    z = m.ds[m.z_field].values
    hr = None
    if rng_on:
        a, b = np.sort(r.choice(z.ravel(), 2)) if rng_on != 2 else np.sort(r.uniform(z.min(), z.max(), 2))
        if rng_on == 3:     # bounds next to levels
            a, b = a + r.choice([-1e-3, 1e-3, 0.5, -0.5]), b + r.choice([-1e-3, 1e-3, 0.5, -0.5])
        hr = (float(a), float(b)) if seed % 3 else [float(a), float(b)]
    with quiet():
        C.radar_classify_phase(inst, m, mask_height_rng=hr, convert_zeros_to_nan=nan_opt)
    names = {"tot": "phase_mask_KAZR_sounding_all_hyd"}
    if conv:
        names.update(strat="strat_phase_mask_KAZR_sounding", conv="conv_phase_mask_KAZR_sounding")
    for c, n in names.items():
        det = ze[c] >= zmin[None]
        want = np.where(det & cl[c], 2, np.where(det, 3, np.where(cl[c], 1, 0))).astype(float)
        if hr is not None:
            want = np.where((z < hr[0])[None] | (z > hr[1])[None], 0, want)
        if nan_opt:
            want = np.where(want == 0, np.nan, want)
        same(m.ds[n].values, want, f"sounding-mask-{c}", f"range={hr} nan={nan_opt}:")
        ensure(m.ds[n].dims == SUBD, "dims")


@g5.gen
def _(rng, tier):
    for i in range(130 if tier == "quick" else 1300):
        yield "sounding", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 9)),
                               N=int(rng.integers(2, 6)), conv=bool(i % 2), nan_opt=bool((i // 2) % 2), rng_on=(i // 4) % 4)


# ---------------------------------------------------------------- C01
gc = group("C01")


@gc.case
def freq_ratio(seed, nt, nz, N, conv, kmax, mode, nan_mask, as_list):
    m = blank(seed, nt, nz, N, conv)
    r = np.random.default_rng(seed)
    mk = r.integers(0, kmax + 1, (N, nt, nz)).astype(float)
    mk = np.where(r.random((1, nt, nz)) < 0.2, 0., mk)
    a = np.where(mk == 0, np.nan, mk) if nan_mask else mk.astype(np.uint8)
    put(m, "msk", a)
    cls = sorted(r.choice(np.arange(1, kmax + 1), int(r.integers(1, kmax + 1)), replace=False).tolist())
    allh = None
    if mode:
        extra = r.choice(np.arange(1, kmax + 1), int(r.integers(1, kmax + 1)), replace=False).tolist()
        allh = sorted(set(cls) | set(int(x) for x in extra))
    if not as_list:
        cls = cls[:1]
    arg = cls if as_list else int(cls[0])
    with quiet():
        C.calculate_phase_ratio(m, "msk", arg, mask_allhyd=allh)
    num = np.isin(mk, cls).sum(axis=0)
    den = (mk > 0).sum(axis=0) if allh is None else np.isin(mk, allh).sum(axis=0)
    with np.errstate(all="ignore"):
        want = np.where(den > 0, num / den, np.nan)
    got = m.ds["msk_fpr"].values
    same(got, want, "frequency-phase-ratio", f"classes={cls} all={allh}:")
    ensure(np.isnan(got) | ((got >= 0) & (got <= 1)), "in-unit-interval")
    same(m.ds["msk"].values, a, "mask-unchanged")


@gc.case
def mass_ratio(seed, nt, nz, N, conv, sel, nan_mask):
    m = blank(seed, nt, nz, N, conv)
    r = np.random.default_rng(seed)
    sh = (N, nt, nz)
    mk = r.integers(0, 4, sh).astype(float)
    put(m, "msk", np.where(mk == 0, np.nan, mk) if nan_mask else mk)
    q = {}
    for c in ("strat", "conv"):
        put(m, f"{c}_frac_subcolumns_cl", r.random(sh) < 0.5)
        for h in m.hyd_types:
            q[h, c] = np.where(r.random(sh) < 0.4, 0., r.random(sh) * 1e-3)
            put(m, f"{c}_q_subcolumns_{h}", q[h, c])
    hyd = None if sel < 3 else subset(m, sel)
    hs = hyd or m.hyd_types
    cl = ("strat", "conv") if conv else ("strat",)
    with quiet():
        C.calculate_phase_ratio(m, "msk", 1, mass_pr=True, mpr_subcolmod=True, hyd_types=hyd)
        C.calculate_phase_ratio(m, "msk", 1, mass_pr=True, mpr_subcolmod=False, hyd_types=hyd)
    z = np.zeros(sh)
    liq = sum([np.where(mk > 0, q[h, c], 0) for c in cl for h in hs if h in ("cl", "pl")], z)
    ice = sum([np.where(mk > 0, q[h, c], 0) for c in cl for h in hs if h in ("ci", "pi")], z)
    with np.errstate(all="ignore"):
        same(m.ds["msk_mpr"].values, liq / (liq + ice), "mass-phase-ratio", f"hyd={hs}:")
        same(m.ds["msk_mpr_sum"].values, liq.sum(0) / (liq.sum(0) + ice.sum(0)), "mass-phase-ratio-summed", f"hyd={hs}:")
        g = lambda hh: sum([m.ds[f"q_s_{h}"].values for h in hs if h in hh], np.zeros((nt, nz)))
        l, i = g(("cl", "pl")), g(("ci", "pi"))
        same(m.ds["mpr_q"].values, l / (l + i), "mass-phase-ratio-model", f"hyd={hs}:")
    for n in ("msk_mpr", "msk_mpr_sum", "mpr_q"):
        v = m.ds[n].values
        ensure(np.isnan(v) | ((v >= 0) & (v <= 1)), "in-unit-interval", n)


@gc.gen
def _(rng, tier):
    for i in range(90 if tier == "quick" else 900):
        yield "freq_ratio", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 7)),
                                 N=int(rng.integers(2, 9)), conv=bool(i % 2), kmax=int(rng.integers(1, 6)), mode=i % 2,
                                 nan_mask=bool((i // 2) % 2), as_list=bool(i % 3))


@gc.gen
def _(rng, tier):
    for i in range(70 if tier == "quick" else 700):
        yield "mass_ratio", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(1, 7)),
                                 N=int(rng.integers(2, 7)), conv=bool(i % 2), sel=int(rng.integers(0, 9)),
                                 nan_mask=bool((i // 2) % 2))
