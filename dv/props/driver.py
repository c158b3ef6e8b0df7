"""Run-time contracts of the one-call driver and of histories (O01-O03)."""
import copy
import numpy as np
import xarray as xr
from ..common import group, ensure, same, Bad
from .. import models as M
from ..models import SynthModel, gen_subcols, quiet
import emc2
import emc2.simulator.main as MN
import emc2.simulator.lidar_moments as L
import emc2.simulator.radar_moments as R
import emc2.simulator.attenuation as AT
import emc2.simulator.classification as C
from .lidar import VARIANTS, prepared, subset
from .subcol import count

SUBD = ("subcolumn", "time", "height")


def inst_of(kind, p):
    if kind == "lidar":
        return M.lidar(from_sfc=p.get("i_sfc", True), eta=p.get("i_eta", 1.), ext_OD=p.get("i_ext", 4.))
    return M.radar(from_sfc=p.get("i_sfc", True))


def by_hand(kind, inst, m, opts, do_classify, spw):
    """the documented sequence of stages with the options a user gave, or the documented defaults"""
    o = dict(opts)
    rad = o.get("use_rad_logic", True)
    up = o.get("OD_from_sfc", inst.OD_from_sfc)
    hyd = o.get("hyd_types", None)
    emp = o.get("use_empiric_calc", False)
    if "mie_for_ice" in o:
        mie = (o["mie_for_ice"],) * 2
    elif rad or m.mcphys_scheme.lower() == "p3":
        mie = (False, False)
    else:
        mie = (True, False)
    z2n = o.get("convert_zeros_to_nan", False)
    kw = dict(OD_from_sfc=up, hyd_types=hyd, parallel=False, use_rad_logic=rad, use_empiric_calc=emp)
    with quiet():
        for c in ((False, True) if m.process_conv else (False,)):
            if kind == "radar":
                R.calc_radar_moments(inst, m, c, mie_for_ice=mie[int(c)], calc_spectral_width=spw, **kw)
            else:
                L.calc_lidar_moments(inst, m, c, mie_for_ice=mie[int(c)], eta=o.get("eta", inst.eta), **kw)
        if kind == "radar":
            AT.calc_radar_Ze_min(inst, m, o.get("ref_rng", 1000))
            R.calc_total_reflectivity(m, detect_mask=True)
            if do_classify:
                C.radar_classify_phase(inst, m, mask_height_rng=o.get("mask_height_rng"), convert_zeros_to_nan=z2n)
        else:
            eta = o.get("eta", inst.eta)
            L.calc_total_alpha_beta(m, OD_from_sfc=up, eta=eta)
            L.calc_LDR_and_ext(m, ext_OD=o.get("ext_OD", inst.ext_OD), OD_from_sfc=up, hyd_types=hyd)
            if do_classify:
                C.lidar_classify_phase(inst, m, convert_zeros_to_nan=z2n)
                C.lidar_emulate_cosp_phase(inst, m, eta=eta, OD_from_sfc=up, convert_zeros_to_nan=z2n, hyd_types=hyd)


def cmp_ds(a, b, ob, msg, only=None, rtol=1e-9):
    ka, kb = set(a.data_vars), set(b.data_vars)
    if only is not None:
        ka, kb = {k for k in ka if only(k)}, {k for k in kb if only(k)}
    miss = sorted(kb - ka)
    extra = sorted(ka - kb)
    ensure(not miss and not extra, ob, f"{msg}: fields missing {miss[:5]} or additional {extra[:5]}")
    for k in sorted(ka):
        if a[k].dims != b[k].dims:
            ensure(sorted(a[k].dims) == sorted(b[k].dims), ob, f"{msg} {k}: dims {a[k].dims} / {b[k].dims}")
            same(a[k].transpose(*b[k].dims).values, b[k].values, ob, f"{msg} {k}", rtol=rtol, atol=1e-300)
        else:
            same(a[k].values, b[k].values, ob, f"{msg} {k}", rtol=rtol, atol=1e-300)


g1 = group("O01")


@g1.case
def stages(seed, kind, nt, nz, N, variant, conv, approach, opts, classify=False, spw=True, finalize=False,
           i_sfc=True, i_eta=1., i_ext=4., mode=None):
    rad = opts.get("use_rad_logic", True)
    a = prepared(seed, nt, nz, N, rad, conv, variant)
    b = prepared(seed, nt, nz, N, rad, conv, variant)
    p = dict(i_sfc=i_sfc, i_eta=i_eta, i_ext=i_ext)
    ia, ib = inst_of(kind, p), inst_of(kind, p)
    opts = {k: (tuple(v) if k == "mask_height_rng" and v is not None else v) for k, v in opts.items()}
    kw = dict(parallel=False) if mode is None else dict(parallel=mode[0], chunk=mode[1])
    with quiet():
        MN.make_simulated_data(a, ia, N, do_classify=classify, skip_subcol_gen=True, finalize_fields=finalize,
                               calc_spectral_width=spw, **opts, **kw)
    by_hand(kind, ib, b, opts, classify, spw)
    if finalize:
        with quiet():
            b.finalize_subcol_fields()
    cmp_ds(a.ds, b.ds, "driver-equals-stages", f"{kind} {opts} classify={classify}")


@g1.case
def generator(seed, kind, nt, nz, N, variant, conv, opts, pass_N=True, full=False):
    """the options reach the subcolumn generator: counts follow the chosen logic and number of subcolumns"""
    fam, sch = VARIANTS[variant]
    if fam == "P3":
        conv = False
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=conv, family=fam, scheme=sch)
    before = set(m.ds.data_vars)
    if not pass_N:
        m.num_subcolumns = N
    inst = inst_of(kind, {})
    with quiet():
        MN.make_simulated_data(m, inst, N if pass_N else None, subcol_gen_only=not full, **opts)
    rad = opts.get("use_rad_logic", True)
    hyd = list(m.conv_frac_names)
    ensure(m.num_subcolumns == N, "num-subcolumns", f"{m.num_subcolumns}")
    if not full:
        bad = [k for k in set(m.ds.data_vars) - before if "Ze" in k or "beta" in k or "alpha" in k]
        ensure(not bad, "subcol-gen-only", str(bad))
    has_c = np.zeros((N, nt, nz), bool)
    for h in hyd:
        if not conv:
            ensure(f"conv_frac_subcolumns_{h}" not in m.ds or h not in ("cl", "ci") or
                   not m.ds[f"conv_frac_subcolumns_{h}"].values.any(), "no-convection", h)
            continue
        v = m.ds[f"conv_frac_subcolumns_{h}"].values
        if h in ("cl", "ci"):
            same(v.sum(axis=0), count(m, h, "c", rad, N), "conv-count", f"{h} rad={rad} N={N}")
            has_c |= v != 0
    ca, cb = count(m, "cl", "s", rad, N), count(m, "ci", "s", rad, N)
    fullc = (ca == N) & (cb == N)
    for h, c in (("cl", ca), ("ci", cb)):
        w = np.where(fullc, N, np.minimum(c, (~has_c).sum(axis=0)))
        w[:, -1] = 0
        same(m.ds[f"strat_frac_subcolumns_{h}"].values.sum(axis=0), w, "strat-count", f"{h} rad={rad} N={N}")
    for h in hyd:
        for cls, cs in (("s", "strat"), ("c", "conv")):
            if cls == "c" and not conv:
                continue
            if h not in ("cl", "ci"):
                w = count(m, h, cls, rad, N)
                w[:, -1] = 0
                same(m.ds[f"{cs}_frac_subcolumns_{h}"].values.sum(axis=0), w, "precip-count",
                     f"{h} {cs} rad={rad} N={N}")
            if full:
                continue
            # in-cloud mean x fraction = grid mean, in the cells holding the class
            f = m.ds[{"s": "fr_s_" if rad else "f_s_", "c": "fr_c_" if rad else "f_c_"}[cls] + h].values
            q = m.ds[f"q_{cls}_{h}"].values
            qs = m.ds[f"{cs}_q_subcolumns_{h}"].values
            n = (m.ds[f"{cs}_frac_subcolumns_{h}"].values != 0).sum(axis=0)
            w = np.where((q > 1e-18) & (n > 0) & (f > 0), n * q / np.where(f > 0, f, 1.), 0.)
            same(qs.sum(axis=0), w, "q-in-cloud-mean", f"{h} {cs} rad={rad}", rtol=1e-7, atol=1e-25)


OPT_L = dict(use_rad_logic=[True, False], OD_from_sfc=[True, False], eta=[0.35, 0.7, 1.], ext_OD=[0.02, 0.3, 4.],
             mie_for_ice=[True, False], use_empiric_calc=[True], convert_zeros_to_nan=[True, False], hyd_types=None)
OPT_R = dict(use_rad_logic=[True, False], OD_from_sfc=[True, False], ref_rng=[500, 2000.5, 1234.25],
             mie_for_ice=[True, False], use_empiric_calc=[True], convert_zeros_to_nan=[True, False],
             mask_height_rng=[[300., 2000.], [0., 900.]], hyd_types=None)


@g1.gen
def _(rng, tier):
    for i in range(44 if tier == "quick" else 400):
        kind = "lidar" if i % 2 else "radar"
        O = OPT_L if kind == "lidar" else OPT_R
        keys = list(O)
        # every option alone once, then random subsets
        if i // 2 < len(keys) + 1:
            pick = [] if i // 2 == 0 else [keys[i // 2 - 1]]
        else:
            pick = [k for k in keys if rng.random() < 0.5]
        variant = [0, 0, 1, 3, 2][(i // 2) % 5]
        opts = {}
        for k in pick:
            if k == "hyd_types":
                hs = ["cl", "ci", "pl"] if VARIANTS[variant][1] == "P3" else list(M.HYD)
                kk = int(rng.integers(1, len(hs) + 1))
                opts[k] = [hs[j] for j in rng.permutation(len(hs))[:kk]]
            else:
                opts[k] = O[k][int(rng.integers(len(O[k])))]
        if variant == 2:
            opts.pop("use_empiric_calc", None)
            opts.pop("mie_for_ice", None)
        if opts.get("use_empiric_calc"):
            opts.pop("mie_for_ice", None)
        # half the single-option cases also under microphysics logic, where the default ice treatment differs
        if "use_rad_logic" not in opts and rng.random() < 0.4:
            opts["use_rad_logic"] = False
        yield "stages", dict(seed=int(rng.integers(1e9)), kind=kind, nt=int(rng.integers(1, 4)),
                             nz=int(rng.integers(3, 7)), N=int(rng.integers(2, 6)), variant=variant,
                             conv=bool(i % 3), approach="", opts=opts, classify=variant != 2 or kind == "radar",
                             spw=bool(i % 5), finalize=bool(i % 7 == 0), i_sfc=bool((i // 2) % 2),
                             i_eta=[1., .7, .5][i % 3], i_ext=[4., .1, .5][(i // 2) % 3],
                             mode=[None, None, [True, None], [True, 2], [False, 1]][i % 5])


@g1.gen
def _(rng, tier):
    for i in range(14 if tier == "quick" else 120):
        opts = [{}, {"use_rad_logic": False}, {"use_rad_logic": True}][i % 3]
        opts = dict(opts, **[{}, {"parallel": False}, {"parallel": True, "chunk": 2}][(i // 2) % 3])
        yield "generator", dict(seed=int(rng.integers(1e9)), kind="lidar" if i % 2 else "radar",
                                nt=int(rng.integers(1, 5)), nz=int(rng.integers(3, 7)), N=int(rng.integers(2, 12)),
                                variant=[0, 1, 3, 2][i % 4], conv=bool(i % 3), opts=opts, pass_N=bool(i % 5),
                                full=bool(i % 7 == 3))


# ------------------------------------------------------------------ O02
g2 = group("O02")


def sim(m, kind, inst, o, classify=True):
    with quiet():
        MN.make_simulated_data(m, inst, m.num_subcolumns, do_classify=classify, skip_subcol_gen=True,
                               parallel=False, **o)


def outputs(m, base):
    return {k: m.ds[k].copy(deep=True) for k in m.ds.data_vars if k not in base}


def other_kind(kind):
    return "lidar" if kind == "radar" else "radar"


RADAR_ONLY = ("Ze", "Vd", "sigma_d", "Z_", "trans", "kappa", "hyd_ext", "att", "ze")


@g2.case
def history(seed, nt, nz, N, variant, conv, first, between, rad_gen):
    """first = [kind, opts]; run it, run each of `between`, run it again -> same outputs"""
    m = prepared(seed, nt, nz, N, rad_gen, conv, variant)
    base = set(m.ds.data_vars)
    insts = {"lidar": M.lidar(), "radar": M.radar()}
    cl = VARIANTS[variant][1] != "P3"
    kind, o = first
    sim(m, kind, insts[kind], o, cl or kind == "radar")
    a = outputs(m, base)
    names = set(a)
    for k2, o2 in between:
        inst = insts[k2] if not o2.get("_new") else (M.lidar(seed=99) if k2 == "lidar" else M.radar(seed=98))
        o2 = {x: y for x, y in o2.items() if x != "_new"}
        sim(m, k2, inst, o2, cl or k2 == "radar")
        if k2 != kind:
            for k in names:
                if k not in INTERMEDIATE and k in m.ds:
                    same(m.ds[k].values, a[k].values, "other-instrument-changes-nothing", f"{kind} field {k} after {k2}")
                elif k not in m.ds and k not in INTERMEDIATE:
                    raise Bad("other-instrument-changes-nothing", f"{kind} field {k} removed by {k2}")
    sim(m, kind, insts[kind], o, cl or kind == "radar")
    for k in sorted(names):
        if k in INTERMEDIATE:
            continue
        ensure(k in m.ds, "repeat-gives-same-output", f"{k} missing")
        ensure(m.ds[k].dims == a[k].dims, "repeat-gives-same-output", f"{k} dims")
        same(m.ds[k].values, a[k].values, "repeat-gives-same-output", f"{kind} {o} field {k} after {between}:")


INTERMEDIATE = {"mu", "lambda", "N_0", "lambda_", "ze"}


@g2.case
def generation_untouched(seed, nt, nz, N, variant, conv, rad, kind):
    """simulating does not change the subcolumns it starts from"""
    m = prepared(seed, nt, nz, N, rad, conv, variant)
    before = {k: m.ds[k].copy(deep=True) for k in m.ds.data_vars}
    sim(m, kind, inst_of(kind, {}), dict(use_rad_logic=rad), VARIANTS[variant][1] != "P3" or kind == "radar")
    for k, v in before.items():
        ensure(k in m.ds, "subcolumns-kept", k)
        same(m.ds[k].values, v.values, "subcolumns-kept", k)


def any_inst(kind, j):
    """distinct instruments of one kind: the j-th has its own name, wavelength or frequency and tables"""
    if kind == "lidar":
        return M.lidar(seed=50 + j, name=f"LID{j}", wavelength=(0.532, 1.064, 0.355)[j % 3], from_sfc=j % 2 == 0)
    return M.radar(seed=70 + j, name=f"RAD{j}", freq=(34.86, 94.0, 9.71)[j % 3], from_sfc=j % 2 == 0)


@g2.case
def after_others(seed, nt, nz, N, variant, conv, rad_gen, runs):
    """the outputs of the last run are those of that run alone on a model with the same subcolumns"""
    mh = prepared(seed, nt, nz, N, rad_gen, conv, variant)
    mf = prepared(seed, nt, nz, N, rad_gen, conv, variant)
    base = set(mh.ds.data_vars)
    for kind, j, o in runs:                     # the lidar phase masks exist for one instrument only
        sim(mh, kind, any_inst(kind, j), o, kind == "radar")
    kind, j, o = runs[-1]
    sim(mf, kind, any_inst(kind, j), o, kind == "radar")
    for k, v in outputs(mf, base).items():
        if k in INTERMEDIATE:
            continue
        ensure(k in mh.ds, "history-changes-nothing", f"{k} missing")
        ensure(mh.ds[k].dims == v.dims, "history-changes-nothing", f"{k} dims")
        same(mh.ds[k].values, v.values, "history-changes-nothing", f"{kind} field {k} after {runs[:-1]}")


def rand_sim(rng, variant, kind=None):
    kind = kind or ("lidar" if rng.integers(2) else "radar")
    o = dict(use_rad_logic=bool(rng.integers(2)))
    if rng.random() < 0.25 and variant != 2:
        o["use_empiric_calc"] = True
    elif rng.random() < 0.5:
        o["OD_from_sfc"] = bool(rng.integers(2))
    if rng.random() < 0.3:
        hs = ["cl", "ci", "pl"] if VARIANTS[variant][1] == "P3" else list(M.HYD)
        o["hyd_types"] = [hs[j] for j in rng.permutation(len(hs))[:int(rng.integers(1, len(hs) + 1))]]
    return [kind, o]


@g2.gen
def _(rng, tier):
    for i in range(30 if tier == "quick" else 250):
        variant = [0, 1, 2, 3, 0][i % 5]
        first = rand_sim(rng, variant, "lidar" if i % 2 else "radar")
        n = int(rng.integers(0, 3))
        btw = []
        for j in range(n):
            k = rand_sim(rng, variant)
            # a same-kind simulation in between may leave fields of other classes; only its repeat is claimed
            if k[0] == first[0]:
                k = [first[0], dict(first[1])]
            btw.append(k)
        if i % 4 == 0:
            btw = [rand_sim(rng, variant, other_kind(first[0]))]
        yield "history", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(2, 6)),
                              N=int(rng.integers(2, 5)), variant=variant, conv=bool(i % 3), first=first,
                              between=btw, rad_gen=bool(i % 2))


@g2.gen
def _(rng, tier):
    for i in range(16 if tier == "quick" else 100):
        yield "generation_untouched", dict(seed=int(rng.integers(1e9)), nt=2, nz=int(rng.integers(2, 6)),
                                           N=int(rng.integers(2, 5)), variant=i % 4, conv=bool(i % 3),
                                           rad=bool((i // 2) % 2), kind="lidar" if (i // 4) % 2 else "radar")


@g2.gen
def _(rng, tier):
    for i in range(24 if tier == "quick" else 200):
        variant = [0, 3, 0, 1][i % 4]
        kinds = [["lidar", "lidar"], ["radar", "radar"], ["lidar", "radar", "lidar"], ["radar", "lidar", "radar"]][(i // 2) % 4]
        o = rand_sim(rng, variant, kinds[-1])[1]
        runs = []
        for n, k in enumerate(kinds):
            # the same class selection throughout: fields of classes selected only earlier are not outputs of the last run
            oo = dict(rand_sim(rng, variant, k)[1]) if k != kinds[-1] else dict(o)
            if k == kinds[-1] and n < len(kinds) - 1 and "OD_from_sfc" in oo:
                oo["OD_from_sfc"] = not oo["OD_from_sfc"]
            runs.append([k, int(rng.integers(3)) + 3 * n, oo])
        yield "after_others", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(2, 6)),
                                   N=int(rng.integers(2, 5)), variant=variant, conv=bool(i % 3), rad_gen=bool(i % 2), runs=runs)
    # one device throughout: the runs differ in side, approach and kind of ice tables
    for i in range(16 if tier == "quick" else 160):
        kind, v2 = ("lidar" if i % 2 else "radar"), (i // 8) % 2 == 0     # half of the cases: P3 ice
        runs = []
        for n in range(2 + i % 3 // 2):
            runs.append([kind, 1, dict(use_rad_logic=bool(rng.integers(2)), OD_from_sfc=bool(rng.integers(2)),
                                       mie_for_ice=bool((i // 2 + n) % 2))])
        if i % 16 < 12:
            for r in runs:
                r[2]["use_rad_logic"] = bool((i // 4) % 2)
        yield "after_others", dict(seed=int(rng.integers(1e9)), nt=2, nz=int(rng.integers(2, 6)), N=int(rng.integers(2, 4)),
                                   variant=2 if v2 else [0, 1, 3][i % 3], conv=bool(i % 3), rad_gen=bool(i % 5 % 2), runs=runs)


# ------------------------------------------------------------------ O03
g3 = group("O03")
KEEP = ["instrument_class", "instrument_str", "ext_OD", "OD_from_sfc", "eta", "K_w", "eps_liq", "Z_min_1km",
        "beta_p_phase_thresh", "freq", "wavelength"]


def snap_inst(i):
    d = {}
    for k in KEEP:
        if hasattr(i, k):
            d[k] = copy.deepcopy(getattr(i, k))
    for t in ("mie_table", "scat_table", "bulk_table"):
        for k, v in getattr(i, t).items():
            d[(t, k)] = v.copy(deep=True)
    return d


def cmp_inst(i, d):
    for k, v in d.items():
        if isinstance(k, tuple):
            t = getattr(i, k[0])
            ensure(k[1] in t, "instrument-table-kept", str(k))
            ensure(t[k[1]].identical(v), "instrument-table-kept", str(k))
        else:
            w = getattr(i, k)
            ensure(repr(w) == repr(v), "instrument-attribute-kept", f"{k}: {v!r} -> {w!r}")


def snap(m):
    return {k: m.ds[k].copy(deep=True) for k in list(m.ds.data_vars) + list(m.ds.coords)}


def cmp_model(m, d, where):
    for k, v in d.items():
        ensure(k in m.ds, "input-field-kept", f"{k} after {where}")
        w = m.ds[k]
        ensure(w.dims == v.dims, "input-dims-kept", f"{k} after {where}: {v.dims} -> {w.dims}")
        ensure(w.dtype == v.dtype, "input-field-kept", f"{k} after {where}: {v.dtype} -> {w.dtype}")
        same(w.values, v.values, "input-field-kept", f"{k} after {where}", rtol=0.)
        ensure(dict(w.attrs) == dict(v.attrs), "input-units-kept", f"{k} after {where}: {v.attrs} -> {w.attrs}")


SETUP = ["hyd_types", "N_field", "q_names_convective", "q_names_stratiform", "conv_frac_names", "strat_frac_names",
         "conv_frac_names_for_rad", "strat_frac_names_for_rad", "conv_re_fields", "strat_re_fields", "q_field",
         "p_field", "z_field", "T_field", "mcphys_scheme", "rad_scheme_family", "process_conv"]


@g3.case
def inputs(seed, nt, nz, N, variant, conv, rad, kinds, opts, units, finalize=False, vd=False, stats=False, extra=None):
    fam, sch = VARIANTS[variant]
    if fam == "P3":
        conv = False
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=conv, family=fam, scheme=sch, units=tuple(units),
                   variable_density=vd and sch == "nssl")
    d = snap(m)
    su = {k: copy.deepcopy(getattr(m, k)) for k in SETUP}
    for j, kind in enumerate(kinds):
        inst = inst_of(kind, {})
        di = snap_inst(inst)
        with quiet():
            MN.make_simulated_data(m, inst, N, do_classify=sch != "P3" or kind == "radar", parallel=False,
                                   skip_subcol_gen=j > 0, finalize_fields=finalize and j == len(kinds) - 1,
                                   use_rad_logic=rad, **(opts or {}), **(extra or {}).get(kind, {}))
        cmp_model(m, d, f"{kind} simulation rad={rad}")
        cmp_inst(inst, di)
        if stats and kind == "lidar" and sch != "P3":
            mk = next(k for k in m.ds if "phase_mask_all_hyd" in k)
            with quiet():
                C.calculate_phase_ratio(m, mk, [1], mask_allhyd=[1, 2])
                C.calculate_phase_ratio(m, mk, [1], mass_pr=True)
            cmp_model(m, d, "phase ratio")
    for k, v in su.items():
        ensure(repr(getattr(m, k)) == repr(v), "model-setup-kept", f"{k}: {v} -> {getattr(m, k)}")


@g3.case
def statistics(seed, nt, nz, N, kind):
    """the aggregation functions do not change what they are given"""
    from .stats import stat_inputs
    for nm, call, arrs in stat_inputs(seed, nt, nz, N, kind):
        b = [np.array(a, copy=True) for a in arrs]
        with quiet():
            call()
        for x, y in zip(arrs, b):
            same(np.asarray(x), y, "input-field-kept", nm, rtol=0.)


@g3.gen
def _(rng, tier):
    U = [("hPa", "kelvin", "meter"), ("Pa", "kelvin", "meter"), ("hPa", "degC", "meter"), ("hPa", "kelvin", "km")]
    for i in range(40 if tier == "quick" else 300):
        variant = [0, 1, 2, 3][i % 4]
        rad = bool((i // 4) % 2)
        o = {}
        if i % 6 == 5 and variant != 2:
            o["use_empiric_calc"] = True
        if i % 5 == 1:
            o["OD_from_sfc"] = bool(i % 2)
        if i % 7 == 2:
            o["hyd_types"] = ["cl", "ci"]
        if i % 3 == 1:
            o["convert_zeros_to_nan"] = True
        yield "inputs", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(3, 6)),
                             N=int(rng.integers(2, 5)), variant=variant, conv=bool(i % 3), rad=rad,
                             kinds=[["lidar"], ["radar"], ["lidar", "radar"], ["radar", "lidar"]][(i // 2) % 4],
                             opts=o, units=U[i % 4 if i % 3 else 0], finalize=bool(i % 4 == 3), vd=True,
                             stats=bool(i % 2),
                             extra=dict(lidar=dict(eta=0.35, ext_OD=0.3), radar=dict(ref_rng=1234.25)) if i % 5 < 3 else None)


@g3.gen
def _(rng, tier):
    for i in range(12 if tier == "quick" else 60):
        yield "statistics", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 3)), nz=int(rng.integers(2, 7)),
                                 N=int(rng.integers(1, 4)), kind=i % 2)
