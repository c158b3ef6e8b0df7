"""Run-time contracts of the subcolumn generator (S01-S07)."""
import itertools
import numpy as np
import xarray as xr
from ..common import group, ensure, same, Bad
from .. import models as M
from ..models import SynthModel, gen_subcols, quiet
import emc2.simulator.subcolumn as S

THR = 1e-18


def set_fields(m, fields):
    for k, v in (fields or {}).items():
        m.ds[k] = xr.DataArray(np.array(v, dtype=float), dims=m.ds[k].dims, attrs=m.ds[k].attrs)


def mk(seed, nt, nz, kind="mix", conv=True, hyd=None, fields=None, **kw):
    m = SynthModel(seed=seed, nt=nt, nz=nz, conv=conv, frac_kind=kind, hyd=hyd, **kw)
    set_fields(m, fields)
    return m


def count(m, h, cls, rad, N, thr=THR):
    f = m.ds[{"s": "fr_s_" if rad else "f_s_", "c": "fr_c_" if rad else "f_c_"}[cls] + h].values
    c = np.round(f * N).astype(int)
    if rad:
        c = np.where(m.ds[f"q_{cls}_{h}"].values > thr, c, 0)
    return c


def mask(m, name, N, nt, nz):
    v = m.ds[name]
    ensure(v.dims == ("subcolumn", "time", "height"), "dims", f"{name} has dims {v.dims}")
    v = v.values
    ensure(v.shape == (N, nt, nz), "shape", f"{name} {v.shape}")
    ensure((v == 0) | (v == 1), "binary", name)
    return v.astype(bool)


# ------------------------------------------------------------------ S01
g1 = group("S01")


@g1.case
def conv(seed, nt, nz, N, rad, kind="mix", thr=THR, via_N=True, fields=None):
    m = mk(seed, nt, nz, kind, fields=fields)
    with quiet():
        for i, h in enumerate(m.hyd_types):
            S.set_convective_sub_col_frac(m, h, N_columns=N if (i == 0 or via_N) else None, use_rad_logic=rad,
                                          q_trunc_thresh=thr)
    for h in m.hyd_types:
        a = mask(m, f"conv_frac_subcolumns_{h}", N, nt, nz)
        c = count(m, h, "c", rad, N, thr)
        same(a, np.arange(N)[:, None, None] < c[None], "marked-iff-index-below-count", f"class {h}, N={N}, rad={rad}:")
    ensure(m.num_subcolumns == N, "num_subcolumns", "")


@g1.gen
def g1a(rng, tier):
    n = 60 if tier == "quick" else 600
    for N in (2, 3, 4, 5, 7, 8, 10, 16, 20, 33, 50, 64, 100, 128, 150, 200):
        # one column per tie / rounding edge
        fr = sorted({(2 * k + 1) / (2 * N) + d for k in range(N) for d in (0., -1e-9, 1e-9)} | {0., 1.})
        fr = [f for f in fr if 0 <= f <= 1][:240]
        nt, nz = len(fr), 2
        fl = {}
        for h in ("cl", "pi"):
            for p in ("f_c_", "fr_c_"):
                fl[p + h] = [[f, f] for f in fr]
            fl["q_c_" + h] = [[1e-5, 0. if i % 3 == 0 else 1e-18] for i in range(nt)]
        yield "conv", dict(seed=N, nt=nt, nz=nz, N=N, rad=bool(N % 2), fields=fl)
    for i in range(n):
        yield "conv", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 7)), nz=int(rng.integers(1, 9)),
                           N=int(rng.integers(2, 70)), rad=bool(i % 2), kind=["mix", "tenths", "binary", "mix"][i % 4],
                           thr=[1e-18, 1e-18, 1e-6, 1e-14][i % 4], via_N=bool(i % 3))


# ------------------------------------------------------------------ S02 / S03
def strat_fields(m, N, rad, nt, nz, thr=THR):
    A = mask(m, "strat_frac_subcolumns_cl", N, nt, nz)
    B = mask(m, "strat_frac_subcolumns_ci", N, nt, nz)
    if m.process_conv:
        cv = (m.ds["conv_frac_subcolumns_cl"].values != 0) | (m.ds["conv_frac_subcolumns_ci"].values != 0)
    else:
        cv = np.zeros((N, nt, nz), bool)
    ca, cb = count(m, "cl", "s", rad, N, thr), count(m, "ci", "s", rad, N, thr)
    return A, B, cv, ca, cb


def check_S02(m, N, rad, nt, nz, thr=THR):
    A, B, cv, ca, cb = strat_fields(m, N, rad, nt, nz, thr)
    full = (ca == N) & (cb == N)
    free = (~cv).sum(axis=0)
    for nm, P, c in (("cl", A, ca), ("ci", B, cb)):
        want = np.where(full, N, np.minimum(c, free))
        want[:, -1] = 0
        same(P.sum(axis=0), want, f"count-{nm}", f"N={N} rad={rad}:")
        ensure(~(P & cv) | full[None], f"{nm}-avoids-convection", f"N={N} rad={rad}")


def check_S03(m, N, rad, nt, nz, thr=THR):
    A, B, cv, ca, cb = strat_fields(m, N, rad, nt, nz, thr)
    na, nb = A.sum(axis=0), B.sum(axis=0)
    ensure(((A & ~B).sum(axis=0) == 0) | (na > nb), "less-extensive-nested", f"N={N} rad={rad}")
    ensure(((B & ~A).sum(axis=0) == 0) | (nb > na), "less-extensive-nested", f"N={N} rad={rad}")
    V = (A | B)[:, :, 1:] & ~cv[:, :, :-1]
    full = ((ca == N) & (cb == N))[:, :-1]
    nv = np.where(full, (A | B)[:, :, 1:].sum(axis=0), V.sum(axis=0))
    for nm, P in (("cl", A), ("ci", B)):
        p = P[:, :, :-1]
        ov = np.where(full, (p & (A | B)[:, :, 1:]).sum(axis=0), (p & V).sum(axis=0))
        same(ov, np.minimum(p.sum(axis=0), nv), f"maximal-overlap-{nm}", f"N={N} rad={rad}:")


def _strat(chk, seed, nt, nz, N, rad, kind="mix", conv=True, thr=THR, parallel=False, chunk=None, fields=None, reps=1):
    m = mk(seed, nt, nz, kind, conv=conv, fields=fields)
    for r in range(reps):
        np.random.seed((seed + r) % 2**31)
        with quiet():
            if conv and r == 0:
                for h in ("cl", "ci"):
                    S.set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad, q_trunc_thresh=thr)
            S.set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, parallel=parallel, chunk=chunk,
                                          q_trunc_thresh=thr)
        chk(m, N, rad, nt, nz, thr)


def all_counts(N, levels):
    """every combination of (liquid, ice, convective) counts on `levels` levels, as fraction fields; top level empty"""
    one = list(itertools.product(range(N + 1), range(N + 1), range(N + 1)))
    cols = list(itertools.product(one, repeat=levels))
    return cols


def counts_case(cols, N, seed):
    nz = len(cols[0]) + 1
    fl = {}
    a = np.array(cols, float) / N      # (col, level, kind)
    top = np.zeros((len(cols), 1))
    top[::2] = 1.
    for p in ("f", "fr"):
        fl[f"{p}_s_cl"] = np.hstack([a[:, :, 0], top]).tolist()
        fl[f"{p}_s_ci"] = np.hstack([a[:, :, 1], top]).tolist()
        fl[f"{p}_c_cl"] = np.hstack([a[:, :, 2], 0 * top]).tolist()
        fl[f"{p}_c_ci"] = np.zeros((len(cols), nz)).tolist()
    for c in ("s", "c"):
        for h in ("cl", "ci"):
            fl[f"q_{c}_{h}"] = np.full((len(cols), nz), 1e-4).tolist()
    return dict(seed=seed, nt=len(cols), nz=nz, N=N, rad=bool(seed % 2), fields=fl)


def gen_strat(name):
    def gen(rng, tier):
        n = 60 if tier == "quick" else 800
        for i in range(n):
            nt = int(rng.integers(1, 6))
            yield name, dict(seed=int(rng.integers(1e9)), nt=nt, nz=int(rng.integers(2, 12)),
                             N=int(rng.integers(2, 41)), rad=bool(i % 2), kind=["mix", "tenths", "binary"][i % 3],
                             conv=bool((i // 2) % 4), thr=[1e-18, 1e-18, 1e-6, 1e-18][i % 4],
                             parallel=bool(i % 5 == 0), chunk=[None, 1, 2, 100][i % 4] if i % 5 == 0 else None, reps=2)

    def gen2(rng, tier):
        for N in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
            cols = all_counts(N, 2)
            rng.shuffle(cols)
            cap = 6000 if tier == "quick" else 60000
            cols = cols[:cap]
            for k in range(0, len(cols), 1500):
                yield name, counts_case([tuple(map(tuple, c)) for c in cols[k:k + 1500]], N, k // 1500)
    return gen, gen2


g2, g3 = group("S02"), group("S03")


@g2.case
def strat_counts(**p):
    _strat(check_S02, **p)


@g3.case
def strat_overlap(**p):
    _strat(check_S03, **p)


for _g, _n in ((g2, "strat_counts"), (g3, "strat_overlap")):
    for _x in gen_strat(_n):
        _g.gen(_x)

# ------------------------------------------------------------------ S04
g4 = group("S04")


@g4.case
def precip(seed, nt, nz, N, rad, is_conv=False, types=("pl", "pi"), kind="mix", conv=True, thr=THR, parallel=False,
           chunk=None, fields=None, via_N=True, hyd=None):
    conv = conv or is_conv
    m = mk(seed, nt, nz, kind, conv=conv, fields=fields, hyd=hyd)
    cls = "c" if is_conv else "s"
    with quiet():
        if conv:
            for h in ("cl", "ci"):
                S.set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad, q_trunc_thresh=thr)
        S.set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, parallel=False, q_trunc_thresh=thr)
        S.set_precip_sub_col_frac(m, is_conv=is_conv, use_rad_logic=rad, parallel=parallel, chunk=chunk,
                                  precip_types=list(types), q_trunc_thresh=thr)
    pre = "conv" if is_conv else "strat"
    P = [mask(m, f"{pre}_frac_subcolumns_{h}", N, nt, nz) for h in types]
    C = [count(m, h, cls, rad, N, thr) for h in types]
    cloud = (m.ds[f"{pre}_frac_subcolumns_cl"].values != 0) | (m.ds[f"{pre}_frac_subcolumns_ci"].values != 0)
    for h, p, c in zip(types, P, C):
        w = c.copy()
        w[:, -1] = 0
        same(p.sum(axis=0), w, f"count-{h}", f"N={N} rad={rad} is_conv={is_conv}:")
    for (h, p), (k, q) in itertools.combinations(zip(types, P), 2):
        ensure(((p & ~q).sum(axis=0) == 0) | ((q & ~p).sum(axis=0) == 0), "nested", f"{h},{k} N={N}")
    above = np.any(P, axis=0)[:, :, 1:]
    for h, p in zip(types, P):
        a = p[:, :, :-1]
        n = a.sum(axis=0)
        same((a & above).sum(axis=0), np.minimum(n, above.sum(axis=0)), f"overlying-first-{h}", f"N={N} rad={rad}:")
        cl = cloud[:, :, :-1]
        useclear = (a & ~above & ~cl).any(axis=0)
        leftcloudy = (cl & ~above & ~a).any(axis=0)
        ensure(~(useclear & leftcloudy), f"cloudy-before-clear-{h}", f"N={N} rad={rad} is_conv={is_conv}")


@g4.gen
def g4a(rng, tier):
    n = 110 if tier == "quick" else 1000
    H6 = ["cl", "ci", "pl", "pi", "sn"]
    for i in range(n):
        hyd = H6 if i % 6 == 0 else None
        types = ["pl", "pi", "sn"] if hyd else [["pl", "pi"], ["pl", "pi"], ["pi", "pl"], ["pl"], ["pi"]][i % 5]
        yield "precip", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 6)), nz=int(rng.integers(2, 12)),
                             N=int(rng.integers(2, 41)), rad=bool(i % 2), is_conv=bool((i // 2) % 2), types=types,
                             kind=["mix", "tenths", "binary"][i % 3], conv=bool((i // 4) % 2),
                             thr=[1e-18, 1e-18, 1e-6, 1e-18][i % 4], parallel=bool(i % 7 == 0),
                             chunk=[None, 1, 2, 3][i % 4] if i % 7 == 0 else None, hyd=hyd)


@g4.gen
def g4b(rng, tier):
    """small exhaustive: counts of 2 classes on 2 levels x cloud counts"""
    for N in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        cols = list(itertools.product(range(N + 1), repeat=5))
        rng.shuffle(cols)
        cols = [tuple(c) for c in cols][:3000 if tier == "quick" else 8000]
        for isc in (False, True):
            a = np.array(cols, float) / N
            z = np.zeros(len(cols))
            fl = {}
            c = "c" if isc else "s"
            for p in ("f", "fr"):
                fl[f"{p}_{c}_pl"] = np.stack([a[:, 0], a[:, 1], z], 1).tolist()
                fl[f"{p}_{c}_pi"] = np.stack([a[:, 2], a[:, 3], z + 1], 1).tolist()
                for cc in ("s", "c"):
                    fl[f"{p}_{cc}_cl"] = np.stack([a[:, 4], z, z], 1).tolist()
                    fl[f"{p}_{cc}_ci"] = np.stack([z, a[:, 4], z], 1).tolist()
            for cc in ("s", "c"):
                for h in M.HYD:
                    fl[f"q_{cc}_{h}"] = np.full((len(cols), 3), 1e-4).tolist()
            yield "precip", dict(seed=N, nt=len(cols), nz=3, N=N, rad=bool(N % 2), is_conv=isc, conv=isc, fields=fl)


# ------------------------------------------------------------------ S05 / S06
def check_q(m, N, rad, thr, hyd, clsset, nt, nz, cl_var):
    for cls in clsset:
        pre = {"s": "strat", "c": "conv"}[cls]
        for h in hyd:
            occ = m.ds[f"{pre}_frac_subcolumns_{h}"].values != 0
            q = m.ds[f"q_{cls}_{h}"].values
            f = m.ds[("fr_" if rad else "f_") + cls + "_" + h].values.astype(float)
            if rad:
                f = np.where(q > thr, f, 0)
            with np.errstate(all="ignore"):
                mean = np.where(q > thr, q / f, 0.)
                n = m.ds[f"n_{h}"].values / f
            da = m.ds[f"{pre}_q_subcolumns_{h}"]
            ensure(da.dims == ("subcolumn", "time", "height"), "dims", str(da.dims))
            got = da.values
            if not (cl_var and h == "cl" and cls == "s" and not rad):
                same(got, np.where(occ, mean[None], 0.), f"q-{pre}", f"class {h} N={N} rad={rad}:", rtol=1e-12)
            ensure(np.isfinite(got) & (got >= 0), f"q-{pre}-finite-nonneg", f"class {h} N={N} rad={rad}")
            if cls == "s":
                got = m.ds[f"strat_n_subcolumns_{h}"].values
                same(got, np.where(occ, n[None], 0.), "n-strat", f"class {h} N={N} rad={rad}:", rtol=1e-12)
                ensure(np.isfinite(got) & (got >= 0), "n-finite-nonneg", f"class {h} N={N} rad={rad}")


g5 = group("S05")


@g5.case
def q_means(seed, nt, nz, N, rad, kind="mix", conv=True, thr=THR, qc_flag=False, parallel=False, chunk=None,
            fields=None):
    m = mk(seed, nt, nz, kind, conv=conv, fields=fields)
    hyd = m.hyd_types
    with quiet():
        if conv:
            for h in hyd:
                S.set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=rad, q_trunc_thresh=thr)
        S.set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=rad, parallel=False, q_trunc_thresh=thr)
        S.set_precip_sub_col_frac(m, is_conv=False, use_rad_logic=rad, parallel=False, q_trunc_thresh=thr)
        if conv:
            S.set_precip_sub_col_frac(m, is_conv=True, use_rad_logic=rad, parallel=False, q_trunc_thresh=thr)
        for h in hyd:
            S.set_q_n(m, h, is_conv=False, qc_flag=qc_flag and h == "cl", use_rad_logic=rad, parallel=parallel,
                      chunk=chunk, q_trunc_thresh=thr)
            if conv:
                S.set_q_n(m, h, is_conv=True, qc_flag=qc_flag and h == "cl", use_rad_logic=rad, parallel=parallel,
                          chunk=chunk, q_trunc_thresh=thr)
    check_q(m, N, rad, thr, hyd, ("s", "c") if conv else ("s",), nt, nz, qc_flag)


@g5.gen
def g5a(rng, tier):
    n = 80 if tier == "quick" else 700
    for i in range(n):
        yield "q_means", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 5)), nz=int(rng.integers(2, 9)),
                              N=int(rng.integers(2, 33)), rad=bool(i % 2), kind=["mix", "tenths", "binary"][i % 3],
                              conv=bool((i // 2) % 3), thr=[1e-18, 1e-18, 1e-6, 1e-18][i % 4],
                              qc_flag=bool((i // 2) % 2), parallel=bool(i % 7 == 0),
                              chunk=[None, 1, 2][i % 3] if i % 7 == 0 else None)


g6 = group("S06")


@g6.case
def cl_variability(seed, nt, nz, N, kind="mix", irv=None, relvar=False, parallel=False, chunk=None, thr=THR, reps=3,
                   q_scale=1., conv=True, fields=None):
    m = mk(seed, nt, nz, kind, conv=conv, relvar=relvar, q_scale=q_scale, fields=fields)
    with quiet():
        if conv:
            for h in m.hyd_types:
                S.set_convective_sub_col_frac(m, h, N_columns=N, use_rad_logic=False)
        S.set_stratiform_sub_col_frac(m, N_columns=N, use_rad_logic=False, parallel=False)
    occ = m.ds["strat_frac_subcolumns_cl"].values != 0
    q, f = m.ds["q_s_cl"].values, m.ds["f_s_cl"].values
    k = occ.sum(axis=0)
    with np.errstate(all="ignore"):
        mean = np.where((q > thr) & (f > 0), q / f, 0.)
    for r in range(reps):
        np.random.seed((seed + 17 * r) % 2**31)
        with quiet():
            S.set_q_n(m, "cl", is_conv=False, qc_flag=True, inv_rel_var=irv, use_rad_logic=False, parallel=parallel,
                      chunk=chunk, q_trunc_thresh=thr)
        x = m.ds["strat_q_subcolumns_cl"].values
        ensure(np.isfinite(x), "finite", f"N={N}")
        ensure(x >= -1e-12 * mean[None] * N, "non-negative", f"N={N} irv={irv}")
        ensure((x == 0) | occ, "zero-without-cloud", f"N={N}")
        same(x.sum(axis=0), mean * k, "sum-is-mean-times-count", f"N={N} irv={irv}:", rtol=1e-9)
        one = (k == 1)[None] & occ
        same(np.where(one, x, 0), np.where(one, mean[None], 0), "single-gets-mean", "", rtol=1e-12)
        # every subcolumn holding cloud liquid gets its share once: with a positive mean all but unlucky draws are > 0
    n = m.ds["strat_n_subcolumns_cl"].values
    with np.errstate(all="ignore"):
        same(n, np.where(occ, (m.ds["n_cl"].values / f)[None], 0.), "number", "", rtol=1e-12)


@g6.gen
def g6a(rng, tier):
    n = 80 if tier == "quick" else 700
    for i in range(n):
        yield "cl_variability", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 6)), nz=int(rng.integers(2, 9)),
                                     N=int(rng.integers(2, 41)), kind=["mix", "tenths", "binary", "one"][i % 4],
                                     irv=[None, 1.0, 0.05, 4.0, 2][i % 5], relvar=bool(i % 3 == 0),
                                     parallel=bool(i % 4 == 0), chunk=[None, 1, 2, 3][(i // 4) % 4] if i % 4 == 0 else None,
                                     thr=[1e-18, 1e-6][i % 2], q_scale=[1., 1e-3, 30.][i % 3], conv=bool(i % 3))


# ------------------------------------------------------------------ S07
g7 = group("S07")


def determ_names(m):
    """generated fields that involve no random draw"""
    return [v for v in m.ds.variables if "subcol" in v and v != "subcolumn"]


@g7.case
def modes_subcol(seed, nt, nz, N, rad, parallel, chunk, conv=True):
    """per-column totals (which involve no random draw) sit at their own time index in every execution mode"""
    m = mk(seed, nt, nz, "mix", conv=conv)
    gen_subcols(m, N, rad, seed=seed, parallel=parallel, chunk=chunk)
    check_S02(m, N, rad, nt, nz)
    for h in ("pl", "pi"):
        for cls in ("s", "c") if conv else ("s",):
            p = mask(m, f"{'strat' if cls == 's' else 'conv'}_frac_subcolumns_{h}", N, nt, nz)
            w = count(m, h, cls, rad, N)
            w[:, -1] = 0
            same(p.sum(axis=0), w, f"precip-count-at-own-time", f"{h} parallel={parallel} chunk={chunk}:")
    # sub-grid variability conserves the column's own water
    occ = m.ds["strat_frac_subcolumns_cl"].values != 0
    q = m.ds["q_s_cl"].values
    f = m.ds["fr_s_cl" if rad else "f_s_cl"].values
    with np.errstate(all="ignore"):
        mean = np.where((q > THR) & (f > 0), q / f, 0.)
    same(m.ds["strat_q_subcolumns_cl"].values.sum(axis=0), mean * occ.sum(axis=0), "q-total-at-own-time",
         f"parallel={parallel} chunk={chunk} nt={nt}:", rtol=1e-9)
    check_q(m, N, rad, THR, m.hyd_types, ("s", "c") if conv else ("s",), nt, nz, True)


@g7.case
def modes_moments(seed, nt, nz, N, kind, parallel, chunk, approach="micro", family="ModelE", scheme="MG2", conv=True):
    """radar / lidar outputs on identical subcolumns are identical in every execution mode"""
    from emc2.simulator import radar_moments as R, lidar_moments as L
    outs = []
    for (par, ch) in ((False, None), (parallel, chunk)):
        m = mk(seed, nt, nz, "mix", conv=conv, family=family, scheme=scheme)
        gen_subcols(m, N, approach == "radiation", seed=seed)
        inst = M.radar() if kind == "radar" else M.lidar()
        fn = R.calc_radar_moments if kind == "radar" else L.calc_lidar_moments
        cs = [False, True] if conv else [False]
        with quiet():
            for c in cs:
                kw = dict(parallel=par, chunk=ch, use_rad_logic=approach == "radiation",
                          use_empiric_calc=approach == "empirical")
                fn(inst, m, c, **kw)
        outs.append({v: m.ds[v].values for v in m.ds.variables if "sub_col" in v})
    a, b = outs
    ensure(set(a) == set(b), "same-fields", str(set(a) ^ set(b)))
    for v in a:
        same(b[v], a[v], "mode-independent", f"{kind} {approach} {v} parallel={parallel} chunk={chunk} nt={nt}:")


@g7.gen
def g7a(rng, tier):
    n = 40 if tier == "quick" else 300
    for i in range(n):
        nt = int(rng.integers(1, 8))
        yield "modes_subcol", dict(seed=int(rng.integers(1e9)), nt=nt, nz=int(rng.integers(2, 7)),
                                   N=int(rng.integers(2, 24)), rad=bool(i % 3 == 0), parallel=bool(i % 6),
                                   chunk=[None, 1, 2, 3, max(nt - 1, 1), nt, nt + 1, 50][i % 8], conv=bool(i % 3))


@g7.gen
def g7b(rng, tier):
    n = 24 if tier == "quick" else 160
    for i in range(n):
        nt = int(rng.integers(2, 8))
        fam, sch = [("ModelE", "MG2"), ("CESM", "MG2"), ("P3", "P3"), ("ModelE", "nssl")][(i // 2) % 4]
        yield "modes_moments", dict(seed=int(rng.integers(1e9)), nt=nt, nz=int(rng.integers(2, 6)), N=int(rng.integers(2, 6)),
                                    kind=["radar", "lidar"][i % 2], parallel=True,
                                    chunk=[1, 2, 3, max(nt - 1, 1), nt, nt + 1, 50, None][i % 8],
                                    approach=["micro", "micro", "micro", "radiation"][(i // 8) % 4],
                                    family=fam, scheme=sch, conv=bool(i % 3) and sch != "P3")
