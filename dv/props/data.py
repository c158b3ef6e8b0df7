"""Run-time contracts of data handling (D01-D06)."""
import os
import tempfile
import numpy as np
import pandas as pd
import xarray as xr
from ..common import group, ensure, same
from .. import models as M
from ..models import SynthModel, gen_subcols, quiet, Model
from .lidar import SUBD, prepared, run_lidar
from .radar import run_radar, make
import emc2.simulator.attenuation as AT
import emc2.simulator.classification as C
import emc2.simulator.lidar_moments as L
import emc2.simulator.radar_moments as RM
import emc2.io as IO
from emc2.core.model import E3SMv3


class Bare(Model):
    def __init__(self, ds, **kw):
        super().__init__()
        self.ds = ds
        for k, v in kw.items():
            setattr(self, k, v)


# ---------------------------------------------------------------- D01
g1 = group("D01")


def regional(seed, nt, nlat, nlon, nz, order, lon=True, names=("time", "lat", "lon", "lev")):
    r = np.random.default_rng(seed)
    t, la, lo, h = names
    full = {t: nt, h: nz, la: nlat}
    if lon:
        full[lo] = nlon
    dims = list(full)
    dims = [dims[i] for i in np.random.default_rng(order).permutation(len(dims))]
    ds = xr.Dataset(coords={t: np.datetime64("2020-01-01") + np.arange(nt) * np.timedelta64(3600, "s"),
                            la: np.sort(r.uniform(-80, 80, nlat)) if seed % 2 else np.linspace(60, 70, nlat)[::-1]})
    if lon:
        ds = ds.assign_coords({lo: np.sort(r.uniform(0, 350, nlon))})
        ds[lo].attrs.update(units="degrees_east", long_name="longitude")
    if seed % 3:
        ds = ds.assign_coords({h: np.arange(nz) * 10. + 5})
    ds[t].attrs.update(long_name="time of output")
    ds[la].attrs.update(units="degrees_north", long_name="latitude")
    ds["A"] = xr.DataArray(r.random([full[d] for d in dims]), dims=dims, attrs={"units": "kg/kg", "long_name": "a"})
    d2 = dims[::-1]
    b = r.random([full[d] for d in d2])
    ds["B"] = xr.DataArray(np.where(b < 0.2, np.nan, b), dims=d2, attrs={"units": "m"})
    ds["S"] = xr.DataArray(r.random((nt, nlat) + ((nlon,) if lon else ())), dims=(t, la) + ((lo,) if lon else ()),
                           attrs={"units": "hPa"})
    ds["P"] = xr.DataArray(r.random(nz), dims=h, attrs={"units": "1"})
    m = Bare(ds, time_dim=t, height_dim=h, lat_dim=la, lon_dim=lo)
    return m


@g1.case
def stack_roundtrip(seed, nt, nlat, nlon, nz, order, lon, nsub, names, squeeze=True):
    m = regional(seed, nt, nlat, nlon, nz, order, lon, tuple(names))
    t, la, lo, h = names
    ref = m.ds.copy(deep=True)
    with quiet():
        m.check_and_stack_time_lat_lon()
    stacked = m.stacked_time_dim is not None
    ensure(stacked == (nlat > 1 or (lon and nlon > 1)), "stacks-regional-output", f"{nlat}x{nlon}")
    td = m.time_dim
    ensure(m.ds["A"].dims == (td, h), "time-by-height-order", str(m.ds["A"].dims))
    ncol = m.ds.sizes[td]
    # a field made while stacked: encodes its own column, via the stacked copies of other fields
    m.num_subcolumns = nsub
    a = m.ds["A"].values
    m.ds["made"] = xr.DataArray(np.stack([a * (i + 1) + i for i in range(nsub)]), dims=("subcolumn", td, h),
                                attrs={"units": "x"})
    m.ds["made2"] = xr.DataArray(a + 7., dims=(td, h))
    if not stacked:
        return None
    with quiet():
        m.unstack_time_lat_lon(squeeze_single_dims=squeeze)
    ensure(m.time_dim == t and m.stacked_time_dim is None, "time-dimension-restored")
    ds = m.ds
    if squeeze and nt == 1:
        ref2 = ref.squeeze(t)
    else:
        ref2 = ref
    hd = [d for d in (t, la, lo, h) if d in ref2.dims]
    for n in ("A", "B", "S", "P"):
        want = ref2[n]
        got = ds[n]
        ensure(set(want.dims) <= set(got.dims), "dims-restored", f"{n}: {got.dims} from {want.dims}")
        extra = [d for d in got.dims if d not in want.dims]
        ensure(all(d in hd for d in extra), "dims-restored", f"{n}: {got.dims}")
        w = want.broadcast_like(got.reset_coords(drop=True)) if extra else want
        same(got.transpose(*w.dims).values, w.values, "values-restored", f"{n}:")
        ensure(got.attrs == want.attrs, "attributes-restored", f"{n}: {got.attrs} from {want.attrs}")
    for d in (t, la) + ((lo,) if lon else ()) + ((h,) if h in ref.coords else ()):
        if d in ref2.dims:
            ensure(d in ds.coords and ds[d].dims == (d,), "coordinates-restored", d)
            ensure(np.array_equal(ds[d].values, ref2[d].values), "coordinates-restored", d)
            ensure(ds[d].attrs == ref[d].attrs, "coordinate-attributes-restored", f"{d}: {ds[d].attrs} from {ref[d].attrs}")
    A = ref2["A"]
    made = ds["made"]
    for i in range(nsub):
        x = made.isel(subcolumn=i) if "subcolumn" in made.dims else made
        same(x.transpose(*A.dims).values, A.values * (i + 1) + i, "made-while-stacked", f"subcolumn {i}:")
    same(ds["made2"].transpose(*A.dims).values, A.values + 7., "made-while-stacked")
    ensure(made.attrs == {"units": "x"}, "attributes-restored", "made")
    o = [d for d in ("subcolumn", t, h) if d in made.dims]
    ensure(list(made.dims)[:len(o)] == o, "time-by-height-order", str(made.dims))


@g1.gen
def _(rng, tier):
    for i in range(140 if tier == "quick" else 1400):
        nlat, nlon = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        yield "stack_roundtrip", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 5)), nlat=nlat, nlon=nlon,
                                      nz=int(rng.integers(1, 5)), order=int(rng.integers(0, 24)), lon=bool(i % 4),
                                      nsub=int(rng.integers(1, 4)), squeeze=bool(i % 3),
                                      names=[["time", "lat", "lon", "lev"], ["Time", "south_north", "west_east", "bottom_top"],
                                             ["time", "y", "x", "height"]][i % 3])


# ---------------------------------------------------------------- D02
g2 = group("D02")


def simulated(seed, nt, nz, N, conv, which, approach):
    m = prepared(seed, nt, nz, N, approach == "radiation", conv)
    m.ds["strat_extra"] = xr.DataArray(np.random.default_rng(seed).random((nt, nz)), dims=SUBD[1:])
    before = m.ds.copy(deep=True)
    cl = (False, True) if m.process_conv else (False,)
    with quiet():
        if which in ("lidar", "both"):
            for c in cl:
                run_lidar(m, M.lidar(), approach, True, is_conv=c)
            L.calc_total_alpha_beta(m)
            L.calc_LDR_and_ext(m)
            C.lidar_classify_phase(M.lidar(), m)
            C.lidar_emulate_cosp_phase(M.lidar(), m, eta=0.7, output_ATB=True, hyd_types=m.hyd_types)
            C.calculate_phase_ratio(m, "phase_mask_HSRL_all_hyd", [1])
            C.calculate_phase_ratio(m, "phase_mask_HSRL_all_hyd", 1, mass_pr=True, mpr_subcolmod=True)
        if which in ("radar", "both"):
            for c in cl:
                run_radar(m, M.radar(), approach, True, is_conv=c)
            AT.calc_radar_Ze_min(M.radar(), m)
            RM.calc_total_reflectivity(m, detect_mask=True)
            C.radar_classify_phase(M.radar(), m)
    return m, before


@g2.case
def save_load(seed, nt, nz, N, conv, which, approach):
    m, _ = simulated(seed, nt, nz, N, conv, which, approach)
    fresh = SynthModel(seed=seed, nt=nt, nz=nz, conv=conv)
    fresh.ds["strat_extra"] = m.ds["strat_extra"].copy(deep=True)
    own = fresh.ds.copy(deep=True)
    ref = m.ds.copy(deep=True)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "sub.nc")
        with quiet():
            m.subcolumns_to_netcdf(p)
            fresh.load_subcolumns_from_netcdf(p)
            got = fresh.ds.load()
        ensure(set(ref.variables) <= set(m.ds.variables), "saving-leaves-model")
        for k in ref.variables:
            same(m.ds[k].values, ref[k].values, "saving-leaves-model", k)
        want = [k for k in ref.data_vars if k not in ("mu", "lambda", "N_0") and ("subcolumn" in ref[k].dims or
                any(s in k for s in ("sub_col", "_mask", "Ze_min", "_ext", "_mpr", "_fpr")))]
        ensure(len(want) > 20, "harness")
        for k in want:
            ensure(k in got, "field-restored", f"{k} is not in the loaded model")
            ensure(got[k].dims == ref[k].dims, "dims-restored", f"{k}: {got[k].dims} from {ref[k].dims}")
            same(got[k].values, ref[k].values, "values-restored", k, rtol=0)
        for k in own.variables:
            ensure(k in got.variables, "other-fields-kept", k)
            same(got[k].values, own[k].values, "other-fields-kept", k, rtol=0)
            ensure(got[k].dims == own[k].dims, "other-fields-kept", k)
        ensure(fresh.num_subcolumns == N, "subcolumns-restored")


@g2.gen
def _(rng, tier):
    for i in range(24 if tier == "quick" else 160):
        yield "save_load", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(2, 6)),
                                N=int(rng.integers(2, 6)), conv=bool((i // 2) % 2), which=["both", "lidar", "radar"][i % 3],
                                approach=["radiation", "micro", "empirical"][(i // 3) % 3])


# ---------------------------------------------------------------- D03
g3 = group("D03")


@g3.case
def crop_time(seed, nt, nz, mode, order=0, alt=False, freq=1800):
    r = np.random.default_rng(seed)
    t0 = np.datetime64("2020-03-01T00:00:00", "ns")
    tt = t0 + np.cumsum(r.integers(1, 5, nt)).astype("timedelta64[ns]") * np.int64(freq * 10**9)
    if order == 1:
        tt = tt[r.permutation(nt)]
    if order == 2 and nt > 1:
        tt[r.integers(nt)] = tt[0]
    ds = xr.Dataset()
    dim = "Time" if alt else "time"
    ds["A"] = xr.DataArray(r.random((nt, nz)), dims=(dim, "z"), attrs={"units": "m"})
    ds["B"] = xr.DataArray(r.random((nz, nt)), dims=("z", dim))
    ds["C"] = xr.DataArray(r.random(nz), dims="z")
    ds["I"] = xr.DataArray(np.arange(nt), dims=dim)
    if alt:
        ds["XTIME"] = xr.DataArray(tt, dims=dim)
    else:
        ds = ds.assign_coords(time=tt)
    if mode == "exact":
        a, b = np.sort(r.choice(tt, 2))
    elif mode == "none":
        a, b = tt.max() + np.timedelta64(1, "s"), tt.max() + np.timedelta64(9, "s")
    elif mode == "before":
        a, b = tt.min() - np.timedelta64(9, "s"), tt.min()
    elif mode == "all":
        a, b = tt.min(), tt.max() + np.timedelta64(1, "ns")
    else:
        x = np.sort(r.integers(0, int((tt.max() - tt.min()) / np.timedelta64(1, "s")) + 20, 2)) - 10
        a, b = tt.min() + x[0] * np.timedelta64(1, "s"), tt.min() + x[1] * np.timedelta64(1, "s")
    m = Bare(ds.copy(deep=True), time_dim=dim)
    with quiet():
        if alt:
            m._crop_time_range((a, b), alter_coord="XTIME")
        else:
            m._crop_time_range([a, b] if seed % 2 else np.array([a, b]))
    keep = np.flatnonzero((tt >= a) & (tt < b))
    if len(keep) == 0:
        keep = np.arange(nt)
    ensure(set(m.ds.variables) == set(ds.variables), "all-fields-kept")
    same(m.ds["I"].values, keep, "exactly-the-requested-steps", f"[{a}, {b}) of {tt}:")
    same(m.ds["A"].values, ds["A"].values[keep], "data-kept-in-order")
    same(m.ds["B"].values, ds["B"].values[:, keep], "data-kept-in-order")
    same(m.ds["C"].values, ds["C"].values, "data-kept-in-order")
    same(m.ds["XTIME" if alt else "time"].values.astype("int64"), tt[keep].astype("int64"), "data-kept-in-order", "time")


@g3.case
def crop_xy(seed, nx, ny, nt, mode):
    r = np.random.default_rng(seed)
    x, y = np.sort(r.uniform(-5e4, 5e4, nx)), np.sort(r.uniform(-5e4, 5e4, ny))
    ds = xr.Dataset(coords={"x": x, "y": y})
    ds["A"] = xr.DataArray(r.random((nt, ny, nx)), dims=("time", "y", "x"))
    ds["B"] = xr.DataArray(r.random((nx, ny)), dims=("x", "y"))
    ds["T"] = xr.DataArray(r.random(nt), dims="time")
    if mode == "exact":
        bx, by = np.sort(r.choice(x, 2)), np.sort(r.choice(y, 2))
    elif mode == "all":
        bx, by = (x[0], x[-1]), (y[0], y[-1])
    else:
        bx, by = np.sort(r.uniform(-6e4, 6e4, 2)), np.sort(r.uniform(-6e4, 6e4, 2))
    m = Bare(ds.copy(deep=True))
    with quiet():
        m._crop_bounding_box_x_y((bx[0], by[0], bx[1], by[1]))
    ix, iy = np.flatnonzero((x >= bx[0]) & (x <= bx[1])), np.flatnonzero((y >= by[0]) & (y <= by[1]))
    ensure(np.array_equal(m.ds["x"].values, x[ix]) and np.array_equal(m.ds["y"].values, y[iy]), "exactly-the-points-in-bounds",
           f"x in {bx} y in {by}")
    same(m.ds["A"].values, ds["A"].values[:, iy][:, :, ix], "data-kept-in-order")
    same(m.ds["B"].values, ds["B"].values[ix][:, iy], "data-kept-in-order")
    same(m.ds["T"].values, ds["T"].values, "data-kept-in-order")


@g3.gen
def _(rng, tier):
    for i in range(150 if tier == "quick" else 1500):
        yield "crop_time", dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 12)), nz=int(rng.integers(1, 4)),
                                mode=["exact", "random", "none", "before", "all"][i % 5], order=(i // 5) % 3, alt=bool(i % 4 == 0),
                                freq=[1800, 1, 86400][i % 3])


@g3.gen
def _(rng, tier):
    for i in range(80 if tier == "quick" else 800):
        yield "crop_xy", dict(seed=int(rng.integers(1e9)), nx=int(rng.integers(1, 9)), ny=int(rng.integers(1, 9)),
                              nt=int(rng.integers(1, 3)), mode=["exact", "random", "all"][i % 3])


# ---------------------------------------------------------------- D04
g4 = group("D04")
PI4 = 4 * np.pi
MIE = [("wavelength", 1), ("p_diam", 2e-6), ("size_parameter", 1), ("compre_real", 1), ("compre_im", 1), ("scat_p", 1e-12),
       ("alpha_p", 1e-12), ("beta_p", 1e-12 / PI4), ("scat_eff", 1), ("ext_eff", 1), ("backscat_eff", 1 / PI4)]


def single_cols(radar, typ):
    c = [("frequency" if radar else "wavelength", 1), ("p_diam", 1e-6), ("p_diam_eq_A", 1e-6), ("p_diam_eq_V", 1e-6)]
    if typ == "mDAD":
        c.append(("p_diam_eq_VdivA", 1e-6))
    c += [("V", 1e-18), ("A", 1e-12), ("beta_p", 1e-12), ("scat_p", 1e-12), ("alpha_p", 1e-12)]
    if typ == "C6":
        c.append(("beta_p_cross", 1e-12))
    return c


UNITS = {"p_diam": "meters", "p_diam_eq_A": "meters", "p_diam_eq_V": "meters", "p_diam_eq_VdivA": "meters", "V": "meters^3",
         "A": "meters^2", "beta_p": "meters^2", "scat_p": "meters^2", "alpha_p": "meters^2", "beta_p_cross": "meters^2",
         "wavelength": "microns", "frequency": "GHz", "backscat_eff": "sr^-1", "r_e": "microns", "D_e": "microns",
         "Q_scat": "1", "Q_ext": "1", "Q_back": "sr^-1", "Q_back_cross": "sr^-1", "LDR": "1", "lidar_ratio": "sr",
         "size_parameter": "1", "compre_real": "1", "compre_im": "1", "scat_eff": "1", "ext_eff": "1"}
BULK = {"C6": ["r_e", "Q_scat", "Q_ext", "Q_back", "Q_back_cross", "LDR", "lidar_ratio"],
        "mDAD": ["D_e", "Q_scat", "Q_ext", "Q_back", "lidar_ratio"]}


@g4.case
def table(seed, n, kind, typ, radar, sort=False, default=False):
    r = np.random.default_rng(seed)
    cols = {"mie": MIE, "single": single_cols(radar, typ), "bulk": [(k, 1) for k in BULK[typ]]}[kind]
    a = 10 ** r.uniform(-8, 4, (n, len(cols)))
    a = np.where(r.random(a.shape) < 0.05, 0., a)
    a = np.where(r.random(a.shape) < 0.05, -a, a)
    sep = "  " if kind == "mie" else ","
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "t.dat")
        with open(p, "w") as f:
            for row in a:
                f.write(sep.join(repr(float(x)) for x in row) + "\n")
        with quiet():
            if kind == "mie":
                ds = IO.load_mie_file(p)
            elif kind == "single":
                ds = IO.load_scat_file(p, radar) if default and typ == "C6" else IO.load_scat_file(p, radar, param_type=typ)
            else:
                ds = IO.load_bulk_scat_file(p) if default and typ == "C6" else IO.load_bulk_scat_file(p, param_type=typ)
    names = [c[0] for c in cols] + (["r_e"] if kind == "bulk" and typ == "mDAD" else [])
    ensure(set(ds.data_vars) == set(names), "columns-match-format", f"{sorted(ds.data_vars)}")
    for j, (k, f) in enumerate(cols):
        same(ds[k].values, a[:, j] * f, "converted-to-SI" if f != 1 else "other-columns-unchanged", f"{kind} {typ}: {k}", rtol=1e-12)
    if "D_e" in names:
        same(ds["r_e"].values, a[:, 0] / 2, "converted-to-SI", "r_e is half of D_e", rtol=1e-12)
    for k in names:
        ensure(ds[k].attrs.get("units") == UNITS[k], "units-label-matches", f"{kind} {typ}: {k} is labelled {ds[k].attrs.get('units')}")


@g4.gen
def _(rng, tier):
    for i in range(120 if tier == "quick" else 1000):
        yield "table", dict(seed=int(rng.integers(1e9)), n=int(rng.integers(1, 30)), kind=["mie", "single", "bulk", "single"][i % 4],
                            typ=["C6", "mDAD"][(i // 4) % 2], radar=bool((i // 8) % 2), default=bool(i % 3))


# ---------------------------------------------------------------- D05
g5 = group("D05")


@g5.case
def clamp(seed, shape, gshape, kind):
    r = np.random.default_rng(seed)
    grid = r.uniform(-100, 900, gshape)
    if kind == 1:
        grid = np.where(r.random(gshape) < 0.4, np.nan, grid)
        if np.isnan(grid).all():
            grid.ravel()[0] = 3.
    if kind == 2:
        grid = np.sort(grid.ravel())[::-1]
    if kind == 3:
        grid = np.full(gshape, 5.)
    x = r.uniform(-400, 1300, shape)
    lo, hi = np.nanmin(grid), np.nanmax(grid)
    x = np.where(r.random(shape) < 0.2, r.choice([lo, hi, np.nextafter(hi, np.inf), np.nextafter(lo, -np.inf)], shape), x)
    x = np.where(r.random(shape) < 0.2, r.choice([np.nan, np.inf, -np.inf], shape), x)
    x0, g0 = x.copy(), grid.copy()
    got = Model.set_array_to_valid_range(x, grid)
    same(x, x0, "inputs-unchanged")
    same(grid, g0, "inputs-unchanged")
    want = np.where(np.isnan(x0), np.nan, np.minimum(np.maximum(x0, lo), hi))
    same(got, want, "clamped-to-table-range", f"[{lo}, {hi}]:", rtol=0)
    same(Model.set_array_to_valid_range(got, grid), got, "idempotent", "", rtol=0)


def p3_lut(r, sizes):
    ax = {v: np.sort(r.uniform(lo, hi, n)) for (v, lo, hi), n in zip((("Fr", 0., 1.), ("rho_r", 50., 900.), ("q_norm", 0., 3.)), sizes)}
    t = xr.Dataset(coords=ax)
    t["lambda"] = (("Fr", "rho_r", "q_norm"), 10 ** r.uniform(2.5, 5., sizes))
    return t


@g5.case
def p3_limits(seed, shape, sizes, interp, limit):
    """each P3 input goes to the range of its own table axis; the slope is read from the table there"""
    from scipy.interpolate import RegularGridInterpolator
    r = np.random.default_rng(seed)
    t = p3_lut(r, sizes)
    m = object.__new__(E3SMv3)
    m.ds = xr.Dataset()
    raw, want = {}, {}
    for n, v, lo, hi in (("Fr", "Fr", -.5, 1.5), ("rho_r", "rho_r", 0., 1100.), ("qi_norm", "q_norm", -1., 4.)):
        a, b = float(t[v].min()), float(t[v].max())
        x = r.uniform(lo, hi, shape)
        x = np.where(r.random(shape) < .3, r.choice([a, b, np.nextafter(b, np.inf), np.nan], shape), x)
        m.ds[n] = (("time", "height"), x)
        raw[n], want[n] = x.copy(), np.where(np.isnan(x), np.nan, np.minimum(np.maximum(x, a), b))
    t0 = t.copy(deep=True)
    if interp:
        m.interp_p3_ice_psd_params_to_grid(t, limit_input_data_to_lut_rng=limit)
        f = RegularGridInterpolator((t["Fr"].values, t["rho_r"].values, t["q_norm"].values), t["lambda"].values, bounds_error=False)
        lam = f(tuple((want if limit else raw).values()))
        same(m.ds["lambda_ice"].values, lam, "slope-from-clamped-inputs", "")
        for n in ("lambda_ice", "mu_ice", "N0_norm_ice"):
            ensure(m.ds[n].dims == ("time", "height"), "dims", n)
    else:
        got = m.limit_input_data_to_p3_lut_range(t)
        for (n, w), g in zip(want.items(), got):
            same(g, w, "clamped-to-table-range", n, rtol=0)
    for n, x in raw.items():
        same(m.ds[n].values, x, "inputs-unchanged", n, rtol=0)
    for n in t0.variables:
        same(t[n].values, t0[n].values, "inputs-unchanged", "table " + n, rtol=0)


@g5.gen
def _(rng, tier):
    for i in range(40 if tier == "quick" else 400):
        yield "p3_limits", dict(seed=int(rng.integers(1e9)), shape=[int(x) for x in rng.integers(1, 5, 2)],
                                sizes=[int(x) for x in rng.integers(2, 6, 3)], interp=bool(i % 2), limit=bool(i % 4 < 3))


@g5.gen
def _(rng, tier):
    for i in range(200 if tier == "quick" else 2000):
        nd = int(rng.integers(1, 4))
        yield "clamp", dict(seed=int(rng.integers(1e9)), shape=[int(x) for x in rng.integers(1, 6, nd)],
                            gshape=[int(x) for x in rng.integers(1, 7, int(rng.integers(1, 3)))], kind=i % 4)


# ---------------------------------------------------------------- D06
g6 = group("D06")


@g6.case
def finalise(seed, nt, nz, N, conv, which, approach, more):
    m, _ = simulated(seed, nt, nz, N, conv, which, approach)
    r = np.random.default_rng(seed)
    m.ds["other_field"] = xr.DataArray(r.integers(0, 2, (nt, nz)).astype(float), dims=SUBD[1:])
    m.ds["named_field"] = xr.DataArray(r.integers(0, 2, (nt, nz)).astype(float), dims=SUBD[1:], attrs={"units": "u"})
    ref = m.ds.copy(deep=True)
    names = [[], ["named_field"], ["named_field", "subcolumns_cl"]][more]
    with quiet():
        if names:
            m.finalize_subcol_fields(more_fieldnames=names)
        else:
            m.finalize_subcol_fields()
    ensure(set(ref.variables) == set(m.ds.variables), "nothing-else-changed", "fields added or removed")
    for k in ref.variables:
        a, b = ref[k].values, m.ds[k].values
        hit = k in ref.data_vars and ("sub_col" in k or any(n in k for n in names))
        if hit:
            same(b, np.where(a == 0, np.nan, a), "zeros-become-missing", k, rtol=0)
        else:
            same(b, a, "nothing-else-changed", k, rtol=0)
        ensure(m.ds[k].dims == ref[k].dims and m.ds[k].attrs == ref[k].attrs, "nothing-else-changed", f"{k} dims/attributes")


@g6.case
def remove(seed, nt, nz, N, conv, which, approach, cls):
    m, _ = simulated(seed, nt, nz, N, conv, which, approach)
    m.ds["model_conv_frac"] = xr.DataArray(np.ones((nt, nz)), dims=SUBD[1:])
    m.ds["model_strat_frac"] = xr.DataArray(np.ones((nt, nz)), dims=SUBD[1:])
    ref = m.ds.copy(deep=True)
    with quiet():
        if cls == "conv" and seed % 2:
            m.remove_subcol_fields()
        else:
            m.remove_subcol_fields(cls)
    gone = [k for k in ref.data_vars if cls in k and ("sub_col" in k or "subcol" in k or "phase_mask" in k)]
    ensure(set(m.ds.data_vars) == set(ref.data_vars) - set(gone), "removes-exactly-the-cloud-type",
           f"{cls}: {sorted(set(m.ds.data_vars) ^ (set(ref.data_vars) - set(gone)))[:6]}")
    for k in m.ds.variables:
        same(m.ds[k].values, ref[k].values, "keeps-every-other-field", k, rtol=0)


@g6.gen
def _(rng, tier):
    for i in range(30 if tier == "quick" else 200):
        p = dict(seed=int(rng.integers(1e9)), nt=int(rng.integers(1, 4)), nz=int(rng.integers(2, 6)), N=int(rng.integers(2, 6)),
                 which=["both", "lidar", "radar"][i % 3], approach=["radiation", "micro", "empirical"][(i // 3) % 3])
        if i % 2:
            yield "finalise", dict(p, conv=bool((i // 2) % 2), more=(i // 2) % 3)
        else:
            yield "remove", dict(p, conv=bool((i // 2) % 4), cls=["conv", "strat"][(i // 2) % 2])
