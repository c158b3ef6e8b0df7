"""Run-time contracts of the statistics package (A01-A03)."""
import numpy as np
from ..common import group, ensure, same
from .. import models as M
from ..models import quiet
import emc2.statistics_LLNL.statistical_aggregation as ST

UNDEF, GROUND = -1e30, -1e20

g1 = group("A01")


def regrid(zfull, zhalf, y, bot, top, lunits):
    """overlap-weighted mean; -> (values, overlapped?)"""
    P, C, n = y.shape
    out = np.zeros((P, C, len(bot)))
    cov = np.zeros((P, len(bot)), bool)
    for i in range(P):
        ob = zhalf[i]
        ot = np.append(zhalf[i, 1:], 2 * zfull[i, -1] - zhalf[i, -1])
        for k in range(len(bot)):
            w = np.clip(np.minimum(ot, top[k]) - np.maximum(ob, bot[k]), 0, None)
            cov[i, k] = w.sum() > 0
            v = y[i]
            if lunits:
                v = np.where(v == UNDEF, 0., 10. ** (v / 10.))
            s = (w * v).sum(-1)
            with np.errstate(all="ignore"):
                out[i, :, k] = s / w.sum() if cov[i, k] else 0.
    return out, cov


def source(r, P, n, kind):
    if kind == 0:
        dz = r.uniform(0.02, 0.9, (P, n + 1))
        zh = np.cumsum(dz, axis=1)[:, :n] + r.uniform(0, 1.5, (P, 1))
    else:   # thin or thick layers
        dz = r.choice([0.05, 0.3, 2.5], (P, n + 1)) * r.uniform(0.5, 1.5, (P, n + 1))
        zh = np.cumsum(dz, axis=1)[:, :n] + r.choice([0., 0.6, 3.], (P, 1))
    up = np.concatenate((zh[:, 1:], zh[:, -1:] + dz[:, n:]), axis=1)
    zf = zh + (up - zh) * r.uniform(0.3, 0.7, (P, n))
    zf[:, -1] = (zh[:, -1] + up[:, -1]) / 2
    return zf, zh


def target(r, G, kind, zh):
    if kind == 0:
        e = np.arange(G + 1) * 0.48
    elif kind == 1:
        e = np.sort(r.uniform(0., zh.max() * 1.4 + 0.5, G + 1))
    elif kind == 2:    # edges equal to source boundaries
        pool = np.unique(np.concatenate((zh[0], [0., zh.max() + 5.])))
        e = np.sort(r.choice(pool, min(G + 1, len(pool)), replace=False))
    else:    # several fine layers inside one source layer
        e = np.linspace(0, zh.max() * 1.2 + 0.3, 6 * G + 1)
    return e[:-1], e[1:]


@g1.case
def change_grid(seed, P, C, n, G, ksrc, ktgt, lunits, const):
    r = np.random.default_rng(seed)
    zf, zh = source(r, P, n, ksrc)
    bot, top = target(r, G, ktgt, zh)
    y = r.uniform(-60, 30, (P, C, n))
    if lunits:
        y = np.where(r.random(y.shape) < 0.25, UNDEF, y)
    if const:
        y = np.full(y.shape, r.uniform(-50, 20))
    c = [a.copy() for a in (zf, zh, y, bot, top)]
    with quiet():
        got = ST.COSP_CHANGE_VERTICAL_GRID(P, C, n, zf, zh, y, len(bot), bot, top, lunits=lunits)
    for a, b in zip((zf, zh, y, bot, top), c):
        same(a, b, "inputs-unchanged")
    zf, zh, y, bot, top = c
    want, cov = regrid(zf, zh, y, bot, top, lunits)
    below = top[None, :] <= zh[:, :1]
    same(np.where(below[:, None], got, 0), np.where(below[:, None], np.full(got.shape, GROUND), 0), "below-ground-flag")
    ok = (cov & ~below)[:, None] & np.ones(got.shape, bool)
    if lunits:
        with np.errstate(all="ignore"):
            want = np.where(want > 0, 10 * np.log10(want), UNDEF)
    # overlaps thinner than rounding are left out
    thin = np.zeros(cov.shape, bool)
    for i in range(P):
        ot = np.append(zh[i, 1:], 2 * zf[i, -1] - zh[i, -1])
        for k in range(len(bot)):
            w = np.minimum(ot, top[k]) - np.maximum(zh[i], bot[k])
            thin[i, k] = w.max() < 1e-9
    ok &= ~thin[:, None]
    same(np.where(ok, got, 0), np.where(ok, want, 0), "overlap-weighted-mean",
         f"lunits={lunits} source {ksrc} target {ktgt}:", rtol=1e-7, atol=1e-7)
    if const:
        same(np.where(ok, got, 0), np.where(ok, y[0, 0, 0], 0), "constant-stays-constant", "", rtol=1e-8, atol=1e-8)
    elif not lunits:
        ensure(~ok | ((got >= y.min(-1)[..., None] - 1e-7) & (got <= y.max(-1)[..., None] + 1e-7)), "between-extremes")


@g1.case
def scattering_ratio(seed, T, N, n, G, cols):
    """the wrappers regrid every subcolumn, time and column independently"""
    r = np.random.default_rng(seed)
    zf = np.empty((T, n, cols))
    zh = np.empty((T, n, cols))
    for k in range(cols):
        zf[:, :, k], zh[:, :, k] = source(r, T, n, 0)
    e = np.linspace(0, zh.max() + 0.2, G + 1)
    bot, top = e[:-1], e[1:]
    atb, mol = r.uniform(1e-7, 1e-4, (N, T, n, cols)), r.uniform(1e-7, 1e-5, (N, T, n, cols))
    ze = r.uniform(-50, 20, (N, T, n, cols))
    miss = r.random((N, T, 1, cols)) < 0.2
    ze = np.where(miss, np.nan, ze)
    c = [a.copy() for a in (atb, mol, ze, zf, zh)]
    with quiet():
        sr = ST.calculate_SR(atb, mol, N, T, zf, zh, N, T, n, G, cols, bot, top)
        zr = ST.get_regridded_ze_att_tot(ze, zf, zh, N, T, G, cols, bot, top, N, T, n)
    for a, b in zip((atb, mol, ze, zf, zh), c):
        same(a, b, "inputs-unchanged")
    for k in range(cols):
        x = [regrid(zf[:, :, k], zh[:, :, k], a[:, :, :, k].transpose(1, 0, 2), bot, top, False)
             for a in (atb, mol, np.nan_to_num(ze, nan=UNDEF))]
        cov = x[0][1] & (top[None] > zh[:, :1, k])
        w = np.minimum(top[None], 2 * zf[:, -1:, k] - zh[:, -1:, k]) - np.maximum(bot[None], zh[:, :1, k])
        cov &= w > 1e-9
        ok = np.broadcast_to(cov[None], (N, T, G))
        with np.errstate(all="ignore"):
            want = (x[0][0] / x[1][0]).transpose(1, 0, 2)
        same(np.where(ok, sr[..., k], 0), np.where(ok, want, 0), "regridded-ratio", "", rtol=1e-7)
        wz = x[2][0].transpose(1, 0, 2)
        wz = np.where(np.broadcast_to(miss[:, :, :, k], wz.shape), np.nan, wz)
        g = np.where(np.abs(zr[..., k]) > 1e29, np.nan, zr[..., k])
        same(np.where(ok, g, 0), np.where(ok, wz, 0), "regridded-reflectivity", "", rtol=1e-7)


@g1.gen
def _(rng, tier):
    for i in range(300 if tier == "quick" else 3000):
        yield "change_grid", dict(seed=int(rng.integers(1e9)), P=int(rng.integers(1, 4)), C=int(rng.integers(1, 4)),
                                  n=int(rng.integers(2, 10)), G=int(rng.integers(1, 12)), ksrc=i % 2, ktgt=(i // 2) % 4,
                                  lunits=bool((i // 8) % 2), const=i % 5 == 0)


@g1.gen
def _(rng, tier):
    for i in range(40 if tier == "quick" else 300):
        yield "scattering_ratio", dict(seed=int(rng.integers(1e9)), T=int(rng.integers(1, 4)), N=int(rng.integers(1, 4)),
                                       n=int(rng.integers(2, 8)), G=int(rng.integers(1, 10)), cols=int(rng.integers(1, 4)))


# ---------------------------------------------------------------- A02
g2 = group("A02")


@g2.case
def cloud_fraction(seed, N, T, G, cols, kind):
    r = np.random.default_rng(seed)
    sh = (N, T, G, cols)
    sr = 10 ** r.uniform(-4, 2.5, sh)
    sr = np.where(r.random(sh) < 0.15, r.choice([5., 0.01, 0., -1., 4.999999, 5.000001, 0.0100001], sh), sr)
    if kind == 1:
        sr = np.where(r.random(sh) < 0.5, np.nan, sr)
    if kind == 2:
        sr = np.where(r.random((1,) + sh[1:]) < 0.5, r.uniform(-1, 0.01, sh), sr)
    if kind == 3:
        sr = np.where(r.random(sh) < 0.3, np.inf, np.where(r.random(sh) < 0.3, np.nan, sr))
    c = sr.copy()
    cf = ST.calculate_lidar_CF(sr, T, G, cols)
    same(sr, c, "inputs-unchanged")
    with np.errstate(all="ignore"):
        nu, de = (c > 5.).sum(0), (c > 0.01).sum(0)
        same(cf, np.where(de > 0, nu / np.maximum(de, 1), np.nan), "cloudy-over-usable", f"kind {kind}:")
    ensure(np.isnan(cf) | ((cf >= 0) & (cf <= 1)), "in-unit-interval")


@g2.gen
def _(rng, tier):
    for i in range(200 if tier == "quick" else 2000):
        yield "cloud_fraction", dict(seed=int(rng.integers(1e9)), N=int(rng.integers(1, 9)), T=int(rng.integers(1, 5)),
                                     G=int(rng.integers(1, 7)), cols=int(rng.integers(1, 4)), kind=i % 4)


# ---------------------------------------------------------------- A03
g3 = group("A03")


@g3.case
def cfad(seed, N, T, G, cols, nb, kind, which):
    r = np.random.default_rng(seed)
    edges = np.sort(r.uniform(-50, 25, nb + 1)) if kind else np.linspace(-50, 25, nb + 1)
    a = r.uniform(-70, 40, (N, T, G, cols))
    a = np.where(r.random(a.shape) < 0.25, r.choice(edges, a.shape), a)
    a = np.where(r.random(a.shape) < 0.2, np.nan, a)
    a = np.where(r.random(a.shape) < 0.05, -1e30, a)
    a = np.where(r.random((1, T, G, cols)) < 0.2, np.nan, a)      # times without in-range values
    a = np.where(r.random((1, T, G, cols)) < 0.1, 99., a)
    c = a.copy()
    col = int(r.integers(cols))
    mid = np.arange(G) * 0.48
    f = ST.get_cfaddBZ if which else ST.get_cfad_SR
    got = f(edges, mid, T, N, a, col)
    same(a, c, "inputs-unchanged")
    want = np.zeros((G, nb))
    for k in range(G):
        for b in range(nb):
            with np.errstate(all="ignore"):
                want[k, b] = ((c[:, :, k, col] >= edges[b]) & (c[:, :, k, col] < edges[b + 1])).sum() / N / T
    same(got, want, "share-of-subcolumns", f"{f.__name__}:", rtol=1e-12)
    ensure((got >= 0) & (got <= 1), "in-unit-interval")
    with np.errstate(all="ignore"):
        tot = ((c[..., col] >= edges[0]) & (c[..., col] < edges[-1])).sum(axis=(0, 1)) / N / T
    same(got.sum(1), tot, "each-value-counted-once", "", rtol=1e-9)


@g3.gen
def _(rng, tier):
    for i in range(200 if tier == "quick" else 2000):
        yield "cfad", dict(seed=int(rng.integers(1e9)), N=int(rng.integers(1, 9)), T=int(rng.integers(1, 5)),
                           G=int(rng.integers(1, 6)), cols=int(rng.integers(1, 4)), nb=int(rng.integers(1, 9)), kind=i % 2,
                           which=(i // 2) % 2)


# ---------------------------------------------------------------- used by O03
class _M4:
    pass


def stat_inputs(seed, nt, nz, N, kind):
    """(name, call, arrays that the call must not change)"""
    import xarray as xr
    r = np.random.default_rng(seed)
    cols = 2
    zf, zh = np.empty((nt, nz, cols)), np.empty((nt, nz, cols))
    for k in range(cols):
        zf[:, :, k], zh[:, :, k] = source(r, nt, nz, 0)
    m = _M4()
    d4, d3 = ("subcolumn", "time", "lev", "ncol"), ("time", "lev", "ncol")
    ze = np.where(r.random((N, nt, nz, cols)) < .3, np.nan, r.uniform(-50, 20, (N, nt, nz, cols)))
    m.ds = xr.Dataset({"sub_col_beta_att_tot": (d4, r.uniform(1e-7, 1e-4, (N, nt, nz, cols))),
                       "sub_col_Ze_att_tot": (d4, ze), "Z3": (d3, zf * 1e3),
                       "sigma_180_vol": (d3, r.uniform(1e-7, 1e-5, zf.shape)), "tau": (d3, r.uniform(.1, 1., zf.shape)),
                       "subcolumn": np.arange(N), "time": np.arange(nt), "ncol": np.arange(cols)})
    arrs = [m.ds[k].values for k in ("sub_col_beta_att_tot", "sub_col_Ze_att_tot", "Z3", "sigma_180_vol", "tau")]
    yield "get_radar_lidar_signals", lambda: ST.get_radar_lidar_signals(m), arrs
    e = np.linspace(0, zh.max() + .2, 6)
    atb, mol = r.uniform(1e-7, 1e-4, ze.shape), r.uniform(1e-7, 1e-5, ze.shape)
    yield "calculate_SR", (lambda: ST.calculate_SR(atb, mol, N, nt, zf, zh, N, nt, nz, 5, cols, e[:-1], e[1:])), \
        [atb, mol, zf, zh, e]
    yield "get_regridded_ze_att_tot", (lambda: ST.get_regridded_ze_att_tot(
        ze, zf, zh, N, nt, 5, cols, e[:-1], e[1:], N, nt, nz)), [ze, zf, zh, e]
    yield "COSP_CHANGE_VERTICAL_GRID", (lambda: ST.COSP_CHANGE_VERTICAL_GRID(
        nt, N, nz, zf[:, :, 0].copy(), zh[:, :, 0].copy(), ze[..., 0].transpose(1, 0, 2), 5, e[:-1], e[1:],
        lunits=True)), [ze, e]
    sr = np.where(r.random((N, nt, nz, cols)) < .2, np.nan, 10 ** r.uniform(-4, 2.5, (N, nt, nz, cols)))
    yield "calculate_lidar_CF", (lambda: ST.calculate_lidar_CF(sr, nt, nz, cols)), [sr]
    b = np.linspace(-50, 25, 5)
    mid = np.arange(nz) * .48
    yield "get_cfaddBZ", (lambda: ST.get_cfaddBZ(b, mid, nt, N, ze, 1)), [ze, b, mid]
    yield "get_cfad_SR", (lambda: ST.get_cfad_SR(b, mid, nt, N, sr, 0)), [sr, b, mid]
