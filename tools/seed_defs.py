"""Planted bugs: each a change to /repo that breaks one property and passes the existing tests."""
SEEDS = {}
SUB, LID, RAD = "emc2/simulator/subcolumn.py", "emc2/simulator/lidar_moments.py", "emc2/simulator/radar_moments.py"
ATT, CLS, PSD, MAIN = ("emc2/simulator/attenuation.py", "emc2/simulator/classification.py", "emc2/simulator/psd.py",
                       "emc2/simulator/main.py")
STA, MOD = "emc2/statistics_LLNL/statistical_aggregation.py", "emc2/core/model.py"


def seed(sid, property, edits, demo, needs, what, **kw):
    SEEDS[sid] = dict(property=property, edits=edits, demo=demo, needs=needs, what=what, **kw)


seed("conv-round-half-up", "S01",
     [(SUB, """            data_frac = np.round(
                model.ds[model.conv_frac_names[hyd_type]].values * model.num_subcolumns).astype(int)

        # In case""", """            data_frac = np.floor(
                model.ds[model.conv_frac_names[hyd_type]].values * model.num_subcolumns + 0.5).astype(int)

        # In case""")],
     """
import sys, numpy as np
from mini import SynthModel, quiet
from emc2.simulator.subcolumn import set_convective_sub_col_frac
m = SynthModel(seed=1, nt=2, nz=4)
m.ds["f_c_cl"].values[:] = [[0.5, 0.3, 0.1, 0.9], [0.7, 0.5, 0., 1.]]
with quiet():
    set_convective_sub_col_frac(m, "cl", N_columns=5, use_rad_logic=False)
got = m.ds["conv_frac_subcolumns_cl"].values.sum(axis=0)
want = np.round(m.ds["f_c_cl"].values * 5)
sys.exit(0 if (got == want).all() else 1)
""", "a convective cloud fraction whose product with the number of subcolumns ends in exactly one half and microphysics logic",
     "ties are rounded up instead of to even, so the number of convective subcolumns differs from the fraction")

seed("od-down-shifted-dz", "L01",
     [(LID, "dz = np.tile(np.diff(z_values, axis=1, append=0.), (model.num_subcolumns, 1, 1))\n        model.ds[\"sub_col_OD",
       "dz = np.tile(np.diff(z_values, axis=1, prepend=0.), (model.num_subcolumns, 1, 1))\n        model.ds[\"sub_col_OD")],
     """
import sys, numpy as np
from mini import SynthModel, lidar, gen_subcols, quiet
from emc2.simulator.lidar_moments import calc_lidar_moments
m = gen_subcols(SynthModel(seed=3), N=4)
with quiet():
    calc_lidar_moments(lidar(), m, False, OD_from_sfc=False)
a = m.ds["sub_col_alpha_p_cl_strat"].values
od = m.ds["sub_col_OD_cl_strat"].values
z = m.ds["z"].values
want = np.zeros_like(od)
for k in range(od.shape[2] - 2, -1, -1):
    want[:, :, k] = want[:, :, k + 1] + a[:, :, k + 1] * (z[:, k + 1] - z[:, k])
sys.exit(0 if np.allclose(od, want, rtol=1e-9, atol=0) else 1)
""", "a downward-looking lidar on a grid with unequal layer depths",
     "the optical depth step uses the depth of the wrong layer when looking down")

seed("sigma-tot-first-time-density", "R03",
     [(RAD, """        rhoa_corr_single = rhoa_corr[tt, k]
        if (hyd_type == 'ci') & (mcphys_scheme == "P3"):  # no N0 etc subcol dim (subcol q filter below & psd.py)
            v_tmp = tiled_arr["vt"][k, :]
            if not calc_kws["mie_for_ice"]:
                beta_p = tiled_arr["beta_p"][k, :]
            N_0_tmp = np.full""", """        rhoa_corr_single = rhoa_corr[0, k]
        if (hyd_type == 'ci') & (mcphys_scheme == "P3"):  # no N0 etc subcol dim (subcol q filter below & psd.py)
            v_tmp = tiled_arr["vt"][k, :]
            if not calc_kws["mie_for_ice"]:
                beta_p = tiled_arr["beta_p"][k, :]
            N_0_tmp = np.full""")],
     """
import sys, numpy as np
from mini import SynthModel, radar, gen_subcols, quiet
from emc2.simulator.radar_moments import calc_radar_moments
ok = True
m = gen_subcols(SynthModel(seed=5, nt=3, rhoa_ref=True, frac_kind="one", zero_q=False), N=3, rad=False)
m.ds["rho_a"].values[:] = m.ds["rho_a"].values * np.array([1., 0.7, 0.4])[:, None]
with quiet():
    calc_radar_moments(radar(), m, False, hyd_types=["pl"], use_rad_logic=False, mie_for_ice=True, parallel=False)
one, tot = m.ds["sub_col_sigma_d_pl_strat"].values, m.ds["sub_col_sigma_d_tot_strat"].values
g = m.ds["strat_frac_subcolumns_pl"].values & (m.ds["sub_col_Ze_pl_strat"].values > -1e9)
sys.exit(0 if g.any() and np.allclose(one[g], tot[g], rtol=1e-6) else 1)
""", "a class with an air-density correction of its fall speed and air density that changes in time",
     "the total spectral width of later columns uses the air density of the first column")

seed("molecular-profile-cached", "O02",
     [(ATT, """    Theta = np.pi
    raw_n = 0.035""", """    if "sub_col_beta_p_tot_strat" in model.ds and "sigma_180_vol" in model.ds and \\
            model.ds["sigma_180_vol"].attrs.get("from_sfc") == int(OD_from_sfc):
        return model  # the profile depends on the atmosphere only

    Theta = np.pi
    raw_n = 0.035"""),
      (ATT, """    model.ds["sigma_180_vol"].attrs["units"] = r"$m^{-1}$"
""", """    model.ds["sigma_180_vol"].attrs["units"] = r"$m^{-1}$"
    model.ds["sigma_180_vol"].attrs["from_sfc"] = int(OD_from_sfc)
""")],
     """
import sys, numpy as np
from mini import SynthModel, lidar, gen_subcols, quiet
from emc2.simulator.lidar_moments import calc_lidar_moments
def run(m, wl):
    with quiet():
        calc_lidar_moments(lidar(name="L%d" % int(wl * 1e3), wavelength=wl), m, False)
    return m.ds["sub_col_beta_att_tot_strat"].values.copy(), m.ds["tau"].values.copy()
m = gen_subcols(SynthModel(seed=2), N=4)
a = run(m, 1.064)
run(m, 0.532)
m2 = gen_subcols(SynthModel(seed=2), N=4)
b = run(m2, 0.532)
run(m2, 1.064)
c = run(m, 1.064)
d = run(m, 0.532)
sys.exit(0 if all(np.array_equal(x, y) for x, y in zip(a + b, c + d)) else 1)
""", "two lidars of different wavelength simulated one after the other on the same model",
     "the second lidar is given the molecular profile of the first")

seed("regrid-skips-shared-layer", "A01",
     [(STA, """            lev -= 2
            if lev < -1:
                lev = -1
""", """            lev = max(lev - 1, -1)
""")],
     """
import sys, numpy as np
from emc2.statistics_LLNL.statistical_aggregation import COSP_CHANGE_VERTICAL_GRID as G
zh = np.array([[0.1, 1.0, 2.3, 3.1, 4.9]]); zf = np.array([[0.6, 1.6, 2.7, 4.0, 5.6]])
old_top = np.append(zh[0, 1:], zf[0, -1] + zf[0, -1] - zh[0, -1])
bot = np.arange(0., 6.5, 0.25); top = bot + 0.25
y = np.random.default_rng(0).uniform(1., 9., (1, 2, 5))
r = G(1, 2, 5, zf, zh, y, bot.size, bot, top)
for k in range(bot.size):
    w = np.clip(np.minimum(old_top, top[k]) - np.maximum(zh[0], bot[k]), 0, None)
    if w.sum() > 0 and top[k] > zh[0, 0]:
        if not np.allclose(r[0, :, k], (y[0] * w).sum(axis=1) / w.sum(), rtol=1e-9):
            sys.exit(1)
sys.exit(0)
""", "an output layer that begins inside a source layer which the previous output layer already used",
     "the source layer shared by two output layers is left out of the second one's mean")

seed("gamma-remainder-tolerance", "S06",
     [(SUB, "                              rand_gamma_vals[:-counter_4_valid].sum()) >= 0",
       "                              rand_gamma_vals[:-counter_4_valid].sum()) >= -0.05 * q_ic_mean[tt, j]")],
     """
import sys, numpy as np
from emc2.simulator.subcolumn import _distribute_cl_q_n
ok = True
sub = np.ones((6, 1, 3), dtype=bool)
for s in range(400):
    np.random.seed(s)
    q = np.full((1, 3), 1e-4)
    r = _distribute_cl_q_n(0, sub, np.ones((1, 3)), 6, sub.sum(axis=0), q)
    ok &= (r >= 0).all() and np.allclose(r.sum(axis=0), 6e-4, rtol=1e-9)
sys.exit(0 if ok else 1)
""", "random draws whose partial sum exceeds the cell's water by less than five percent of the mean",
     "the remaining subcolumns are given a negative mixing ratio")

seed("chunked-precip-order", "S07",
     [(SUB, """                    tt_bag = db.from_sequence(np.arange(j, ind_max, 1))
                    my_tuple += tt_bag.map(_allocate_precip_sub_cols).compute()
""", """                    tt_bag = db.from_sequence(np.arange(j, ind_max, 1))
                    new = tt_bag.map(_allocate_precip_sub_cols).compute()
                    my_tuple = my_tuple + new if ind_max - j == chunk else new + my_tuple
""")],
     """
import sys, numpy as np
from mini import SynthModel, gen_subcols
def counts(chunk):
    m = gen_subcols(SynthModel(seed=4, nt=5, conv=False), N=6, parallel=True, chunk=chunk)
    return m.ds["strat_frac_subcolumns_pl"].values.sum(axis=0)
ref = counts(None)
sys.exit(0 if all(np.array_equal(ref, counts(c)) for c in (1, 2, 3, 5, 7)) else 1)
""", "parallel execution with a chunk size that does not divide the number of time columns",
     "the columns of the last, shorter, chunk are put in front of all the others")

seed("martin-upper-bound", "P01",
     [(PSD, "            mus = np.where(mus > dispersion_mu_bounds[1], dispersion_mu_bounds[1], mus)",
       "            mus = np.where(mus > max(dispersion_mu_bounds), 1 / 0.09, mus)")],
     """
import sys, numpy as np
from mini import SynthModel, gen_subcols, quiet
from emc2.simulator.psd import calc_mu_lambda
ok = True
for b in ((2, 15), (4, 9), (3, 8.5)):
    m = gen_subcols(SynthModel(seed=6, family="CESM", zero_q=False, frac_kind="one"), N=3, rad=False)
    with quiet():
        calc_mu_lambda(m, "cl", calc_dispersion=True, dispersion_mu_bounds=b)
    mu = m.ds["mu"].values
    ok &= bool((mu >= b[0] - 1e-9).all() and (mu <= b[1] + 1e-9).all())
sys.exit(0 if ok else 1)
""", "an upper dispersion bound below 11.1 passed by the caller",
     "the shape parameter of small-number clouds exceeds the requested bound")

seed("cosp-down-not-flipped", "L07",
     [(CLS, "            reflective_mask = np.flip(np.cumsum(np.flip(SR, axis=2) > undef_SR_thresh, axis=2), axis=2)",
       "            reflective_mask = np.cumsum(np.flip(SR, axis=2) > undef_SR_thresh, axis=2)")],
     """
import sys, numpy as np
from mini import SynthModel, lidar, gen_subcols, quiet
from emc2.simulator.lidar_moments import calc_lidar_moments, calc_total_alpha_beta
from emc2.simulator.classification import lidar_emulate_cosp_phase
ok = True
for s in range(6):
    m = gen_subcols(SynthModel(seed=20 + s, nz=8), N=4)
    with quiet():
        for c in (False, True):
            calc_lidar_moments(lidar(), m, c, OD_from_sfc=False)
        calc_total_alpha_beta(m, OD_from_sfc=False)
        lidar_emulate_cosp_phase(lidar(), m, OD_from_sfc=False, output_ATB=True)
    for c in ("strat", "conv"):
        sr, ph = m.ds["COSP_SR_" + c].values, m.ds[c + "_COSP_phase_mask"].values
        big = sr > 30.
        above = np.flip(np.cumsum(np.flip(big, 2), axis=2), 2) - big
        lab = sr > 5.
        ok &= np.array_equal(ph == 3, lab & (above > 0))
sys.exit(0 if ok else 1)
""", "a downward-looking lidar and a level whose scattering ratio exceeds the attenuating threshold",
     "the undefined label is put on the wrong levels of a single cloud type (the all-hydrometeor mask is right)")

seed("ext-mask-equal", "L05",
     [(LID, "        np.where(model.ds[\"sub_col_OD_tot\"].values > ext_OD, 2, 0.)",
       "        np.where(np.round(model.ds[\"sub_col_OD_tot\"].values, 3) > ext_OD, 2, 0.)")],
     """
import sys, numpy as np
from mini import SynthModel, lidar, gen_subcols, quiet
from emc2.simulator.lidar_moments import calc_lidar_moments, calc_total_alpha_beta, calc_LDR_and_ext
m = gen_subcols(SynthModel(seed=3, conv=False), N=4)
with quiet():
    calc_lidar_moments(lidar(), m, False)
    calc_total_alpha_beta(m)
    od = m.ds["sub_col_OD_tot"].values
    t = float(np.unique(od[od > 0])[len(np.unique(od[od > 0])) // 2])
    for th in (t, t * (1 - 1e-7), 1e-5):
        calc_LDR_and_ext(m, ext_OD=th)
        e = m.ds["ext_mask"].values
        if not np.array_equal(e == 2, od > th):
            sys.exit(1)
sys.exit(0)
""", "a total optical depth within half a thousandth of the extinction threshold",
     "levels just above the threshold are not marked extinct, or levels just below are")

seed("fpr-numerator-missing", "C01",
     [(CLS, "        numer_counts = np.nansum(np.isin(mask_array, mask_class), axis=0)",
       "        numer_counts = np.nansum(np.where(np.isin(mask_array, mask_class), mask_array > 0, 0) *\n"
       "                                 (mask_array <= np.max(mask_class)), axis=0)\n"
       "        numer_counts = np.minimum(numer_counts, np.nansum(mask_array == np.ravel(mask_class)[0], axis=0) +\n"
       "                                  np.nansum(mask_array == np.ravel(mask_class)[-1], axis=0))")],
     """
import sys, numpy as np, xarray as xr
from mini import SynthModel, gen_subcols, quiet
from emc2.simulator.classification import calculate_phase_ratio
m = gen_subcols(SynthModel(seed=3), N=9)
rng = np.random.default_rng(1)
m.ds["mk"] = xr.DataArray(rng.integers(0, 5, m.ds["strat_frac_subcolumns_cl"].shape).astype("uint8"),
                          dims=m.ds["strat_frac_subcolumns_cl"].dims)
with quiet():
    calculate_phase_ratio(m, "mk", [1, 2, 4], [1, 2, 3, 4])
a = m.ds["mk"].values
n, d = np.isin(a, [1, 2, 4]).sum(axis=0), (a > 0).sum(axis=0)
w = np.where(d > 0, n / np.maximum(d, 1), np.nan)
g = m.ds["mk_fpr"].values
sys.exit(0 if np.allclose(g, w, equal_nan=True) else 1)
""", "three or more classes in the numerator of the frequency phase ratio",
     "subcolumns of the middle classes are not counted")

seed("conv-takes-strat-ice-treatment", "O01",
     [(MAIN, """                    parallel=parallel, eta=eta, chunk=chunk,
                    mie_for_ice=mie_for_ice["conv"], use_rad_logic=use_rad_logic,""",
       """                    parallel=parallel, eta=eta, chunk=chunk,
                    mie_for_ice=mie_for_ice["strat"], use_rad_logic=use_rad_logic,""")],
     """
import sys, numpy as np
from mini import SynthModel, lidar, quiet, gen_subcols
from emc2.simulator.main import make_simulated_data
from emc2.simulator.lidar_moments import calc_lidar_moments
m = gen_subcols(SynthModel(seed=3), N=4, rad=False)
with quiet():
    make_simulated_data(m, lidar(), 4, skip_subcol_gen=True, use_rad_logic=False, parallel=False)
    got = m.ds["sub_col_beta_p_ci_conv"].values.copy()
    calc_lidar_moments(lidar(), m, True, use_rad_logic=False, mie_for_ice=False)
sys.exit(0 if np.array_equal(got, m.ds["sub_col_beta_p_ci_conv"].values) else 1)
""", "microphysics logic with convection processed and no ice treatment given by the caller",
     "the driver gives the convective lidar calculation the stratiform default of the ice treatment")

seed("draw-guard", "S06",
     [(SUB, "            while not valid_vals:  # Finding", "            while not valid_vals and counter_4_valid < tot_hyd_in_sub[tt, j] - 1:  # Finding")],
     """
import sys, numpy as np
from emc2.simulator.subcolumn import _distribute_cl_q_n
ok = True
for n, v in ((2, 0.2), (5, 0.05), (3, 0.5)):
    sub = np.ones((n, 1, 3), dtype=bool)
    for s in range(300):
        np.random.seed(s)
        q = np.full((1, 3), 1e-4)
        r = _distribute_cl_q_n(0, sub, np.full((1, 3), v), n, sub.sum(axis=0), q)
        ok &= bool((r >= 0).all() and np.allclose(r.sum(axis=0), n * 1e-4, rtol=1e-9))
sys.exit(0 if ok else 1)
""", "a first random draw that alone exceeds all the water of the cell's subcolumns",
     "the last subcolumn is given a negative mixing ratio")

seed("two-phase-remaining", "S02",
     [(SUB, """                    strat_profs[I_max, over_unique_lo, j] = True
                    cld_2_assign[I_max] -= over_diff
            elif""", """                    strat_profs[I_max, over_unique_lo, j] = True
                    cld_2_assign[I_max] -= overlying_num[Iover_max]
            elif""")],
     """
import sys, numpy as np
from mini import SynthModel, quiet
from emc2.simulator.subcolumn import set_stratiform_sub_col_frac
for s in range(60):
    m = SynthModel(seed=s, nt=3, nz=7, conv=False, frac_kind="mix")
    np.random.seed(s)
    with quiet():
        set_stratiform_sub_col_frac(m, N_columns=7, use_rad_logic=False, parallel=False)
    for h in ("cl", "ci"):
        want = np.round(m.ds[m.strat_frac_names[h]].values * 7)
        got = m.ds["strat_frac_subcolumns_" + h].values.sum(axis=0)
        if not np.array_equal(got[:, :-1], want[:, :-1]):
            sys.exit(1)
sys.exit(0)
""", "a level where the more extensive phase keeps a remainder after filling the subcolumns under both phases of the level above",
     "the number of subcolumns with the more extensive phase falls short of its fraction")

seed("total-attenuation-by-stronger", "R01",
     [(RAD, "model.ds['hyd_ext_conv'].fillna(1) * model.ds[\n                                                           'hyd_ext_strat'].fillna(1) *",
       "np.minimum(model.ds['hyd_ext_conv'].fillna(1),\n                                                                  model.ds['hyd_ext_strat'].fillna(1)) *")],
     """
import sys, numpy as np, xarray as xr
from mini import SynthModel, quiet
from emc2.simulator.radar_moments import calc_total_reflectivity
m = SynthModel(seed=1, nt=2, nz=4)
d = ("subcolumn", "time", "height"); r = np.random.default_rng(0); sh = (3, 2, 4)
m.ds["subcolumn"] = xr.DataArray(np.arange(3), dims="subcolumn")
for c in ("strat", "conv"):
    m.ds["sub_col_Ze_tot_" + c] = xr.DataArray(r.uniform(-40, 10, sh), dims=d)
    m.ds["hyd_ext_" + c] = xr.DataArray(r.uniform(0.2, 1, sh), dims=d)
m.ds["atm_ext"] = xr.DataArray(np.ones((2, 4)), dims=d[1:])
m.ds["Ze_min"] = xr.DataArray(np.full((2, 4), -50.), dims=d[1:])
with quiet():
    calc_total_reflectivity(m)
w = m.ds["sub_col_Ze_tot"].values + 10 * np.log10(m.ds["hyd_ext_strat"].values * m.ds["hyd_ext_conv"].values)
sys.exit(0 if np.allclose(m.ds["sub_col_Ze_att_tot"].transpose(*d).values, w, atol=1e-9) else 1)
""", "a ray attenuated by stratiform and by convective hydrometeors",
     "only the stronger of the two hydrometeor attenuations is applied to the total reflectivity")

seed("overlying-precip-one-subcolumn", "S04",
     [(SUB, "precip_exist = np.stack([frac > 0 for frac in data_frac])", "precip_exist = np.stack([frac > 1 for frac in data_frac])")],
     """
import sys, numpy as np
from mini import SynthModel, quiet, gen_subcols
for s in range(40):
    m = gen_subcols(SynthModel(seed=s, nt=3, nz=6, conv=False), N=5, rad=False, seed=s)
    for h in ("pl", "pi"):
        want = np.round(m.ds[m.strat_frac_names[h]].values * 5)
        got = m.ds["strat_frac_subcolumns_" + h].values.sum(axis=0)
        if not np.array_equal(got[:, :-1], want[:, :-1]):
            sys.exit(1)
sys.exit(0)
""", "a precipitation class that fills exactly one subcolumn of a level",
     "a class with a single subcolumn is not marked at all")

seed("molecular-depth-from-surface", "M01",
     [(ATT, "u[:, :-1] = np.flip(np.cumsum(np.flip(Z_4_trap * summed_beta, axis=1), axis=1), axis=1)",
       "u[:, :-1] = np.cumsum(Z_4_trap * summed_beta, axis=1)")],
     """
import sys, numpy as np
from mini import SynthModel, lidar, quiet
from emc2.simulator.attenuation import calc_theory_beta_m
m = SynthModel(seed=1, nt=2, nz=7)
with quiet():
    calc_theory_beta_m(m, 0.532, OD_from_sfc=False)
t = m.ds["tau"].values
w = np.exp(-2 * t) if np.allclose(t[:, -1], 0) else t
sys.exit(0 if (np.diff(w, axis=1) >= 0).all() and np.allclose(w[:, -1], 1) else 1)
""", "a downward-looking lidar", "the molecular optical depth is accumulated from the surface")

seed("crop-start-exclusive", "D03",
     [(MOD, "self.ds[t_coords] >= time_range[0]", "self.ds[t_coords] > time_range[0]")],
     """
import sys, numpy as np, xarray as xr
from emc2.core.model import Model
m = Model(); m.time_dim = "time"
t = np.datetime64("2020-01-01T00", "ns") + np.arange(6) * np.timedelta64(3600, "s")
m.ds = xr.Dataset({"a": (("time",), np.arange(6.))}, coords={"time": t})
m._crop_time_range((t[2], t[4]))
sys.exit(0 if np.array_equal(m.ds["a"].values, [2., 3.]) else 1)
""", "a time step exactly at the start of the requested range", "the first time step of the range is dropped")

seed("lowest-edge-not-counted", "A03",
     [(STA, "loc0 = np.where((a1 >= Ze_EDGES[0]) & (a1 < Ze_EDGES[-1]))", "loc0 = np.where((a1 > Ze_EDGES[0]) & (a1 < Ze_EDGES[-1]))")],
     """
import sys, numpy as np
from emc2.statistics_LLNL.statistical_aggregation import cal_cfad_radar_40levels as F
a = np.array([[-40., 100., 3.], [100., 100., -39.], [100., -90., 7.], [90., 100., -40.]])
e = np.arange(-40., 21., 10.)
g = np.nan_to_num(F(4, np.arange(3.), e, a))
w = np.stack([np.histogram(a[:, i], e)[0] / 4 for i in range(3)])
sys.exit(0 if np.array_equal(g, w) else 1)
""", "a level whose only in-range values lie exactly on the lowest edge",
     "the level is treated as without in-range values")

seed("eta-left-out-of-total", "L02",
     [(LID, "T * np.exp(-2 * eta * model.ds['sub_col_OD_tot'])", "T * np.exp(-2 * model.ds['sub_col_OD_tot'])")],
     """
import sys, numpy as np
from mini import SynthModel, lidar, gen_subcols, quiet
from emc2.simulator.lidar_moments import calc_lidar_moments, calc_total_alpha_beta
m = gen_subcols(SynthModel(seed=3), N=4)
with quiet():
    for c in (False, True):
        calc_lidar_moments(lidar(), m, c, eta=0.7)
    calc_total_alpha_beta(m, eta=0.7)
d = m.ds
w = (d["sigma_180_vol"] + d["sub_col_beta_p_tot"]) * d["tau"] * np.exp(-1.4 * d["sub_col_OD_tot"])
o = d["sub_col_beta_p_tot"].dims
sys.exit(0 if np.allclose(d["sub_col_beta_att_tot"].transpose(*o).values, w.transpose(*o).values, rtol=1e-9) else 1)
""", "a multiple-scattering factor other than 1", "the total attenuated backscatter ignores the multiple-scattering factor")

seed("stack-longitude-first", "D01",
     [(MOD, "self.ds.stack({out_coord_name: (self.lat_dim, self.lon_dim, self.time_dim)})",
       "self.ds.stack({out_coord_name: (self.lon_dim, self.lat_dim, self.time_dim)})")],
     """
import sys, numpy as np, xarray as xr
from mini import quiet
from emc2.core.model import Model
m = Model(); m.time_dim, m.height_dim, m.lat_dim, m.lon_dim = "time", "lev", "lat", "lon"
r = np.random.default_rng(0)
v = r.random((2, 3, 4, 5))
m.ds = xr.Dataset({"a": (("time", "lev", "lat", "lon"), v.copy())},
                  coords=dict(time=np.arange(2.), lev=np.arange(3.), lat=np.arange(4.) * 10, lon=np.arange(5.) * 7))
with quiet():
    m.check_and_stack_time_lat_lon()
    m.unstack_time_lat_lon()
g = m.ds["a"].transpose("time", "lev", "lat", "lon").values
sys.exit(0 if np.array_equal(g, v) else 1)
""", "a domain with more than one latitude and longitude", "unstacked fields are scrambled across latitude and longitude")

seed("clamp-lower-edge", "D05", [], "", "", "")
del SEEDS["clamp-lower-edge"]

seed("p3-speed-cached-across-columns", "R03",
     [(RAD, """    for key in interp_list:  # vertical variability (we need to interpolate)
        tiled_arr[key] = calc_kws[key]((Fr_in, rho_r_in, tiled_arr["p_max_dim"]))
    if include_vt:
        tiled_arr["vt"] *= (-1.0)
""", """    for key in interp_list:  # vertical variability (we need to interpolate)
        if key == "vt" and not calc_kws["mie_for_ice"]:  # hydrodynamic property: not device-specific
            if "vt_arr" not in calc_kws:
                calc_kws["vt_arr"] = calc_kws[key]((Fr_in, rho_r_in, tiled_arr["p_max_dim"]))
            tiled_arr[key] = np.copy(calc_kws["vt_arr"])
        else:
            tiled_arr[key] = calc_kws[key]((Fr_in, rho_r_in, tiled_arr["p_max_dim"]))
    if include_vt:
        tiled_arr["vt"] *= (-1.0)
""")],
     """
import sys, numpy as np
from mini import SynthModel, radar, gen_subcols, quiet
from emc2.simulator.radar_moments import calc_radar_moments
def make(rev):
    m = gen_subcols(SynthModel(seed=5, nt=3, scheme="P3", family="P3", conv=False, zero_q=False, frac_kind="one"), N=2, rad=False)
    if rev:
        for v in m.ds.variables:
            if m.ds[v].dims == ("time", "height"):
                m.ds[v].values[:] = m.ds[v].values[::-1]
            elif m.ds[v].dims == ("subcolumn", "time", "height"):
                m.ds[v].values[:] = m.ds[v].values[:, ::-1]
    with quiet():
        calc_radar_moments(radar(), m, False, hyd_types=["ci"], use_rad_logic=False, mie_for_ice=False, parallel=False)
    v = m.ds["sub_col_Vd_ci_strat"].values
    return v[:, ::-1] if rev else v
a, b = make(False), make(True)
sys.exit(0 if np.isfinite(a).any() and np.allclose(a, b, rtol=1e-7, equal_nan=True) else 1)
""", "P3 microphysics with the P3 (not Mie) ice tables and rime properties that change in time",
     "the fall speed of P3 ice in later columns is that of the first column's rime fraction and density")

seed("p3-mie-run-fills-cache", "O02",
     [(LID, """                if model.p3_kws["use_hybrid_scat"] > 0:
                    scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]""",
       """                if mie_for_ice or model.p3_kws["use_hybrid_scat"] > 0:  # equivalent-volume spheres
                    scat_lut_vars = ["beta_p_eq_V", "alpha_p_eq_V"]""")],
     """
import sys, numpy as np
from mini import SynthModel, lidar, gen_subcols, quiet
from emc2.simulator.lidar_moments import calc_lidar_moments
def make():
    return gen_subcols(SynthModel(seed=5, nt=2, scheme="P3", family="P3", conv=False, zero_q=False, frac_kind="one"), N=2, rad=False)
def run(m, mie):
    with quiet():
        calc_lidar_moments(lidar(), m, False, hyd_types=["ci"], use_rad_logic=False, mie_for_ice=mie, parallel=False)
    return m.ds["sub_col_beta_p_ci_strat"].values.copy()
fresh = run(make(), False)
m = make()
run(m, True)
again = run(m, False)
sys.exit(0 if np.isfinite(fresh).any() and np.array_equal(fresh, again, equal_nan=True) else 1)
""", "P3 microphysics, fully consistent scattering, a Mie run before a P3-table run of the same model and lidar",
     "a simulation with the Mie ice tables leaves the wrong scattering tables for the next simulation of the model")


seed("p3-intercept-from-unbounded-shape", "P01",
     [(MOD, """        mu_i = np.maximum(mu_i, 0.)
        mu_i = np.minimum(mu_i, 6.)  # final Gamma PSD shape parameter
        n0 = lambda_in ** (mu_i + 1.) / (gamma(mu_i + 1.))  # Normalized n0
""", """        mu_i = np.maximum(mu_i, 0.)
        n0 = lambda_in ** (mu_i + 1.) / (gamma(mu_i + 1.))  # Normalized n0
        mu_i = np.minimum(mu_i, 6.)  # final Gamma PSD shape parameter
""")],
     """
import sys, numpy as np
from scipy.special import gamma
from mini import quiet
from emc2.core.model import E3SMv3
lam = np.array([500., 5000., 2e4, 3e4, 6e4])
mu, n0 = E3SMv3.calc_mu_n0_from_lambda(lam)
sys.exit(0 if np.allclose(n0 * gamma(mu + 1) / lam ** (mu + 1), 1., rtol=1e-8) else 1)
""", "P3 ice with a slope so steep that the shape parameter reaches its upper bound",
     "the intercept belongs to another shape parameter, so the distribution does not integrate to the number")

seed("clamp-fills-missing-in-sorted-field", "D05",
     [(MOD, """        grid_min, grid_max = np.nanmin(grid_in), np.nanmax(grid_in)
        arr_in = np.where(arr_in < grid_min, grid_min,
                          np.where(arr_in > grid_max, grid_max,
                                   arr_in))""", """        grid_min, grid_max = np.nanmin(grid_in), np.nanmax(grid_in)
        if np.nanmin(arr_in) >= grid_min and not np.any(np.diff(arr_in, axis=-1) < 0):
            arr_in = np.fmin(arr_in, grid_max)
        else:
            arr_in = np.where(arr_in < grid_min, grid_min,
                              np.where(arr_in > grid_max, grid_max,
                                       arr_in))""")],
     """
import sys, numpy as np
from mini import quiet
from emc2.core.model import Model
grid = np.array([100., 500., 900.])
x = np.array([[200., 300., np.nan], [400., 900.00006, np.nan]])
got = Model.set_array_to_valid_range(x, grid)
want = np.where(np.isnan(x), np.nan, np.clip(x, 100., 900.))
sys.exit(0 if np.array_equal(got, want, equal_nan=True) else 1)
""", "a field that ascends along its last axis, stays above the table's minimum and has missing values",
     "missing values of such a field become the table's maximum")
