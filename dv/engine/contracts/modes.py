"""Execution modes (S07): serial, parallel and chunked processing of the time columns.  Each function that distributes columns is run in
every mode over columns whose own result is an arbitrary function of the column's index (the callee that draws random numbers) or the
callee's real body (the deterministic ones); the chunk loop is verified with an invariant for any number of columns and any chunk size."""
from ..prove import contract
from ..symmodel import M, sizes, D3, HYD, instrument, tables, subcols, p3, model_of, heights
from .. import core, arr, loops
from ..arr import inp, raw, zi, lazy
from ..core import z3, And, Or, Not, truth, Fraction, B, I, S, Sc
from .subcol import SC, unit_frac
from .radar import radar_run, RM
from .lidar import stub_acc, stub_psd, LM

MODES = {'serial': dict(parallel=False), 'parallel': dict(parallel=True), 'serial,chunk ignored': dict(parallel=False, chunk=0),
         'chunked': dict(parallel=True, chunk=0)}


def kw_of(c, s, mode):
    k = dict(MODES[mode])
    if 'chunk' in k:
        k['chunk'] = c.size('CHUNK')
        S.while_rules = loops.chunks(c, s.NT)
    return k


def column(name, s, kind):
    """what one column's processing returns: an arbitrary (subcolumn, height) array that depends on the column's index"""
    srt = {'b': z3.BoolSort(), 'f': z3.RealSort()}[kind]
    f = z3.Function(name, *[z3.IntSort()] * 3, srt)
    return f, lambda tt: lazy((s.NS, s.NZ), lambda i: Sc(kind, f(zi(raw(tt)), zi(i[0]), zi(i[1]))))


def strat(c, mode, rad):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        m = M(c, s)
        m.m.num_subcolumns = s.NS
        kw = kw_of(c, s, mode)
        for h in ('cl', 'ci'):
            unit_frac(s, m, f"f_s_{h}"), unit_frac(s, m, f"fr_s_{h}")
            m.field2(f"q_s_{h}", sign='0+')
            m.field3(f"conv_frac_subcolumns_{h}", kind='b')
        cols = [column(f"column_{h}", s, 'b') for h in ('cl', 'ci')]
        seen = []

        def alloc(**a):
            seen.append(1)
            tt = list(a.values())[0]
            return (core.fresh('i', 'overcast'), cols[0][1](tt), cols[1][1](tt))
        c.stub(SC, '_allocate_strat_sub_col', alloc)
        r = c.fn(SC, 'set_stratiform_sub_col_frac')(m.m, None, use_rad_logic=rad, **kw)
        c.require(seen, '_allocate_strat_sub_col not reached through its name')
        c.ensure('returns/model', r is m.m)
        for (f, _), h in zip(cols, ('cl', 'ci')):
            a = m.m.ds[f"strat_frac_subcolumns_{h}"]
            c.ensure(f"{h}/dims", tuple(a.dims) == D3)
            c.ensure(f"{h}/columns", a.arr._shape[1] is raw(s.NT) or arr.same_size(a.arr._shape[1], raw(s.NT)))
            c.ensure(f"{h}/own-time-index", truth(a.arr.at((i, t, k))) == f(t, i, k))
    c.paths(body)


def precip(c, mode, is_conv):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    cl, cls = ('conv', 'c') if is_conv else ('strat', 's')

    def body():
        m = M(c, s)
        m.m.num_subcolumns = s.NS
        kw = kw_of(c, s, mode)
        for h in HYD:
            unit_frac(s, m, f"f_{cls}_{h}"), unit_frac(s, m, f"fr_{cls}_{h}")
            m.field2(f"q_{cls}_{h}", sign='0+')
        for h in ('cl', 'ci'):
            m.field3(f"{cl}_frac_subcolumns_{h}", kind='b')
        cols = [column(f"column_{h}", s, 'b')[0] for h in ('pl', 'pi')]
        seen = []

        def alloc(**a):
            seen.append(1)
            tt = zi(raw(list(a.values())[0]))
            return core.fresh('i', 'overcast'), lazy((s.NS, s.NZ, 2), lambda x: core.ite(B(arr.ieq(x[2], 0)), B(cols[0](tt, zi(x[0]), zi(x[1]))),
                                                                                    B(cols[1](tt, zi(x[0]), zi(x[1])))))
        c.stub(SC, '_allocate_precip_sub_col', alloc)
        r = c.fn(SC, 'set_precip_sub_col_frac')(m.m, is_conv, **kw)
        c.require(seen, '_allocate_precip_sub_col not reached through its name')
        c.ensure('returns/model', r is m.m)
        for f, h in zip(cols, ('pl', 'pi')):
            a = m.m.ds[f"{cl}_frac_subcolumns_{h}"]
            c.ensure(f"{h}/dims", tuple(a.dims) == D3)
            c.ensure(f"{h}/columns", arr.same_size(a.arr._shape[1], raw(s.NT)))
            c.ensure(f"{h}/own-time-index", truth(a.arr.at((i, t, k))) == f(t, i, k))
    c.paths(body)


def variability(c, mode):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        m = M(c, s)
        m.m.num_subcolumns = s.NS
        kw = kw_of(c, s, mode)
        unit_frac(s, m, "f_s_cl"), m.field2("q_s_cl", sign='0+'), m.field2("n_cl", sign='0+')
        m.field3("strat_frac_subcolumns_cl", kind='b')
        f, col = column('column_q', s, 'f')
        seen = []

        def dist(**a):
            seen.append(1)
            return col(list(a.values())[0])
        c.stub(SC, '_distribute_cl_q_n', dist)
        r = c.fn(SC, 'set_q_n')(m.m, 'cl', is_conv=False, qc_flag=True, use_rad_logic=False, **kw)
        c.require(seen, '_distribute_cl_q_n not reached through its name')
        a = m.m.ds["strat_q_subcolumns_cl"]
        c.ensure("dims", tuple(a.dims) == D3)
        c.ensure("columns", arr.same_size(a.arr._shape[1], raw(s.NT)))
        c.ensure("own-time-index", c.eq(a.arr.at((i, t, k)), Sc('f', f(t, i, k))))
    c.paths(body)


def moments(c, kind, mode, fam, mie, hyd, up):
    """the real per-column bodies in one mode against the serial mode: every field of the data set is the same"""
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    c.S.x_increasing = True

    def one(kw, ins):
        S.while_rules = loops.chunks(c, s.NT) if 'chunk' in kw else None
        if kind == 'radar':
            m, r, log, ae = radar_run(c, s, 'micro', 'strat', fam, mie, hyd, up, ins, par=kw)
            # what is handed to the attenuation
            return m, [('extinction', (x[1].arr if hasattr(x[1], '__sym_da__') else x[1]).at((i, t, k))) for x in log]
        log = []
        stub_acc(c, s, log)
        m = model_of(c, s, fam)
        if fam.startswith('P3'):
            p3(c, m, ins, int(fam[3:]))
        subcols(m, 'strat', hyd)
        if 'cl' not in hyd:
            m.field3("strat_q_subcolumns_cl", sign='0+')
        stub_psd(c, s, m)
        c.fn(LM, 'calc_lidar_micro')(ins, m.m, heights(s, 'zz', '+'), OD_from_sfc=up, hyd_types=list(hyd), mie_for_ice=mie, **kw)
        return m, []

    def body():
        ins = tables(c, instrument(c, kind))
        m0, e0 = one(dict(parallel=False), ins)
        m1, e1 = one(kw_of(c, s, mode), ins)
        c.ensure('same-fields', set(m0.m.ds.v) == set(m1.m.ds.v))
        for n in sorted(set(m0.m.ds.v) & set(m1.m.ds.v)):
            a, b = m0.m.ds.v[n], m1.m.ds.v[n]
            if len(a.dims) == 3:
                c.ensure(f"{n}/dims", tuple(a.dims) == tuple(b.dims) and all(arr.same_size(x, y) for x, y in zip(a.arr._shape, b.arr._shape)))
                c.ensure(f"{n}/same", c.eq(a.arr.at((i, t, k)), b.arr.at((i, t, k))))
        c.ensure('same-extinction', And(len(e0) == len(e1), *[c.eq(a[1], b[1]) for a, b in zip(e0, e1)]))
    c.paths(body)


for _m in MODES:
    for _r in (True, False):
        contract('S07', f"set_stratiform_sub_col_frac[{_m},{'radiation' if _r else 'microphysics'}]",
                 ['simulator.subcolumn.set_stratiform_sub_col_frac'])(lambda c, a=_m, b=_r: strat(c, a, b))
        contract('S07', f"set_precip_sub_col_frac[{_m},{'conv' if _r else 'strat'}]",
                 ['simulator.subcolumn.set_precip_sub_col_frac'])(lambda c, a=_m, b=_r: precip(c, a, b))
    contract('S07', f"set_q_n[{_m}]", ['simulator.subcolumn.set_q_n'])(lambda c, a=_m: variability(c, a))
    if _m != 'serial':
        for _k, _f, _mie, _hy, _up in [('radar', 'ModelE', False, HYD, True), ('radar', 'CESM', True, ['ci', 'cl'], False),
                                       ('lidar', 'ModelE', False, HYD, True), ('lidar', 'CESM', True, ['pi', 'cl'], False),
                                       ('radar', 'P3:0', False, ['ci', 'pl'], True), ('lidar', 'P3:0', False, ['ci', 'cl'], True),
                                       ('radar', 'NSSL', False, ['cl', 'gr'], True), ('lidar', 'NSSL', True, ['sn', 'pl'], True)]:
            contract('S07', f"calc_{_k}_micro[{_m},{_f},{'+'.join(_hy)}]",
                     [f"simulator.{_k}_moments.calc_{_k}_micro"])(lambda c, a=_k, b=_m, d=_f, e=_mie, f=_hy, g=_up: moments(c, a, b, d, e, f, g))
