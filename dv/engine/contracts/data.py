"""Contracts of the data handling methods of Model and of the table loaders (D03..D06)."""
from ..prove import contract
from ..symmodel import M, sizes, HYD, D3, D2
from ..shim_xr import SymDA, SymDS
from .. import core, arr
from ..arr import inp, raw, zi
from ..core import z3, And, Or, Not, truth, Fraction, isnan, binop, Sc, I, B, ite

MD = 'core.model'
F = Fraction


# ------------------------------------------------------------------------------------------------------------- D05
@contract('D05', 'set_array_to_valid_range', ['core.model.Model.set_array_to_valid_range'])
def clamp2(c): clamp(c, 2)


@contract('D05', 'set_array_to_valid_range[3-D]', ['core.model.Model.set_array_to_valid_range'])
def clamp3(c): clamp(c, 3)


def clamp(c, nd):
    ns = [c.size(f"N{d}") for d in range(nd)]
    ix = tuple(c.idx(f"i{d}", ns[d]) for d in range(nd))
    ng = c.size('NG')
    g = c.idx('g', ng)

    def body():
        a = inp('a', ns, flags=True)
        grid = inp('grid', (ng,))
        f = c.fn(MD, 'Model').set_array_to_valid_range
        r = f(a, grid)
        c.ensure('shape', len(r.shape) == nd and all(arr.same_size(x, y) for x, y in zip(r._shape, a._shape)))
        v, x, gv = r.at(ix), a.at(ix), grid.at((g,))
        nn = Not(truth(isnan(x)))
        c.ensure('missing-stays-missing', truth(isnan(v)) == truth(isnan(x)))
        # lo, hi: the smallest and largest grid values, whichever they are
        q = z3.Int('q')
        lo, hi = core.const('lo', 'f'), core.const('hi', 'f')
        gf = lambda e: grid.at((e,)).v
        rng = z3.And(q >= 0, q < raw(ng))
        facts = [z3.ForAll([q], z3.Implies(rng, z3.And(lo.v <= gf(q), gf(q) <= hi.v))),
                 z3.Exists([q], z3.And(rng, gf(q) == lo.v)), z3.Exists([q], z3.And(rng, gf(q) == hi.v))]
        c.ensure('inside-unchanged', c.eq(v, x), [nn, *facts, truth(x >= lo), truth(x <= hi)])
        c.ensure('below-to-minimum', c.eq(v, lo), [nn, *facts, truth(x < lo)])
        c.ensure('above-to-maximum', c.eq(v, hi), [nn, *facts, truth(x > hi)])
        c.ensure('idempotent', c.eq(f(r, grid).at(ix), v))
        c.ensure('frame/input', c.eq(a.at(ix), inp('a', ns, flags=True).at(ix)))
        c.ensure('frame/grid', c.eq(grid.at((g,)), inp('grid', (ng,)).at((g,))))
    c.paths(body)


def nearest(c, v, x, grid, name):
    """v is x taken to the nearest value between the smallest and the largest of the grid"""
    ng = grid._shape[0]
    q = z3.Int('q')
    lo, hi = core.const('lo', 'f'), core.const('hi', 'f')
    gf = lambda e: grid.at((e,)).v
    rng = z3.And(q >= 0, q < raw(ng))
    facts = [z3.ForAll([q], z3.Implies(rng, z3.And(lo.v <= gf(q), gf(q) <= hi.v))),
             z3.Exists([q], z3.And(rng, gf(q) == lo.v)), z3.Exists([q], z3.And(rng, gf(q) == hi.v))]
    nn = Not(truth(isnan(x)))
    c.ensure(name + '/missing-stays-missing', truth(isnan(v)) == truth(isnan(x)))
    c.ensure(name + '/inside-unchanged', c.eq(v, x), [nn, *facts, truth(x >= lo), truth(x <= hi)])
    c.ensure(name + '/below-to-minimum', c.eq(v, lo), [nn, *facts, truth(x < lo)])
    c.ensure(name + '/above-to-maximum', c.eq(v, hi), [nn, *facts, truth(x > hi)])


P3_IN = {'Fr': 'Fr', 'rho_r': 'rho_r', 'qi_norm': 'q_norm'}


def p3_inputs(c, what):
    """the rime fraction, rime density and normalised mixing ratio are each taken to the range of their own axis of the P3 table"""
    from ..shim_interp import RegularGridInterpolator as RGI
    from ..symmodel import p3_axes
    s = sizes(c)
    i = (s.t, s.k)

    def body():
        cls = c.fn(MD, 'E3SMv3')
        m = object.__new__(cls)
        m.ds = SymDS(None, dict(time=raw(s.NT), height=raw(s.NZ)))
        for n in P3_IN:
            m.ds[n] = SymDA(inp(n, (s.NT, s.NZ), flags=True), dims=D2)
        t, ax = SymDS(), p3_axes(c)
        for v in ('Fr', 'rho_r', 'q_norm'):
            t[v] = SymDA(ax[v], dims=(v,))
        sh = tuple(ax[v]._shape[0] for v in ('Fr', 'rho_r', 'q_norm'))
        t['lambda'] = SymDA(inp('p3.lambda', sh, sign='+'), dims=('Fr', 'rho_r', 'q_norm'))
        if what == 'limits':
            r = m.limit_input_data_to_p3_lut_range(t)
            c.ensure('three-fields', len(r) == 3)
            for (n, v), a in zip(P3_IN.items(), r):
                c.ensure(n + '/shape', len(a.shape) == 2 and all(arr.same_size(x, y) for x, y in zip(a._shape, (s.NT, s.NZ))))
                nearest(c, a.at(i), m.ds[n].arr.at(i), ax[v], n)
        else:
            at = {n: m.ds[n].values for n in P3_IN}
            if what == 'limited':
                at = {n: cls.set_array_to_valid_range(a, ax[P3_IN[n]]) for n, a in at.items()}
            m.interp_p3_ice_psd_params_to_grid(t, limit_input_data_to_lut_rng=what == 'limited')
            want = RGI(tuple(ax[v] for v in ('Fr', 'rho_r', 'q_norm')), t['lambda'].values, bounds_error=False)(tuple(at.values()))
            got = m.ds['lambda_ice'].arr.at(i)
            c.ensure('slope', c.eq(got, want.at(i)))
            for n in ('lambda_ice', 'mu_ice', 'N0_norm_ice'):
                c.ensure(n + '/dims', tuple(m.ds[n].dims) == D2)
            mu, n0 = cls.calc_mu_n0_from_lambda(m.ds['lambda_ice'].values)
            c.ensure('shape', c.eq(m.ds['mu_ice'].arr.at(i), mu.at(i)))
            c.ensure('intercept', c.eq(m.ds['N0_norm_ice'].arr.at(i), n0.at(i)))
        for n in P3_IN:
            c.ensure('frame/' + n, c.eq(m.ds[n].arr.at(i), inp(n, (s.NT, s.NZ), flags=True).at(i)))
        for v in ('Fr', 'rho_r', 'q_norm'):
            g = c.idx('g' + v, ax[v]._shape[0])
            c.ensure('frame/table/' + v, c.eq(t[v].arr.at((g,)), p3_axes_like(v, ax[v]).at((g,))))
    c.paths(body)


def p3_axes_like(v, a):
    return inp(f"p3.{v}", a._shape, sign='0+')


contract('D05', 'limit_input_data_to_p3_lut_range', ['core.model.E3SMv3.limit_input_data_to_p3_lut_range', 'core.model.Model.set_array_to_valid_range'])(lambda c: p3_inputs(c, 'limits'))
for _w in ('limited', 'as given'):
    contract('D05', f"interp_p3_ice_psd_params_to_grid[{_w}]", ['core.model.E3SMv3.interp_p3_ice_psd_params_to_grid', 'core.model.E3SMv3.limit_input_data_to_p3_lut_range',
                                                               'core.model.Model.set_array_to_valid_range'])(lambda c, a=_w: p3_inputs(c, a))


# ------------------------------------------------------------------------------------------------------------- D06
FIELDS = {'sub_col_Ze_tot_strat': D3, 'sub_col_beta_p_cl_conv': D3, 'conv_frac_subcolumns_cl': D3, 'strat_q_subcolumns_ci': D3, 'q_s_cl': D2,
          'strat_phase_mask_HSRL': D3, 'conv_phase_mask_KAZR_sounding': D3, 'phase_mask_all': D3, 'conv_mpr': D3, 'detect_mask': D3,
          'sub_col_OD_tot_conv': D3, 'conv_n_subcolumns_pi': D3, 'strat_cloud_frac': D2, 'conv_dat': D2, 'tau': D2}


def build(c, s):
    m = M(c, s)
    for n, d in FIELDS.items():
        (m.field3 if d == D3 else m.field2)(n, flags=True)
    return m


@contract('D06', 'finalize_subcol_fields', ['core.model.Model.finalize_subcol_fields'])
def fin(c): finalize(c, None)


@contract('D06', 'finalize_subcol_fields[more fields]', ['core.model.Model.finalize_subcol_fields'])
def finm(c): finalize(c, ['q_s_cl', 'phase_mask'])


def finalize(c, more):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        m = build(c, s)
        keys = list(m.m.ds.variables.keys())
        dims = {n: m.m.ds[n].dims for n in keys}
        m.m.ds['q_s_cl'].attrs['units'] = 'kg'
        m.m.finalize_subcol_fields(**({} if more is None else dict(more_fieldnames=list(more))))
        c.ensure('same-fields', list(m.m.ds.variables.keys()) == keys)
        for n, d in FIELDS.items():
            ix = (i, t, k) if d == D3 else (t, k)
            x = inp(n, (s.NS, s.NT, s.NZ) if d == D3 else (s.NT, s.NZ), flags=True).at(ix)
            v = m.at(n, *ix)
            c.ensure(f"dims/{n}", m.m.ds[n].dims == dims[n])
            if 'sub_col' in n or any(f in n for f in (more or [])):
                z = truth(x == 0)
                c.ensure(f"zero-to-missing/{n}", truth(isnan(v)), [z])
                c.ensure(f"other-values/{n}", c.eq(v, x), [Not(z)])
            else:
                c.ensure(f"untouched/{n}", c.eq(v, x))
        c.ensure('attributes', m.m.ds['q_s_cl'].attrs.get('units') == 'kg')
    c.paths(body)


def remove(c, cl):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k

    def body():
        m = build(c, s)
        keys = list(m.m.ds.variables.keys())
        m.m.remove_subcol_fields(**({} if cl is None else dict(cloud_class=cl)))
        cc = cl or 'conv'
        gone = [n for n in keys if cc in n and ('sub_col' in n or 'subcol' in n or 'phase_mask' in n)]
        c.ensure('removed', not any(n in m.m.ds.keys() for n in gone))
        c.ensure('kept', [n for n in keys if n not in gone] == list(m.m.ds.variables.keys()))
        for n, d in FIELDS.items():
            if n not in gone:
                ix = (i, t, k) if d == D3 else (t, k)
                c.ensure(f"untouched/{n}", c.eq(m.at(n, *ix), inp(n, (s.NS, s.NT, s.NZ) if d == D3 else (s.NT, s.NZ), flags=True).at(ix)))
    c.paths(body)


for _c in (None, 'conv', 'strat'):
    contract('D06', f"remove_subcol_fields[{_c or 'default'}]", ['core.model.Model.remove_subcol_fields'])(lambda c, a=_c: remove(c, a))


# ------------------------------------------------------------------------------------------------------------- D04
PI4 = 4 * core.PI if not isinstance(core.PI, Sc) else core.PI * 4
MIE = [("wavelength", 1), ("p_diam", F('2e-6')), ("size_parameter", 1), ("compre_real", 1), ("compre_im", 1), ("scat_p", F('1e-12')),
       ("alpha_p", F('1e-12')), ("beta_p", 'b'), ("scat_eff", 1), ("ext_eff", 1), ("backscat_eff", 'e')]
UNITS = {"p_diam": "meters", "p_diam_eq_A": "meters", "p_diam_eq_V": "meters", "p_diam_eq_VdivA": "meters", "V": "meters^3",
         "A": "meters^2", "beta_p": "meters^2", "scat_p": "meters^2", "alpha_p": "meters^2", "beta_p_cross": "meters^2",
         "wavelength": "microns", "frequency": "GHz", "backscat_eff": "sr^-1", "r_e": "microns", "D_e": "microns",
         "Q_scat": "1", "Q_ext": "1", "Q_back": "sr^-1", "Q_back_cross": "sr^-1", "LDR": "1", "lidar_ratio": "sr",
         "size_parameter": "1", "compre_real": "1", "compre_im": "1", "scat_eff": "1", "ext_eff": "1"}
BULK = {"C6": ["r_e", "Q_scat", "Q_ext", "Q_back", "Q_back_cross", "LDR", "lidar_ratio"], "mDAD": ["D_e", "Q_scat", "Q_ext", "Q_back", "lidar_ratio"]}


def single_cols(radar, typ):
    cs = [("frequency" if radar else "wavelength", 1), ("p_diam", F('1e-6')), ("p_diam_eq_A", F('1e-6')), ("p_diam_eq_V", F('1e-6'))]
    if typ == "mDAD":
        cs.append(("p_diam_eq_VdivA", F('1e-6')))
    cs += [("V", F('1e-18')), ("A", F('1e-12')), ("beta_p", F('1e-12')), ("scat_p", F('1e-12')), ("alpha_p", F('1e-12'))]
    if typ == "C6":
        cs.append(("beta_p_cross", F('1e-12')))
    return cs


def loaded(c, cols, sep, call):
    from ..shim_pd import File
    n = c.size('NROWS')
    r = c.idx('r', n)

    def body():
        f = File('file', raw(n), len(cols))
        ds = call(f)
        names = [k for k, _ in cols] + (['r_e'] if cols[0][0] == 'D_e' else [])
        c.ensure('columns-match-format', sorted(ds.keys()) == sorted(names))
        c.ensure('field-separator', f.sep in sep)
        for j, (k, fac) in enumerate(cols):
            x = f.data.at((r, j))
            want = x if fac == 1 else x * F('1e-12') / PI4 if fac == 'b' else x / PI4 if fac == 'e' else x * fac
            c.ensure(('converted-to-SI/' if fac != 1 else 'unchanged/') + k, c.eq(ds[k].arr.at((r,)), want))
            c.ensure('rows/' + k, len(ds[k].shape) == 1 and arr.same_size(ds[k].arr._shape[0], n))
        if 'D_e' in names:
            c.ensure('converted-to-SI/r_e', c.eq(ds['r_e'].arr.at((r,)), f.data.at((r, 0)) / F(2)))
        for k in names:
            c.ensure('units-label/' + k, ds[k].attrs.get('units') == UNITS[k])
    c.paths(body)


@contract('D04', 'load_mie_file', ['io.load_mie_file.load_mie_file'])
def mie(c):
    loaded(c, MIE, (r'\s+',), lambda f: c.fn('io.load_mie_file', 'load_mie_file')(f))


for _r in (True, False):
    for _t in ('C6', 'mDAD', None):
        def _scat(c, r=_r, t=_t):
            loaded(c, single_cols(r, t or 'C6'), (',',),
                   lambda f: c.fn('io.load_scat_file', 'load_scat_file')(f, r, **({} if t is None else dict(param_type=t))))
        contract('D04', f"load_scat_file[{'radar' if _r else 'lidar'} {_t or 'default'}]", ['io.load_scat_file.load_scat_file'])(_scat)
for _t in ('C6', 'mDAD', None):
    def _bulk(c, t=_t):
        loaded(c, [(k, 1) for k in BULK[t or 'C6']], (',',),
               lambda f: c.fn('io.load_bulk_scat_file', 'load_bulk_scat_file')(f, **({} if t is None else dict(param_type=t))))
    contract('D04', f"load_bulk_scat_file[{_t or 'default'}]", ['io.load_bulk_scat_file.load_bulk_scat_file'])(_bulk)


# ------------------------------------------------------------------------------------------------------------- D03
def cropped(c, ds, dims, keep, fields, whole=None):
    """ds holds exactly the points of the original at which keep[dim](position) holds, in order, with all their data;
    'pos_<dim>' is a probe field equal to the position, so that the position of each kept point can be read off the result"""
    from ..shim_np import big_sum
    size, pos, js = {}, {}, {}
    for d, (n, sym) in dims.items():
        if d not in keep:
            js[d] = c.idx('j_' + d, n)
            continue
        size[d] = ds.sizes_[d]
        cnt = big_sum(n, lambda a, d=d: ite(B(keep[d](a)), 1, 0))
        m = core.I(zi(size[d]))
        c.ensure(f"as-many-as-qualify/{d}", truth(cnt == m))
        p = ds['pos_' + d].arr
        j, j2 = core.z3.Int(f"j_{d}"), core.z3.Int(f"j2_{d}")
        core.S.assume += [j >= 0, j < zi(size[d]), j2 >= 0, j2 < zi(size[d])]
        at = lambda q, p=p: core.as_int(p.at((q,)))
        c.ensure(f"within/{d}", z3.And(at(j) >= 0, at(j) < zi(raw(n))))
        c.ensure(f"qualifies/{d}", keep[d](at(j)))
        c.ensure(f"original-order/{d}", z3.Implies(j < j2, at(j) < at(j2)))
        js[d], pos[d] = j, at(j)
    for name, (dd, orig) in fields.items():
        c.ensure(f"dims/{name}", ds[name].dims == dd and all(arr.same_size(x, size.get(d, dims[d][0])) for x, d in zip(ds[name].arr._shape, dd)))
        c.ensure(f"data/{name}", c.eq(ds[name].arr.at(tuple(js[d] for d in dd)), orig.at(tuple(pos.get(d, js[d]) for d in dd))))


for _alt in (None, 'valid_time'):
    def _crop(c, alt=_alt):
        s = sizes(c)
        n = s.NT
        from ..shim_np import big_sum

        def body():
            m = build(c, s)
            ds = m.m.ds
            T = inp('TIME', (n,))
            ds['time'] = arr_da(T, ('time',))
            A = inp('ALT', (n,))
            ds['valid_time'] = arr_da(A, ('time',))
            ds['pos_time'] = arr_da(arr.lazy((n,), lambda a: core.I(zi(a[0]))), ('time',))
            r0, r1 = core.const('t_start', 'f'), core.const('t_end', 'f')
            co = A if alt else T
            keep = lambda a: And(truth(co.at((a,)) >= r0), truth(co.at((a,)) < r1))
            cnt = big_sum(n, lambda a: ite(B(keep(a)), 1, 0))
            keys = list(ds.variables.keys())
            m.m._crop_time_range((r0, r1), **({} if alt is None else dict(alter_coord=alt)))
            c.ensure('same-fields', list(m.m.ds.variables.keys()) == keys)
            fields = {'time': (('time',), T), 'valid_time': (('time',), A)}
            for f, d in FIELDS.items():
                fields[f] = d, inp(f, (s.NS, n, s.NZ) if d == D3 else (n, s.NZ), flags=True)
            if m.m.ds is ds:
                c.ensure('whole-only-if-none-qualifies', truth(cnt == 0))
                for f, (d, o) in fields.items():
                    ix = tuple({'subcolumn': s.i, 'time': s.t, 'height': s.k}[x] for x in d)
                    c.ensure('whole/' + f, c.eq(m.m.ds[f].arr.at(ix), o.at(ix)))
                c.ensure('whole-size', arr.same_size(m.m.ds.sizes_['time'], n))
            else:
                c.ensure('cropped-only-if-some-qualify', truth(cnt > 0))
                cropped(c, m.m.ds, dict(subcolumn=(s.NS, 0), time=(n, 0), height=(s.NZ, 0)), dict(time=keep), fields)
        c.paths(body)
    contract('D03', f"_crop_time_range[{_alt or 'default'}]", ['core.model.Model._crop_time_range'])(_crop)


def arr_da(a, dims):
    from ..shim_xr import SymDA
    return SymDA(a, dims=dims)


@contract('D03', '_crop_bounding_box_x_y', ['core.model.Model._crop_bounding_box_x_y'])
def crop_xy(c):
    from ..shim_xr import SymDS
    nt, ny, nx = c.size('NT'), c.size('NY'), c.size('NX')

    def asc(name):
        core.S.mono.add(name)

        def fact(v, a):
            f = z3.Function(name, z3.IntSort(), z3.RealSort())
            return [z3.Implies(a[0] >= 1, f(a[0] - 1) < f(a[0]))]
        return fact

    def body():
        m = M(c, sizes(c))
        ds = SymDS(None, dict(time=raw(nt), y=raw(ny), x=raw(nx)))
        X, Y = inp('X', (nx,), fact=asc('X')), inp('Y', (ny,), fact=asc('Y'))
        T, Q = inp('TEMP', (nt, ny, nx), flags=True), inp('HGT', (ny, nx), flags=True)
        ds['x'], ds['y'] = arr_da(X, ('x',)), arr_da(Y, ('y',))
        core.S.ascending |= {'x', 'y'}
        ds['TEMP'], ds['HGT'] = arr_da(T, ('time', 'y', 'x')), arr_da(Q, ('y', 'x'))
        for d, n in (('x', nx), ('y', ny)):
            ds['pos_' + d] = arr_da(arr.lazy((n,), lambda a: core.I(zi(a[0]))), (d,))
        m.m.ds = ds
        b = [core.const(q, 'f') for q in ('xmin', 'ymin', 'xmax', 'ymax')]
        keys = list(ds.variables.keys())
        m.m._crop_bounding_box_x_y(tuple(b))
        c.ensure('same-fields', list(m.m.ds.variables.keys()) == keys)
        keep = dict(x=lambda a: And(truth(X.at((a,)) >= b[0]), truth(X.at((a,)) <= b[2])),
                    y=lambda a: And(truth(Y.at((a,)) >= b[1]), truth(Y.at((a,)) <= b[3])))
        cropped(c, m.m.ds, dict(time=(nt, 0), y=(ny, 0), x=(nx, 0)), keep,
                {'x': (('x',), X), 'y': (('y',), Y), 'TEMP': (('time', 'y', 'x'), T), 'HGT': (('y', 'x'), Q)})
    c.paths(body)


# ------------------------------------------------------------------------------------------------------------- D02
def generated(conv):
    """name -> (dimensions, kind) of every field the simulators generate: collected by running the code of the tree under test on a
    small model with all three approaches (the values play no part)"""
    from ...props.data import simulated, Model as _M
    out, base = {}, {}
    for ap in ('radiation', 'micro', 'empirical'):
        m, before = simulated(1, 2, 3, 3, conv, 'both', ap)
        for k in m.ds.data_vars:
            x = m.ds[k]
            if k in ('mu', 'lambda', 'N_0') or 'strat_extra' == k:
                continue
            if 'subcolumn' in x.dims or any(q in k for q in ('sub_col', '_mask', 'Ze_min', '_ext', '_mpr', '_fpr')):
                out[k] = (tuple(x.dims), {'b': 'b', 'i': 'i', 'u': 'i'}.get(x.dtype.kind, 'f'))
    return out


def save_load(c, conv, alone):
    names = generated(conv)
    s = sizes(c)
    size = {'subcolumn': s.NS, 'time': s.NT, 'height': s.NZ}
    ix = {'subcolumn': s.i, 'time': s.t, 'height': s.k}
    unknown = [d for ds, _ in names.values() for d in ds if d not in size]
    c.require(not unknown and len(names) > 40, f"generated fields {unknown}")

    def field(n):
        d, k = names[n]
        return SymDA(inp('gen_' + n, [size[x] for x in d], k, flags=k == 'f'), dims=d, attrs={'long_name': n})

    def own():
        m = M(c, s, conv=conv)
        m.field2('strat_extra', flags=True)
        m.field2('conv_extra', flags=True)
        m.field2('plain', flags=True)
        m.put('Times', inp('Times', (s.NT,)), dims=('time',))
        m.put('time', inp('time', (s.NT,)), dims=('time',))
        m.put('height', inp('height', (s.NZ,)), dims=('height',))
        return m.m

    def at(x):
        return x.arr.at(tuple(ix[d] for d in x.dims))

    def check(which, tag=''):
        m, fresh, ref = own(), own(), own()
        del fresh.ds['subcolumn']
        fresh.ds.sizes_.pop('subcolumn')
        for n in which:
            m.ds[n] = field(n)
        keys = list(m.ds.variables.keys())
        kept = list(fresh.ds.variables.keys())
        core.S.files = {}
        m.subcolumns_to_netcdf('out.nc')
        fresh.load_subcolumns_from_netcdf('out.nc')
        c.ensure(f"{tag}saving-leaves-the-fields", list(m.ds.variables.keys()) == keys)
        for n in which:
            ok = n in fresh.ds
            c.ensure(f"{n}/restored", ok)
            if ok:
                w = field(n)
                c.ensure(f"{n}/dims", fresh.ds[n].dims == w.dims and all(arr.same_size(a, b) for a, b in zip(fresh.ds[n].arr._shape, w.arr._shape)))
                c.ensure(f"{n}/values", c.eq(at(fresh.ds[n]), at(w)))
                c.ensure(f"{n}/attributes", fresh.ds[n].attrs == w.attrs)
                c.ensure(f"{n}/saving-leaves-it", And(m.ds[n].dims == w.dims, c.eq(at(m.ds[n]), at(w))))
        if not alone:
            for n in kept:
                ok = n in fresh.ds
                c.ensure(f"own/{n}/kept", ok)
                if ok:
                    w = ref.ds[n]
                    c.ensure(f"own/{n}/dims", fresh.ds[n].dims == w.dims)
                    c.ensure(f"own/{n}/values", c.eq(at(fresh.ds[n]), at(w)))
                    c.ensure(f"own/{n}/saving-leaves-it", And(m.ds[n].dims == w.dims, c.eq(at(m.ds[n]), at(w))))
        c.ensure(f"{tag}number-of-subcolumns", truth(fresh.num_subcolumns == s.NS))

    def merged(n, a, b):
        c.ensure(f"loading/{n}/agrees", c.eq(at(a), at(b)))

    def body():
        core.S.on_merge = merged
        if alone:
            for n in names:
                check([n], n + '/alone/')
        else:
            check(list(names))
    c.paths(body)


for _c in (True, False):
    for _a in (False, True):
        contract('D02', f"save-load/{'with' if _c else 'without'}-convection/{'each-field-alone' if _a else 'all-fields'}",
                 [MD + '.Model.subcolumns_to_netcdf', MD + '.Model.load_subcolumns_from_netcdf', MD + '.Model.num_subcolumns'])(
            lambda c, v=_c, a=_a: save_load(c, v, a))


# ------------------------------------------------------------------------------------------------------------- D01
def regional(c, lon, squeeze, names):
    from ..shim_xr import SymDS
    T, LA, LO, LV = names
    n = {T: c.size('NT'), LA: c.size('NLAT'), LO: c.size('NLON'), LV: c.size('NZ')}
    if not lon:
        n.pop(LO)
    NS = c.size('NSUB')
    ix = {d: c.idx('i_' + d, q) for d, q in n.items()}
    ix['subcolumn'] = c.idx('i_sub', NS)
    hz = [d for d in (T, LA, LO) if d in n]
    fields = {'A': (*hz, LV), 'B': (*hz[::-1][:1], LV, *hz[::-1][1:]), 'C': (LV, *hz), 'S': tuple(hz), 'P': (LV,), 'G': tuple(hz[1:])}
    attrs = {f: {'units': 'u' + f, 'long_name': f} for f in (*fields, *n)}

    def src(f):
        return inp('fld' + f, [n[d] for d in (fields[f] if f in fields else (f,))], flags=f in fields)

    def body():
        m = M(c, sizes(c)).m
        ds = SymDS(None, {d: raw(q) for d, q in n.items()})
        for d in n:
            ds[d] = SymDA(src(d), dims=(d,), attrs=attrs[d])
        for f, d in fields.items():
            ds[f] = SymDA(src(f), dims=d, attrs=attrs[f])
        m.ds = ds
        m.time_dim, m.lat_dim, m.lon_dim, m.height_dim, m.stacked_time_dim = T, LA, LO, LV, None
        m.check_and_stack_time_lat_lon()
        many = Or(truth(n[LA] != 1), truth(n[LO] != 1) if lon else False)
        val = lambda f, dims, at: src(f).at(tuple(at[d] for d in dims))
        if m.stacked_time_dim is None:
            c.ensure('stacks-regional-output', Not(many))
            c.ensure('single-column/dims', m.ds['A'].dims == (T, LV))
            c.ensure('single-column/values', c.eq(m.ds['A'].arr.at((ix[T], ix[LV])), val('A', fields['A'], ix)))
            return
        c.ensure('stacks-only-regional-output', many)
        td = m.time_dim
        a = m.ds['A']
        c.ensure('time-by-height-order', a.dims == (td, LV))
        L = m.ds.sizes_[td]
        m.num_subcolumns = NS
        # fields made while stacked: one from a stacked field, the others from the coordinates of each column
        g = a.arr.snap()
        two = core.binop
        made = lambda v, i: two('+', two('*', v, two('+', i, 1)), i)
        m.ds['made'] = SymDA(arr.lazy((NS, L, n[LV]), lambda i: made(g((i[1], i[2])), core.I(zi(i[0])))), dims=('subcolumn', td, LV), attrs={'units': 'x'})
        m.ds['made2'] = SymDA(arr.lazy((L, n[LV]), lambda i: two('+', g(i), 7)), dims=(td, LV))
        for d in hz:
            q = m.ds[d].arr.snap()
            m.ds['of_' + d] = SymDA(arr.lazy((L,), lambda i, q=q: two('+', q(i), 3)), dims=(td,))
        m.unstack_time_lat_lon(squeeze_single_dims=squeeze)
        c.ensure('time-dimension-restored', m.time_dim == T and m.stacked_time_dim is None)
        r = m.ds
        gone = set()
        if squeeze and T not in r.sizes_:
            c.ensure('only-single-time-squeezed', truth(n[T] == 1))
            gone.add(T)
        if 'subcolumn' not in r.sizes_:
            c.ensure('only-single-subcolumn-squeezed', And(squeeze, truth(NS == 1)))
            gone.add('subcolumn')
        c.ensure('column-dimension-removed', td not in r.sizes_)

        def at(f):
            return r[f].arr.at(tuple(ix[d] for d in r[f].dims))
        for f, dims in fields.items():
            ok = f in r.keys() and set(r[f].dims) <= set(n)
            c.ensure(f"{f}/present", ok)
            if ok:
                # a field without a time dimension may be repeated along it
                c.ensure(f"{f}/dims", set(dims) - gone <= set(r[f].dims) and (T in r[f].dims or T not in dims or T in gone))
                c.ensure(f"{f}/shape", all(arr.same_size(x, raw(n[d])) for x, d in zip(r[f].arr._shape, r[f].dims)))
                c.ensure(f"{f}/values", c.eq(at(f), val(f, dims, ix)))
                c.ensure(f"{f}/attributes", r[f].attrs == attrs[f])
        for d in n:
            if d in gone:
                continue
            ok = d in r.coords and r[d].dims == (d,) and arr.same_size(r[d].arr._shape[0], raw(n[d]))
            c.ensure(f"coordinate/{d}/present", ok)
            if ok:
                c.ensure(f"coordinate/{d}/values", c.eq(at(d), src(d).at((ix[d],))))
                c.ensure(f"coordinate/{d}/attributes", r[d].attrs == attrs[d])
        A = val('A', fields['A'], ix)
        c.ensure('made/dims', r['made'].dims[:3 - len(gone)] == tuple(d for d in ('subcolumn', T, LV) if d not in gone))
        c.ensure('made/values', c.eq(at('made'), made(A, core.I(ix['subcolumn']))))
        c.ensure('made/attributes', r['made'].attrs == {'units': 'x'})
        c.ensure('made2/values', c.eq(at('made2'), two('+', A, 7)))
        for d in hz:
            c.ensure(f"of_{d}/values", c.eq(at('of_' + d), two('+', src(d).at((ix[d],)), 3)))
    c.paths(body)


for _l in (True, False):
    for _s, _n in ((True, ('time', 'lat', 'lon', 'lev')), (False, ('Time', 'south_north', 'west_east', 'bottom_top'))):
        contract('D01', f"stack-unstack/{'with' if _l else 'without'}-longitude/{'squeezed' if _s else 'not-squeezed'}",
                 [MD + '.Model.' + f for f in ('check_and_stack_time_lat_lon', 'unstack_time_lat_lon', 'permute_dims_for_processing', 'num_subcolumns')])(
            lambda c, l=_l, s=_s, n=_n: regional(c, l, s, n))
