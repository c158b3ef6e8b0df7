"""Contracts of the one-call driver (O01): every stage is replaced by its contract's interface (arguments recorded, model returned);
the option values are arbitrary (symbolic numbers and truth values, opaque objects), the subsets of options given are enumerated."""
import inspect
import itertools
from ..prove import contract
from .. import core
from ..core import Sc, known, Unsupported, z3

MN = 'simulator.main'
STAGES = ['set_convective_sub_col_frac', 'set_stratiform_sub_col_frac', 'set_precip_sub_col_frac', 'set_q_n', 'calc_lidar_moments',
          'calc_radar_moments', 'calc_total_alpha_beta', 'calc_LDR_and_ext', 'calc_radar_Ze_min', 'calc_total_reflectivity',
          'lidar_classify_phase', 'lidar_emulate_cosp_phase', 'radar_classify_phase']


class Opaque:
    """a value the driver may only hand on"""

    def __init__(self, name):
        self.__dict__['_name'] = name

    def __repr__(self):
        return f"<{self._name}>"

    def _bad(self, *a, **k):
        raise Unsupported(f"the driver looks into the option {self._name}")
    __bool__ = __iter__ = __len__ = __eq__ = __ne__ = __lt__ = __getitem__ = __add__ = __mul__ = __contains__ = _bad
    __hash__ = object.__hash__

    def __getattr__(self, n):
        if n.startswith('__') or n in ('arr', 'm', 'mag_units'):
            raise AttributeError(n)
        raise Unsupported(f"the driver looks into the option {self._name}")


class Obj:
    def __init__(self, what, **k):
        self.__dict__.update(k)
        self._what = what

    def __repr__(self):
        return f"<{self._what}>"

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f"{self.__dict__.get('_what')}.{n}")


def sym_option(name):
    if name in ('OD_from_sfc', 'parallel', 'convert_zeros_to_nan', 'use_empiric_calc', 'mie_for_ice', 'calc_spectral_width', 'spw'):
        return core.const('opt_' + name, 'b')
    if name in ('eta', 'ext_OD', 'ref_rng'):
        return core.const('opt_' + name, 'f', '+')
    return Opaque(name)


def alike(a, b):
    if a is b:
        return True
    if isinstance(a, Sc) or isinstance(b, Sc):
        if isinstance(a, (Opaque, Obj, str, list, dict)) or isinstance(b, (Opaque, Obj, str, list, dict)) or a is None or b is None:
            return False
        x, y = core.lift(a), core.lift(b)
        if (x.k == 'b') != (y.k == 'b'):
            return False
        if x.k == 'b':
            e = core.truth(x) == core.truth(y) if not (isinstance(core.truth(x), bool) and isinstance(core.truth(y), bool)) else core.truth(x) is core.truth(y)
            return e if isinstance(e, bool) else known(e)
        e = core.truth(x == y)
        return e if isinstance(e, bool) else known(e)
    if isinstance(a, (Opaque, Obj)) or isinstance(b, (Opaque, Obj)):
        return False
    return type(a) is type(b) and a == b or (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and list(a) == list(b)) or \
        (not isinstance(a, bool) and not isinstance(b, bool) and isinstance(a, (int, core.Fraction)) and isinstance(b, (int, core.Fraction)) and a == b)


class Run:
    """one call of the driver with recorded stages"""

    def __init__(self, c):
        self.c = c
        self.mod = c.mod(MN)
        self.sigs = {}
        self.log = []
        for n in STAGES:
            real = getattr(self.mod, n)
            real = getattr(real, '__stubbed__', real)
            self.sigs[n] = sig = inspect.signature(real)

            def rec(*a, _n=n, _s=sig, **k):
                ba = _s.bind(*a, **k)
                ba.apply_defaults()
                d = dict(ba.arguments)
                for q in _s.parameters.values():
                    if q.kind == q.VAR_KEYWORD:
                        d.update(d.pop(q.name, {}))
                self.log.append((_n, d))
                return d['model']
            rec.__stubbed__ = real
            setattr(self.mod, n, rec)
        c.S.trusted.add("the stages called by the driver are represented by their interfaces (their own properties are checked separately)")

    def defaults(self, n):
        return {k: p.default for k, p in self.sigs[n].parameters.items()
                if p.default is not inspect.Parameter.empty and p.kind != inspect.Parameter.VAR_KEYWORD}

    def call(self, cfg):
        """cfg: dict(kind, conv, scheme, hyd, opts{}, flags{}) -> (expected calls, calls)"""
        self.log = []
        log = self.log
        ins = Obj('instrument', instrument_class=cfg['kind'], eta=core.const('ins_eta', 'f', '+'), ext_OD=core.const('ins_ext', 'f', '+'),
                  OD_from_sfc=core.const('ins_sfc', 'b'), instrument_str='INS')
        names = {h: 'f_' + h for h in cfg['hyd']}
        m = Obj('model', conv_frac_names=dict(names), strat_frac_names=dict(names), process_conv=cfg['conv'],
                hyd_types=list(cfg['hyd']), mcphys_scheme=cfg['scheme'], model_name='sym', stacked_time_dim=cfg.get('stacked'),
                finalize_subcol_fields=lambda **k: log.append(('finalize', dict(k))),
                unstack_time_lat_lon=lambda **k: log.append(('unstack', dict(k))))
        N = Opaque('N_columns')
        r = self.mod.make_simulated_data(m, ins, N, **cfg['flags'], **dict(cfg['opts']))
        return m, ins, N, r


def expected(cfg, m, ins, N):
    o, fl = cfg['opts'], cfg['flags']
    rad = o.get('use_rad_logic', True)
    sfc = o.get('OD_from_sfc', ins.OD_from_sfc)
    par, chunk = o.get('parallel', True), o.get('chunk', None)
    hyd, emp = o.get('hyd_types', None), o.get('use_empiric_calc', False)
    z2n = o.get('convert_zeros_to_nan', False)
    if 'mie_for_ice' in o:
        mie = (o['mie_for_ice'],) * 2
    elif rad or cfg['scheme'].lower() == 'p3':
        mie = (False, False)
    else:
        mie = (True, False)
    conv = (False, True) if cfg['conv'] else (False,)
    out = []
    pc = dict(parallel=par, chunk=chunk, use_rad_logic=rad)
    if not fl.get('skip_subcol_gen'):
        if cfg['conv']:
            out += [('set_convective_sub_col_frac', dict(model=m, hyd_type=h, N_columns=N, use_rad_logic=rad)) for h in cfg['hyd']]
        out.append(('set_stratiform_sub_col_frac', dict(model=m, N_columns=N, **pc)))
        pt = [h for h in cfg['hyd'] if h not in ('cl', 'ci')]
        out += [('set_precip_sub_col_frac', dict(model=m, is_conv=x, precip_types=pt, **pc)) for x in conv]
        out += [('set_q_n', dict(model=m, hyd_type=h, is_conv=x, qc_flag=h == 'cl' and not x, **pc)) for h in cfg['hyd'] for x in conv]
    if not fl.get('subcol_gen_only'):
        extra = {k: v for k, v in o.items() if k == 'extra_option'}
        com = dict(instrument=ins, model=m, OD_from_sfc=sfc, hyd_types=hyd, use_empiric_calc=emp, **pc, **extra)
        if cfg['kind'] == 'radar':
            out += [('calc_radar_moments', dict(is_conv=x, mie_for_ice=mie[int(x)], calc_spectral_width=fl.get('calc_spectral_width', True), **com))
                    for x in conv]
            out.append(('calc_radar_Ze_min', dict(instrument=ins, model=m, ref_rng=o.get('ref_rng', 1000))))
            out.append(('calc_total_reflectivity', dict(model=m, detect_mask=True)))
            if fl.get('do_classify'):
                out.append(('radar_classify_phase', dict(instrument=ins, model=m, mask_height_rng=o.get('mask_height_rng', None), convert_zeros_to_nan=z2n)))
        else:
            eta, ext = o.get('eta', ins.eta), o.get('ext_OD', ins.ext_OD)
            out += [('calc_lidar_moments', dict(is_conv=x, mie_for_ice=mie[int(x)], eta=eta, **com)) for x in conv]
            out.append(('calc_total_alpha_beta', dict(model=m, OD_from_sfc=sfc, eta=eta)))
            out.append(('calc_LDR_and_ext', dict(model=m, ext_OD=ext, OD_from_sfc=sfc, hyd_types=hyd)))
            if fl.get('do_classify'):
                out.append(('lidar_classify_phase', dict(instrument=ins, model=m, convert_zeros_to_nan=z2n)))
                out.append(('lidar_emulate_cosp_phase', dict(instrument=ins, model=m, eta=eta, OD_from_sfc=sfc, convert_zeros_to_nan=z2n, hyd_types=hyd)))
    if fl.get('finalize_fields'):
        out.append(('finalize', {}))
    if fl.get('unstack_dims') and cfg.get('stacked'):
        out.append(('unstack', {}))
    return out


# a stage uses what the stages before it left: (earlier, later)
ORDER = [('set_convective_sub_col_frac', 'set_stratiform_sub_col_frac'), ('set_stratiform_sub_col_frac', 'set_precip_sub_col_frac'),
         ('set_precip_sub_col_frac', 'set_q_n'), ('set_stratiform_sub_col_frac', 'set_q_n'), ('set_convective_sub_col_frac', 'set_q_n'),
         ('calc_lidar_moments', 'calc_total_alpha_beta'), ('calc_total_alpha_beta', 'calc_LDR_and_ext'),
         ('calc_total_alpha_beta', 'lidar_classify_phase'), ('calc_LDR_and_ext', 'lidar_classify_phase'),
         ('calc_total_alpha_beta', 'lidar_emulate_cosp_phase'), ('calc_radar_moments', 'calc_total_reflectivity'),
         ('calc_radar_Ze_min', 'calc_total_reflectivity'), ('calc_total_reflectivity', 'radar_classify_phase')]
ORDER += [(a, b) for a in ('set_convective_sub_col_frac', 'set_stratiform_sub_col_frac', 'set_precip_sub_col_frac', 'set_q_n')
          for b in STAGES[4:]]
ORDER += [(a, 'finalize') for a in STAGES] + [(a, 'unstack') for a in STAGES + ['finalize']]


class Clauses:
    def __init__(self, c):
        self.c = c
        self.n, self.bad = {}, {}

    def add(self, name, ok, msg):
        self.n[name] = self.n.get(name, 0) + 1
        if not ok and name not in self.bad:
            self.bad[name] = msg

    def done(self):
        for k in self.n:
            self.c.obs.append(dict(name=f"{self.c.unit['name']}/{k}", status='refuted' if k in self.bad else 'proved', backend='evaluation',
                                   detail=str(self.bad.get(k, ''))[:1500]))


def show(cfg):
    return {k: (sorted(map(str, v)) if k == 'opts' else v) for k, v in cfg.items()}


def check(run, cl, cfg):
    m, ins, N, r = run.call(cfg)
    log = [(n, d) for n, d in run.log]
    want = expected(cfg, m, ins, N)
    cl.add('returns-the-model', r is m, show(cfg))
    cl.add('finalize-and-unstack', [n for n, _ in log if n in ('finalize', 'unstack')] == [n for n, _ in want if n in ('finalize', 'unstack')], show(cfg))
    for st in STAGES:
        w = [d for n, d in want if n == st]
        g = [d for n, d in log if n == st]
        cl.add(f"{st}/calls", len(w) == len(g), f"{len(g)} calls, expected {len(w)}: {show(cfg)}")
        if len(w) != len(g):
            continue
        dflt = run.defaults(st)
        ids = [k for k in ('is_conv', 'hyd_type') if w and k in w[0]]
        if not all(all(k in d for k in ids) for d in g):
            cl.add(f"{st}/identity", False, show(cfg))
            continue
        key = lambda d: tuple(str(d[k]) for k in ids)
        w, g = sorted(w, key=key), sorted(g, key=key)
        for a, b in zip(w, g):
            full = {**dflt, **a}
            for k in sorted(set(full) | set(b)):
                ok = k in full and k in b and alike(full[k], b[k])
                cl.add(f"{st}/{k}", ok, f"{st} gets {k}={b.get(k, 'nothing')!r}, expected {full.get(k, 'nothing')!r}: {show(cfg)}")
    pos = {}
    for i, (n, _) in enumerate(log):
        pos.setdefault(n, []).append(i)
    for a, b in ORDER:
        if a in pos and b in pos:
            cl.add('order', max(pos[a]) < min(pos[b]), f"{b} before {a}: {show(cfg)}")


COMMON = ['OD_from_sfc', 'parallel', 'chunk', 'convert_zeros_to_nan', 'hyd_types', 'use_empiric_calc', 'mie_for_ice', 'extra_option']
ONLY = {'radar': ['mask_height_rng', 'ref_rng'], 'lidar': ['eta', 'ext_OD']}
H4 = ('cl', 'ci', 'pl', 'pi')


def product(c, kind, conv):
    """every subset of the options"""
    def body():
        run, cl = Run(c), Clauses(c)
        names = COMMON + ONLY[kind]
        vals = {n: sym_option(n) for n in names}
        for rad, scheme in itertools.product((None, True, False), ('MG2', 'P3')):
            hyd = H4 if scheme == 'MG2' else ('cl', 'ci', 'pl')
            for bits in itertools.product((0, 1), repeat=len(names)):
                o = {n: vals[n] for n, b in zip(names, bits) if b}
                if rad is not None:
                    o['use_rad_logic'] = rad
                check(run, cl, dict(kind=kind, conv=conv, scheme=scheme, hyd=hyd, opts=o, flags=dict(do_classify=True)))
        cl.done()
    c.paths(body)


def flags(c, kind):
    """every combination of the switches, with all and with no options given"""
    def body():
        run, cl = Run(c), Clauses(c)
        names = COMMON + ONLY[kind]
        vals = {n: sym_option(n) for n in names}
        sw = ['do_classify', 'unstack_dims', 'skip_subcol_gen', 'finalize_fields', 'subcol_gen_only']
        for bits in itertools.product((None, False, True), repeat=len(sw)):
            fl = {n: b for n, b in zip(sw, bits) if b is not None}
            for conv, o, stacked, sp in ((True, vals, None, True), (False, {}, 'tll', None), (True, dict(vals, use_rad_logic=False), 'tll', False)):
                f = dict(fl)
                if sp is not None:
                    f['calc_spectral_width'] = sp
                check(run, cl, dict(kind=kind, conv=conv, scheme='MG2', hyd=H4, opts=o, flags=f, stacked=stacked))
        for hyd in (('ci', 'cl'), ('pi', 'cl', 'ci', 'pl'), ('cl', 'ci', 'pl')):
            check(run, cl, dict(kind=kind, conv=True, scheme='MG2', hyd=hyd, opts={}, flags={}))
        for nm in (kind.upper(), kind.capitalize()):
            m, ins, N, r = run.call(dict(kind=nm, conv=True, scheme='MG2', hyd=H4, opts={}, flags={}))
            cl.add('instrument-class-any-case', any(n == f"calc_{kind}_moments" for n, _ in run.log), nm)
        try:
            run.call(dict(kind='sodar', conv=True, scheme='MG2', hyd=H4, opts={}, flags={}))
            ok = False
        except ValueError:
            ok = True
        cl.add('other-instruments-refused', ok, 'sodar')
        cl.done()
    c.paths(body)


for _k in ('radar', 'lidar'):
    for _c in (True, False):
        contract('O01', f"make_simulated_data[{_k} {'with' if _c else 'no'} convection]", [MN + '.make_simulated_data'], limit=100)(
            lambda c, k=_k, v=_c: product(c, k, v))
    contract('O01', f"make_simulated_data[{_k} switches]", [MN + '.make_simulated_data'])(lambda c, k=_k: flags(c, k))
