"""Sub-grid variability of stratiform cloud liquid (S06): set_q_n with its real per-column distributor, for every mean, every set of
occupied subcolumns, every outcome of the random generator (non-negative draws, an arbitrary permutation) and the search loop that drops
draws until the rest fits (verified with an invariant; it stops at the latest when no draw is left)."""
from ..prove import contract
from ..symmodel import M, sizes, D3
from .. import core, arr, sets, vc, loops
from ..arr import inp, raw, zi, lazy, isx, isimp
from ..core import z3, And, Or, Not, Imp, truth, Fraction, Sc, I, B, S, Unsupported
from .subcol import SC, unit_frac
from .alloc import lean
from ..shim_np import big_sum

F = Fraction


def gamma(c, log):
    """assumed contract of numpy.random.gamma: for a shape and a scale >= 0 (else it raises), `size` non-negative finite numbers"""
    def g(shape, scale=F(1), size=None):
        a, b = core.lift(shape) if not isinstance(shape, Sc) else shape, core.lift(scale) if not isinstance(scale, Sc) else scale
        if size is None:
            raise Unsupported("one gamma variate")
        # obligations at this call, for every cell that gets here
        if not S.muted:
            c.ensure('gamma/valid-parameters', And(c.ge(a, F(0)), c.ge(b, F(0))))
        n = raw(size)
        S.uid += 1
        outer = list(S.loops)
        f = z3.Function(f"GAM@{S.uid}", *[x.sort() for x in outer], z3.IntSort(), z3.RealSort())
        S.signs[f.name()] = '0+'
        if not S.muted:
            log.append((n, outer, f))
        S.defs[f.name()] = vc.Def(unfold=lambda a: [f(*a) >= 0])
        return lazy((n,), lambda i: Sc('f', f(*outer, zi(i[0]))))
    return g


def spread(c, var):
    s = sizes(c)
    i, t, k = s.i, s.t, s.k
    thr = core.const('q_trunc', 'f', '0+')

    def body():
        m = M(c, s)
        m.m.num_subcolumns = s.NS
        fr = unit_frac(s, m, "f_s_cl")
        q = m.field2("q_s_cl", sign='0+')
        m.field2("n_cl", sign='0+')
        kw = {}
        if var == 'field':
            m.m.strat_relvar_name = 'relvar'
            m.field2('relvar', sign='+')
        elif var == 'number':
            kw['inv_rel_var'] = core.const('inv_rel_var', 'f', '+')
        # S02: a subcolumn holds the class only where its (rounded) fraction is positive
        o = m.field3("strat_frac_subcolumns_cl", kind='b', fact=lambda v, a: [z3.Implies(v, fr.at(a[1:]).v > 0)])
        lean(c)
        S.sets = sets.Sets(c, s.NS)
        S.sets.witness = True
        S.tidy = True
        draws = []
        S.random = dict(gamma=gamma(c, draws))

        def bound():
            if not draws:
                raise Unsupported("a while loop before the random draws")
            return draws[-1][0]
        S.while_rules = loops.search(c, bound)
        r = c.fn(SC, 'set_q_n')(m.m, 'cl', is_conv=False, qc_flag=True, use_rad_logic=False, parallel=False, q_trunc_thresh=thr, **kw)
        S.while_rules = None
        c.ensure('returns/model', r is m.m)
        x = m.m.ds["strat_q_subcolumns_cl"]
        c.ensure('dims', tuple(x.dims) == D3)
        v = x.arr.at((i, t, k))
        oc = core.zb(truth(o.at((i, t, k))))
        mean = core.ite(B(truth(q.at((t, k)) > thr)), q.at((t, k)) / fr.at((t, k)), F(0))
        c.ensure('zero-elsewhere', c.eq(v, F(0)), [Not(oc)])
        c.ensure('finite-nonneg', c.ge(v, F(0)))
        total(c, s, v, oc, mean, draws)
    c.paths(body)


def total(c, s, v, oc, mean, draws):
    """the occupied subcolumns of the cell share mean * (their number)"""
    i, t, k = s.i, s.t, s.k
    apps = {x.get_id(): x for x in vc.subterms([core.zb(v.v) if isinstance(v.v, bool) else v.v]) if z3.is_app(x) and x.decl().name() in S.sets.ranks}
    c.require(len(apps) == 1, "the cell's values are not given in the order of one permutation of its occupied subcolumns")
    rk = list(apps.values())[0]
    base, m, app0 = S.sets.ranks[rk.decl().name()]
    par = [(a, b) for a, b in zip(app0.children(), rk.children()) if not a.eq(sets.EL)]
    el = [(a, b) for a, b in zip(app0.children(), rk.children()) if a.eq(sets.EL)]
    c.require(len(el) == 1 and el[0][1].eq(i), "rank of another subcolumn")
    sub = lambda e: z3.substitute(e, *par) if par else e
    n = sub(zi(m))
    cnt = [p for tt, p in S.sets.counts.values() if tt.decl().eq(zi(m).decl())]
    c.require(len(cnt) == 1, "the number of draws is not the number of a set's members")
    j = c.idx('el', s.NS)
    occ = lambda e: z3.substitute(core.zb(oc), (i, e))
    # the permutation ranks the occupied subcolumns of the cell, and n is their number
    c.ensure('ranked/occupied', z3.substitute(sub(base), (sets.EL, j)) == occ(j))
    c.ensure('ranked/all', z3.substitute(sub(cnt[0]), (sets.EL, j)) == occ(j))
    c.ensure('single/mean', c.eq(v, mean), [oc, n == 1])
    S.trusted.add("a sum over a set is the sum over the positions of a bijection of it")
    r = z3.Int('ix%rank')
    S.signs['ix%rank'] = '0+'

    def V(p):
        """what the subcolumn of rank p gets"""
        z = zi(raw(p))
        def f(e):
            if isinstance(e, bool):
                return e
            # value under: the cell holds more than one, the subcolumn is occupied
            e = z3.substitute(e, (rk, z), (oc, z3.BoolVal(True)))
            e = z3.simplify(z3.substitute(z3.simplify(e), (oc, z3.BoolVal(True))))
            return e
        w = Sc('f', *[f(e) for e in core.as_real(v)])
        for e in core.as_real(w):
            if not isinstance(e, bool) and any(y.eq(i) for y in vc.subterms([e])):
                raise Unsupported("value of a subcolumn not determined by its rank")
        return core.simp(w)
    x = V(r)
    stops = {y.get_id(): y for y in vc.subterms([x.v]) if z3.is_app(y) and y.decl().name().startswith('STOP')}
    used = {y.decl().name() for y in vc.subterms([x.v]) if z3.is_app(y)}
    draws = [d for d in draws if d[2].name() in used]
    c.require(len(stops) == 1 and len(draws) == 1, "the split of the draws")
    stop = list(stops.values())[0]
    # ranks below a keep a draw; the dropped ones share what is left
    a = z3.simplify(n - 1 - stop)
    nd, outer, f = draws[0]
    G = lambda p: Sc('f', f(*stop.children(), zi(raw(p))))
    c.require(len(outer) == stop.num_args(), "draws of another cell")
    many = [n > 1]

    def step(name, goal, hyps):
        if c.ensure(name, goal, hyps) != 'proved':
            # a step of the argument, not the property
            c.obs[-1].update(status='unknown', unreached=True, suspect=True)
            raise Unsupported(f"the cell's values are not kept draws and equal shares ({name})")
    w = V(isimp(n - 1))
    step('split/within', z3.And(a >= 0, a < n, zi(nd_at(nd, outer, stop)) == n), many)
    step('split/kept-draws', c.eq(x, G(r)), many + [r >= 0, r < a])
    step('split/equal-shares', c.eq(x, w), many + [r >= a, r < n])
    S.trusted.add("a sum of equal terms is their number times the term; sums over consecutive ranges add up")
    tot = big_sum(isimp(a), G) + w * I(n - a)
    c.ensure('conserved', c.eq(tot, mean * I(n)), many)


def nd_at(nd, outer, stop):
    return z3.substitute(zi(nd), *zip(outer, stop.children())) if outer else zi(nd)


for _v in ('default', 'number', 'field'):
    contract('S06', f"set_q_n[inverse relative variance: {_v}]", ['simulator.subcolumn.set_q_n', 'simulator.subcolumn._distribute_cl_q_n'],
             limit=150.)(lambda c, a=_v: spread(c, a))
