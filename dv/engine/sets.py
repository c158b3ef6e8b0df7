"""Sets of subcolumn indices.  np.where / np.argwhere / set operations / random permutations over an axis of symbolic size are
represented by membership predicates; their sizes are cardinality terms.  An obligation about sizes is decided from the partition
of the axis into the regions told apart by the atoms of the predicates (all regions the path condition allows are enumerated), one
unknown non-negative size per region; a permutation contributes that the number of elements among its first c is c."""
import time
from . import core, arr, vc
from .core import S, Sc, z3, B, I, Unsupported, truth, known
from .arr import IdxSet, Arr, raw, zi, isx, isimp, lazy

EL = z3.Int('el%')
REGIONS = 4000
S.sets = None


class Sets:
    """per-unit registry"""

    def __init__(self, c, n):
        self.c, self.n = c, zi(raw(n))
        self.counts = {}        # decl name -> (pred at EL, args)
        self.by_pred = {}
        self.ranks = {}         # decl name -> (base pred at EL, bound m)
        self.names = 0
        self.witness = False
        self.decided = self.consistent = 0      # vacuity: decisions made / found to have a model of the hypotheses

    def term(self, base, extra, sort):
        self.names += 1
        nm = f"{base}@{self.names}"
        args = list(S.loops)
        f = z3.Function(nm, *[a.sort() for a in args], *[z3.IntSort()] * extra, sort)
        return nm, (lambda *x: f(*args, *x))

    def count(self, mem):
        """number of indices in [0, n) with mem(i)"""
        p = core.zb(mem(EL))
        p = z3.simplify(p)
        if z3.is_false(p):
            return z3.IntVal(0)
        if z3.is_true(p):
            return self.n
        k = p.get_id()
        if k not in self.by_pred:
            nm, f = self.term('CNT', 0, z3.IntSort())
            t = f()
            self.by_pred[k] = (t, p)
            self.counts[t.get_id()] = (t, p)
            S.signs[nm] = '0+'
            n, outer = self.n, list(S.loops)
            W = z3.Function('W' + nm, *[x.sort() for x in outer], z3.IntSort()) if self.witness else None

            def unfold(a, d=t.decl()):
                out = [d(*a) >= 0, d(*a) <= n]
                if W is not None:
                    # a set that is not empty has a member
                    w = W(*a)
                    out.append(z3.Implies(d(*a) > 0, z3.And(w >= 0, w < n, z3.substitute(p, *zip(outer, a), (EL, w)))))
                return out
            S.defs[nm] = vc.Def(unfold=unfold)
        return self.by_pred[k][0]

    def rank(self, mem, m):
        """a bijection of the members onto [0, m), nothing else known of it"""
        nm, f = self.term('RANK', 1, z3.IntSort())
        self.ranks[nm] = (core.zb(mem(EL)), m, f(EL))
        return lambda i: f(zi(i))


class Ix(IdxSet):
    """a sequence without repetition of indices in [0, n)"""

    def __init__(self, n, mem, length, rank=None, col=False):
        self.n, self.mem, self.length, self.col = n, mem, length, col
        self._rank = rank

    @property
    def rank(self):
        if self._rank is None:
            self._rank = S.sets.rank(self.mem, self.length)
        return self._rank

    @property
    def mask(self):
        return lazy((self.n,), lambda i: B(self.mem(i[0])))

    @property
    def size(self):
        return arr.out_size(self.length)

    def __sym_len__(self):
        return self.size

    @property
    def shape(self):
        return (self.size, 1) if self.col else (self.size,)

    @property
    def ndim(self):
        return 2 if self.col else 1

    def values(self, a):
        """the elements of a in the order of this sequence, as a function of the index"""
        n = a._shape[0]
        if not arr.same_size(n, self.length):
            S.sets.ensure('as-many-values-as-places', zi(n) == zi(self.length))
        g, rk = a.snap(), self.rank
        return lambda i: g((isimp(rk(zi(i))),))

    def flat_(self, *a, **k):
        return Ix(self.n, self.mem, self.length, self.rank)
    flatten = ravel = squeeze = reshape = flat_

    def astype(self, *a, **k):
        return self
    copy = astype

    def __getitem__(self, key):
        if isinstance(key, tuple) and self.col and len(key) == 2 and key[1] == 0:
            r = self.flat_()
            return r if key[0] == slice(None) else r[key[0]]
        if isinstance(key, slice):
            a, b = bounds(key, self.length)
            return part(self.n, self.mem, self.rank, a, b, self.length, self.col)
        if isinstance(key, Perm):
            key.used(self.length)
            same = known(zi(key.m) == zi(self.length))
            mem, rk = self.mem, self.rank

            def base(i):
                return core.zb(core.And(mem(i), True if same else rk(i) < zi(key.m)))
            k = (id(self.mem), bool(same))
            if k not in key.ranks:
                key.ranks[k] = (S.sets.rank(base, key.m), mem)
            return part(self.n, base, key.ranks[k][0], key.a, key.b, key.m, self.col)
        raise Unsupported("indexing an index set")


def part(n, mem, rank, a, b, m, col=False):
    """positions a..b-1 (already clipped to [0, m]) of a sequence"""
    full = (not isx(a) and a == 0) and (b is m or isx(b) and isx(m) and b.eq(m) or not isx(b) and not isx(m) and b == m)
    if full:
        return Ix(n, mem, m, rank, col)
    za, zb_ = zi(a), zi(b)

    def mm(i):
        r = rank(i)
        return core.zb(core.And(mem(i), True if not isx(a) and a == 0 else r >= za, r < zb_))
    ln = isimp(zb_ - za)
    if isx(ln) and not known(ln >= 0):
        ln = z3.If(ln >= 0, ln, z3.IntVal(0))
    return Ix(n, mm, ln, (lambda i: rank(i) - za) if isx(a) or a else rank, col)


def bounds(sl, m):
    if sl.step is not None and core.norm_const(sl.step) != 1:
        raise Unsupported("stepped slice of an index sequence")

    def clip(v):
        v = raw(v) if not isinstance(v, core.Fraction) else v
        if not isx(v) and not isx(m):
            return max(0, min(v if v >= 0 else v + m, m))
        z, zm = zi(v), zi(m)
        if not known(z >= 0):
            if known(z < 0):
                z = z + zm
                z = z if known(z >= 0) else z3.If(z < 0, z3.IntVal(0), z)
            else:
                w = z + zm
                z = z3.If(z >= 0, z, z3.If(w >= 0, w, z3.IntVal(0)))
        return isimp(z) if known(z <= zm) else isimp(z3.If(z <= zm, z, zm))
    return (0 if sl.start is None else clip(sl.start)), (m if sl.stop is None else clip(sl.stop))


class Perm:
    """positions a..b-1 of a uniformly random permutation of range(m): an arbitrary one"""

    def __init__(self, m, a=0, b=None, ranks=None):
        self.m, self.a, self.b = m, a, m if b is None else b
        self.ranks = {} if ranks is None else ranks

    def used(self, n):
        """every element of the permutation must be a valid position of a sequence of n"""
        S.sets.ensure('index-in-range', zi(self.m) <= zi(n), pos=self)

    @property
    def length(self):
        return isimp(zi(self.b) - zi(self.a))

    @property
    def size(self):
        return arr.out_size(self.length)

    def __sym_len__(self):
        return self.size

    @property
    def shape(self):
        return (self.size,)

    def astype(self, *a, **k):
        return self
    copy = astype

    def __getitem__(self, key):
        if not isinstance(key, slice):
            raise Unsupported("element of a random permutation")
        a, b = bounds(key, self.length)
        if isx(self.a) or self.a:
            a, b = isimp(zi(self.a) + zi(a)), isimp(zi(self.a) + zi(b))
        return Perm(self.m, a, b, self.ranks)

    def to_ix(self, n):
        return Ix(n, lambda i: z3.And(zi(i) >= 0, zi(i) < zi(self.m)), self.m, lambda i: zi(i))[self]


def permutation(x):
    if isinstance(x, Ix):
        return Ix(x.n, x.mem, x.length, S.sets.rank(x.mem, x.length), x.col)
    if isinstance(x, Perm):
        raise Unsupported("permutation of a permutation")
    if isinstance(x, Arr):
        raise Unsupported("permutation of an array")
    m = raw(x)
    if not isx(m) and m:
        raise Unsupported("permutation of a concrete range")
    return Perm(m)


def choice(x, size=None, replace=True, p=None):
    if replace is not False or p is not None or size is None:
        raise Unsupported("random choice")
    r = permutation(x)
    n = r.length
    S.sets.ensure('sample-size', zi(raw(size)) <= zi(n))
    return r[0:size]


def from_mask(m, col=False):
    g = m.snap()
    n = m._shape[0]
    if not arr.same_size(n, S.sets.n):
        raise Unsupported("index set of another axis")
    mem = lambda i: core.zb(truth(g((i,))))
    return Ix(n, mem, S.sets.count(mem), None, col)


def as_ix(x):
    if isinstance(x, Ix):
        return x
    raise Unsupported("set operation on arrays")


def setop(name):
    f = {'setdiff1d': lambda a, b: z3.And(a, z3.Not(b)), 'intersect1d': z3.And, 'union1d': z3.Or, 'setxor1d': z3.Xor}[name]

    def g(x, y, **k):
        x, y = as_ix(x), as_ix(y)
        mem = lambda i: core.zb(f(x.mem(i), y.mem(i)))
        return Ix(x.n, mem, S.sets.count(mem))
    return g


def concat(xs):
    xs = [as_ix(x) for x in xs]
    mems = [x.mem for x in xs]
    for a in range(len(xs)):
        for b in range(a):
            if not disjoint(mems[a], mems[b]):
                raise Unsupported("concatenated index sets may overlap")
    mem = lambda i: core.zb(core.Or(*[m(i) for m in mems]))
    tot = z3.simplify(sum([zi(x.length) for x in xs[1:]], zi(xs[0].length)))
    return Ix(xs[0].n, mem, tot, None, xs[0].col)


def disjoint(a, b):
    z = z3.Not(z3.And(a(EL), b(EL)))
    if z3.is_true(z3.simplify(z)):
        return True
    return known(z)


# ------------------------------------------------------------------------------------------------ cardinality decisions
def _linear(e, memo):
    """non-linear arithmetic subterms replaced by constants of their own"""
    k = e.get_id()
    if k in memo:
        return memo[k][0]
    if not z3.is_app(e) or e.num_args() == 0:
        r = e
    else:
        kind = e.decl().kind()
        ch = e.children()
        num = [z3.is_rational_value(c) or z3.is_int_value(c) for c in ch]
        if kind == z3.Z3_OP_MUL and sum(not x for x in num) > 1 or kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not num[1] \
                or kind == z3.Z3_OP_POWER:
            r = z3.Const(f"op%{k}", e.sort())
        else:
            nc = [_linear(c, memo) for c in ch]
            r = e if all(a is b for a, b in zip(nc, ch)) else vc._rebuild(e, nc)
    memo[k] = (r, e)
    return r


def _atoms(p, out):
    """boolean leaves of a predicate"""
    k = p.decl().kind() if z3.is_app(p) else None
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or \
            (k in (z3.Z3_OP_ITE, z3.Z3_OP_EQ) and all(c.sort() == z3.BoolSort() for c in p.children())):
        for c in p.children():
            _atoms(c, out)
    elif not (z3.is_true(p) or z3.is_false(p)):
        out.setdefault(p.get_id(), p)


def _compile(p, memo):
    """predicate -> python function of {atom id: bool}"""
    i = p.get_id()
    if i in memo:
        return memo[i]
    k = p.decl().kind()
    if z3.is_true(p) or z3.is_false(p):
        r = (lambda v: lambda env: v)(z3.is_true(p))
    elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or \
            (k in (z3.Z3_OP_ITE, z3.Z3_OP_EQ) and all(c.sort() == z3.BoolSort() for c in p.children())):
        v = [_compile(c, memo) for c in p.children()]
        r = {z3.Z3_OP_AND: lambda env: all(f(env) for f in v), z3.Z3_OP_OR: lambda env: any(f(env) for f in v),
             z3.Z3_OP_NOT: lambda env: not v[0](env), z3.Z3_OP_IMPLIES: lambda env: not v[0](env) or v[1](env),
             z3.Z3_OP_XOR: lambda env: v[0](env) != v[1](env), z3.Z3_OP_EQ: lambda env: v[0](env) == v[1](env),
             z3.Z3_OP_ITE: lambda env: v[1](env) if v[0](env) else v[2](env)}[k]
    else:
        r = lambda env: env[i]
    memo[i] = r
    return r


class Card:
    """the cardinality constraints of one path: the hypotheses, the regions of the axis they allow, and sizes of the sets"""

    def __init__(self, sets, hyps, terms, seconds=60.):
        t0 = time.time()
        self.memo = memo = {}
        hyps = [core.zb(h) for h in hyps if h is not True]
        # the sets whose sizes occur (transitively through thresholds)
        cnts, ranks, todo = {}, {}, list(hyps) + list(terms)
        seen = set()
        while todo:
            e = todo.pop()
            for x in vc.subterms([e]):
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if x.get_id() in sets.counts:
                    cnts[x.get_id()] = sets.counts[x.get_id()]
                    todo.append(sets.counts[x.get_id()][1])
                if x.decl().name() in sets.ranks:
                    b, m, t = sets.ranks[x.decl().name()]
                    ranks[x.decl().name()] = (b, m, t)
                    todo += [b, zi(m)]
        rng = z3.And(EL >= 0, EL < sets.n)
        preds = [p for _, p in cnts.values()]
        prefix = []
        atoms = {}
        for p in preds + [b for b, _, _ in ranks.values()]:
            _atoms(z3.simplify(p), atoms)
        for a in list(atoms.values()):
            for nm, (b, m, t) in ranks.items():
                if any(x.eq(t) for x in vc.subterms([a])):
                    lt = self._threshold(a, t)
                    if lt is not None:
                        prefix.append((b, a, lt, m))
        facts = vc.instantiate(hyps + preds + list(atoms.values()) + list(terms), rounds=2)
        L = lambda e: _linear(e, memo)
        self.hyps = [L(h) for h in hyps + facts if not z3.is_quantifier(h)]
        s = z3.Solver()
        s.set('timeout', 5000)
        for h in self.hyps + [rng]:
            s.add(h)
        for b, m, t in ranks.values():
            s.add(z3.Implies(L(b), z3.And(t >= 0, t < L(zi(m)))))
        keys = list(atoms)
        lits = {}
        for k in keys:
            lits[k] = z3.Bool(f"at%{k}")
            s.add(lits[k] == L(atoms[k]))
        # equal atoms (up to simplification of the hypotheses) share a region bit through the solver
        regions = []
        while True:
            r = s.check()
            if r == z3.unsat:
                break
            if r != z3.sat or len(regions) > REGIONS or time.time() - t0 > seconds:
                raise Unsupported(f"regions of an index set not enumerated ({r}, {len(regions)})")
            mdl = s.model()
            bits = {k: z3.is_true(mdl.eval(lits[k], model_completion=True)) for k in keys}
            regions.append(bits)
            s.add(z3.Or([lits[k] != bits[k] for k in keys]) if keys else z3.BoolVal(False))
        self.regions, self.atoms, self.cnts = regions, atoms, cnts
        rv = [z3.Int(f"rg%{i}") for i in range(len(regions))]

        pm = {}

        def size(p):
            fn = _compile(p, pm)
            xs = [rv[i] for i, env in enumerate(regions) if fn(env)]
            return z3.Sum(xs) if xs else z3.IntVal(0)
        self.cons = [r >= 0 for r in rv] + [z3.Sum(rv) == L(sets.n) if rv else L(sets.n) == 0]
        # a non-empty region has an element, of which everything known of elements holds
        has = lambda e: any(x.eq(EL) for x in vc.subterms([e]))
        known_el = [h for h in self.hyps + [z3.Implies(L(b), z3.And(t >= 0, t < L(zi(m)))) for b, m, t in ranks.values()] if has(h)]
        la = {k: L(atoms[k]) for k in keys}
        for i, env in enumerate(regions):
            f = z3.And(*known_el, *[la[k] if env[k] else z3.Not(la[k]) for k in keys])
            self.cons.append(z3.Implies(rv[i] > 0, z3.substitute(f, (EL, z3.Int(f"el%{i}")))))
        self.hyps = [h for h in self.hyps if not has(h)]
        for t, p in cnts.values():
            self.cons.append(L(t) == size(z3.simplify(p)))
        for b, m, t in ranks.values():
            self.cons.append(size(z3.simplify(b)) == L(zi(m)))
        for b, a, (kind, cexp), m in prefix:
            lt = z3.simplify(z3.And(b, a)) if kind else z3.simplify(z3.And(b, z3.Not(a)))
            env_atoms = {}
            _atoms(lt, env_atoms)
            if any(k not in atoms for k in env_atoms):
                lt = z3.And(z3.simplify(b), a) if kind else z3.And(z3.simplify(b), z3.Not(a))
            cl, ml = L(cexp), L(zi(m))
            self.cons.append(size(lt) == z3.If(cl < 0, z3.IntVal(0), z3.If(cl > ml, ml, cl)))
        self.t = time.time() - t0

    @staticmethod
    def _threshold(a, t):
        """a as (True, c) for t < c, (False, c) for not (t < c)"""
        k = a.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            return None
        x, y = a.children()
        d = z3.simplify(x - y - t)
        if not any(q.eq(t) for q in vc.subterms([d])):
            c = z3.simplify(-d)            # a: t (op) c
        else:
            d = z3.simplify(x - y + t)
            if any(q.eq(t) for q in vc.subterms([d])):
                return None
            c = d                          # a: c (op) t  ->  t (op') c
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_GT: z3.Z3_OP_LT}[k]
        return {z3.Z3_OP_LT: (True, c), z3.Z3_OP_LE: (True, z3.simplify(c + 1)), z3.Z3_OP_GE: (False, c),
                z3.Z3_OP_GT: (False, z3.simplify(c + 1))}[k]

    def show(self, m):
        """a model of the sizes: the counts and the non-empty regions"""
        out = [f"{t.decl()} := {p} = {m.eval(_linear(t, self.memo), model_completion=True)}" for t, p in self.cnts.values()]
        for i, env in enumerate(self.regions):
            v = m.eval(z3.Int(f"rg%{i}"), model_completion=True)
            if v.as_long():
                out.append(f"{v} x " + ' & '.join(('' if b else 'not ') + str(self.atoms[k]).replace(chr(10), ' ') for k, b in env.items()))
        return '; '.join(' '.join(o.split()) for o in out)[:9000]

    def check(self, goal, seconds=20.):
        t = time.time()
        if getattr(self, 'inc', None) is None:
            self.inc = z3.SimpleSolver()
            self.inc.set('timeout', 3000)
            for f in self.hyps + self.cons:
                self.inc.add(f)
        self.inc.push()
        self.inc.add(z3.Not(_linear(core.zb(goal), self.memo)))
        r = self.inc.check()
        self.inc.pop()
        s = None
        if r == z3.sat or r == z3.unknown:
            s = z3.Solver()
            s.set('timeout', int(seconds * 1000))
            for f in self.hyps + self.cons:
                s.add(f)
            s.add(z3.Not(_linear(core.zb(goal), self.memo)))
            r = s.check()
        S.solver_s += time.time() - t
        if r == z3.unknown:
            from .vc import cvc5_check
            if cvc5_check(self.hyps + self.cons + [z3.Not(_linear(core.zb(goal), self.memo))], seconds) == 'unsat':
                return 'proved', 'cvc5', ''
        return ('proved', 'z3', '') if r == z3.unsat else ('unknown', 'z3', self.show(s.model()) if r == z3.sat else str(r))


def ensure_card(c, goals, hyps=()):
    """goals: [(name, goal, hypotheses)] about sizes; one enumeration of the regions serves all"""
    if S.muted:
        return
    st = S.sets
    hy = [*S.assume, *S.pc, *[h for h in hyps]]
    goals = [(n, g, h) for n, g, h in goals]
    terms = [core.zb(g) for _, g, _ in goals] + [core.zb(h) for _, _, hs in goals for h in hs]
    card = Card(st, hy, terms, 60. * c.scale)
    st.decided += 1
    if not st.consistent and card.check(z3.BoolVal(False), 5.)[0] != 'proved':
        st.consistent += 1
    for n, g, hs in goals:
        if g is True:
            r = ('proved', 'structural', '')
        else:
            r = card.check(core.zb(core.Imp(core.And(*hs), g)) if hs else core.zb(g), 20. * c.scale)
        import os
        if r[0] != 'proved' and os.environ.get('DVP'):
            print('FAIL', n, '\n GOAL', g, '\n PC', *['\n   ' + str(z3.simplify(core.zb(x))) for x in S.pc], '\n M', r[2].replace('; ', '\n   '))
        c.obs.append(dict(name=f"{c.unit['name']}/{n}", status=r[0], backend='set sizes+' + r[1],
                          detail='' if r[0] == 'proved' else 'sizes: ' + r[2]))
    return card


def _ensure(self, name, goal, pos=None):
    if goal is True or S.muted:
        return
    g = core.zb(goal)
    if z3.is_true(z3.simplify(g)) or known(g):
        self.c.obs.append(dict(name=f"{self.c.unit['name']}/{name}", status='proved', backend='z3', detail=''))
        return
    ensure_card(self.c, [(name, g, [])])


Sets.ensure = _ensure
