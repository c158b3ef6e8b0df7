"""Discharging of obligations: axiom instantiation, case splitting, a rational-function normaliser, z3, cvc5, and a
concrete falsifier that looks for a real counterexample of an obligation that is not discharged."""
import math
import random
import time
from fractions import Fraction
from . import core
from .core import S, z3, And, Or, Not, Imp, If, sign, nonzero, Unsupported

_TMO = 20000


# ------------------------------------------------------------ term walking
def subterms(fs):
    seen, out, stack = set(), [], [f for f in fs if not isinstance(f, bool)]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(e)
        if z3.is_quantifier(e):
            continue
        stack.extend(e.children())
    return out


class Def:
    """meaning of an uninterpreted symbol: `unfold(args)` gives facts about the application, `pair(a, b)` facts relating two
    applications, `py(args, env)` evaluates it concretely (None if arbitrary)"""

    def __init__(self, unfold=None, pair=None, py=None, rounds=2, exact=True):
        self.unfold, self.pair, self.py, self.rounds, self.exact = unfold, pair, py, rounds, exact


def _ax_exp(a):
    x, = a
    e = core.EXP(x)
    return [e > 0, e >= 1 + x, z3.Implies(x <= 0, e <= 1), z3.Implies(x < 0, e < 1), z3.Implies(x == 0, e == 1)]


def _mono(f):
    def p(a, b):
        return [z3.Implies(a[0] < b[0], f(a[0]) < f(b[0])), z3.Implies(a[0] > b[0], f(a[0]) > f(b[0])),
                z3.Implies(a[0] == b[0], f(a[0]) == f(b[0]))]
    return p


def _ax_log10(a):
    x, = a
    l = core.LOG10(x)
    return [z3.Implies(x == 1, l == 0), z3.Implies(x > 1, l > 0), z3.Implies(z3.And(x > 0, x < 1), l < 0)]


def _pmono(f):
    def p(a, b):
        return [z3.Implies(z3.And(0 < a[0], a[0] < b[0]), f(a[0]) < f(b[0])),
                z3.Implies(z3.And(0 < b[0], b[0] < a[0]), f(b[0]) < f(a[0]))]
    return p


def _ax_pow(a):
    x, y = a
    p = core.POW(x, y)
    return [z3.Implies(x > 0, p > 0), z3.Implies(z3.And(x == 0, y > 0), p == 0), z3.Implies(x == 1, p == 1),
            z3.Implies(z3.And(x > 0, y == 0), p == 1),
            z3.Implies(z3.And(x > 1, y > 0), p > 1), z3.Implies(z3.And(x > 1, y < 0), p < 1),
            z3.Implies(z3.And(x > 0, x < 1, y > 0), p < 1), z3.Implies(z3.And(x > 0, x < 1, y < 0), p > 1)]


def _pair_pow(a, b):
    (x, y), (u, w) = a, b
    P = core.POW
    return [z3.Implies(z3.And(x == u, x > 1, y < w), P(x, y) < P(u, w)), z3.Implies(z3.And(x == u, x > 1, y > w), P(x, y) > P(u, w)),
            z3.Implies(z3.And(y == w, y > 0, 0 <= x, x < u), P(x, y) < P(u, w)),
            z3.Implies(z3.And(y == w, y > 0, 0 <= u, u < x), P(x, y) > P(u, w)),
            z3.Implies(z3.And(y == w, y < 0, 0 < x, x < u), P(x, y) > P(u, w)),
            z3.Implies(z3.And(y == w, y < 0, 0 < u, u < x), P(x, y) < P(u, w))]


def _ax_gamma(a):
    x, = a
    g = core.GAMMA
    return [z3.Implies(x > 0, g(x) > 0), z3.Implies(x == 1, g(x) == 1), z3.Implies(x == 2, g(x) == 1), z3.Implies(x == 4, g(x) == 6)]


def _ax_sqrt(a):
    x, = a
    s = core.SQRT(x)
    return [z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)), z3.Implies(x > 0, s > 0)]


BUILTIN = {
    'EXP': Def(_ax_exp, _mono(core.EXP)),
    'LOG10': Def(_ax_log10, _pmono(core.LOG10)),
    'LN': Def(None, _pmono(core.LN)),
    'POW': Def(_ax_pow, _pair_pow),
    'GAMMA': Def(_ax_gamma),
    'SQRT': Def(_ax_sqrt),
    'COS': Def(lambda a: [core.COS(a[0]) <= 1, core.COS(a[0]) >= -1]),
    'SIN': Def(lambda a: [core.SIN(a[0]) <= 1, core.SIN(a[0]) >= -1]),
}


def getdef(name):
    return S.defs.get(name) or BUILTIN.get(name)


_APPS = {}
_UNF = {}


def apps_of(t):
    """the applications of uninterpreted symbols in a term, in the order of subterms"""
    i = t.get_id()
    r = _APPS.get(i)
    if r is None:
        xs = [e for e in subterms([t]) if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        r = _APPS[i] = (t, [(e.decl().name(), e.get_id(), e) for e in xs])
    return r[1]


def instantiate(fs, rounds=2, pair_limit=400):
    """facts about every defined symbol occurring in fs"""
    facts, done, pairs_done = [], {}, set()
    cur = list(fs)
    for rd in range(rounds):
        apps = {}
        for t in cur + facts:
            for nm, i, e in apps_of(t):
                if nm in S.signs or getdef(nm):
                    apps.setdefault(nm, {})[i] = e
        new = []
        for nm, es in apps.items():
            d = getdef(nm)
            for i, e in es.items():
                if i in done:
                    continue
                if d and rd >= d.rounds:
                    continue
                done[i] = e
                if nm in S.signs and e.sort() != z3.BoolSort():
                    new.append(core.sign_fact(e, S.signs[nm]))
                if d and d.unfold:
                    k = (i, id(d))
                    if k not in _UNF:
                        _UNF[k] = ([f for f in d.unfold(e.children()) if not isinstance(f, bool)], e, d)
                    new.extend(_UNF[k][0])
            if d and d.pair:
                lst = list(es.values())
                for a in range(len(lst)):
                    for b in range(a):
                        k = (lst[a].get_id(), lst[b].get_id())
                        if k not in pairs_done and len(pairs_done) < pair_limit:
                            pairs_done.add(k)
                            new.extend(d.pair(lst[a].children(), lst[b].children()))
        if not new:
            break
        facts.extend(new)
    return facts


# ------------------------------------------------------------------- solver
def _check(fs, timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    for f in fs:
        if f is False:
            return 'unsat', None
        if f is True:
            continue
        s.add(f)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    S.solver_s += time.time() - t
    return str(r), s


def relevant(hyps, goal_fs):
    """keep the hypotheses (transitively) sharing a symbol with the goal"""
    return hyps


def entails(hyps, goal, timeout=2000):
    if goal is True:
        return True
    if goal is False:
        goal = z3.BoolVal(False)
    fs = [h for h in hyps if h is not True] + [Not(goal)]
    fs = [core.zb(f) for f in fs]
    fs = fs + instantiate(fs, rounds=1)
    return _check(fs, timeout)[0] == 'unsat'


def satisfiable(hyps, timeout=5000):
    fs = [core.zb(h) for h in hyps]
    fs = fs + instantiate(fs, rounds=1)
    return _check(fs, timeout)[0]


# -------------------------------------------------------------- normaliser
class Poly(dict):
    pass


def p_const(c):
    return Poly({(): Fraction(c)}) if c else Poly()


def p_add(a, b, s=1):
    r = Poly(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(m, n):
    d = dict(m)
    for a, p in n:
        q = d.get(a, 0) + p
        if q:
            d[a] = q
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda x: repr(x[0])))


def p_mul(a, b):
    if len(a) * len(b) > 20000:
        raise Unsupported("polynomial too large")
    r = Poly()
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def p_key(p):
    return tuple(sorted(((m, c) for m, c in p.items()), key=repr))


class Rat:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d if d is not None else p_const(1)
        # cancel single-monomial denominators of positive atoms: keep as negative powers
        if len(self.d) == 1:
            (m, c), = self.d.items()
            inv = tuple((a, -p) for a, p in m)
            self.n = p_mul(self.n, Poly({inv: Fraction(1) / c}))
            self.d = p_const(1)

    def key(self):
        if p_key(self.d) == ((((), Fraction(1)),)):
            return p_key(self.n)
        # scale so that the leading coefficient of d is 1
        k = p_key(self.d)
        c = k[0][1]
        return (p_key(Poly({m: v / c for m, v in self.n.items()})), p_key(Poly({m: v / c for m, v in self.d.items()})))


_INTERN = {}


def intern(key):
    """a short name of a structural key (the same for equal keys)"""
    r = _INTERN.get(key)
    if r is None:
        r = _INTERN[key] = ('#', len(_INTERN))
    return r


class Norm:
    """canonical form of arithmetic terms; dens: the denominators that were assumed to be non-zero"""

    def __init__(self, positive=lambda e: sign(e) == '+'):
        self.memo, self.dens, self.pos_terms = {}, {}, {}
        self.positive = positive
        self.atoms = {}
        self.bmemo = {}
        self.posatom = set()

    def atom(self, key, e):
        self.atoms[key] = e
        if e is not None and self.positive(e):
            self.posatom.add(key)
        return Rat(Poly({((key, 1),): Fraction(1)}))

    def norm(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][0]
        r = self._norm(e)
        self.memo[i] = (r, e)
        return r

    def ikey(self, e):
        if e.sort() != z3.BoolSort() and e.sort_kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
            return intern(('n', self.norm(e).key()))
        return ('s', z3.simplify(e).sexpr())

    def _norm(self, e):
        if z3.is_int_value(e):
            return Rat(p_const(e.as_long()))
        if z3.is_rational_value(e):
            return Rat(p_const(Fraction(e.numerator_as_long(), e.denominator_as_long())))
        d = e.decl()
        k = d.kind()
        ch = e.children()
        if k == z3.Z3_OP_TO_REAL:
            return self.norm(ch[0])
        if k == z3.Z3_OP_ADD:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.norm(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.norm(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.mul(Rat(p_const(-1)), self.norm(ch[0]))
        if k == z3.Z3_OP_MUL:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.norm(c))
            return r
        if k == z3.Z3_OP_DIV:
            a, b = self.norm(ch[0]), self.norm(ch[1])
            if not b.n:
                raise Unsupported("division by zero in normaliser")
            if not nonzero(ch[1]):
                self.dens[ch[1].get_id()] = ch[1]
            if len(b.n) > 1 and a.key() == b.key():
                return Rat(p_const(1))
            return self.mul(a, Rat(b.d, b.n))
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = d.name()
            if nm == 'EXP':
                a = self.norm(ch[0])
                return self.power_of(('E',), a, ch[0])
            if nm == 'POW':
                x, y = self.norm(ch[0]), self.norm(ch[1])
                if z3.is_rational_value(ch[1]) and self.positive(ch[0]):
                    c = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
                    r = self.rat_pow(x, c)
                    if r is not None:
                        return r
                if z3.is_rational_value(ch[0]) and self.positive(ch[0]):
                    return self.power_of(('P', x.key()), y, ch[1])
                if self.positive(ch[0]):
                    return self.power_of(('P', x.key()), y, ch[1])
                return self.atom(('f', 'POW', x.key(), y.key()), e)
            if nm == 'SQRT' and self.positive(ch[0]):
                r = self.rat_pow(self.norm(ch[0]), Fraction(1, 2))
                if r is not None:
                    return r
            if nm == 'LOG10':
                x = self.norm(ch[0])
                r = self.log_of(x)
                if r is not None and self.positive(ch[0]):
                    return r
                return self.atom(('f', 'LOG10', x.key()), e)
            return self.atom(('f', nm, *[self.ikey(c) for c in ch]), e)
        if k == z3.Z3_OP_ITE:
            if e.sort() == z3.RealSort() or e.sort() == z3.IntSort():
                a, b = self.norm(ch[1]), self.norm(ch[2])
                if a.key() == b.key():
                    return a
                return self.atom(('ite', self.bkey(ch[0]), intern(a.key()), intern(b.key())), e)
        return self.atom(('t', d.name(), *[self.ikey(c) if c.sort() != z3.BoolSort() else self.bkey(c) for c in ch]), e)

    def bkey(self, c):
        i = c.get_id()
        if i not in self.bmemo:
            self.bmemo[i] = (intern(self._bkey(c)), c)
        return self.bmemo[i][0]

    def _bkey(self, c):
        ch = c.children()
        k = c.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and ch[0].sort() != z3.BoolSort():
            a, b = (ch[0], ch[1]) if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_EQ) else (ch[1], ch[0])
            op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '<', z3.Z3_OP_EQ: '='}[k]
            return self.cmpkey(op, a, b)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            return (d_name(k), *sorted(self.bkey(x) for x in ch))
        if k == z3.Z3_OP_NOT and z3.is_app(ch[0]):
            k2, ch2 = ch[0].decl().kind(), ch[0].children()
            if k2 == z3.Z3_OP_NOT:
                return self._bkey(ch2[0])
            if k2 in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = (ch2[1], ch2[0]) if k2 in (z3.Z3_OP_LE, z3.Z3_OP_LT) else ch2
                return self.cmpkey('<' if k2 in (z3.Z3_OP_LE, z3.Z3_OP_GE) else '<=', a, b)
        if z3.is_quantifier(c):
            return ('q', c.sexpr())
        return (c.decl().name(), *[self.bkey(x) if x.sort() == z3.BoolSort() else self.ikey(x) for x in ch])

    def cmpkey(self, op, a, b):
        """a op b with op one of <= < =, as a comparison of a difference with zero where no division is involved"""
        x, y = self.norm(a), self.norm(b)
        one = p_key(p_const(1))
        if p_key(x.d) == one and p_key(y.d) == one:
            d = p_add(x.n, y.n, -1)
            if d and all(isinstance(v, Fraction) or isinstance(v, int) for v in d.values()):
                if op == '<' and z3.is_int(a) and all(Fraction(v).denominator == 1 for v in d.values()):
                    d, op = p_add(d, p_const(1)), '<='
                if d:
                    (m0, c0) = max(((m, v) for m, v in d.items() if m != ()), default=((), d.get((), 1)), key=lambda t: repr(t[0]))
                    sc = abs(Fraction(c0)) if op != '=' else Fraction(c0)
                    return (op, intern(Rat(Poly({m: Fraction(v) / sc for m, v in d.items()})).key()))
        ka, kb = intern(x.key()), intern(y.key())
        if op == '=' and kb < ka:
            ka, kb = kb, ka
        return (op, ka, kb)

    def power_of(self, base, a, arg):
        """base ** a with a polynomial exponent: product of base**monomial, each to a rational power"""
        if p_key(a.d) != p_key(p_const(1)):
            key = (*base, 'x', a.key())
            self.posatom.add(key)
            return Rat(Poly({((key, 1),): Fraction(1)}))
        mon, coef = (), Fraction(1)
        for m, c in a.n.items():
            if base == ('P', p_key(p_const(10))) and len(m) == 1 and m[0][1] == 1 and m[0][0][:2] == ('f', 'LOG10'):
                key0 = m[0][0]
                at = self.atoms.get(key0)
                if at is not None and self.positive(at.children()[0]):
                    r = self.rat_pow(self.norm(at.children()[0]), c)
                    if r is not None and p_key(r.d) == p_key(p_const(1)) and len(r.n) == 1:
                        (mm, cc), = r.n.items()
                        mon, coef = m_mul(mon, mm), coef * cc
                        continue
            if base[0] == 'P' and m == () and c.denominator == 1 and len(base[1]) == 1 and base[1][0][0] == ():
                coef *= base[1][0][1] ** int(c)
                continue
            key = (*base, m)
            self.posatom.add(key)
            mon = m_mul(mon, ((key, c),))
        return Rat(Poly({mon: coef}))

    def rat_pow(self, x, c):
        if c.denominator == 1:
            r = Rat(p_const(1))
            for _ in range(abs(int(c))):
                r = self.mul(r, x)
            return r if c >= 0 else Rat(r.d, r.n)
        if p_key(x.d) == p_key(p_const(1)) and len(x.n) == 1:
            (m, k), = x.n.items()
            if k > 0 and all(a in self.posatom for a, _ in m):
                mon = tuple((a, p * c) for a, p in m)
                if k == 1:
                    return Rat(Poly({mon: Fraction(1)}))
                key = ('P', p_key(p_const(k)), ())
                self.posatom.add(key)
                return Rat(Poly({m_mul(mon, ((key, c),)): Fraction(1)}))
        key = ('base', x.key())
        self.posatom.add(key)
        return Rat(Poly({((key, c),): Fraction(1)}))

    def log_of(self, x):
        if p_key(x.d) == p_key(p_const(1)) and len(x.n) == 1:
            (m, k), = x.n.items()
            if k > 0 and all(a in self.posatom for a, _ in m):
                out = p_const(0)
                kk, e10 = Fraction(k), 0
                while kk >= 10 and kk.denominator == 1 and kk.numerator % 10 == 0:
                    kk, e10 = kk / 10, e10 + 1
                while kk < 1 and (kk * 10).denominator < kk.denominator:
                    kk, e10 = kk * 10, e10 - 1
                if kk != 1:
                    out = p_add(out, Poly({((('f', 'LOG10', p_key(p_const(kk))), 1),): Fraction(1)}))
                if e10:
                    out = p_add(out, p_const(e10))
                for a, p in m:
                    if a[:2] == ('P', p_key(p_const(10))):
                        out = p_add(out, Poly({a[2]: Fraction(p)}) if len(a) == 3 else p_const(0))
                        if len(a) != 3:
                            return None
                    else:
                        out = p_add(out, Poly({((('f', 'LOG10', (((((a, 1),), Fraction(1)),))), 1),): Fraction(p)}))
                return Rat(out)
        return None

    def add(self, a, b, s=1):
        if p_key(a.d) == p_key(b.d):
            return Rat(p_add(a.n, b.n, s), a.d)
        return Rat(p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), s), p_mul(a.d, b.d))

    def mul(self, a, b):
        return Rat(p_mul(a.n, b.n), p_mul(a.d, b.d))

    def equal(self, x, y):
        a, b = self.norm(x), self.norm(y)
        d = p_add(p_mul(a.n, b.d), p_mul(b.n, a.d), -1)
        return not d


def d_name(k):
    return {z3.Z3_OP_AND: 'and', z3.Z3_OP_OR: 'or'}[k]


_KEPT = []


def canon_key(e):
    """a structural key that identifies provably equal terms (same canonical form); all signs taken as declared"""
    n = Norm()
    try:
        if e.sort() == z3.BoolSort():
            return ('b', n.bkey(e) if not isinstance(e, bool) else e)
        return ('r', n.norm(e).key())
    except Unsupported as x:
        if 'polynomial too large' not in str(x):
            raise
        _KEPT.append(e)             # keeps the identity of the (hash-consed) term valid
        return ('id', e.get_id())


# ------------------------------------------------------------ goal proving
def ites(e):
    return [t for t in subterms([e]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE]


def _subst_cond(e, c, val):
    """replace condition c by a truth value everywhere in e and simplify the ites"""
    r = z3.substitute(e, (c, z3.BoolVal(val)))
    return fold_ites(r)


def fold_ites(e, memo=None):
    memo = {} if memo is None else memo
    i = e.get_id()
    if i in memo:
        return memo[i][0]
    if z3.is_quantifier(e) or not e.children():
        r = e
    else:
        ch = [fold_ites(c, memo) for c in e.children()]
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE:
            if z3.is_true(ch[0]):
                r = ch[1]
            elif z3.is_false(ch[0]):
                r = ch[2]
            elif ch[1].eq(ch[2]):
                r = ch[1]
            else:
                r = z3.If(*ch)
        elif k == z3.Z3_OP_AND:
            r = core.zb(And(*[True if z3.is_true(c) else False if z3.is_false(c) else c for c in ch]))
        elif k == z3.Z3_OP_OR:
            r = core.zb(Or(*[True if z3.is_true(c) else False if z3.is_false(c) else c for c in ch]))
        elif k == z3.Z3_OP_NOT:
            r = core.zb(Not(ch[0]))
        elif all(a.eq(b) for a, b in zip(ch, e.children())):
            r = e
        else:
            r = e.decl()(*ch)
        if r.sort() == z3.BoolSort() and k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            r = z3.simplify(r) if all(z3.is_int_value(c) or z3.is_rational_value(c) for c in r.children()) else r
    memo[i] = (r, e)
    return r


def _conds(e):
    """conditions of the ites of e, innermost (no ite inside) first"""
    out = []
    for t in ites(e):
        c = t.arg(0)
        if not ites(c):
            out.append(c)
    # atoms of compound conditions
    res = []
    for c in out:
        for a in bool_atoms(c):
            if not any(a.eq(b) for b in res):
                res.append(a)
    return res


def bool_atoms(c):
    k = c.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
        r = []
        for x in c.children():
            r.extend(bool_atoms(x))
        return r
    if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
        return []
    return [c]


def unroll_sums(hyps, x, y):
    """a running sum and its predecessor in one equation: the later one becomes the predecessor plus the last term"""
    by = {}
    for e in subterms([x, y]):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in S.csterm:
            by.setdefault(e.decl().name(), []).append(e)
    sub = []
    for nm, es in by.items():
        for a in es:
            for b in es:
                ka, kb = a.children(), b.children()
                if a.eq(b) or not all(p.eq(q) or z3.is_true(z3.simplify(p == q)) for p, q in zip(ka[:-1], kb[:-1])):
                    continue
                d = z3.simplify(ka[-1] - kb[-1])
                if z3.is_int_value(d) and d.as_long() == 1 and entails(hyps, ka[-1] >= 1, 1500):
                    here = z3.substitute(S.csterm[nm], *[(z3.Int(f"cf%{i}"), o) for i, o in enumerate(ka[:-1])], (z3.Int("cp%"), ka[-1]))
                    sub.append((a, b + fold_ites(here)))
                    break
    if not sub:
        return x, y
    return fold_ites(z3.substitute(x, *sub)), fold_ites(z3.substitute(y, *sub))


def prove_eq(hyps, x, y, budget, depth=0):
    """real/int terms equal under hyps; 'proved' / None, using case splits and the normaliser"""
    if x.eq(y):
        return 'structural'
    x, y = fold_ites(x), fold_ites(y)
    if depth == 0:
        x, y = unroll_sums(hyps, x, y)
    if depth == 0 and (ites(x) or ites(y)) and not z3.is_rational_value(x) and not z3.is_rational_value(y):
        # the choices as opaque terms first
        n = Norm()
        try:
            if n.equal(x, y) and all(entails(hyps, d != 0, 1500) for d in n.dens.values()):
                return 'normaliser'
        except (Unsupported, ZeroDivisionError):
            pass
    cs = _conds(x) + [c for c in _conds(y)]
    for c in cs:
        if depth > 12 or time.time() > budget:
            return None
        if entails(hyps, c, 1500):
            return prove_eq(hyps, _subst_cond(x, c, True), _subst_cond(y, c, True), budget, depth + 1)
        if entails(hyps, Not(c), 1500):
            return prove_eq(hyps, _subst_cond(x, c, False), _subst_cond(y, c, False), budget, depth + 1)
        a = prove_eq(hyps + [c], _subst_cond(x, c, True), _subst_cond(y, c, True), budget, depth + 1)
        if not a:
            return None
        b = prove_eq(hyps + [Not(c)], _subst_cond(x, c, False), _subst_cond(y, c, False), budget, depth + 1)
        return b and 'case split + normaliser'
    pm = {}

    def positive(e):
        s = sign(e)
        if s == '+':
            return True
        if s in ('-', '0-', '0'):
            return False
        i = e.get_id()
        if i not in pm:
            pm[i] = (entails(hyps, e > 0, 800), e)
        return pm[i][0]
    n = Norm(positive)
    try:
        if n.equal(x, y) and all(entails(hyps, d != 0, 1500) for d in n.dens.values()):
            return 'normaliser'
    except (Unsupported, ZeroDivisionError):
        pass
    fs = [core.zb(h) for h in hyps] + [x != y]
    fs += instantiate(fs)
    left = max(1000, min(_TMO, int((budget - time.time()) * 1000)))
    if _check(fs, left)[0] == 'unsat':
        return 'z3'
    return None


def cvc5_check(fs, timeout=15):
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    s = z3.Solver()
    for f in fs:
        s.add(f)
    txt = s.to_smt2()
    t = time.time()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(int(timeout * 1000)))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace('(check-sat)', ''), 'vc')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(slv, sm)
        r = slv.checkSat()
        S.solver_s += time.time() - t
        return 'unsat' if r.isUnsat() else 'sat' if r.isSat() else 'unknown'
    except Exception:
        return 'unknown'


def use_equalities(hyps, g):
    """rewrite the goal with hypotheses  term == numeral,  b,  not b  (b an uninterpreted condition)"""
    sub = []
    for h in hyps:
        if isinstance(h, bool):
            continue
        for c in h.children() if z3.is_and(h) else [h]:
            if z3.is_eq(c) and c.arg(0).sort() != z3.BoolSort():
                for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if (z3.is_rational_value(b) or z3.is_int_value(b)) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        sub.append((a, b))
                        break
            elif z3.is_not(c) and c.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                sub.append((c.arg(0), z3.BoolVal(False)))
            elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                sub.append((c, z3.BoolVal(True)))
    if not sub:
        return g
    r = z3.substitute(g, *sub)
    return g if r.eq(g) else fold_arith(r)


def fold_arith(e, memo=None):
    """fold_ites with arithmetic on numerals"""
    memo = {} if memo is None else memo
    i = e.get_id()
    if i in memo:
        return memo[i][0]
    if z3.is_quantifier(e) or not e.children():
        r = e
    else:
        k = e.decl().kind()
        if k == z3.Z3_OP_ITE:
            c = fold_arith(e.arg(0), memo)
            if z3.is_true(c) or z3.is_false(c):
                r = fold_arith(e.arg(1 if z3.is_true(c) else 2), memo)
                memo[i] = (r, e)
                return r
        ch = [fold_arith(c, memo) for c in e.children()]
        num = lambda x: z3.is_rational_value(x) or z3.is_int_value(x)
        if k == z3.Z3_OP_ITE:
            r = ch[1] if ch[1].eq(ch[2]) else z3.If(*ch)
        elif k == z3.Z3_OP_AND:
            r = core.zb(And(*[True if z3.is_true(c) else False if z3.is_false(c) else c for c in ch]))
        elif k == z3.Z3_OP_OR:
            r = core.zb(Or(*[True if z3.is_true(c) else False if z3.is_false(c) else c for c in ch]))
        elif k == z3.Z3_OP_NOT:
            r = z3.simplify(z3.Not(ch[0])) if z3.is_true(ch[0]) or z3.is_false(ch[0]) else core.zb(Not(ch[0]))
        elif k == z3.Z3_OP_MUL and any(num(c) and c.as_fraction() == 0 if z3.is_rational_value(c) else num(c) and c.as_long() == 0 for c in ch):
            r = z3.RealVal(0) if e.sort() == z3.RealSort() else z3.IntVal(0)
        elif k == z3.Z3_OP_DIV and num(ch[0]) and ch[0].as_fraction() == 0 and nonzero(ch[1]):
            r = z3.RealVal(0)
        elif all(num(c) for c in ch) and k != z3.Z3_OP_UNINTERPRETED:
            r = z3.simplify(e.decl()(*ch))
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            # drop zero summands
            keep = [c for j, c in enumerate(ch) if not (z3.is_rational_value(c) and c.as_fraction() == 0 and (k == z3.Z3_OP_ADD or j > 0))]
            r = ch[0] if not keep else keep[0] if len(keep) == 1 and (k == z3.Z3_OP_ADD or keep[0] is ch[0]) else \
                (z3.Sum(keep) if k == z3.Z3_OP_ADD else e.decl()(*ch))
        elif k == z3.Z3_OP_EQ and ch[0].eq(ch[1]):
            r = z3.BoolVal(True)
        elif all(a.eq(b) for a, b in zip(ch, e.children())):
            r = e
        else:
            r = e.decl()(*ch)
    memo[i] = (r, e)
    return r


def by_sign(g):
    """x >= 0, x > 0 settled by the sign rules"""
    if z3.is_app(g) and g.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_LT) and len(g.children()) == 2:
        a, b = g.children()
        k = g.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            a, b = b, a
            k = z3.Z3_OP_GE if k == z3.Z3_OP_LE else z3.Z3_OP_GT
        if z3.is_rational_value(b) and b.as_fraction() == 0:
            sg = sign(a)
            return sg == '+' or (k == z3.Z3_OP_GE and sg in ('0+', '0'))
    return False


_MQ = [0]


def _binder(e, q):
    """(kind, number of terms, term at q) of a sum / running sum / exists / for-all application"""
    nm = e.decl().name()
    zi = lambda v: z3.IntVal(v) if isinstance(v, int) else v
    if nm in S.sumdefs or nm in S.anydefs:
        n, p, t, fr = (S.sumdefs.get(nm) or S.anydefs[nm])
        if len(fr) != len(e.children()):
            return None
        sub = [(f, a) for f, a in zip(fr, e.children())]
        return ('sum' if nm in S.sumdefs else nm.split('$')[0], z3.substitute(zi(n), *sub), z3.substitute(t, *sub, (p, q)))
    if nm in S.csterm:
        a = e.children()
        return ('sum', z3.simplify(a[-1] + 1), z3.substitute(S.csterm[nm], *[(z3.Int(f"cf%{i}"), o) for i, o in enumerate(a[:-1])], (z3.Int("cp%"), q)))
    return None


def _base_names(t, seen=None):
    """names of the functions a term depends on, sums and existence tests opened up"""
    seen = set() if seen is None else seen
    out = set()
    for x in subterms([t]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_const(x):
            nm = x.decl().name()
            d = S.sumdefs.get(nm) or S.anydefs.get(nm)
            if d is not None or nm in S.csterm:
                if nm not in seen:
                    seen.add(nm)
                    out |= _base_names(d[2] if d is not None else S.csterm[nm], seen)
            else:
                out.add(nm)
    return out


def merge_sums(hyps, fs, budget, depth=0):
    """sums (exists, for-all) over the same range whose terms are equal at every index are the same"""
    apps = {}
    for e in subterms(list(fs)):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and (e.decl().name() in S.sumdefs or e.decl().name() in S.anydefs
                                                                           or e.decl().name() in S.csterm):
            apps[e.get_id()] = e
    _MQ[0] += 1
    q = z3.Int(f"mq%{_MQ[0]}")
    reps, sub = [], []
    tried = 0
    names = _base_names
    for e in apps.values():
        b = _binder(e, q)
        if b is None:
            continue
        for f, g in reps:
            if g[0] != b[0] or not (g[1].eq(b[1]) or z3.is_true(z3.simplify(g[1] == b[1]))) or tried > 40 or time.time() > budget:
                continue
            if names(g[2]) != names(b[2]):
                continue
            tried += 1
            rng = [q >= 0, q < b[1]]
            if g[2].sort() != b[2].sort():
                continue
            if prove([*hyps, *rng], g[2] == b[2], 3., False, merge=depth < 2, depth=depth + 1)[0] == 'proved':
                sub.append((e, f))
                break
        else:
            reps.append((e, b))
    return sub


def prove(hyps, goal, timeout=30., want_cvc5=True, merge=True, depth=0):
    """-> (status, back end, detail); goal raw bool"""
    r = _prove(hyps, goal, timeout, want_cvc5)
    if r[0] == 'proved' or not merge or isinstance(goal, bool):
        return r
    zh = [core.zb(h) for h in hyps]
    sub = merge_sums(zh, [goal, *zh] if not depth else [goal], time.time() + timeout, depth)
    if not sub:
        return r
    s = lambda e: e if isinstance(e, bool) else z3.substitute(e, *sub)
    r2 = _prove([*hyps, *[s(h) for h in hyps]], s(goal), timeout, want_cvc5)
    return (r2[0], r2[1] + '+equal sums', r2[2]) if r2[0] == 'proved' else r


def _prove(hyps, goal, timeout=30., want_cvc5=True):
    """-> (status, back end, detail); goal raw bool"""
    if goal is True or (not isinstance(goal, bool) and z3.is_true(goal)):
        return 'proved', 'structural', ''
    hyps = [h for h in hyps if h is not True]
    if any(h is False for h in hyps):
        return 'proved', 'structural', 'path infeasible'
    budget = time.time() + timeout
    g = core.zb(goal)
    g2 = use_equalities(hyps, g)
    if g2 is not g:
        if z3.is_true(g2):
            return 'proved', 'structural', ''
        g = g2
    # conjunctions separately
    if z3.is_and(g):
        how = set()
        for c in g.children():
            st, b, d = _prove(hyps, c, timeout)
            if st != 'proved':
                return st, b, d
            how.add(b)
        return 'proved', '+'.join(sorted(how)), ''
    if z3.is_implies(g) or (z3.is_or(g) and False):
        return _prove(hyps + [g.arg(0)], g.arg(1), timeout)
    if by_sign(g):
        return 'proved', 'sign rules', ''
    if (z3.is_or(g) or z3.is_eq(g)) and any(z3.is_rational_value(x) for e in (g.children() if z3.is_or(g) else [g]) for x in e.children()):
        # a label: which of the cases applies does not depend on how the compared quantities are computed
        if _opaque_proof([core.zb(h) for h in hyps] + [core.zb(Not(fold_ites(g)))], 3000):
            return 'proved', 'z3', ''
    if z3.is_or(g):
        if any(by_sign(c) for c in g.children()):
            return 'proved', 'sign rules', ''
        return _prove_or(hyps, g, timeout, budget)
    if z3.is_eq(g) and g.arg(0).sort() != z3.BoolSort():
        r = prove_eq(hyps, g.arg(0), g.arg(1), budget)
        if r:
            return 'proved', r, ''
    return _fallback(hyps, g, timeout, budget)


def _prove_or(hyps, g, timeout, budget):
    """a or b or ...: assume the negation of the simple disjuncts, prove an equality disjunct if there is one"""
    ch = list(g.children())
    eqs = [c for c in ch if z3.is_eq(c) and c.arg(0).sort() == z3.RealSort()]
    if eqs:
        e = eqs[-1]
        rest = [Not(c) for c in ch if not c.eq(e)]
        if entails(hyps, Or(*[c for c in ch if not c.eq(e)]), 1000) is True:
            return 'proved', 'z3', ''
        r = prove_eq(hyps + rest, e.arg(0), e.arg(1), budget)
        if r:
            return 'proved', r, ''
    return _fallback(hyps, g, timeout, budget)


class Opaque:
    """non-linear real terms replaced by applications of fresh functions to their index arguments: equal shapes get the same
    function, so what is proved of the replaced formulas holds of the original ones"""

    def __init__(self):
        self.fns, self.memo, self.keep = {}, {}, []
        self.n = 0

    def formula(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(e)
        r = self._f(e)
        self.memo[i] = r
        return r

    def _f(self, e):
        if z3.is_quantifier(e):
            self.n += 1
            vs = [z3.Const(f"{e.var_name(j)}%o{self.n}", e.var_sort(j)) for j in range(e.num_vars())]
            body = z3.substitute_vars(e.body(), *reversed(vs))
            b = self.formula(body)
            return z3.ForAll(vs, b) if e.is_forall() else z3.Exists(vs, b)
        k = e.decl().kind()
        ch = e.children()
        if not ch:
            return e
        if e.sort() == z3.RealSort():
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE, z3.Z3_OP_TO_REAL):
                return _rebuild(e, [self.formula(c) for c in ch])
            if k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) for c in ch) <= 1:
                return _rebuild(e, [self.formula(c) for c in ch])
            if k == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]):
                return _rebuild(e, [self.formula(c) for c in ch])
            if k == z3.Z3_OP_UNINTERPRETED and all(c.sort() == z3.IntSort() for c in ch):
                return e
            return self.cut(e)
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.cut(e) if any(c.sort() != z3.IntSort() for c in ch) else e
        return _rebuild(e, [self.formula(c) for c in ch])

    def cut(self, e):
        args, ids = [], {}

        def shape(x):
            if x.sort() == z3.IntSort() and not z3.is_int_value(x):
                i = x.get_id()
                if i not in ids:
                    ids[i] = len(args)
                    args.append(x)
                return z3.Int(f"op%{ids[i]}")
            ch = x.children()
            if z3.is_quantifier(x) or not ch:
                return x
            return _rebuild(x, [shape(c) for c in ch])
        t = shape(e)
        self.keep.append(t)
        if t.get_id() not in self.fns:
            self.fns[t.get_id()] = z3.Function(f"opq%{len(self.fns)}", *[z3.IntSort()] * len(args), e.sort())
        return self.fns[t.get_id()](*args)


def _rebuild(e, ch):
    if all(a.eq(b) for a, b in zip(ch, e.children())):
        return e
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ITE:
        return z3.If(*ch)
    return e.decl()(*ch)


def _opaque_proof(fs, ms):
    o = Opaque()
    al = fs + instantiate(fs, rounds=2)
    try:
        ab = [o.formula(core.zb(f)) for f in al]
    except (RecursionError, z3.Z3Exception):
        return False
    return bool(o.fns) and _check(ab, ms)[0] == 'unsat'


def _fallback(hyps, g, timeout, budget):
    g2 = fold_ites(g)
    fs = [core.zb(h) for h in hyps] + [core.zb(Not(g2))]
    if _opaque_proof(fs, 4000):
        return 'proved', 'z3', ''
    al = fs + instantiate(fs, rounds=1)
    if _check(al, 2500)[0] == 'unsat':
        return 'proved', 'z3', ''
    if cvc5_check(al, 4.) == 'unsat':
        return 'proved', 'cvc5', ''
    for rounds in (1, 2, 3):
        al = fs + instantiate(fs, rounds=rounds)
        left = max(1500, min(_TMO, int((budget - time.time()) * 1000 / (2 if rounds < 3 else 1))))
        r, s = _check(al, left)
        if r == 'unsat':
            return 'proved', 'z3', ''
        if time.time() > budget:
            break
    if cvc5_check(al, min(10., timeout)) == 'unsat':
        return 'proved', 'cvc5', ''
    return 'unknown', r, ''


# ---------------------------------------------------------- falsification
_FACTS = {}


class Ev:
    """concrete evaluation of terms under a random interpretation of the input symbols; defined symbols get their true
    meaning; arbitrary (havoc) symbols make the evaluation invalid"""

    def __init__(self, rng, pool, sizes):
        self.rng, self.pool, self.sizes = rng, pool, sizes
        self.tab, self.memo = {}, {}

    def val(self, e, env=None):
        if env is None:
            i = e.get_id()
            if i in self.memo:
                return self.memo[i][0]
            r = self._val(e, env)
            self.memo[i] = (r, e)       # the term is kept: its id must not be reused
            return r
        return self._val(e, env)

    def facts(self, nm, args):
        """what is assumed of this element of an input"""
        d = S.defs.get(nm)
        if d is None or d.py is not None or not d.unfold or not args:
            return ()
        key = (nm, args)
        if key not in _FACTS:
            _FACTS[key] = [f for f in d.unfold([z3.IntVal(int(a)) for a in args]) if not isinstance(f, bool)]
        return _FACTS[key]

    def pick(self, nm, args, sort):
        v = self.rng.random() < .5 if sort == z3.BoolSort() else self.rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]) if sort == z3.IntSort() else \
            self.rng.choice(self.pool) if self.rng.random() < .8 else self.rng.uniform(-3, 6)
        sg = S.signs.get(nm)
        if nm in S.mono and args and args[-1] >= 1:
            if args[-1] > 40:
                raise ArithmeticError
            return self.sym(nm, args[:-1] + (args[-1] - 1,), sort) + max(abs(v), .125)
        if sg and sort != z3.BoolSort():
            if sg[-1] == '+':
                v = abs(v)
            if sg[-1] == '-':
                v = -abs(v)
            if sg in ('+', '-', 'nz') and v == 0:
                v = -1. if sg == '-' else 1.
            if sort == z3.IntSort():
                v = int(v)
        return v

    def sym(self, nm, args, sort):
        key = (nm, args)
        if key not in self.tab:
            if nm == 'PI':
                self.tab[key] = math.pi
                return math.pi
            facts = self.facts(nm, args)
            for _ in range(16):
                v = self.tab[key] = self.pick(nm, args, sort)
                if all(self.val(f, {}) for f in facts):
                    return v
            raise ArithmeticError       # no value found that satisfies what is assumed of this element
        return self.tab[key]

    def _val(self, e, env):
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        if z3.is_quantifier(e):
            raise Unsupported("quantifier")
        k = e.decl().kind()
        K = z3
        if k == K.Z3_OP_TRUE:
            return True
        if k == K.Z3_OP_FALSE:
            return False
        ch = e.children()
        if k == K.Z3_OP_ITE:
            return self.val(ch[1], env) if self.val(ch[0], env) else self.val(ch[2], env)
        if k == K.Z3_OP_AND:
            return all(self.val(c, env) for c in ch)
        if k == K.Z3_OP_OR:
            return any(self.val(c, env) for c in ch)
        if k == K.Z3_OP_NOT:
            return not self.val(ch[0], env)
        if k == K.Z3_OP_IMPLIES:
            return (not self.val(ch[0], env)) or self.val(ch[1], env)
        v = [self.val(c, env) for c in ch]
        if k == K.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            if '!' in nm and nm not in S.defs:
                raise Unsupported("havoc symbol")
            f = _PY.get(nm)
            if f:
                return f(*v)
            d = S.defs.get(nm)
            if d and d.py:
                return d.py(v, self)
            return self.sym(nm, tuple(v), e.sort())
        if k == K.Z3_OP_ADD:
            return sum(v)
        if k == K.Z3_OP_SUB:
            return v[0] - sum(v[1:])
        if k == K.Z3_OP_MUL:
            r = v[0]
            for x in v[1:]:
                r = r * x
            return r
        if k == K.Z3_OP_DIV:
            if v[1] == 0:
                raise ArithmeticError
            return v[0] / v[1]
        if k == K.Z3_OP_UMINUS:
            return -v[0]
        if k == K.Z3_OP_IDIV:
            return v[0] // v[1]
        if k == K.Z3_OP_MOD:
            return v[0] % v[1]
        if k == K.Z3_OP_TO_REAL:
            return float(v[0])
        if k == K.Z3_OP_TO_INT:
            return math.floor(v[0])
        if k == K.Z3_OP_IS_INT:
            return v[0] == math.floor(v[0])
        if k == K.Z3_OP_EQ:
            if isinstance(v[0], float) or isinstance(v[1], float):
                return close(v[0], v[1])
            return v[0] == v[1]
        if k == K.Z3_OP_DISTINCT:
            return len(set(v)) == len(v)
        if isinstance(v[0], float) and v[0] != v[1] and close(v[0], v[1], 1e-7):
            raise ArithmeticError       # cannot tell the order from rounding
        if k == K.Z3_OP_LE:
            return v[0] <= v[1]
        if k == K.Z3_OP_LT:
            return v[0] < v[1]
        if k == K.Z3_OP_GE:
            return v[0] >= v[1]
        if k == K.Z3_OP_GT:
            return v[0] > v[1]
        raise Unsupported(f"eval {e.decl()}")


def close(a, b, tol=1e-9):
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


def _pyexp(x):
    return math.exp(x) if x < 600 else 1e260


def _pypow(x, y):
    if x == 0:
        return 0. if y > 0 else 1. if y == 0 else 1e300
    if x < 0:
        raise ArithmeticError
    return x ** y


_PY = {'EXP': _pyexp, 'LOG10': lambda x: math.log10(x) if x > 0 else _arith(), 'LN': lambda x: math.log(x) if x > 0 else _arith(),
       'POW': _pypow, 'GAMMA': lambda x: math.gamma(x) if x > 0 else _arith(), 'COS': math.cos, 'SIN': math.sin,
       'SQRT': lambda x: math.sqrt(x) if x >= 0 else _arith()}


def _arith():
    raise ArithmeticError


def falsify(hyps, goal, seconds=6., seed=1):
    """-> description of a concrete counterexample, or None"""
    rng = random.Random(seed)
    _FACTS.clear()
    fs = [core.zb(h) for h in hyps]
    g = core.zb(goal)
    consts = {0., 1., 2., .5, 3., 0.25}
    for e in subterms(fs + [g]):
        if z3.is_rational_value(e):
            f = float(e.as_fraction())
            if abs(f) < 1e6:
                consts.add(f)
                consts.add(f + .5)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in e.decl().name() \
                and e.decl().name() not in S.defs:
            return None
    consts = sorted(consts)
    # facts assumed of the input arrays at the elements that occur
    for e in subterms(fs + [g]):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            d = S.defs.get(e.decl().name())
            if d and d.py is None and d.unfold:
                fs.extend(f for f in d.unfold(e.children()) if not isinstance(f, bool))
    end = time.time() + seconds
    n = ok = 0
    names = {}
    for e in subterms([g]):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            names[e.decl().name()] = e
    while time.time() < end and n < 20000:
        n += 1
        pool = consts if rng.random() < .5 else [rng.uniform(0.05, 4) for _ in range(6)] + [0., 1.]
        ev = Ev(rng, pool, None)
        try:
            if not all(ev.val(h) for h in fs):
                continue
            ok += 1
            if not ev.val(g):
                # robust: the violation must not be a rounding artefact -- require exact re-evaluation to agree
                cs = {nm: ev.tab.get((nm, ())) for nm in names if (nm, ()) in ev.tab}
                tab = {f"{k[0]}{list(k[1])}": v for k, v in list(ev.tab.items())[:60] if k[1]}
                return dict(constants=cs, inputs=tab, samples=n)
        except (ArithmeticError, ValueError, OverflowError):
            continue
        except Unsupported:
            return None
        except RecursionError:
            return None
    return None
