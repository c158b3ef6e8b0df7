"""Symbolic values of the VC generator: scalars, decisions, proof obligations.

Concrete values stay python objects (bool, int, Fraction, float nan/inf); a symbolic value is an `Sc` holding a z3 term.
A float `Sc` is a real number plus three flags (is NaN, is +inf, is -inf).  Machine arithmetic is treated as
mathematical (exact reals, unbounded integers, no signed zero)."""
import sys
import time
from fractions import Fraction

_p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _p not in sys.path:
    sys.path.append(_p)
import z3  # noqa: E402

NAN = float('nan')
INF = float('inf')


class Unsupported(Exception):
    """the verifier cannot express this; never a verdict about the code"""


class Dead(Exception):
    """the current path is infeasible"""


class CodeRaises(Exception):
    def __init__(self, exc):
        self.exc = exc


# ------------------------------------------------------------------ state
class State:
    def __init__(self):
        self.reset()

    def reset(self):
        self.assume = []          # global facts (z3 Bool): ranges of sizes, preconditions
        self.pc = []              # path conditions
        self.loops = []           # active loop index constants (z3 Int consts)
        self.enum = []            # stack of path enumerators
        self.fresh_n = 0
        self.signs = dict(BASE_SIGNS)   # decl name -> sign
        self.sign_memo = {}
        self.defs = {}            # uf decl name -> Def (axioms)
        self.keys = {}            # canonical key -> decl
        self.solver_s = 0.
        self.known_cache = {}
        self.buffers = []
        self.trusted = set()
        self.notes = []
        self.heap_log = []
        self.deadline = None
        self.raises = []
        self.assume_local = []
        self.integral = {}       # ToInt terms of sums of integers
        self.sumdefs = {}
        self.anydefs = {}
        self.csterm = {}
        self.ixs = []
        self.random = None
        self.tidy = False
        self.x_increasing = False
        self.mono = set()        # inputs that increase along their last axis
        self.ascending = set()   # 1-D coordinates known to ascend
        self.symloops = []
        self.files, self.on_merge, self.packs = {}, None, {}
        self.sets = None
        self.muted = 0
        self.loop_rule = None
        self.round = None
        self.eval_depth = 0
        self.uid = 0


BASE_SIGNS = {'EXP': '+', 'PI': '+', 'SQRT': '0+'}
S = State()


def zb(x):
    """python bool / z3 Bool -> z3 Bool"""
    return z3.BoolVal(x) if isinstance(x, bool) else x


def isconst(x):
    return not isinstance(x, Sc)


# --------------------------------------------------------- boolean folding
def And(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        if not any(x.eq(y) for y in out):
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        if not any(x.eq(y) for y in out):
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def Imp(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    """on raw z3 / python bools"""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a and not b else Not(c) if b and not a else a
    if isinstance(a, bool):
        return Or(c, b) if a else And(Not(c), b)
    if isinstance(b, bool):
        return Or(Not(c), a) if b else And(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ----------------------------------------------------------------- scalars
def rv(x):
    if isinstance(x, (bool, int)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    raise Unsupported(f"rv {x!r}")


def norm_const(x):
    """python/numpy scalar -> canonical concrete"""
    if isinstance(x, (bool, int, Fraction, str)) or x is None:
        return x
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return x
        return Fraction(repr(x))
    t = type(x).__module__
    if t == 'numpy':
        return norm_const(x.item())
    raise Unsupported(f"constant {type(x)}")


def sign(e):
    """'+', '0+', '-', '0-', '0', 'nz' or None for a z3 arithmetic term (structural, sound)"""
    i = e.get_id()
    m = S.sign_memo.get(i)
    if m is not None:
        return m[0]
    r = _sign(e)
    S.sign_memo[i] = (r, e)
    return r


def _mulsign(a, b):
    if a == '0' or b == '0':
        return '0'
    if a is None or b is None:
        return None
    if a == 'nz' or b == 'nz':
        return 'nz' if a in ('nz', '+', '-') and b in ('nz', '+', '-') else None
    neg = (a[-1] == '-') != (b[-1] == '-') if True else False
    strict = a in ('+', '-') and b in ('+', '-')
    neg = (a in ('-', '0-')) != (b in ('-', '0-'))
    return ('' if strict else '0') + ('-' if neg else '+')


def _addsign(a, b):
    if a == '0':
        return b
    if b == '0':
        return a
    if a is None or b is None or 'nz' in (a, b):
        return None
    if a[-1] != b[-1]:
        return None
    return a[-1] if (len(a) == 1 or len(b) == 1) else '0' + a[-1]


def _negsign(a):
    if a in (None, 'nz', '0'):
        return a
    return a[:-1] + ('-' if a[-1] == '+' else '+')


def _sign(e):
    if z3.is_int_value(e) or z3.is_rational_value(e):
        n = e.as_fraction() if z3.is_rational_value(e) else e.as_long()
        return '+' if n > 0 else '-' if n < 0 else '0'
    d = e.decl()
    k = d.kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        nm = d.name()
        if nm in ('POW', 'SQRT', 'GAMMA'):
            s = sign(e.arg(0))
            return '+' if s == '+' else '0+' if nm == 'SQRT' or (nm == 'POW' and s in ('0+', '0')) else None
        return S.signs.get(nm)
    ch = e.children()
    if k == z3.Z3_OP_TO_REAL:
        return sign(ch[0])
    if k == z3.Z3_OP_MUL:
        if len(ch) == 2 and ch[0].eq(ch[1]):
            s = sign(ch[0])
            return '+' if s in ('+', '-', 'nz') else '0+'
        r = '+'
        for c in ch:
            r = _mulsign(r, sign(c))
        return r
    if k == z3.Z3_OP_DIV:
        b = sign(ch[1])
        if b not in ('+', '-', 'nz'):
            return None
        return _mulsign(sign(ch[0]), b)
    if k == z3.Z3_OP_ADD:
        r = '0'
        for c in ch:
            r = _addsign(r, sign(c))
        return r if r is not None else _linsign(e)
    if k == z3.Z3_OP_SUB and len(ch) == 2:
        r = _addsign(sign(ch[0]), _negsign(sign(ch[1])))
        return r if r is not None else _linsign(e)
    if k == z3.Z3_OP_UMINUS:
        return _negsign(sign(ch[0]))
    if k == z3.Z3_OP_ITE:
        a, b = sign(ch[1]), sign(ch[2])
        if a == b:
            return a
        if a is None or b is None:
            return None
        if 'nz' in (a, b):
            return 'nz' if {a, b} <= {'nz', '+', '-'} else None
        if a == '0':
            return ('0' + b[-1])
        if b == '0':
            return ('0' + a[-1])
        if a[-1] == b[-1]:
            return '0' + a[-1]
        return 'nz' if len(a) == 1 and len(b) == 1 else None
    return None


def _num(e):
    return e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long()) if z3.is_int_value(e) else None


def _linear(e, c, out):
    """adds c * e to out: {id: [coefficient, term]}, constants under None"""
    n = _num(e)
    if n is not None:
        out.setdefault(None, [Fraction(0), None])[0] += c * n
        return
    k, ch = e.decl().kind(), e.children()
    if k == z3.Z3_OP_ADD:
        for x in ch:
            _linear(x, c, out)
    elif k == z3.Z3_OP_SUB:
        for j, x in enumerate(ch):
            _linear(x, c if j == 0 else -c, out)
    elif k == z3.Z3_OP_UMINUS:
        _linear(ch[0], -c, out)
    elif k == z3.Z3_OP_MUL and len(ch) == 2 and _num(ch[0]) is not None:
        _linear(ch[1], c * _num(ch[0]), out)
    elif k == z3.Z3_OP_MUL and len(ch) == 2 and _num(ch[1]) is not None:
        _linear(ch[0], c * _num(ch[1]), out)
    elif k == z3.Z3_OP_DIV and _num(ch[1]):
        _linear(ch[0], c / _num(ch[1]), out)
    else:
        out.setdefault(e.get_id(), [Fraction(0), e])[0] += c


def _linsign(e):
    """of a sum, after collecting equal summands"""
    out = {}
    _linear(e, Fraction(1), out)
    r = '0'
    for c, t in out.values():
        if c == 0:
            continue
        s = '+' if t is None else sign(t)
        r = _addsign(r, s if c > 0 else _negsign(s))
        if r is None:
            return None
    return r


def nonzero(e):
    return sign(e) in ('+', '-', 'nz')


class Sc:
    __slots__ = ('k', 'v', 'nan', 'pi', 'ni')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, k, v, nan=False, pi=False, ni=False):
        if k == 'f' and S.tidy and not (nan is False and pi is False and ni is False):
            nan, pi, ni = tidy(nan), tidy(pi), tidy(ni)
        self.k, self.v, self.nan, self.pi, self.ni = k, v, nan, pi, ni

    def __repr__(self):
        f = '' if not self.flagged() else f" nan={self.nan} pi={self.pi} ni={self.ni}"
        return f"<{self.k} {str(self.v)[:300]}{f}>"

    def flagged(self):
        return not (self.nan is False and self.pi is False and self.ni is False)

    # numpy-scalar-like attributes
    def copy(self):
        return self

    @property
    def values(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    @property
    def ndim(self):
        return 0

    def item(self):
        return self

    def astype(self, t):
        return cast(self, t)

    def __bool__(self):
        return decide(truth(self))

    def __index__(self):
        raise Unsupported("symbolic value used as a concrete index")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __hash__(self):
        return hash((self.k, self.v.get_id()))

    def __add__(self, o): return binop('+', self, o)
    def __radd__(self, o): return binop('+', o, self)
    def __sub__(self, o): return binop('-', self, o)
    def __rsub__(self, o): return binop('-', o, self)
    def __mul__(self, o): return binop('*', self, o)
    def __rmul__(self, o): return binop('*', o, self)
    def __truediv__(self, o): return binop('/', self, o)
    def __rtruediv__(self, o): return binop('/', o, self)
    def __floordiv__(self, o): return binop('//', self, o)
    def __rfloordiv__(self, o): return binop('//', o, self)
    def __mod__(self, o): return binop('%', self, o)
    def __rmod__(self, o): return binop('%', o, self)
    def __pow__(self, o): return binop('**', self, o)
    def __rpow__(self, o): return binop('**', o, self)
    def __neg__(self): return s_neg(self)
    def __pos__(self): return self
    def __abs__(self): return s_abs(self)
    def __lt__(self, o): return binop('<', self, o)
    def __le__(self, o): return binop('<=', self, o)
    def __gt__(self, o): return binop('>', self, o)
    def __ge__(self, o): return binop('>=', self, o)
    def __eq__(self, o): return binop('==', self, o)
    def __ne__(self, o): return binop('!=', self, o)
    def __and__(self, o): return binop('&', self, o)
    def __rand__(self, o): return binop('&', o, self)
    def __or__(self, o): return binop('|', self, o)
    def __ror__(self, o): return binop('|', o, self)
    def __invert__(self): return s_not(self)


def lift(x):
    """-> Sc (kind kept)"""
    if isinstance(x, Sc):
        return x
    x = norm_const(x)
    if isinstance(x, bool):
        return Sc('b', z3.BoolVal(x))
    if isinstance(x, int):
        return Sc('i', z3.IntVal(x))
    if isinstance(x, Fraction):
        return Sc('f', rv(x))
    if isinstance(x, float):
        return Sc('f', z3.RealVal(0), nan=(x != x), pi=(x == INF), ni=(x == -INF))
    raise Unsupported(f"lift {x!r}")


def tidy(f):
    """a missing-value flag, or False when what is assumed here excludes it"""
    if isinstance(f, bool):
        return f
    f = z3.simplify(f)
    if z3.is_false(f):
        return False
    if z3.is_true(f):
        return True
    return False if known(z3.Not(f), 400) else f


def simp(s):
    """Sc with literal value -> python constant"""
    if isinstance(s, Sc):
        if s.k == 'b':
            if isinstance(s.v, bool):
                return s.v
            if z3.is_true(s.v):
                return True
            if z3.is_false(s.v):
                return False
        elif s.k == 'i' and z3.is_int_value(s.v):
            return s.v.as_long()
        elif s.k == 'f' and not s.flagged() and z3.is_rational_value(s.v):
            return Fraction(s.v.numerator_as_long(), s.v.denominator_as_long())
    return s


def B(v):
    """raw bool (python or z3) -> scalar value"""
    if isinstance(v, bool):
        return v
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return Sc('b', v)


def I(v):
    if isinstance(v, int):
        return v
    v = z3.simplify(v)
    return v.as_long() if z3.is_int_value(v) else Sc('i', v)


def truth(x):
    """scalar -> raw bool"""
    if isinstance(x, Sc):
        if x.k == 'b':
            return x.v
        if x.k == 'i':
            return x.v != 0
        return Or(x.nan, x.pi, x.ni, x.v != 0)
    x = norm_const(x)
    return bool(x)


def has_count(e):
    """mentions the integer part of a sum of integers (such a sum is an integer)"""
    if not S.integral:
        return False
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_to_int(x) and x.get_id() in S.integral:
            return True
        if x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            stack.extend(x.children())
    return False


def to_real(e):
    if z3.is_int_value(e):
        return z3.RealVal(e.as_long())
    if e.decl().kind() == z3.Z3_OP_ITE and all(z3.is_int_value(c) for c in e.children()[1:]):
        return z3.If(e.arg(0), to_real(e.arg(1)), to_real(e.arg(2)))
    if not has_count(e):
        return z3.ToReal(e)
    if z3.is_to_int(e):
        return e.arg(0)
    k, ch = e.decl().kind(), e.children()
    if k == z3.Z3_OP_ITE:
        return z3.If(ch[0], to_real(ch[1]), to_real(ch[2]))
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
        r = to_real(ch[0])
        for c in ch[1:]:
            c = to_real(c)
            r = r + c if k == z3.Z3_OP_ADD else r * c if k == z3.Z3_OP_MUL else r - c
        return r
    if k == z3.Z3_OP_UMINUS:
        return -to_real(ch[0])
    return z3.ToReal(e)


def as_real(x):
    """-> (z3 Real, nan, pi, ni)"""
    x = lift(x)
    if x.k == 'f':
        return x.v, x.nan, x.pi, x.ni
    if x.k == 'i':
        return to_real(x.v), False, False, False
    v = x.v
    return If(v if not isinstance(v, bool) else v, z3.RealVal(1), z3.RealVal(0)), False, False, False


def as_int(x):
    x = lift(x)
    if x.k == 'i':
        return x.v
    if x.k == 'b':
        return If(x.v, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("float used as integer")


def is_f(x):
    return (isinstance(x, Sc) and x.k == 'f') or (isinstance(x, (Fraction, float)) and not isinstance(x, bool))


def is_b(x):
    return isinstance(x, bool) or (isinstance(x, Sc) and x.k == 'b')


def _const_op(op, a, b):
    fl = isinstance(a, float) or isinstance(b, float)
    if op in ('<', '<=', '>', '>=', '==', '!='):
        import operator as o
        return {'<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge, '==': o.eq, '!=': o.ne}[op](a, b)
    if op in ('&', '|'):
        if isinstance(a, bool) and isinstance(b, bool):
            return (a and b) if op == '&' else (a or b)
        return (a & b) if op == '&' else (a | b)
    if isinstance(a, bool):
        a = int(a) if not (isinstance(b, bool) and op in '+*') else a
    if isinstance(b, bool):
        b = int(b)
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        if b == 0 and not fl:
            return NAN if a == 0 else INF if a > 0 else -INF
        if fl:
            if b == 0:
                return NAN if (a != a) else a
            return norm_const(float(a) / float(b))
        r = Fraction(a) / Fraction(b)
        return r
    if op == '//':
        return a // b
    if op == '%':
        return a % b
    if op == '**':
        if fl:
            return norm_const(float(a) ** float(b))
        if isinstance(b, int) or b.denominator == 1:
            b = int(b)
            if a == 0 and b < 0:
                return INF
            return Fraction(a) ** b if not (isinstance(a, int) and b >= 0) else a ** b
        return None
    raise Unsupported(op)


def binop(op, a, b):
    if not isinstance(a, Sc) and not isinstance(b, Sc):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if op == '==':
                return a == b
            if op == '!=':
                return a != b
        a, b = norm_const(a), norm_const(b)
        r = _const_op(op, a, b)
        if r is not None:
            return r
    if hasattr(a, '__sym_arr__') or hasattr(b, '__sym_arr__'):
        return NotImplemented
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if op == '==':
            return False
        if op == '!=':
            return True
        raise Unsupported(f"{op} on {a!r},{b!r}")
    try:
        a, b = (a if isinstance(a, Sc) else norm_const(a)), (b if isinstance(b, Sc) else norm_const(b))
    except Unsupported:
        return NotImplemented
    if op in ('&', '|'):
        if is_b(a) and is_b(b):
            x, y = truth(a), truth(b)
            return B(And(x, y) if op == '&' else Or(x, y))
        raise Unsupported("bitwise op on numbers")
    if op in ('<', '<=', '>', '>=', '==', '!='):
        return cmp(op, a, b)
    if op == '/':
        return f_div(a, b)
    if op == '**':
        return f_pow(a, b)
    if is_f(a) or is_f(b):
        if op == '+':
            return f_add(a, b)
        if op == '-':
            return f_add(a, s_neg(b))
        if op == '*':
            return f_mul(a, b)
        if op == '//':
            q = f_div(a, b)
            return s_floor(q)
        if op == '%':
            raise Unsupported("float modulo")
    if is_b(a) and is_b(b):
        if op == '+':
            return B(Or(truth(a), truth(b)))
        if op == '*':
            return B(And(truth(a), truth(b)))
    x, y = as_int(a), as_int(b)
    if op == '+':
        return I(x + y)
    if op == '-':
        return I(x - y)
    if op == '*':
        return I(x * y)
    if op == '//':
        return I(x / y) if sign(y) == '+' or known(y > 0) else _uns("int // by non-positive")
    if op == '%':
        return I(x % y) if sign(y) == '+' or known(y > 0) else _uns("int % by non-positive")
    raise Unsupported(op)


def _uns(m):
    raise Unsupported(m)


def cmp(op, a, b):
    if is_f(a) or is_f(b):
        x, xn, xp, xm = as_real(a)
        y, yn, yp, ym = as_real(b)
        flag = not (xn is False and yn is False and xp is False and xm is False and yp is False and ym is False)
        if op in ('>', '>='):
            x, xn, xp, xm, y, yn, yp, ym = y, yn, yp, ym, x, xn, xp, xm
            op = '<' if op == '>' else '<='
        if op == '<':
            r = fold_cmp('<', x, y)
            if flag:
                xf, yf = Not(Or(xn, xp, xm)), Not(Or(yn, yp, ym))
                r = And(Not(xn), Not(yn), Or(And(xf, yf, r), And(xm, Not(ym)), And(yp, Not(xp))))
            return B(r)
        if op == '<=':
            r = fold_cmp('<=', x, y)
            if flag:
                xf, yf = Not(Or(xn, xp, xm)), Not(Or(yn, yp, ym))
                r = And(Not(xn), Not(yn), Or(And(xf, yf, r), xm, yp))
            return B(r)
        r = fold_cmp('==', x, y)
        if flag:
            xf, yf = Not(Or(xn, xp, xm)), Not(Or(yn, yp, ym))
            r = And(Not(xn), Not(yn), Or(And(xf, yf, r), And(xm, ym), And(yp, xp)))
        return B(r if op == '==' else Not(r))
    if is_b(a) and is_b(b) and op in ('==', '!='):
        x, y = truth(a), truth(b)
        if isinstance(x, bool):
            x, y = y, x
        if isinstance(y, bool):
            r = x if y else Not(x)
        elif x.eq(y):
            r = True
        else:
            r = x == y
        return B(r if op == '==' else Not(r))
    x, y = as_int(a), as_int(b)
    if has_count(x) or has_count(y):
        x, y = z3.simplify(to_real(x)), z3.simplify(to_real(y))
    return B(fold_cmp(op, x, y))


def fold_cmp(op, x, y):
    d = z3.simplify(x - y)
    if z3.is_int_value(d) or z3.is_rational_value(d):
        n = d.as_long() if z3.is_int_value(d) else d.as_fraction()
        return {'<': n < 0, '<=': n <= 0, '>': n > 0, '>=': n >= 0, '==': n == 0, '!=': n != 0}[op]
    # sign-based folding against zero
    s = None
    if z3.is_rational_value(y) and y.as_fraction() == 0 or z3.is_int_value(y) and y.as_long() == 0:
        s = sign(x)
        if s == '+':
            return op in ('>', '>=', '!=')
        if s == '-':
            return op in ('<', '<=', '!=')
        if s == '0+' and op in ('>=', '<'):
            return op == '>='
        if s == '0-' and op in ('<=', '>'):
            return op == '<='
        if s == 'nz' and op in ('==', '!='):
            return op == '!='
    elif z3.is_rational_value(x) and x.as_fraction() == 0 or z3.is_int_value(x) and x.as_long() == 0:
        return fold_cmp({'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op], y, x)
    if op == '<':
        return x < y
    if op == '<=':
        return x <= y
    if op == '>':
        return x > y
    if op == '>=':
        return x >= y
    return x == y if op == '==' else x != y


def s_neg(a):
    if not isinstance(a, Sc):
        return -norm_const(a)
    if a.k == 'f':
        return Sc('f', -a.v, a.nan, a.ni, a.pi)
    return I(-as_int(a))


def s_not(a):
    if isinstance(a, Sc) and a.k == 'b':
        return B(Not(a.v))
    if isinstance(a, bool):
        return not a
    raise Unsupported("~ on number")


def s_abs(a):
    if not isinstance(a, Sc):
        return abs(norm_const(a))
    if a.k == 'f':
        s = sign(a.v)
        if s in ('+', '0+', '0'):
            v = a.v
        elif s in ('-', '0-'):
            v = -a.v
        else:
            v = z3.If(a.v >= 0, a.v, -a.v)
        return Sc('f', v, a.nan, Or(a.pi, a.ni), False)
    v = as_int(a)
    return I(z3.If(v >= 0, v, -v))


def f_add(a, b):
    if not isinstance(a, Sc) and not isinstance(b, Sc):
        return norm_const(a) + norm_const(b)
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, Sc) and not isinstance(x, float) and x == 0:
            v, n, p, m = as_real(y)
            return Sc('f', v, n, p, m)
    x, xn, xp, xm = as_real(a)
    y, yn, yp, ym = as_real(b)
    x, y = _addconst(x, y)
    nan = Or(xn, yn, And(xp, ym), And(xm, yp))
    pi = And(Or(xp, yp), Not(nan)) if (xp, yp) != (False, False) else False
    ni = And(Or(xm, ym), Not(nan)) if (xm, ym) != (False, False) else False
    if (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
        return NAN
    if z3.is_rational_value(y) and y.as_fraction() == 0:
        return Sc('f', x, nan, pi, ni)
    return Sc('f', x + y, nan, pi, ni)


def _addconst(x, y):
    """(u + c1) + c2 -> u + (c1 + c2)"""
    if z3.is_rational_value(x) and not z3.is_rational_value(y):
        x, y = y, x
    if z3.is_rational_value(y) and x.decl().kind() == z3.Z3_OP_ADD and x.num_args() == 2:
        for u, c in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
            if z3.is_rational_value(c):
                return u, rv(c.as_fraction() + y.as_fraction())
    return x, y


def _mulconst(x, y):
    """(u * c1) * c2 -> u * (c1 * c2)"""
    a, b = (y, x) if z3.is_rational_value(x) else (x, y)
    if z3.is_rational_value(b) and not z3.is_rational_value(a) and a.decl().kind() == z3.Z3_OP_MUL and a.num_args() == 2:
        for u, c in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
            if z3.is_rational_value(c):
                f = c.as_fraction() * b.as_fraction()
                return u if f == 1 else u * rv(f)
    return x * y


def f_mul(a, b):
    if (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
        return NAN
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, Sc) and not isinstance(x, float):
            if x == 1:
                v, n, p, m = as_real(y)
                return Sc('f', v, n, p, m)
            if x == 0:
                v, n, p, m = as_real(y)
                bad = Or(n, p, m)
                return Fraction(0) if bad is False else Sc('f', z3.RealVal(0), bad)
    x, xn, xp, xm = as_real(a)
    y, yn, yp, ym = as_real(b)
    xi, yi = Or(xp, xm), Or(yp, ym)
    if xi is False and yi is False:
        return Sc('f', _mulconst(x, y), Or(xn, yn))
    xz = And(Not(Or(xn, xi)), fold_cmp('==', x, z3.RealVal(0)))
    yz = And(Not(Or(yn, yi)), fold_cmp('==', y, z3.RealVal(0)))
    nan = Or(xn, yn, And(xi, yz), And(yi, xz))
    xpos = Or(xp, And(Not(xi), fold_cmp('>', x, z3.RealVal(0))))
    ypos = Or(yp, And(Not(yi), fold_cmp('>', y, z3.RealVal(0))))
    inf = And(Or(xi, yi), Not(nan))
    same = Or(And(xpos, ypos), And(Not(xpos), Not(ypos)))
    return Sc('f', x * y, nan, And(inf, same), And(inf, Not(same)))


def f_div(a, b):
    if (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
        return NAN
    if not isinstance(b, Sc) and not isinstance(b, float) and b != 0:
        return f_mul(a, Fraction(1) / Fraction(b))
    if not isinstance(b, Sc) and isinstance(b, float):       # +-inf
        v, n, p, m = as_real(a)
        return Sc('f', z3.RealVal(0), Or(n, p, m))
    x, xn, xp, xm = as_real(a)
    y, yn, yp, ym = as_real(b)
    xi, yi = Or(xp, xm), Or(yp, ym)
    y0 = fold_cmp('==', y, z3.RealVal(0))
    q = Sc('f', x / y) if not (z3.is_rational_value(x) and x.as_fraction() == 0) else Sc('f', z3.RealVal(0))
    if y0 is False and xi is False and yi is False:
        q.nan = Or(xn, yn)
        return q
    yz = And(Not(Or(yn, yi)), y0)
    xz = And(Not(Or(xn, xi)), fold_cmp('==', x, z3.RealVal(0)))
    nan = Or(xn, yn, And(xi, yi), And(xz, yz))
    xpos = Or(xp, And(Not(xi), fold_cmp('>', x, z3.RealVal(0))))
    ypos = Or(yp, And(Not(yi), fold_cmp('>=', y, z3.RealVal(0))))      # +0 assumed
    inf = And(Or(xi, yz), Not(nan))
    same = Or(And(xpos, ypos), And(Not(xpos), Not(ypos)))
    v = If(yi, z3.RealVal(0), q.v)
    return Sc('f', v, nan, And(inf, same), And(inf, Not(same)))


def _uf(name, n, rng=None, dom=None):
    dom = dom or [z3.RealSort()] * n
    return z3.Function(name, *dom, rng or z3.RealSort())


EXP = _uf('EXP', 1)
LOG10 = _uf('LOG10', 1)
LN = _uf('LN', 1)
POW = _uf('POW', 2)
GAMMA = _uf('GAMMA', 1)
COS = _uf('COS', 1)
SIN = _uf('SIN', 1)
SQRT = _uf('SQRT', 1)
PI = Sc('f', z3.Real('PI'))


def f_pow(a, b):
    bc = None if isinstance(b, Sc) else norm_const(b)
    if not isinstance(a, Sc) and isinstance(bc, (int, Fraction)) and not isinstance(a, float):
        r = _const_op('**', norm_const(a), bc)
        if r is not None:
            return r
    if isinstance(bc, (int, Fraction)) and not isinstance(bc, bool) and Fraction(bc).denominator == 1:
        n = int(bc)
        if n == 0:
            return Fraction(1)
        if abs(n) <= 6:
            r = a
            for _ in range(abs(n) - 1):
                r = binop('*', r, a)
            return r if n > 0 else binop('/', Fraction(1), r)
    if isinstance(bc, Fraction) and bc == Fraction(1, 2):
        return s_sqrt(a)
    if isinstance(bc, float) or (not isinstance(a, Sc) and isinstance(a, float)):
        if bc != bc or a != a:
            return NAN
        raise Unsupported("pow with inf")
    x, xn, xp, xm = as_real(a)
    y, yn, yp, ym = as_real(b)
    v = POW(x, y)
    sx = sign(x)
    if (xp, xm, yp, ym) != (False,) * 4:
        if xp is False and xm is False and z3.is_rational_value(x) and x.as_fraction() > 1:
            fin = Sc('f', v, Or(xn, yn), False, False)
            return ite(B(yp), Sc('f', z3.RealVal(0), False, True, False), ite(B(ym), Fraction(0), fin))
        # results of infinite operands are not modelled precisely: any value
        f = fresh('f', 'powinf', flags=True)
        odd = Or(xp, xm, yp, ym)
        ok = _pow_fin(x, y, v, sx)
        return ite(B(odd), f, Sc('f', v, Or(xn, yn, ok[0]), ok[1], False))
    ok = _pow_fin(x, y, v, sx)
    return Sc('f', v, Or(xn, yn, ok[0]), And(Not(Or(xn, yn)), ok[1]), False)


def _pow_fin(x, y, v, sx):
    """(nan, pinf) for finite operands"""
    if sx == '+':
        return False, False
    isint = z3.IsInt(y) if not z3.is_rational_value(y) else (y.as_fraction().denominator == 1)
    nan = And(fold_cmp('<', x, z3.RealVal(0)), Not(isint))
    pinf = And(fold_cmp('==', x, z3.RealVal(0)), fold_cmp('<', y, z3.RealVal(0)))
    return nan, pinf


def s_fn(name, a):
    """elementary functions"""
    f = {'exp': EXP, 'log10': LOG10, 'log': LN, 'gamma': GAMMA, 'cos': COS, 'sin': SIN}[name]
    if not isinstance(a, Sc):
        a = norm_const(a)
        if isinstance(a, float):
            if a != a:
                return NAN
            if name == 'exp':
                return INF if a > 0 else Fraction(0)
            raise Unsupported(f"{name}({a})")
        if name == 'exp' and a == 0:
            return Fraction(1)
        if name in ('log10', 'log') and a == 1:
            return Fraction(0)
        if name == 'log10' and a > 0:
            k, x = 0, Fraction(a)
            while x >= 10:
                x, k = x / 10, k + 1
            while x < 1:
                x, k = x * 10, k - 1
            if x == 1:
                return k
        if name in ('log10', 'log') and a == 0:
            return -INF
        if name in ('log10', 'log') and a < 0:
            return NAN
        if name == 'gamma' and Fraction(a).denominator == 1 and 0 < a < 30:
            r = 1
            for i in range(1, int(a)):
                r *= i
            return r
        if name == 'cos' and a == 0:
            return 1
        if name == 'sin' and a == 0:
            return 0
        a = lift(Fraction(a))
    x, n, p, m = as_real(a)
    if name == 'cos' and x.eq(PI.v):
        return -1
    v = f(x)
    if name == 'exp':
        return Sc('f', If(m, z3.RealVal(0), v), n, p, False)
    if name in ('log10', 'log'):
        return Sc('f', v, Or(n, m, And(Not(p), fold_cmp('<', x, z3.RealVal(0)))), p,
                  And(Not(Or(n, p, m)), fold_cmp('==', x, z3.RealVal(0))))
    if name == 'gamma':
        return Sc('f', v, n, p, False)
    return Sc('f', v, Or(n, p, m))


def s_sqrt(a):
    if not isinstance(a, Sc):
        a = norm_const(a)
        if isinstance(a, float):
            return a
        from math import isqrt
        f = Fraction(a)
        if f < 0:
            return NAN
        n, d = isqrt(f.numerator), isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return Fraction(n, d)
        a = lift(f)
    x, n, p, m = as_real(a)
    v = SQRT(x)
    return Sc('f', v, Or(n, m, And(Not(p), fold_cmp('<', x, z3.RealVal(0)))), p, False)


def s_floor(a):
    if not isinstance(a, Sc):
        import math
        return math.floor(a)
    x, n, p, m = as_real(a)
    return Sc('f', z3.ToReal(z3.ToInt(x)), n, p, m)


def s_ceil(a):
    return s_neg(s_floor(s_neg(a)))


def s_round(a):
    """np.round / np.rint: nearest integer, ties to even"""
    if not isinstance(a, Sc):
        a = norm_const(a)
        if isinstance(a, float):
            return a
        return Fraction(round(a)) if isinstance(a, Fraction) else a
    if a.k != 'f':
        return a
    if S.round is not None:
        r = S.round(a)
        if r is not None:
            return r
    h = z3.ToInt(a.v + rv(Fraction(1, 2)))
    r = z3.If(z3.And(z3.ToReal(h) == a.v + rv(Fraction(1, 2)), h % 2 != 0), h - 1, h)
    return Sc('f', z3.ToReal(r), a.nan, a.pi, a.ni)


def cast(a, t):
    t = getattr(t, '__name__', t)
    t = {'float_': 'float', 'int_': 'int'}.get(t, t)
    if t in ('float', 'float64', 'float32', 'f8', 'f4', 'double'):
        if isinstance(a, Sc):
            v, n, p, m = as_real(a)
            return Sc('f', v, n, p, m)
        a = norm_const(a)
        return a if isinstance(a, float) else Fraction(a)
    if t in ('int8', 'uint8'):
        # small integers: values outside -128..127 would wrap (not modelled)
        S.trusted.add("conversion to 8-bit integers: values fit, a missing value becomes 0 (as on this platform)")
        if isinstance(a, Sc) and a.k == 'f':
            bad = Or(a.nan, a.pi, a.ni)
            if bad is not False:
                return I(If(bad, z3.IntVal(0), cast(Sc('f', a.v), 'int').v))
        return cast(a, 'int')
    if t in ('int', 'int64', 'int32', 'i8', 'intc'):
        if isinstance(a, Sc):
            if a.k == 'f':
                r = z3.simplify(a.v)
                if r.decl().kind() == z3.Z3_OP_TO_REAL:
                    v = r.arg(0)
                else:
                    v = z3.If(a.v >= 0, z3.ToInt(a.v), -z3.ToInt(-a.v))
                bad = Or(a.nan, a.pi, a.ni)
                if bad is not False:
                    v = If(bad, fresh('i', 'castnan').v, v)
                return I(v)
            return I(as_int(a))
        a = norm_const(a)
        return int(a)
    if t in ('bool', 'bool_'):
        return B(truth(a))
    raise Unsupported(f"astype {t}")


def isnan(a):
    if isinstance(a, Sc):
        return B(a.nan) if a.k == 'f' else False
    a = norm_const(a)
    return isinstance(a, float) and a != a


def isfinite(a):
    if isinstance(a, Sc):
        return B(Not(Or(a.nan, a.pi, a.ni))) if a.k == 'f' else True
    a = norm_const(a)
    return not isinstance(a, float)


def ite(c, a, b):
    """scalar if-then-else; c a scalar bool"""
    c = truth(c)
    if not isinstance(c, bool):
        if z3.is_true(c):
            c = True
        elif z3.is_false(c):
            c = False
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if not isinstance(a, Sc) and not isinstance(b, Sc):
        if type(a) is type(b) and a == b:
            return a
    if is_b(a) and is_b(b):
        return B(If(c, truth(a), truth(b)))
    if is_f(a) or is_f(b):
        x, xn, xp, xm = as_real(a)
        y, yn, yp, ym = as_real(b)
        if isinstance(a, float):
            x = y
        if isinstance(b, float):
            y = x
        return Sc('f', If(c, x, y), If(c, xn, yn), If(c, xp, yp), If(c, xm, ym))
    return simp(Sc('i', If(c, as_int(a), as_int(b))))


def s_min(a, b, nanprop=True):
    """np.minimum"""
    r = ite(binop('<=', a, b), a, b)
    if is_f(a) or is_f(b):
        r = ite(B(Or(truth(isnan(a)), truth(isnan(b)))), NAN, r)
    return r


def s_max(a, b):
    r = ite(binop('>=', a, b), a, b)
    if is_f(a) or is_f(b):
        r = ite(B(Or(truth(isnan(a)), truth(isnan(b)))), NAN, r)
    return r


# ------------------------------------------------------- fresh symbols
def fresh_name(base):
    S.fresh_n += 1
    return f"{base}!{S.fresh_n}"


def fresh(kind, base='v', flags=False):
    """arbitrary value; depends on the active loop indices"""
    n = fresh_name(base)
    args = list(S.loops)

    def mk(nm, sort):
        if not args:
            return z3.Const(nm, sort)
        return z3.Function(nm, *[a.sort() for a in args], sort)(*args)
    sort = {'b': z3.BoolSort(), 'i': z3.IntSort(), 'f': z3.RealSort()}[kind]
    r = Sc(kind, mk(n, sort))
    if flags and kind == 'f':
        r.nan, r.pi, r.ni = (mk(n + x, z3.BoolSort()) for x in ('#nan', '#pi', '#ni'))
    return r


def const(name, kind='f', sign_=None):
    sort = {'b': z3.BoolSort(), 'i': z3.IntSort(), 'f': z3.RealSort()}[kind]
    c = z3.Const(name, sort)
    if sign_:
        S.signs[name] = sign_
        if kind != 'b':
            S.assume.append(sign_fact(c, sign_))
    return Sc(kind, c)


def sign_fact(c, s):
    z = 0
    return {'+': c > z, '0+': c >= z, '-': c < z, '0-': c <= z, 'nz': c != z}[s]


# -------------------------------------------------- decisions (path forks)
class Enum:
    """enumerates the paths of one region by replaying decisions"""

    def __init__(self):
        self.script, self.pos, self.first = [], 0, True
        self.count = 0

    def start(self):
        self.pos = 0
        self.count += 1
        if self.count > 600:
            raise Unsupported("too many paths")

    def next(self):
        while self.script and not self.script[-1][1]:
            self.script.pop()
        if not self.script:
            return False
        v, _ = self.script.pop()
        self.script.append((not v, False))
        return True

    def choose(self, cond):
        """cond raw z3 bool, undecided"""
        if self.pos < len(self.script):
            v = self.script[self.pos][0]
        else:
            v = True
            self.script.append((True, True))
        self.pos += 1
        S.pc.append(cond if v else Not(cond))
        return v


def known(c, timeout=1500):
    """is the raw condition implied by what is assumed here?"""
    if isinstance(c, bool):
        return c
    ctx = [x for x in (*S.pc, *S.assume_local) if not isinstance(x, bool)]
    key = (c.get_id(), tuple(x.get_id() for x in ctx), len(S.assume))
    if key in S.known_cache:
        return S.known_cache[key][0]
    from .vc import entails
    r = entails([*S.assume, *ctx], c, timeout)
    S.known_cache[key] = (r, c, ctx)
    return r


def decide(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    for p in S.pc:
        if not isinstance(p, bool):
            if p.eq(c):
                return True
            if Not(p) is not False and not isinstance(Not(p), bool) and Not(p).eq(c):
                return False
            if not isinstance(Not(c), bool) and Not(c).eq(p):
                return False
    if known(c):
        return True
    if known(Not(c)):
        return False
    if not S.enum:
        raise Unsupported("branch on a symbolic value outside a path enumeration")
    return S.enum[-1].choose(c)


def all_paths(fn):
    """run fn() over all feasible paths; -> [(path condition list, result)]; heap effects must be handled by caller"""
    out = []
    e = Enum()
    base = list(S.pc)
    while True:
        e.start()
        S.enum.append(e)
        S.pc = list(base)
        try:
            r = fn()
            out.append((S.pc[len(base):], r))
        except Dead:
            pass
        finally:
            S.enum.pop()
            S.pc = list(base)
        if not e.next():
            break
    return out
