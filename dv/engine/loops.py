"""Loop rules.  A loop over a symbolic range is verified for one generic iteration: every branch of the body is followed, the
writes of the paths are merged, and the state after the loop is obtained by generalising over the index each written array is
keyed by.  What an iteration could read from another iteration is havocked (arbitrary), so nothing about the order of
iterations is assumed beyond what the index order gives."""
import sys
import types
from . import core, arr
from .core import S, Sc, z3, And, Or, Not, I, B, Unsupported, Dead, ite, known, Enum, fresh, norm_const
from .arr import Arr, SymSeq, lazy, isx, zi, isimp, raw, Buf, _eval, _mkstate, Masked


class Poison:
    """a local whose value would be carried from one iteration into another"""

    def __init__(self, name):
        self.__dict__['_n'] = name

    def _bad(self, *a, **k):
        raise Unsupported(f"loop-carried or unset variable {self._n}")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __getitem__ = __setitem__ = __call__ = _bad
    __bool__ = __iter__ = __len__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __neg__ = __iadd__ = __imul__ = _bad
    __index__ = __int__ = __float__ = __contains__ = __isub__ = _bad
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f"loop-carried or unset variable {self._n}.{n}")


class SymRange:
    """values lo..hi-1 (step 1) or hi-1..lo (step -1), raw bounds"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    @property
    def n(self):
        return isimp(zi(self.hi) - zi(self.lo))


def mkrange(*a):
    a = [raw(x) for x in a]
    if not any(isx(x) for x in a):
        return range(*a)
    st, en, sp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if sp == 1:
        return SymRange(st, en, 1)
    if sp == -1:
        return SymRange(isimp(zi(en) + 1), isimp(zi(st) + 1), -1)
    raise Unsupported("range step")


def is_sym_iter(it):
    if isinstance(it, (SymRange, SymSeq)):
        return True
    if isinstance(it, Arr):
        return isx(it._shape[0])
    if hasattr(it, '__sym_da__'):
        return isx(it.arr._shape[0])
    return False


def subst(v, pairs):
    """replace index constants in a value"""
    if isinstance(v, Sc):
        f = lambda x: x if isinstance(x, bool) else z3.substitute(x, *pairs)
        r = f(v.v)
        if v.k == 'i':
            r = z3.simplify(r)
        return core.simp(Sc(v.k, r, f(v.nan), f(v.pi), f(v.ni)))
    if isinstance(v, Arr):
        shp = [isimp(z3.substitute(zi(n), *pairs)) if isx(n) else n for n in v._shape]
        g = v.snap()
        return lazy(shp, lambda i: subst(g(i), pairs))
    if hasattr(v, '__sym_da__'):
        return v._mk(subst(v.arr, pairs), v.dims, dict(v.attrs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, SymSeq):
        return SymSeq(isimp(z3.substitute(zi(v.n), *pairs)) if isx(v.n) else v.n, lambda t: subst(v.get(t), pairs))
    if isinstance(v, Masked):
        raise Unsupported("masked value leaves a loop")
    return v


def pc_and(pcs):
    return And(*pcs) if pcs else True


def merge(pcs, vals):
    """value under a partition of path conditions"""
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if any(isinstance(v, Poison) for v in vals):
        return Poison('merged')
    if all(isinstance(v, Sc) or isinstance(v, (bool, int, float, core.Fraction)) for v in vals):
        r = vals[-1]
        for p, v in list(zip(pcs, vals))[-2::-1]:
            r = ite(B(pc_and(p)), v, r)
        return r
    if all(isinstance(v, Arr) for v in vals):
        for v in vals[1:]:
            if v.ndim != v0.ndim or not all(arr.same_size(a, b) for a, b in zip(v._shape, v0._shape)):
                raise Unsupported("paths return arrays of different shape")
        gs = [v.snap() for v in vals]

        def fn(i):
            r = gs[-1](i)
            for p, g in list(zip(pcs, gs))[-2::-1]:
                r = ite(B(pc_and(p)), g(i), r)
            return r
        return lazy(v0._shape, fn)
    if all(hasattr(v, '__sym_da__') for v in vals):
        return v0._mk(merge(pcs, [v.arr for v in vals]), v0.dims, dict(v0.attrs))
    if all(isinstance(v, (tuple, list)) for v in vals) and len({len(v) for v in vals}) == 1:
        return type(v0)(merge(pcs, list(x)) for x in zip(*vals))
    try:
        if all(type(v) is type(v0) and v == v0 for v in vals):
            return v0
    except Unsupported:
        pass
    return Poison('merged')


def _number(v):
    return isinstance(v, (Sc, int, float, core.Fraction)) and not isinstance(v, bool)


def _plain_globals(f):
    g = getattr(f, '__globals__', None) or {}
    return [v for k, v in list(g.items()) if isinstance(v, (dict, list, set)) and not k.startswith('__')]


def containers(roots):
    """the containers reachable from roots with what they hold now: a loop body run once for a generic iteration must leave them
    as they were, or one iteration could pass something on to another unseen (arrays are tracked by the heap)"""
    seen, out, todo = set(), [], list(roots)
    while todo:
        v = todo.pop()
        if id(v) in seen or v is None or isinstance(v, (str, int, float, bool, Sc, Arr, Poison)):
            continue
        seen.add(id(v))
        if isinstance(v, dict):
            out.append((v, 'dict', [(k, x) for k, x in v.items()]))
            todo += list(v.values())
        elif isinstance(v, list):
            out.append((v, 'list', list(v)))
            todo += v
        elif isinstance(v, tuple):
            todo += v
        elif isinstance(v, set):
            out.append((v, 'set', set(v)))
        elif getattr(type(v), '__sym_da__', False):
            out.append((v, 'da', v.arr))
            todo.append(v.__dict__.get('attrs'))
        elif getattr(type(v), '__sym_ds__', False):
            todo.append(v.__dict__.get('v'))
            todo.append(v.__dict__.get('attrs'))
        elif isinstance(v, types.FunctionType):
            for c in v.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
            todo += list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values())
            if getattr(v, '__dict__', None):
                todo.append(v.__dict__)
            if '_dv_mkloop' in (v.__globals__ or {}):
                todo += _plain_globals(v)
        elif isinstance(v, types.MethodType):
            todo += [v.__self__, v.__func__]
        elif not isinstance(v, type) and not isinstance(v, types.ModuleType) and (
                type(v).__module__.startswith('emc2') or type(v).__name__ in _OWN):
            todo.append(vars(v))
    return out


_OWN = ('SymInstrument', 'SimpleNamespace')


def changed_container(snap):
    for v, k, old in snap:
        if k == 'dict':
            if len(v) != len(old) or any(a is not c and a != c or b is not d for (a, b), (c, d) in zip(v.items(), old)):
                return v
        elif k == 'list':
            if len(v) != len(old) or any(a is not b for a, b in zip(v, old)):
                return v
        elif k == 'set':
            if v != old:
                return v
        elif v.arr is not old:
            return v
    return None


class SymLoop:
    sym = True
    snap = None

    def __init__(self, it, names=(), flags=()):
        if 'break' in flags or 'return' in flags:
            raise Unsupported("break or return inside a loop over a symbolic range")
        self.it, self.names = it, names
        self.aug = set(f[4:] for f in flags if f.startswith('aug:'))
        S.uid += 1
        self.lp = z3.Int(f"lp%{S.uid}")
        self.step = 1
        if isinstance(it, SymRange):
            self.lo, self.hi, self.step = it.lo, it.hi, it.step
            self.val = lambda: I(self.lp)
        elif isinstance(it, SymSeq):
            self.lo, self.hi = 0, it.n
            self.val = lambda: it.get(self.lp)
        else:
            a = it.arr if hasattr(it, '__sym_da__') else it
            self.lo, self.hi = 0, a._shape[0]
            self.val = lambda: it[I(self.lp)]
            v = a.snap()((self.lp,)) if a.ndim == 1 else None
            if isinstance(v, Sc) and v.k == 'i' and isx(v.v):
                # consecutive integers: the loop runs over the values themselves
                off = z3.simplify(zi(v.v) - self.lp)
                if not _mentions(off, self.lp):
                    self.lo, self.hi = isimp(off), isimp(zi(self.hi) + off)
                    self.val = lambda: I(self.lp)
        self.env0 = None
        self.carried = {}       # locals an invariant gives the value of, on entry of an iteration
        self.rebound = set()
        self.outer = {}
        self.final_env = {}
        self.results = []

    # called by arr.Buf.set
    def log_write(self, buf, view):
        if buf.uid <= self.uid0:
            self.log.setdefault(buf.uid, [buf, []])[1].append(view)

    def enter(self, loc, roots=()):
        if self.env0 is None:
            self.env0 = dict(loc)
            self.outer = {id(v): k for k, v in loc.items() if isinstance(v, list)}
        if self.snap is None:
            g = sys._getframe(1).f_globals
            glob = [v for k, v in g.items() if isinstance(v, (dict, list, set)) and not k.startswith('__')] if '_dv_mkloop' in g else []
            self.snap = containers(list(loc.values()) + glob + list(roots))
        out = []
        for n in self.names:
            v = self.env0.get(n, _MISSING)
            if n in self.carried:
                out.append(self.carried[n])
            elif v is _MISSING:
                out.append(Poison(n))
            elif n in self.aug and n in self.rebound and _number(v):
                out.append(_havoc_like(v))
            elif n.startswith('*') or isinstance(v, (list, Arr)) or hasattr(v, '__sym_da__') or hasattr(v, '__sym_ds__'):
                # heap objects: in-place updates are tracked by the heap; a rebinding is found at exit
                out.append(v if n in self.aug or isinstance(v, list) or n not in self.rebound else Poison(n))
            else:
                # pass 1 finds the locals an iteration rebinds; in the later passes those are not known on entry
                out.append(v if n not in self.rebound else Poison(n))
        return out

    def exit(self, loc):
        c = changed_container(self.snap or ())
        if c is not None:
            raise Unsupported("an iteration of a loop changes a container from before the loop"
                              + (": " + ', '.join(map(str, c))[:120] if isinstance(c, dict) else ''))
        self.path_env = {n: loc.get(n, _MISSING) for n in self.names}

    def dead(self):
        self.is_dead = True

    def result(self, v):
        self.path_result = v

    def append(self, lst, v):
        self.path_app.setdefault(id(lst), []).append(v)

    def __iter__(self):
        S.uid += 1
        self.uid0 = S.uid
        rng = And(arr.ile(self.lo, self.lp), arr.ilt(self.lp, self.hi))
        base = list(S.pc)
        keys = None
        self.hmemo = {}
        self.outer_loops = list(S.loops)
        rule = self.rule = S.loop_rule(self) if S.loop_rule is not None else None
        # obligations are raised in the last pass only, where the footprint is known
        quiet = rule is not None or S.loop_rule is not None
        if quiet:
            S.muted += 1
        for pas in (1, 2):
            self.seen = {}
            if quiet and pas == 2:
                S.muted -= 1
                if rule is not None:
                    rule.start(self, keys)
                    if S.muted:
                        break
            self.log = {}
            guards = {}
            if keys:
                for uid, (buf, key) in keys.items():
                    if key is not None:
                        guards[uid] = (buf, buf.guard)
                        buf.guard = self._guard(buf, key, buf.state, buf.guard)
            e = Enum()
            paths = []
            while True:
                e.start()
                S.enum.append(e)
                S.pc = base + [rng]
                S.loops = S.loops + [self.lp]
                S.symloops.append(self)
                outer_watch, S.watch = S.watch, {}
                self.path_app, self.path_env, self.is_dead, self.path_result = {}, None, False, None
                if keys:
                    for uid, (buf, key) in keys.items():
                        if key is None:
                            S.watch[uid] = (buf, buf.state)
                            buf.state = self._unknown(buf, buf.state)
                if rule is not None and pas == 2:
                    for f in rule.assume(self):
                        S.pc.append(f)
                yield self.val()
                if rule is not None and pas == 2 and not self.is_dead:
                    rule.step(self, keys)
                pc = S.pc[len(base) + 1:]
                changed = S.watch
                S.watch = outer_watch
                S.symloops.pop()
                S.loops = S.loops[:-1]
                S.pc = list(base)
                S.enum.pop()
                after = {}
                for uid, (buf, st) in changed.items():
                    if uid <= self.uid0:
                        after[uid] = (buf, st, buf.state)
                        buf.state = st
                if not self.is_dead:
                    paths.append((pc, after, self.path_env, self.path_app, self.path_result))
                if not e.next():
                    break
            for uid, (buf, g) in guards.items():
                buf.guard = g
            new_keys = {uid: (buf, self._key(buf, views)) for uid, (buf, views) in self.log.items()}
            if pas == 2 and any(uid not in keys or keys[uid][1] != k[1] and repr(keys[uid][1]) != repr(k[1])
                                for uid, k in new_keys.items()):
                raise Unsupported("unstable loop footprint")
            keys = new_keys
            new = {n for n in self.names for p in paths if p[2] is not None and p[2][n] is not self.env0.get(n, _MISSING)} - self.rebound
            if pas == 2 and new:
                raise Unsupported("unstable set of loop-carried variables")
            self.rebound |= new
            if not keys and not new and pas == 1 and not quiet:
                break
            if rule is not None and not keys:
                raise Unsupported("a loop under an invariant that writes nothing")
        self._finish(paths, keys, rng)

    def _key(self, buf, views):
        """(axis, offset) every write of the iteration is confined to, or None"""
        nd = len(buf.shape)
        for d in range(nd):
            off = None
            for v in views:
                if v is None or v[d][0] != 'f' or not isx(v[d][1]):
                    break
                o = z3.simplify(zi(v[d][1]) - self.lp)
                if _mentions(o, self.lp) or (off is not None and not o.eq(off)):
                    break
                off = o
            else:
                return (d, off)
        return None

    def _unknown(self, buf, st0):
        """what earlier iterations left in an array they may write anywhere: arbitrary values"""
        memo = self.hmemo.setdefault(buf.uid, {})
        gen, loops = [z3.Int(core.fresh_name('el')) for _ in buf.shape], list(S.loops)

        def fn(idx):
            v = norm_const(_eval(st0, idx))
            k = v.k if isinstance(v, Sc) else 'b' if isinstance(v, bool) else 'i' if isinstance(v, int) else 'f'
            if k not in memo:
                outer, S.loops = S.loops, loops + gen
                memo[k] = (fresh(k, 'hv', flags=k == 'f'), tuple(gen))
                S.loops = outer
            return subst(memo[k][0], list(zip(gen, (zi(x) for x in idx))))
        return _mkstate(fn)

    def _guard(self, buf, key, st0, prev):
        lp, lo, hi, step = self.lp, self.lo, self.hi, self.step
        evalp = (lambda idx, st: _eval(st, idx)) if prev is None else prev
        memo = {}
        self.hmemo[buf.uid] = memo

        def g(idx, st):
            d, off = key
            x = zi(idx[d]) - lp - off
            c = core.fold_cmp('==', zi(idx[d]), lp + off)
            if c is True:
                return evalp(idx, st)
            # not yet processed iterations still hold the value from before the loop
            later = core.fold_cmp('>', zi(idx[d]), lp + off) if step == 1 else core.fold_cmp('<', zi(idx[d]), lp + off)
            outside = Or(arr.ilt(zi(idx[d]) - off, lo), arr.ile(hi, zi(idx[d]) - off))
            if known(Or(later, outside)):
                return evalp(idx, st0)
            k = tuple(x.get_id() if isx(x) else ('c', x) for x in idx)
            if k not in memo:
                h = self.rule.value(self, buf, key, idx) if self.rule is not None else None
                memo[k] = (_havoc_like(evalp(idx, st0)) if h is None else h, idx)
            h = memo[k][0]
            return ite(B(c), evalp(idx, st), ite(B(Or(later, outside)), evalp(idx, st0), h))
        return g

    def _finish(self, paths, keys, rng):
        lp, lo, hi = self.lp, self.lo, self.hi
        pcs = [p[0] for p in paths]
        for uid, (buf, key) in keys.items():
            st0 = None
            states = []
            for pc, after, *_ in paths:
                if uid in after:
                    st0 = after[uid][1]
                    states.append(after[uid][2])
                else:
                    states.append(None)
            if st0 is None:
                continue
            states = [s if s is not None else st0 for s in states]

            def body(idx, states=states):
                r = _eval(states[-1], idx)
                for p, s in list(zip(pcs, states))[-2::-1]:
                    r = ite(B(pc_and(p)), _eval(s, idx), r)
                return r
            if key is None:
                memo = {}

                def new(idx, body=body, memo=memo, hm=self.hmemo.get(uid, {}), st0=st0):
                    k = tuple(x.get_id() if isx(x) else ('c', x) for x in idx)
                    if k not in memo:
                        b = body(idx)
                        v = _marked(lp, lo, hi, b, idx, hm, lambda: _eval(st0, idx))
                        memo[k] = (_havoc_like(b) if v is None else v, idx)
                    return memo[k][0]
            else:
                d, off = key
                if self.rule is not None and self.rule.main(self, buf, key):
                    def body(idx, buf=buf, key=key):
                        return self.rule.value(self, buf, key, idx)

                def new(idx, body=body, d=d, off=off, st0=st0):
                    t = isimp(zi(idx[d]) - off)
                    inr = And(arr.ile(lo, t), arr.ilt(t, hi))
                    if inr is not True and known(inr):
                        inr = True
                    if inr is False:
                        return _eval(st0, idx)
                    v = subst(body(idx[:d] + (z3.simplify(lp + off),) + idx[d + 1:]), [(lp, zi(t))])
                    return v if inr is True else ite(B(inr), v, _eval(st0, idx))
            buf.set(new, None if False else _outer_view(buf, self.log[uid][1], lp))
        # locals after the loop
        fin = {}
        for n in self.names:
            vals = [p[2][n] for p in paths] if paths and all(p[2] is not None for p in paths) else []
            v0 = (self.env0 or {}).get(n, _MISSING)
            if vals and all(v is v0 for v in vals):
                fin[n] = v0
            elif not vals and v0 is not _MISSING:
                fin[n] = v0
            elif n in self.aug and v0 is not _MISSING and _number(v0):
                fin[n] = _havoc_like(v0)
            else:
                fin[n] = Poison(n)
        apps = {i for p in paths for i in p[3]}
        for i in apps:
            cols = [p[3].get(i, []) for p in paths]
            if any(len(c) != 1 for c in cols):
                raise Unsupported("a list that does not grow by one element per iteration")
            v = merge(pcs, [c[0] for c in cols])
            name = self.outer[i]
            lst = self.env0[name]
            if lst:
                raise Unsupported("a non-empty list grown in a symbolic loop")
            fin[name] = self._seq(v)
        self.fin = fin
        if paths and paths[0][4] is not None:
            self.ret = self._seq(merge(pcs, [p[4] for p in paths]))

    def _seq(self, v):
        lp, lo, hi, step = self.lp, self.lo, self.hi, self.step
        if step == 1:
            pos = lambda t: isimp(zi(lo) + zi(t))
        else:
            pos = lambda t: isimp(zi(hi) - 1 - zi(t))
        return SymSeq(isimp(zi(hi) - zi(lo)), lambda t: subst(v, [(lp, zi(pos(t)))]))

    def final(self, loc):
        return [self.fin.get(n, loc.get(n, None)) for n in self.names]


def _marked(lp, lo, hi, b, idx, hm, old):
    """value after all iterations of an element that every iteration either leaves alone or sets to one and the same value; None if
    the iteration is not of that form.  hm: the arbitrary values that stand for what earlier iterations left"""
    if not isinstance(b, Sc) or b.k != 'b' or isinstance(b.v, bool):
        return None
    from .vc import subterms
    decls = {h.v.decl().name(): (h.v, ix) for h, ix in hm.values() if isinstance(h, Sc)}
    hv = None
    for e in subterms([b.v]):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in decls:
            h, hix = decls[e.decl().name()]
            pairs = list(zip(h.children(), e.children()))
            at = [isimp(z3.substitute(zi(x), *pairs)) if pairs else isimp(x) for x in hix]
            if hv is not None and not hv.eq(e) or not all(repr(x) == repr(isimp(y)) for x, y in zip(at, idx)):
                return None
            hv = e
    if hv is None:
        f = t = z3.simplify(b.v)
    else:
        f = z3.simplify(z3.substitute(b.v, (hv, z3.BoolVal(False))))
        t = z3.simplify(z3.substitute(b.v, (hv, z3.BoolVal(True))))
    from .shim_np import big_any
    sub = lambda e: (lambda q: B(z3.simplify(z3.substitute(e, (lp, zi(isimp(zi(lo) + zi(q))))))))

    def some(e):
        r = _one_point(lp, lo, hi, e)
        return big_any(isimp(zi(hi) - zi(lo)), sub(e)) if r is None else B(r)
    if z3.is_true(t):
        return ite(some(f), True, old())
    if z3.is_false(f):
        return ite(some(z3.simplify(z3.Not(t))), False, old())
    return None


def _one_point(lp, lo, hi, e):
    """exists lp in [lo, hi): e, when e fixes lp"""
    cs = list(e.children()) if z3.is_and(e) else [e]
    for c in cs:
        if z3.is_eq(c) and c.arg(0).sort() == z3.IntSort():
            for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                d = z3.simplify(x - lp)
                if not _mentions(d, lp) and not _mentions(y, lp):
                    v = z3.simplify(y - d)
                    return And(arr.ile(lo, v), arr.ilt(v, hi), z3.simplify(z3.substitute(e, (lp, v))))
    if z3.is_or(e):
        rs = [_one_point(lp, lo, hi, c) for c in e.children()]
        return None if any(r is None for r in rs) else Or(*rs)
    return None


def _outer_view(buf, views, lp):
    """what an enclosing loop may know about where this loop wrote: axes fixed by every write at the same index"""
    nd = len(buf.shape)
    out = []
    for d in range(nd):
        ok = None
        for v in views:
            if v is None or v[d][0] != 'f' or (isx(v[d][1]) and _mentions(v[d][1], lp)):
                ok = None
                break
            if ok is None:
                ok = v[d]
            elif not (repr(ok[1]) == repr(v[d][1])):
                ok = None
                break
        out.append(ok if ok is not None else ('s', 0, 0, 1))
    return out


def _mentions(e, c):
    from .vc import subterms
    return any(x.eq(c) for x in subterms([e])) if isx(e) else False


def _havoc_like(v):
    if isinstance(v, Sc):
        return fresh(v.k, 'hv', flags=v.k == 'f')
    v = norm_const(v)
    k = 'b' if isinstance(v, bool) else 'i' if isinstance(v, int) else 'f'
    return fresh(k, 'hv', flags=k == 'f')


class _Missing:
    pass


_MISSING = _Missing()


class PlainLoop:
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


def mkloop(it, names=(), flags=()):
    if is_sym_iter(it):
        return SymLoop(it, names, flags)
    return PlainLoop(it)


def gen_map(it, f):
    """[f(x) for x in it]"""
    if not is_sym_iter(it):
        return [f(x) for x in it]
    L = SymLoop(it)
    L.ret = None
    for x in L:
        L.enter({}, (f,))
        try:
            L.result((f(x),))
        except Dead:
            L.dead()
        finally:
            L.exit({})
    s = L.ret
    return SymSeq(s.n, lambda t: s.get(t)[0])


def do_append(lst, v):
    if isinstance(lst, SymSeq):
        raise Unsupported("append to a symbolic sequence")
    if isinstance(lst, list) and S.symloops:
        holders = [lp for lp in S.symloops if id(lst) in lp.outer]
        if holders:
            if holders[-1] is not S.symloops[-1] or len(holders) > 1:
                raise Unsupported("append across nested symbolic loops")
            holders[0].append(lst, v)
            return
    lst.append(v)


class Break(Exception):
    """a while loop's own break"""


class WhileRule:
    """a while loop over symbolic values needs a rule supplied by a contract (S.while_rules: function of (names, flags, function name,
    locals) -> rule or None); without one only concretely decided loops run.  Under a rule the body is executed once per path from an
    arbitrary state of the variables it changes; the rule states what holds of them before and after."""

    def __init__(self, names, flags, fname):
        self.names, self.flags, self.fname = names, flags, fname
        self.n = 0
        self.rule = None

    def test(self, c, loc):
        if self.rule is None and self.n == 0 and S.while_rules is not None:
            self.rule = S.while_rules(self.names, self.flags, self.fname, loc)
        if self.rule is not None:
            return self.rule.test(c, loc)
        r = c()
        if isinstance(r, (Arr, Sc)) and not isinstance(core.simp(r) if isinstance(r, Sc) else r, bool):
            raise Unsupported(f"while loop in {self.fname} without an invariant")
        self.n += 1
        if self.n > 10000:
            raise Unsupported("while loop too long")
        return bool(r)

    def __getattr__(self, n):
        if n in ('enter', 'guard', 'dead', 'final', 'after', 'brk'):
            return getattr(self.rule, n)
        raise AttributeError(n)

    @property
    def sym(self):
        return self.rule is not None


class WhileInv:
    """protocol of a rule: the body's paths are enumerated by running it again and again"""

    breaks = False

    def __init__(self, names, flags, loc):
        if 'break' in flags and not self.breaks or 'return' in flags:
            raise Unsupported("break or return inside a while loop under an invariant")
        self.names = names
        self.enum = None
        self.paths = []

    def test(self, c, loc):
        if self.enum is None:
            self.env0 = dict(loc)
            self.base = list(S.pc)
            self.init(loc)
            self.outer = list(S.loops)
            self.enum = Enum()
            S.uid += 1
            self.uid0 = S.uid
            self._begin()
            return True
        if not self.is_dead:
            self.paths.append((list(S.pc[len(self.base):]), self.step({n: loc.get(n, _MISSING) for n in self.names})))
        changed, S.watch = S.watch, self.outer_watch
        S.enum.pop()
        S.loops = S.loops[:-1]
        S.pc = list(self.base)
        if any(uid <= self.uid0 for uid in changed):
            raise Unsupported("a while loop under an invariant changes arrays from before the loop")
        if self.enum.next():
            self._begin()
            return True
        return False

    def _begin(self):
        self.enum.start()
        S.enum.append(self.enum)
        S.pc = list(self.base)
        self.outer_watch, S.watch = S.watch, {}
        self.is_dead = self.broken = False
        S.loops = S.loops + [self.state]

    def dead(self):
        self.is_dead = True

    def brk(self):
        self.broken = True

    def enter(self, loc):
        h = self.havoc()
        return [h.get(n, Poison(n)) for n in self.names]

    def guard(self, c):
        S.pc.append(core.zb(truth_(c())))

    def final(self, loc):
        h = self.result()
        return [h.get(n, Poison(n)) for n in self.names]

    def after(self, c):
        S.pc.append(Not(core.zb(truth_(c()))))


def truth_(v):
    return core.truth(v)


class AccSeq:
    """a list that the iterations of a while loop extend: its length on entry is known, its elements are not; what one iteration adds"""

    def __init__(self, n, added=None):
        self.n, self.added = n, added

    def _bad(self, *a, **k):
        raise Unsupported("use of a partly built list inside the loop that builds it")
    __getitem__ = __iter__ = __len__ = __bool__ = _bad

    def __add__(self, o):
        if self.added is not None or not isinstance(o, SymSeq):
            raise Unsupported("a list extended other than once per iteration of a while loop")
        return AccSeq(self.n, o)

    def extend(self, o):
        self.added = (self + o).added


class Chunks(WhileInv):
    """while loop that builds a list of n elements chunk by chunk.  Invariant: counter >= 0 and the list holds min(counter, n) elements."""

    def __init__(self, c, n, names, flags, loc):
        super().__init__(names, flags, loc)
        self.c, self.n = c, zi(raw(n))

    def init(self, loc):
        self.cnt = [n for n in self.names if isinstance(loc.get(n), int) and not isinstance(loc.get(n), bool) and not isinstance(loc.get(n), Sc)]
        self.acc = [n for n in self.names if isinstance(loc.get(n), list) and not loc[n]]
        if len(self.cnt) != 1 or len(self.acc) != 1 or loc[self.cnt[0]] != 0:
            raise Unsupported("a while loop that does not build one list under one counter")
        S.uid += 1
        self.j0 = self.state = z3.Int(f"lp%wh{S.uid}")
        self.f = z3.Function(f"CH%{S.uid}", *[x.sort() for x in S.loops], z3.IntSort(), z3.IntSort())

    def havoc(self):
        S.pc.append(self.j0 >= 0)
        # on entry the loop condition (assumed next) must bound the counter by n, so that the list holds `counter` elements
        return {self.cnt[0]: I(self.j0), self.acc[0]: AccSeq(self.j0)}

    def inv(self, name, goal):
        """an obligation of the invariant; when it is not discharged the invariant does not fit the loop, and the unit has no verdict"""
        if self.c.ensure(name, goal) != 'proved':
            self.c.obs[-1].update(status='unknown', unreached=True, suspect=True)
            raise Unsupported(f"the invariant of chunk loops does not describe the loop ({name})")

    def guard(self, c):
        super().guard(c)
        self.inv('chunks/only-below-the-end', self.j0 < self.n)

    def step(self, loc):
        j1, a = loc[self.cnt[0]], loc[self.acc[0]]
        if not isinstance(a, AccSeq) or not _number(j1):
            raise Unsupported("counter or list replaced in a while loop")
        z1 = zi(raw(j1))
        m = zi(a.added.n) if a.added is not None else z3.IntVal(0)
        self.inv('chunks/consecutive', self.j0 + m == z3.If(z1 <= self.n, z1, self.n))
        self.inv('chunks/terminates', z1 > self.j0)
        return a.added, m

    def result(self):
        S.uid += 1
        self.jf = z3.Int(f"wh%{S.uid}")
        S.pc.append(self.jf >= 0)
        f, j0 = self.f, self.j0
        ps = [(pc, a, m) for pc, (a, m) in self.paths if a is not None]
        outer = list(S.loops)

        def facts(args):
            sub = [*zip(outer, args), (j0, f(*args))]
            t = args[-1]
            ch = f(*args)
            alt = [z3.substitute(core.zb(And(*pc, t < j0 + m)), *sub) for pc, a, m in ps]
            return [z3.Implies(z3.And(t >= 0, z3.substitute(self.n > t, *sub[:-1]) if outer else self.n > t), z3.And(ch >= 0, ch <= t, z3.Or(*alt)))]
        from .vc import Def
        S.defs[f.name()] = Def(unfold=facts)

        def get(t):
            zt = zi(t)
            pr = [(j0, f(*outer, zt))]
            vals = [subst(a.get(isimp(z3.simplify(zt - j0))), pr) for pc, a, m in ps]
            pcs = [[z3.substitute(core.zb(q), *pr) for q in pc] for pc, a, m in ps]
            return merge(pcs, vals)
        return {self.cnt[0]: I(self.jf), self.acc[0]: SymSeq(isimp(self.n), get)}

    def after(self, c):
        super().after(c)
        self.inv('chunks/all-covered', self.jf >= self.n)


class Search(WhileInv):
    """while loop under one counter that stops at the first state where its condition fails.  Invariant where the condition holds:
    start <= counter < bound; every iteration increases the counter.  The state after the loop is the one the last iteration leaves,
    and its counter's predecessor is a state where the condition held."""

    def __init__(self, c, bound, names, flags, loc):
        super().__init__(names, flags, loc)
        self.c, self.bound = c, bound

    def inv(self, name, goal):
        if self.c.ensure(name, goal) != 'proved':
            self.c.obs[-1].update(status='unknown', unreached=True, suspect=True)
            raise Unsupported(f"the invariant of search loops does not describe the loop ({name})")

    def test(self, c, loc):
        self.cond = c
        if self.enum is None:
            g = truth_(c())
            if g is not True and not known(g):
                raise Unsupported("a search loop that may not start")
        return super().test(c, loc)

    def init(self, loc):
        plain = lambda v: isinstance(v, (int, core.Fraction)) and not isinstance(v, (bool, Sc))
        self.cnt = [n for n in self.names if plain(loc.get(n))]
        self.flag = [n for n in self.names if isinstance(loc.get(n), bool)]
        if len(self.cnt) != 1:
            raise Unsupported("a while loop without one counter")
        self.c0 = int(loc[self.cnt[0]])
        self.b = zi(raw(self.bound()))
        S.uid += 1
        self.j0 = self.state = z3.Int(f"lp%wh{S.uid}")
        self.fl = {n: z3.Bool(f"whb%{S.uid}{n}") for n in self.flag}
        S.signs[self.j0.decl().name()] = '0+' if self.c0 >= 0 else None
        sorts = [x.sort() for x in S.loops]
        self.f = z3.Function(f"STOP%{S.uid}", *sorts, z3.IntSort())
        self.inv('search/starts-below-the-bound', self.b > self.c0)

    def havoc(self):
        S.pc += [self.j0 >= self.c0, self.j0 < self.b]
        return {self.cnt[0]: I(self.j0), **{n: B(v) for n, v in self.fl.items()}}

    def guard(self, c):
        super().guard(c)
        self.at = len(S.pc)

    def step(self, loc):
        c1 = loc[self.cnt[0]]
        if not _number(c1):
            raise Unsupported("counter replaced in a while loop")
        z1 = zi(raw(c1))
        self.inv('search/advances', z1 > self.j0)
        self.inv('search/stops-at-the-bound', z3.Implies(core.zb(truth_(self.cond())), z1 < self.b))
        return list(S.pc[self.at:]), loc

    def result(self):
        j = self.f(*self.outer)
        if not self.paths:
            raise Unsupported("no path through a while loop")
        pcs = [[core.zb(q) for q in pc] for _, (pc, _) in self.paths]
        out = {}
        for n in self.names:
            v = merge(pcs, [e[n] for _, (_, e) in self.paths])
            if v is not _MISSING:
                out[n] = subst(v, [(self.j0, j)])
        self.j = j
        return out

    def after(self, c):
        ga = core.zb(truth_(c()))
        if z3.is_true(ga):
            raise Dead
        from .vc import Def, subterms
        j, outer = self.j, self.outer
        if any(x.eq(v) for x in subterms([ga]) for v in self.fl.values()):
            raise Unsupported("a search loop whose state depends on its flag")
        # j is the counter on entry of the last iteration
        back = z3.substitute(ga, (j, j - 1))
        fs = [j >= self.c0, j < self.b, z3.Not(ga), z3.Implies(j > self.c0, back)]
        base = [core.zb(q) for q in self.base]
        S.defs[self.f.name()] = Def(rounds=2, unfold=lambda args: [z3.substitute(z3.Implies(z3.And(*base), z3.And(*fs)), *zip(outer, args))
                                                                 if outer else z3.Implies(z3.And(*base), z3.And(*fs))])
        S.pc += fs[:3]


class Sweep(WhileInv):
    """while loop that moves one counter up through a list, one entry per iteration, and accumulates weights (and weights times
    values, in one row of an array).  spec: size (number of entries), weight(outer indices, entry), value(outer indices, position in
    the row, entry), hyps(outer indices, entry, entry) (what is known of two entries).  Invariant: the sums hold the contributions of
    the entries from the one after the counter's value on entry up to the counter.  The entries before and after the ones visited are
    shown to have weight zero, so the sums after the loop run over all entries."""
    breaks = True

    def __init__(self, c, spec, names, flags, loc):
        super().__init__(names, flags, loc)
        self.c, self.spec = c, spec
        self.outer = {}
        self.n = zi(raw(spec.size))

    def inv(self, name, goal, hyps=()):
        """an obligation of the invariant; when it is not discharged the invariant does not fit the loop, and the unit has no verdict"""
        if self.c.ensure('sweep/' + name, goal, hyps) != 'proved':
            self.c.obs[-1].update(status='unknown', unreached=True, suspect=True)
            raise Unsupported(f"the invariant of sweeping loops does not describe the loop ({name})")

    # ------------------------------------------------------------ the paths of the body, twice: what it writes, then the obligations
    def log_write(self, buf, view):
        if buf.uid <= self.uid0:
            self.written.setdefault(buf.uid, [buf, []])[1].append(view)

    def append(self, *a):
        raise Unsupported("append in a sweeping loop")

    def test(self, c, loc):
        self.cond = c
        if self.enum is None:
            self.base = list(S.pc)
            self.lps = list(S.loops)
            self.same = self.memo = None
            if S.symloops:
                # the enclosing loop's paths run through this loop again and again, from the same state
                seen = getattr(S.symloops[-1], 'seen', {})
                key = S.muted, self.names, tuple(core.zb(q).get_id() for q in self.base), \
                    tuple((n, repr(v)) for n, v in loc.items() if _number(v) and n in self.names)
                o = seen.get(key)
                if o is not None and o.st0 is o.buf.state:
                    self.same = o
                    self.cnt = o.cnt
                    return False
                self.memo = seen, key
            self.init(loc)
            self.written, self.phase = {}, 1
            S.muted += 1
            self._start()
            return True
        if not self.is_dead:
            r = self.step({n: loc.get(n, _MISSING) for n in self.names}) if self.phase == 2 else None
            self.paths.append((list(S.pc[len(self.base):]), r))
        S.symloops.pop()
        changed, S.watch = S.watch, self.outer_watch
        S.enum.pop()
        S.loops = S.loops[:-1]
        S.pc = list(self.base)
        for uid, (buf, st) in changed.items():
            if uid <= self.uid0:
                if self.phase == 2 and buf is not self.buf:
                    raise Unsupported("unstable footprint of a while loop")
                buf.state = st
        if self.enum.next():
            self._begin()
            return True
        if self.phase == 1:
            S.muted -= 1
            self._row()
            self.phase = 2
            self._start()
            return True
        return False

    def _start(self):
        self.paths = []
        self.enum = Enum()
        S.uid += 1
        self.uid0 = S.uid
        self._begin()

    def _begin(self):
        super()._begin()
        S.symloops.append(self)
        if self.phase == 2:
            self.setrow(lambda j: Sc('f', self.rh(*self.lps, zi(j))))

    def init(self, loc):
        num = [n for n in self.names if _number(loc.get(n, _MISSING))]
        zero = [n for n in num if not isinstance(loc[n], Sc) and loc[n] == 0]
        self.cnt = [n for n in num if n not in zero]
        self.sums = [n for n in zero if isinstance(loc[n], core.Fraction)]
        self.counts = [n for n in zero if isinstance(loc[n], int)]
        if len(self.cnt) != 1:
            raise Unsupported("a while loop that does not sweep under one counter")
        self.c0 = zi(raw(loc[self.cnt[0]]))
        S.uid += 1
        self.j0 = self.state = z3.Int(f"lp%wh{S.uid}")
        ints = [z3.IntSort() for _ in self.lps]
        self.f = z3.Function(f"END%{S.uid}", *ints, z3.IntSort())
        self.nf = z3.Function(f"CNT%{S.uid}", *ints, z3.IntSort())
        self.rh = z3.Function(f"ROW%{S.uid}", *ints, z3.IntSort(), z3.RealSort())

    def _row(self):
        """the one row of one array the body writes"""
        if len(self.written) != 1:
            raise Unsupported("a sweeping loop that does not write one array")
        (self.buf, views), = self.written.values()
        v0 = [v[0] if all(repr(x) == repr(v[0]) for x in v) else ('s', 0, 0, 1) for v in zip(*views)] if None not in views else []
        free = [d for d, v in enumerate(v0) if v[0] == 's']
        if len(free) != 1 or any(v[0] == 'f' and isx(v[1]) and _mentions(v[1], self.j0) for v in v0):
            raise Unsupported("a sweeping loop that does not write one row")
        self.axis, self.view = free[0], v0

    def setrow(self, fn):
        ax = [I(v[1]) if v[0] == 'f' and isx(v[1]) else v[1] if v[0] == 'f' else slice(None) for v in self.view]
        Arr(self.buf)[tuple(ax)] = lazy((self.buf.shape[self.axis],), lambda i: fn(i[0]))

    def row(self, j):
        return self.buf.fn(tuple(v[1] if d != self.axis else j for d, v in enumerate(self.view)))

    def w(self, l):
        return self.spec.weight(*self.lps, l)

    def havoc(self):
        S.pc.append(self.j0 >= self.c0)
        self.pre = {**{n: fresh('f', 'pre') for n in self.sums}, **{n: fresh('i', 'pre') for n in self.counts}}
        return {self.cnt[0]: I(self.j0), **self.pre}

    def guard(self, c):
        super().guard(c)
        self.at = len(S.pc)
        self.inv('only-below-the-end', self.j0 + 1 < self.n)

    def step(self, loc):
        l1 = z3.simplify(self.j0 + 1)
        hy = self.spec.hyps(*self.lps, l1, l1)
        if not all(_number(loc[n]) for n in self.cnt + self.sums + self.counts):
            raise Unsupported("counter or sum replaced in a while loop")
        self.inv('one-by-one', zi(raw(loc[self.cnt[0]])) == l1)
        j = self.c.idx('row', self.buf.shape[self.axis])
        old, new = Sc('f', self.rh(*self.lps, zi(j))), self.row(j)
        if self.broken:
            for n in self.sums + self.counts:
                self.inv('nothing-added-at-the-end', self.c.eq(loc[n], self.pre[n]), hy)
            self.inv('nothing-added-at-the-end', self.c.eq(new, old), hy)
            l = self.c.idx('entry', self.n)
            self.inv('later-entries-weigh-nothing', self.c.eq(self.w(l), core.Fraction(0)), [l >= l1, *self.spec.hyps(*self.lps, l1, l)])
            return True
        if not self.sums:
            raise Unsupported("a sweeping loop without a sum of weights")
        for n in self.sums:
            dw = loc[n] - self.pre[n]
            self.inv('weight', self.c.eq(dw, self.w(l1)), hy)
        for n in self.counts:
            d = loc[n] - self.pre[n]
            self.inv('count', And(truth_(d >= 0), core.zb(truth_(d > 0)) == core.zb(truth_(self.w(l1) > 0))), hy)
        self.inv('weighted-value', self.c.eq(new - old, dw * self.spec.value(*self.lps, j, l1)), hy)
        return False

    def result(self):
        if self.same is not None:
            o = self.same
            o.setrow(o.sumrow)
            return dict(o.out)
        from .shim_np import big_sum
        l = self.c.idx('entry', self.n)
        self.inv('weights-are-not-negative', truth_(self.w(l) >= 0), self.spec.hyps(*self.lps, l, l))
        self.inv('earlier-entries-weigh-nothing', self.c.eq(self.w(l), core.Fraction(0)), [l <= self.c0, *self.spec.hyps(*self.lps, l, self.c0)])
        tot = big_sum(self.n, self.w)
        self.st0 = self.buf.state
        old = self.buf.fn
        at = lambda j: old(tuple(v[1] if d != self.axis else j for d, v in enumerate(self.view)))
        self.sumrow = lambda j: at(j) + big_sum(self.n, lambda q: self.w(q) * self.spec.value(*self.lps, j, q))
        self.setrow(self.sumrow)
        self.e, cnt = self.f(*self.lps), self.nf(*self.lps)
        from .vc import Def
        lps = list(self.lps)
        base = [core.zb(q) for q in self.base]
        pos = core.zb(truth_(tot > 0))

        def facts(args):
            r = z3.Implies(z3.And(*base), z3.And(cnt >= 0, (cnt > 0) == pos))
            return [z3.substitute(r, *zip(lps, args)) if lps else r]
        S.defs[self.nf.name()] = Def(unfold=facts)
        self.out = {self.cnt[0]: I(self.e), **{n: tot for n in self.sums}, **{n: I(cnt) for n in self.counts}}
        return dict(self.out)

    def after(self, c):
        if self.same is not None:
            return
        ga = core.zb(truth_(c()))
        e, c0, lps = self.e, self.c0, list(self.lps)
        self.inv('to-the-end', z3.Implies(z3.Not(ga), e + 1 >= self.n), [e >= c0])
        from .vc import Def
        one = lambda br, x: z3.substitute(z3.Or(*[z3.And(*[core.zb(q) for q in pc]) for pc, b in self.paths if b is br]), (self.j0, z3.simplify(x)))
        run = z3.And(z3.Not(ga), z3.Implies(e > c0, one(False, e - 1)))
        brk = z3.And(e > c0, one(True, e - 1), z3.Implies(e - 1 > c0, one(False, e - 2)))
        base = [core.zb(q) for q in self.base]
        fact = z3.Implies(z3.And(*base), z3.And(e >= c0, z3.Or(run, brk)))
        S.defs[self.f.name()] = Def(unfold=lambda args: [z3.substitute(fact, *zip(lps, args)) if lps else fact])
        if self.memo is not None:
            self.memo[0][self.memo[1]] = self


class Carry:
    """rule of a for loop that hands one integer from each iteration to the next.  inv(outer indices, index, value): what holds of it
    on entry of every iteration; hyps(outer indices, index, value before, value after): instances of the preconditions."""

    def __init__(self, c, loop, inv, hyps):
        self.c, self.inv, self.hyps = c, inv, hyps
        self.lps = list(S.loops)

    def oblige(self, name, goal, hyps):
        if self.c.ensure('carried/' + name, goal, hyps) != 'proved':
            self.c.obs[-1].update(status='unknown', unreached=True, suspect=True)
            raise Unsupported(f"the invariant of the carried index does not describe the loop ({name})")

    def start(self, loop, keys):
        ns = [n for n in loop.names if n in loop.rebound and _number(loop.env0.get(n, _MISSING)) and isinstance(zi(raw(loop.env0[n])), z3.ArithRef)
              and zi(raw(loop.env0[n])).is_int()]
        if len(ns) != 1 or loop.step != 1:
            raise Unsupported("a loop that does not hand on one index")
        self.n = ns[0]
        S.uid += 1
        f = z3.Function(f"CAR%{S.uid}", *[z3.IntSort() for _ in self.lps], z3.IntSort(), z3.IntSort())
        self.v = f(*self.lps, loop.lp)
        loop.carried = {self.n: I(self.v)}
        v0 = zi(raw(loop.env0[self.n]))
        self.oblige('at-the-start', self.inv(*self.lps, zi(loop.lo), v0), self.hyps(*self.lps, zi(loop.lo), v0, v0))
        from .vc import Def
        rng = z3.And(core.zb(arr.ile(loop.lo, loop.lp)), core.zb(arr.ilt(loop.lp, loop.hi)), *[core.zb(q) for q in S.pc])
        fact = z3.Implies(rng, self.inv(*self.lps, loop.lp, self.v))
        vs = [*self.lps, loop.lp]
        S.defs[f.name()] = Def(unfold=lambda args: [z3.substitute(fact, *zip(vs, args))])

    def assume(self, loop):
        return []

    def main(self, loop, buf, key):
        return False

    def value(self, loop, buf, key, idx):
        return None

    def step(self, loop, keys):
        if loop.path_env is None:
            raise Unsupported("a loop that hands on an index leaves early")
        v = loop.path_env[self.n]
        if not _number(v):
            raise Unsupported("the index handed on is replaced")
        k, z = loop.lp, zi(raw(v))
        self.oblige('after-each', z3.Implies(k + 1 < zi(loop.hi), self.inv(*self.lps, k + 1, z)), self.hyps(*self.lps, k, self.v, z))


def search(c, bound):
    return lambda names, flags, fname, loc: Search(c, bound, names, flags, loc)


def chunks(c, n):
    return lambda names, flags, fname, loc: Chunks(c, n, names, flags, loc)


S.while_rules = None
