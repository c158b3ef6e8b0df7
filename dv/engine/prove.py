"""Runs the contracts: every unit symbolically executes the extracted functions on all paths for arrays of every size, and every
`ensure` becomes obligations (one per path) that must be discharged.  Units run in separate processes with a time limit."""
import ast
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, 'baseline.json')
UNITS = {}

MODULES = {'S': ['subcol', 'alloc'], 'L': ['lidar'], 'R': ['radar'], 'M': ['atm'], 'P': ['psd'], 'C': ['classif'], 'A': ['stats'],
           'O': ['driver', 'frame'], 'D': ['data']}
EXTRA = {'R04': ['atm'], 'L06': ['classif'], 'L07': ['classif'], 'R05': ['classif'], 'M02': ['lidar', 'radar'], 'S07': ['modes'], 'S06': ['vary']}


def contract(pid, name, functions=(), tier='quick', limit=60., assumes=()):
    def d(f):
        UNITS.setdefault(pid, []).append(dict(name=name, fn=f, functions=list(functions), tier=tier, limit=limit, assumes=list(assumes)))
        return f
    return d


def load(pid):
    for m in MODULES.get(pid[0], []) + EXTRA.get(pid, []):
        try:
            importlib.import_module(f'dv.engine.contracts.{m}')
        except ModuleNotFoundError as e:
            if f'contracts.{m}' not in str(e):
                raise


class Ctx:
    def __init__(self, unit, scale=1.):
        from . import core, extract
        self.core, self.S = core, core.S
        self.unit = unit
        self.scale = scale
        self.prog = extract.Program()
        self.obs = []
        self.covered = 0
        self.n_paths = 0
        self.facts = []
        self.t_goal = 20.
        self.misses = 0

    # -------------------------------------------------------------- symbols
    def size(self, name, lo=1):
        z3 = self.core.z3
        c = z3.Int(name)
        self.assume(c >= lo)
        self.S.signs[name] = '+' if lo >= 1 else '0+'
        return self.core.Sc('i', c)

    def idx(self, name, n, lo=0):
        """a generic index lo <= i < n"""
        from .arr import raw, zi
        z3 = self.core.z3
        c = z3.Int('ix%' + name)
        self.S.ixs.append(c)
        if lo == 0:
            self.S.signs['ix%' + name] = '0+'
        self.assume(z3.And(c >= zi(raw(lo)), c < zi(raw(n))))
        return c

    def assume(self, f):
        f = self.core.truth(f) if isinstance(f, self.core.Sc) else f
        if f is True:
            return
        if isinstance(f, bool):
            f = self.core.zb(f)
        if not any(f.eq(g) for g in self.S.assume):
            self.S.assume.append(f)

    def fn(self, mod, name):
        m = self.prog.module(mod)
        return getattr(m, name)

    def mod(self, mod):
        return self.prog.module(mod)

    def stub(self, mod, name, fn):
        """callers in module `mod` are checked against this contract of `name` instead of its body; fn gets the bound arguments.
        The callee's own unit discharges the contract."""
        import inspect
        m = self.prog.module(mod)
        real = getattr(m, name, None)
        if real is None:
            return
        real = getattr(real, '__stubbed__', real)
        sig = inspect.signature(real)

        def wrap(*a, **k):
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            d = dict(ba.arguments)
            for q in sig.parameters.values():
                if q.kind == q.VAR_KEYWORD:
                    d.update(d.pop(q.name, {}))
            return fn(**d)
        wrap.__stubbed__ = real
        setattr(m, name, wrap)
        self.S.trusted.add(f"contract of {mod}.{name} (discharged by its own unit)")

    def require(self, cond, why):
        """the contract cannot be evaluated on this code (no verdict)"""
        if not cond:
            raise self.core.Unsupported(why)

    # ---------------------------------------------------------- obligations
    def paths(self, body):
        """run body on every path; obligations are raised inside it"""
        from .core import all_paths

        def run():
            self.S.muted, self.S.symloops = 0, []
            body()
            self.n_paths += 1
            if getattr(self.S, 'sets', None) is not None and self.S.sets.decided and not self.S.sets.consistent:
                raise self.core.Unsupported("every path under the loop invariant has contradictory set sizes")
            if self.covered < 3:
                from .vc import satisfiable
                r = satisfiable([*self.S.assume, *self.S.pc], 3000)
                if r != 'unsat':
                    self.covered += 1
        all_paths(run)
        if not self.n_paths:
            self.obs.append(dict(name=self.unit['name'] + '/reachable', status='unknown', detail='no path reaches the end', backend='-'))

    def ensure(self, name, goal, hyps=(), timeout=None):
        from . import vc
        S = self.S
        if S.muted:
            return 'proved'
        if isinstance(goal, self.core.Sc):
            goal = self.core.truth(goal)
        if goal is NotImplemented:
            raise self.core.Unsupported("goal not expressible")
        hy = [*S.assume, *S.pc, *[self.core.truth(h) if isinstance(h, self.core.Sc) else h for h in hyps]]
        full = f"{self.unit['name']}/{name}"
        t = (timeout or self.t_goal) * self.scale
        if self.misses >= 2:
            t = min(t, 6.)
        # once something is wrong in this unit, look for counterexamples before trying to prove
        cex = vc.falsify(hy, goal, 1. * self.scale) if self.misses and goal is not True else None
        st, back, det = vc.prove(hy, goal, t) if cex is None else ('refuted', 'evaluation', json.dumps(cex, default=str)[:3000])
        if st != 'proved' and cex is None:
            self.misses += 1
            cex = vc.falsify(hy, goal, (5. if self.misses < 4 else 1.5) * self.scale)
            if cex is not None:
                st, back, det = 'refuted', 'evaluation', json.dumps(cex, default=str)[:3000]
            else:
                det = f"not discharged ({det or back}): " + str(goal)[:600]
        o = dict(name=full, status=st, backend=back, detail=det)
        if st != 'proved' and _havocked(goal):
            # an arbitrary value stands for what other iterations of a loop left: not discharging it says nothing about the code
            o.update(status='unknown', unreached=True, suspect=True, detail='depends on a havocked loop value: ' + str(det)[:400])
        self.obs.append(o)
        return st

    def sum_le(self, name, n, f, g, hyps=()):
        """f <= g at every index (an obligation); -> the fact that the sum of f is at most the sum of g"""
        from .shim_np import big_sum
        from .arr import raw
        p = self.idx('sl_' + name, n)
        if self.ensure(name + '/each-term', self.core.truth(f(p) <= g(p)), hyps) != 'proved':
            return True
        self.S.trusted.add("a sum of terms each at most another's is at most the other's sum")
        return self.core.truth(big_sum(raw(n), f) <= big_sum(raw(n), g))

    def sum_eq(self, name, n, f, g, p, hyps=()):
        """f = g at the generic index p (an obligation under hyps about p); -> the sums are equal"""
        from .shim_np import big_sum
        from .arr import raw
        if self.ensure(name + '/each-term', self.eq(f(p), g(p)), hyps) != 'proved':
            return True
        self.S.trusted.add("sums of equal terms are equal")
        return self.core.truth(big_sum(raw(n), f) == big_sum(raw(n), g))

    def sum_split(self, name, n, f, parts, hyps=()):
        """f = sum of the parts at every index (an obligation); -> the same of the sums"""
        from .shim_np import big_sum
        from .arr import raw
        p = self.idx('ss_' + name, n)

        def tot(t):
            r = parts[0](t)
            for q in parts[1:]:
                r = r + q(t)
            return r
        if self.ensure(name + '/each-term', self.core.truth(f(p) == tot(p)), hyps) != 'proved':
            return True
        self.S.trusted.add("a sum of sums is the sum of the parts' sums")
        r = big_sum(raw(n), parts[0])
        for q in parts[1:]:
            r = r + big_sum(raw(n), q)
        return self.core.truth(big_sum(raw(n), f) == r)

    def cut(self, a, pairs):
        """a with the terms x of pairs replaced by y (a property of every y, proved of x, is all that is used of x)"""
        z3 = self.core.z3
        sub = [(self.core.as_real(x)[0], self.core.as_real(y)[0]) for x, y in pairs]
        r = self.core.as_real(a)
        f = lambda e: z3.substitute(e, *sub) if not isinstance(e, bool) else e
        return self.core.Sc('f', *[f(e) for e in r])

    # comparisons on scalar values --------------------------------------
    def eq(self, a, b):
        """same value (both missing counts as the same)"""
        from .core import as_real, And, Or, Not, Imp, fold_cmp, B
        x, xn, xp, xm = as_real(a)
        y, yn, yp, ym = as_real(b)
        r = [biff(xn, yn)]
        if not (xp is False and yp is False):
            r.append(biff(xp, yp))
        if not (xm is False and ym is False):
            r.append(biff(xm, ym))
        bad = Or(xn, xp, xm)
        e = True if isinstance(a, float) or isinstance(b, float) else fold_cmp('==', x, y)
        r.append(Or(bad, e))
        return And(*r)

    def finite(self, a):
        from .core import as_real, Or, Not
        x, n, p, m = as_real(a)
        return Not(Or(n, p, m))

    def ge(self, a, b):
        """finite and >="""
        from .core import And, truth, binop
        return And(self.finite(a), self.finite(b), truth(binop('>=', a, b)))

    def gt(self, a, b):
        from .core import And, truth, binop
        return And(self.finite(a), self.finite(b), truth(binop('>', a, b)))


def _havocked(goal):
    from .vc import subterms, _base_names
    if isinstance(goal, bool):
        return False
    return any(n.startswith('hv!') for n in _base_names(goal)) or \
        any(x.num_args() == 0 and x.decl().name().startswith('hv!') for x in subterms([goal]) if hasattr(x, 'decl'))


def biff(a, b):
    from .core import Not, z3
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return True if a.eq(b) else a == b


def _run_unit(unit, scale, q):
    import resource
    import sys
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    import signal
    t0 = time.time()

    over, c = [], None

    def late(*_):
        if not over:
            # again in a moment: an exception in a destructor is lost
            signal.setitimer(signal.ITIMER_REAL, .3)
            raise TimeoutError
    signal.signal(signal.SIGTERM, late)
    signal.signal(signal.SIGALRM, late)
    try:
        from . import core, arr
        core.S.reset()
        core.S.watch = None
        core.S.while_rules = None
        core.z3.set_param('smt.random_seed', 1)
        c = Ctx(unit, scale)
        err = None
        try:
            unit['fn'](c)
        except TimeoutError:
            err = 'time limit'
        except core.Unsupported as e:
            err = f"outside the verifier's reach: {e}"
        except Exception as e:      # noqa: BLE001
            err = f"{type(e).__name__}: {e} @ " + ' <- '.join(
                f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[:-6:-1])
        over.append(1)
        q.put(dict(unit=unit['name'], obs=c.obs, err=err, covered=c.covered, paths=c.n_paths, solver_s=core.S.solver_s,
                   dropped=c.prog.dropped, mods=sorted(c.prog.mods), trusted=sorted(core.S.trusted), wall=time.time() - t0))
    except BaseException as e:      # noqa: BLE001
        over.append(1)
        q.put(dict(unit=unit['name'], obs=c.obs if c is not None else [], err='time limit' if isinstance(e, TimeoutError) else f"{type(e).__name__}: {e}", covered=0, paths=0, solver_s=0., dropped=0, mods=[],
                   trusted=[], wall=time.time() - t0))


def _pool(units, scale, total):
    """run the units in forked processes; a unit that exceeds its limit is ended and its result is 'unknown'"""
    ctx = mp.get_context('fork')
    todo, run, out = list(units), [], []
    end = time.time() + total
    width = max(1, min(8, os.cpu_count() or 4))
    while todo or run:
        while todo and len(run) < width and time.time() < end:
            u = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_run_unit, args=(u, scale, q), daemon=True)
            p.start()
            run.append([u, p, q, time.time() + min(u['limit'] * scale, max(1., end - time.time()))])
        if not run and todo:
            for u in todo:
                out.append(dict(unit=u['name'], obs=[], err='not run for time', covered=0, paths=0, solver_s=0., dropped=0, mods=[], trusted=[],
                                timeout=True, wall=0.))
            break
        time.sleep(.02)
        for r in list(run):
            u, p, q, lim = r[:4]
            if not q.empty():
                out.append(q.get())
                p.join(2)
                run.remove(r)
            elif not p.is_alive():
                if not q.empty():
                    continue
                out.append(dict(unit=u['name'], obs=[], err='verifier process ended', covered=0, paths=0, solver_s=0., dropped=0, mods=[],
                                trusted=[], wall=0.))
                run.remove(r)
            elif time.time() > lim and len(r) == 4:
                p.terminate()
                r.append(True)
            elif time.time() > lim + 10:
                p.kill()
                p.join()
                out.append(dict(unit=u['name'], obs=[], err='time limit', covered=0, paths=0, solver_s=0., dropped=0, mods=[], trusted=[],
                                timeout=True, wall=u['limit'] * scale))
                run.remove(r)
    return out


def source_hash():
    """of the parsed package (comments and docstrings excluded): tells whether the verified text differs from the text the baseline was made on"""
    import emc2
    root = os.path.dirname(os.path.abspath(emc2.__file__))
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith('.py'):
                t = ast.parse(open(os.path.join(d, f)).read())
                for n in ast.walk(t):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                            and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
                        n.body[0].value.value = ''
                h.update(os.path.relpath(os.path.join(d, f), root).encode() + ast.dump(t).encode())
    return h.hexdigest()


def baseline(pid):
    try:
        d = json.load(open(BASE))
    except OSError:
        return {}, None
    return d.get('obligations', {}).get(pid, {}), d.get('hash')


TRUST = ["numpy/xarray/dask.bag/pint element-wise, slicing, reduction and broadcasting semantics as written in dv/engine/shim_*.py",
         "machine arithmetic treated as exact real arithmetic and unbounded integers (no rounding, no overflow, one zero)",
         "exp, log10, power, gamma, sqrt known only through their sign, monotonicity and algebraic laws",
         "the extraction (dv/engine/extract.py) and the VC generator (dv/engine/core.py, arr.py, loops.py)", "z3 4.x, cvc5 and the rational-function normaliser of dv/engine/vc.py"]


def run(pid, tier='quick', seed=1):
    load(pid)
    units = [u for u in UNITS.get(pid, []) if tier == 'thorough' or u['tier'] == 'quick']
    if not units:
        return dict(obligations=[], error='no deductive contract for this property')
    scale = 1. if tier == 'quick' else 3.
    res = _pool(units, scale, 240. if tier == 'quick' else 420.)
    base, bhash = baseline(pid)
    same = bhash is not None and bhash == source_hash()
    # a unit that failed although it was proved on the baseline gets a second, slower run alone on the machine
    retry = [u for u in units for r in res if r['unit'] == u['name'] and _bad(r, base) and not _refuted(r)]
    if retry and tier == 'quick':
        again = {r['unit']: r for r in _pool(retry, 2.5, 240.)}
        res = [again[r['unit']] if r['unit'] in again and not _worse(again[r['unit']], r) else r for r in res]
    obs, merged = [], {}
    errs = []
    for u in units:
        for r in [r for r in res if r['unit'] == u['name']]:
            for o in r['obs']:
                m = merged.get(o['name'])
                if m is None:
                    merged[o['name']] = m = dict(o, paths=0)
                    obs.append(m)
                m['paths'] += 1
                rank = ['proved', 'unknown', 'refuted']
                if rank.index(o['status']) > rank.index(m['status']):
                    m.update(status=o['status'], detail=o['detail'], backend=o['backend'])
                    for q in ('unreached', 'suspect'):
                        m.pop(q, None)
                        if q in o:
                            m[q] = o[q]
                elif o['status'] == m['status'] == 'proved' and o['backend'] not in m['backend'].split('+'):
                    m['backend'] += '+' + o['backend']
            if r['err']:
                errs.append(f"{u['name']}: {r['err']}")
                # what the unit would have proved stays open, bounded contracts only
                names = [n for n in base if n.startswith(u['name'] + '/') and n not in merged] or [u['name'] + '/all']
                for n in names:
                    merged[n] = m = dict(name=n, status='unknown', backend='-', detail=r['err'], unreached=True, paths=0)
                    obs.append(m)
                for o in obs:
                    if o['name'].startswith(u['name'] + '/') and o['status'] == 'proved':
                        o.update(status='unknown', detail='unit not completed: ' + r['err'], unreached=True)
            elif not r['covered'] and r['obs']:
                obs.append(dict(name=u['name'] + '/satisfiable', status='unknown', backend='-', unreached=True,
                                detail='no path with satisfiable precondition', paths=0))
    for o in obs:
        # an obligation the verifier reached and discharged on the baseline text but not on this text has failed
        if o['status'] == 'unknown' and not o.get('unreached') and base.get(o['name']) == 'proved' and not same:
            o['status'] = 'failed'
    return dict(obligations=obs, trusted=TRUST + sorted({a for u in units for a in u['assumes']}),
                functions=sorted({f for u in units for f in u['functions']}), solver_s=sum(r['solver_s'] for r in res),
                covers=sum(r['covered'] for r in res), bounded=errs,
                extraction="dv/engine/extract.py on " + ', '.join(sorted({m for r in res for m in r['mods']})) +
                f"; dropped: docstrings, print calls, {max([r['dropped'] for r in res] + [0])} print-only statements; float literals read as exact decimals",
                units=[dict(unit=r['unit'], wall=round(r['wall'], 1), paths=r['paths'], err=r['err']) for r in res])


def _bad(r, base):
    if r['err']:
        return any(n.startswith(r['unit'] + '/') for n in base) and 'reach' not in r['err']
    return any(o['status'] != 'proved' and base.get(o['name']) == 'proved' for o in r['obs'])


def _refuted(r):
    return any(o['status'] == 'refuted' for o in r['obs'])


def _worse(a, b):
    return bool(a['err']) and not b['err']


def make_baseline(only=()):
    """python -m dv.engine.prove --baseline [ID ...] : record which obligations hold on the unchanged tree"""
    out = dict(hash=source_hash(), obligations={})
    old = json.load(open(BASE)) if only else out
    if only and old['hash'] == out['hash']:
        out = old
    for pid in [json.loads(x)['id'] for x in open(os.path.join(HERE, '..', '..', 'properties.jsonl'))]:
        if out is old and only and pid not in only:
            continue
        load(pid)
        if UNITS.get(pid):
            r = run(pid, 'thorough')
            out['obligations'][pid] = {o['name']: o['status'] for o in r['obligations']}
            print(pid, {s: sum(o['status'] == s for o in r['obligations']) for s in {o['status'] for o in r['obligations']}})
    json.dump(out, open(BASE, 'w'), indent=0, sort_keys=True)


if __name__ == '__main__':
    import sys
    if '--baseline' in sys.argv:
        from dv.engine import prove
        prove.make_baseline([x for x in sys.argv[1:] if x != '--baseline'])
    else:
        from dv.engine import prove
        for pid in sys.argv[1:]:
            t = time.time()
            r = prove.run(pid)
            for o in r['obligations']:
                print(f"{o['status']:8} {o['name']:60} x{o['paths']} {o['backend']} {o['detail'] if o['status'] != 'proved' else ''}")
            for u in r.get('units', []):
                print('  ', u)
            print(pid, r.get('error', ''), f"{time.time() - t:.1f}s")
