"""Run-time side of the contracts: cases, checks, replay, evidence."""
import json
import os
import signal
import time
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(EVID, "replay")


class Bad(Exception):
    """A contract clause is false on the real code for a concrete input."""

    def __init__(self, ob, msg=""):
        super().__init__(f"{ob}: {msg}")
        self.ob, self.msg = ob, str(msg)


class Hang(Exception):
    pass


def ensure(cond, ob, msg=""):
    if not bool(np.all(cond)):
        if not isinstance(msg, str):
            msg = str(msg() if callable(msg) else msg)
        c = np.asarray(cond)
        if c.ndim and c.size:
            w = np.argwhere(~c)
            msg = f"{msg} first failing index {tuple(int(x) for x in w[0])} ({len(w)} of {c.size})"
        raise Bad(ob, msg)


def same(a, b, ob, msg="", rtol=1e-9, atol=0.):
    """equal up to rounding, NaN exactly where NaN"""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        try:
            a, b = np.broadcast_arrays(a, b)
        except ValueError:
            raise Bad(ob, f"{msg} shapes {a.shape} and {b.shape} differ")
    if a.dtype.kind not in "fiubc" or b.dtype.kind not in "fiubc":
        ok = a == b
    else:
        a = a.astype(float)
        b = b.astype(float)
        na, nb = np.isnan(a), np.isnan(b)
        with np.errstate(all="ignore"):
            ok = np.where(na | nb, na & nb,
                          (a == b) | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))
    if not ok.all():
        i = tuple(int(x) for x in np.argwhere(~ok)[0]) if ok.ndim else ()
        raise Bad(ob, f"{msg} at {i}: got {a[i]!r}, contract says {b[i]!r} ({int((~ok).sum())} of {ok.size} differ)")


class Group:
    """All run-time cases of one property: fn name -> function(params)."""

    def __init__(self, pid):
        self.pid, self.fns, self.gens = pid, {}, []

    def case(self, f):
        self.fns[f.__name__] = f
        return f

    def gen(self, f):
        """f(rng, tier) yields (fn name, params)"""
        self.gens.append(f)
        return f


GROUPS = {}


def group(pid):
    if pid not in GROUPS:
        GROUPS[pid] = Group(pid)
    return GROUPS[pid]


def _alarm(sig, frm):
    raise Hang()


HANG_IS_VIOLATION = {"S06", "S01", "S02", "S03", "S04", "S05", "S07"}


def run_one(pid, fn, params, limit=60):
    """-> None or dict(ob, msg)"""
    import random
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    np.random.seed(int(params.get("seed", 0)) % 2**31)
    random.seed(int(params.get("seed", 0)))
    try:
        r = GROUPS[pid].fns[fn](**params)
        return None, r
    except Bad as e:
        return dict(ob=e.ob, msg=e.msg[:1500]), None
    except Hang:
        if pid in HANG_IS_VIOLATION:
            return dict(ob="terminates", msg=f"no result within {limit} s"), None
        return None, "timeout"
    except Exception as e:  # the real code raised on a valid input
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f"{os.path.basename(t.filename)}:{t.lineno} {t.name}" for t in tb if "/emc2/" in t.filename]
        if not inrepo:
            if isinstance(e, (TypeError, AttributeError, ImportError)):
                # the harness could not call what it wanted to call: no verdict on this case
                return None, "no-call"
            return dict(ob="output-present", msg=f"{type(e).__name__}: {str(e)[:300]} at "
                        f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"), None
        return dict(ob="no-exception", msg=f"{type(e).__name__}: {str(e)[:300]} in {inrepo[-1]}"), None
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def jsonable(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.bool_,)):
        return bool(o)
    raise TypeError(type(o))


def norm(params):
    return json.loads(json.dumps(params, default=jsonable))


def explore(pid, tier, seed, budget):
    """Run all cases. -> dict with counts and the violations found."""
    g = GROUPS.get(pid)
    out = dict(evaluations=0, distinct=set(), samples=[], violations=[], skipped=0, by_fn={}, timeouts=0)
    if g is None:
        return out
    t0 = time.time()
    gens = [f(np.random.default_rng([seed, i, sum(map(ord, pid))]), tier) for i, f in enumerate(g.gens)]
    live = list(gens)
    while live:
        for it in list(live):
            try:
                fn, params = next(it)
            except StopIteration:
                live.remove(it)
                continue
            if time.time() - t0 > budget:
                out["skipped"] += 1
                live = []
                break
            params = norm(params)
            v, key = run_one(pid, fn, params)
            out["evaluations"] += 1
            out["by_fn"][fn] = out["by_fn"].get(fn, 0) + 1
            if key == "timeout":
                out["timeouts"] += 1
            elif key == "no-call":
                out["no_call"] = out.get("no_call", 0) + 1
            elif v is None and key is not False:
                out["distinct"].add(fn + json.dumps(params, sort_keys=True))
            if len(out["samples"]) < 3:
                s = json.dumps(params)
                out["samples"].append(dict(fn=fn, params=params if len(s) < 1500 else s[:1500]))
            if v is not None:
                out["violations"].append(dict(fn=fn, params=params, **v))
                if len(out["violations"]) >= 5:
                    live = []
                    break
    out["wall"] = time.time() - t0
    return out
