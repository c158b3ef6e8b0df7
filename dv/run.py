"""check <ID> quick|thorough   /   replay <file>"""
import importlib
import io
import contextlib
import json
import os
import sys
import time
from .common import GROUPS, explore, run_one, EVID, REPLAY, HERE

PROP_MODULES = ["subcol", "lidar", "radar", "atm", "classif", "stats", "data", "driver"]
MODULE_OF = {"S": ["subcol"], "L": ["lidar", "classif"], "R": ["radar", "classif"], "M": ["atm"], "P": ["atm"],
             "C": ["classif"], "A": ["stats"], "O": ["driver"], "D": ["data"]}


def load_known(pid):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out


def sig(v):
    return f"{v['fn']}/{v['ob']}"


def load(pid):
    for m in MODULE_OF[pid[0]]:
        importlib.import_module(f"dv.props.{m}")


def write_replay(pid, n, doc):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, f"{pid}-{n}.json")
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return os.path.relpath(path, HERE)


def main(argv):
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    out = sys.stdout
    os.makedirs(EVID, exist_ok=True)
    load(pid)
    # 1. deductive part
    proof = None
    try:
        from .engine import prove
        proof = prove.run(pid, tier, seed)
    except Exception as e:      # noqa: BLE001  -- the verifier's own failure is no verdict about the code
        proof = dict(obligations=[], error=f"verifier: {type(e).__name__}: {e}")
    # 2. run-time contracts on the real code
    ex = explore(pid, tier, seed, 90 if tier == "quick" else 480)
    known = load_known(pid)

    def unlisted(vs):
        return [v for v in vs if not any(d.get("sig") == sig(v) for d in known)]
    viol = unlisted(ex["violations"])
    if not viol and tier == "quick" and any(o["status"] in ("refuted", "failed") or o.get("suspect") for o in proof.get("obligations", [])):
        # a failed obligation: look harder for an input that shows it on the real code
        ex2 = explore(pid, "thorough", seed, min(400, 800 - (time.time() - t0)))
        viol = unlisted(ex2["violations"])
        for k in ("evaluations", "skipped", "timeouts"):
            ex[k] += ex2[k]
        ex["distinct"] |= ex2["distinct"]
    for d in known:
        print(f"KNOWN-FINDING: property={pid} {d['what']}", file=out)
    rc = 0
    for i, v in enumerate(viol[:3]):
        p = write_replay(pid, i, dict(property=pid, kind="input", **v))
        print(f"  obligation {v['ob']}: {v['msg'][:600]}", file=out)
        if i == 0:
            first = p
            rc = 1
    obs = proof.get("obligations", [])
    refuted = [o for o in obs if o["status"] in ("refuted", "failed")]
    refuted.sort(key=lambda o: o["status"] != "refuted")
    if rc:
        print(f"VIOLATION property={pid} replay={first}", file=out)
    elif refuted:
        p = write_replay(pid, 0, dict(property=pid, kind="obligation", failed=refuted))
        print(f"  obligation {refuted[0]['name']}: {refuted[0].get('detail', '')[:600]}", file=out)
        print(f"VIOLATION property={pid} replay={p} no-failing-input-found", file=out)
        rc = 1
    write_evidence(pid, tier, seed, proof, ex, viol, t0)
    print(f"{pid} {tier}: {'violated' if rc else 'held'}; obligations {len(obs)}, "
          f"discharged {sum(o['status'] == 'proved' for o in obs)}, refuted {len(refuted)}; "
          f"cases {ex['evaluations']}; {time.time() - t0:.1f} s", file=out)
    return rc


def write_evidence(pid, tier, seed, proof, ex, viol, t0):
    obs = proof.get("obligations", [])
    nd = sum(o["status"] == "proved" for o in obs)
    cov = dict(evaluations=ex["evaluations"], distinct_nontrivial=len(ex["distinct"]),
               rule="run-time contract cases on the real /repo functions: directed boundary inputs plus inputs drawn from "
                    "VERIF_SEED; a case counts when it ran to the end with all clauses evaluated and its parameters differ "
                    "from every other case", samples=ex["samples"] or [proof.get("error", "none")],
               cases_by_contract=ex["by_fn"], skipped_for_time=ex["skipped"], timeouts=ex["timeouts"],
               cases_not_callable=ex.get("no_call", 0))
    level = "exploration"
    if obs:
        by = {}
        for o in obs:
            by.setdefault(o.get("backend", "-"), 0)
            by[o.get("backend", "-")] += 1
        cov.update(obligations=len(obs), discharged=nd, checker_cmd=f"./check {pid} {tier}",
                   trusted_base=proof.get("trusted", []), functions_under_contract=proof.get("functions", []),
                   back_ends=by, solver_s=round(proof.get("solver_s", 0.), 3),
                   not_discharged=[dict(name=o["name"], status=o["status"], detail=o.get("detail", "")[:300])
                                   for o in obs if o["status"] != "proved"],
                   obligation_names=sorted({o["name"] for o in obs})[:400],
                   covers=proof.get("covers", 0), bounded=proof.get("bounded", []),
                   extraction=proof.get("extraction", ""))
        if nd == len(obs) and nd > 0:
            level = "proof"
    if proof.get("error"):
        cov["engine_error"] = str(proof["error"])[:1000]
    if proof.get("notes"):
        cov["notes"] = proof["notes"]
    doc = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2))
    doc["violations"] = len(viol)
    if viol:
        cov["violating"] = [dict(fn=v["fn"], ob=v["ob"], msg=v["msg"][:300]) for v in viol]
    if proof.get("trusted"):
        doc["assumptions"] = list(proof["trusted"])
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(doc, f, indent=1, default=str)


def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    load(pid)
    if d["kind"] == "input":
        v, _ = run_one(pid, d["fn"], d["params"], limit=120)
        print(json.dumps(v) if v else "no violation on this tree")
        return 1 if v else 0
    from .engine import prove
    pr = prove.run(pid, "quick", 1)
    bad = [o for o in pr["obligations"] if o["status"] in ("refuted", "failed")]
    for o in bad:
        print(o["name"], o.get("detail", ""))
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1:]))
