#!/usr/bin/env python3
"""Writes seeded/<id>/ from the definitions in tools/seed_defs.py and confirms each in a scratch copy of /repo.
usage: mkseeds.py [id ...]      (no check reads seeded/)"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from seed_defs import SEEDS
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", DASK_SCHEDULER="synchronous", PYTHONWARNINGS="ignore")
DEMO = '''#!/bin/bash
# exit 0 when the property holds, 1 when it does not
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg DASK_SCHEDULER=synchronous OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''

def make(sid, d, run_tests=True):
    out = os.path.join(here, "seeded", sid)
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        repo = os.path.join(w, "r")
        subprocess.check_call(["cp", "-a", "/repo", repo])
        for f, old, new in d["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) >= 1, (sid, "not found", old)
            n = d.get("nth", {}).get(old)
            if n is None:
                assert s.count(old) == 1, (sid, "ambiguous", s.count(old), old)
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
            open(p, "w").write(s)
        diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(d["demo"].lstrip())
        shutil.copy(os.path.join(here, "dv", "models.py"), os.path.join(out, "mini.py"))
        json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["what"]),
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        r0 = subprocess.run([os.path.join(out, "demo.sh")], cwd="/repo", env=ENV, capture_output=True, text=True)
        r1 = subprocess.run([os.path.join(out, "demo.sh")], cwd=repo, env=dict(ENV, PYTHONPATH=repo), capture_output=True, text=True)
        msg = f"{sid}: demo clean={r0.returncode} patched={r1.returncode}"
        if r0.returncode or not r1.returncode:
            msg += "  <<<<< BAD\n" + r0.stdout[-800:] + r0.stderr[-800:] + r1.stdout[-800:] + r1.stderr[-800:]
        t = ""
        if run_tests:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", "--timeout=300", "tests"],
                               cwd=repo, env=dict(ENV, PYTHONPATH=repo), capture_output=True, text=True)
            t = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
        print(msg, "|", t, flush=True)
    finally:
        shutil.rmtree(w)

if __name__ == "__main__":
    ids = sys.argv[1:] or list(SEEDS)
    for s in ids:
        make(s, SEEDS[s])
