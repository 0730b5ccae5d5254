"""Makes and tries out planted bugs (development aid; no check uses it).
seed.make(id, prop, edits, demo, needs, breaks) writes /verif/seeded/<id>/ after trying the change in a scratch copy;
python tools/seed.py try ID... tries existing ones again."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def env(copy):
    e = dict(os.environ, PYTHONPATH=copy, MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=copy + ".numba", PYTHONPYCACHEPREFIX=copy + ".pyc")
    return e


def trial(d, check=True, extra=()):
    """tests, demonstration with and without, check"""
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed-")
    copy = w + "/repo"
    out = dict(id=os.path.basename(d), property=meta["property"])
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        out["demo_clean"] = subprocess.run(["bash", d + "/demo.sh"], cwd=copy, env=env(copy), capture_output=True).returncode
        p = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=copy, capture_output=True, text=True)
        if p.returncode:
            out["apply"] = p.stderr
            return out
        r = subprocess.run(["bash", d + "/demo.sh"], cwd=copy, env=env(copy), capture_output=True, text=True)
        out["demo_patched"] = r.returncode
        out["demo_out"] = (r.stdout + r.stderr)[-300:]
        t = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300"], cwd=copy, env=env(copy), capture_output=True, text=True)
        out["tests"] = t.stdout.strip().splitlines()[-1:]
        base = json.load(open("/opt/vp/BASELINE.json"))
        out["failed"] = [l for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))]
        if check:
            for pid in (meta["property"],) + tuple(extra):
                c = subprocess.run(["./check.sh", pid, "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=copy, SX_EVIDENCE=w), capture_output=True, text=True)
                out["check_" + pid] = (c.returncode, [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "OK", "UNDEC", "INCON", "property"))][:3])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return out


def make(id, prop, edits, demo, needs, breaks, check=True):
    w = tempfile.mkdtemp(prefix="seedmk-")
    copy = w + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for f, a, b in edits:
            s = open(copy + "/maMDP/" + f).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(copy + "/maMDP/" + f, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(w, ignore_errors=True)
    d = V + "/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds; cwd is the repository\nW=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\n'
                                    'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPYCACHEPREFIX="$W/pyc" NUMBA_CACHE_DIR="$W/numba" MPLCONFIGDIR="$W/mpl"\n'
                                    '/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    r = trial(d, check)
    good = r.get("demo_clean") == 0 and r.get("demo_patched") and not r.get("failed")
    print("GOOD" if good else "BAD", "CAUGHT" if check and r.get("check_" + prop, (0,))[0] == 1 else "missed", json.dumps(r), flush=True)
    return r


if __name__ == "__main__":
    import concurrent.futures as cf
    ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        r = trial(V + "/seeded/" + i)
        good = r.get("demo_clean") == 0 and r.get("demo_patched") and not r.get("failed")
        print("GOOD" if good else "BAD", "CAUGHT" if r.get("check_" + r["property"], (0,))[0] == 1 else "missed", json.dumps(r), flush=True)
