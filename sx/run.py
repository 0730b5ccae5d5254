"""Runner of one property's check:  python -m sx.run C01 quick|thorough"""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = None


def replay(spec, timeout=240):
    """run a replay spec in a fresh interpreter on the real package"""
    fd, fn = tempfile.mkstemp(suffix=".json", dir=SCRATCH)
    with os.fdopen(fd, "w") as f:
        json.dump(spec, f)
    env = dict(os.environ, PYTHONPATH=REPO + ":" + HERE, NUMBA_CACHE_DIR=os.path.join(SCRATCH, "numba%d" % os.getpid()),
               PYTHONPYCACHEPREFIX=os.path.join(SCRATCH, "pyc"), PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(SCRATCH, "mpl"), OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    env.pop("NUMBA_DISABLE_JIT", None)
    try:
        p = subprocess.run([PY, "-m", "sx.replay", fn], cwd=SCRATCH, env=env, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return [dict(ok=False, timeout=True, label="replay did not terminate within %d s" % timeout)]
    for line in p.stdout.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    return [dict(ok=None, error=(p.stderr or p.stdout)[-1500:])]


def has_rng(inputs):
    return any(k.startswith("rng|") for k in inputs or {})


def worker(args):
    pid, hmod, job, idx, params, opts, tier, scratch, budget, deadline = args
    global SCRATCH
    SCRATCH = scratch
    budget = max(5, min(budget, deadline - time.time()))
    try:
        return _worker(pid, hmod, job, idx, params, opts, tier, budget)
    except BaseException as e:     # engine errors are reported, never swallowed
        return dict(job=job, params=params, error="%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]))


def _worker(pid, hmod, job, idx, params, opts, tier, budget):
    from . import core, loader
    from .h import make_sym_ctx, Skip
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    loader.start_coverage()
    mod = importlib.import_module("harness." + hmod)
    f = mod.P.func(job)
    ctx = make_sym_ctx()
    ex = core.Explorer(max_paths=opts.get("max_paths", 60000), time_limit=budget, query_ms=opts.get("query_ms", 60000))
    ex.max_witness = opts.get("witness", 2)
    ex.on_start = loader.fresh
    t0 = time.time()
    found, unconfirmed, limit = None, [], None

    def confirm(v):
        """does the counterexample reproduce on the real code?"""
        if v.get("inputs") is None:
            return False
        for scr in ([True, False] if has_rng(v["inputs"]) else [False, True]):
            spec = dict(property=pid, harness=hmod, job=job, params=params, runs=[dict(inputs=v["inputs"])], scripted=scr)
            r = replay(spec, opts.get("replay_timeout", 120))[0]
            v.setdefault("replay", []).append(r)
            if r.get("ok") is False and not (r.get("in_harness") and not r["label"].startswith("unexpected")):
                v["confirmed"] = r
                v["spec"] = spec
                return True
        return False
    it = ex.explore_iter(lambda: f(ctx, **params))
    try:
        for v in it:
            if confirm(v):
                found = v
                break
            unconfirmed.append(v)
            if len(unconfirmed) >= 8:
                break
    except core.EngineLimit as e:
        limit = str(e)
    if not found and not unconfirmed and not limit:
        # outcomes that some draw has to produce: all paths are explored, so an unreached one is impossible
        for lab in sorted(getattr(ex, "required", ())):
            if lab not in ex.labels:
                spec = dict(property=pid, harness=hmod, job=job, params=params, runs=[dict(inputs={})], exists=lab)
                v = dict(label="no draw gives: " + lab, inputs={}, spec=spec, replay=[replay(spec, 300)[0]])
                if v["replay"][0].get("ok") is False:
                    v["confirmed"] = v["replay"][0]
                    found = v
                    break
                unconfirmed.append(v)
    return dict(job=job, idx=idx, params=params, stats=ex.stats, labels=ex.labels, witnesses=ex.witnesses, found=found,
                unconfirmed=unconfirmed, limit=limit, funcs=sorted(loader.FUNCS), wall=time.time() - t0,
                errors=[])


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    sys.path.append(VT)
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="sx-%s-" % pid)
    try:
        code = check(pid, tier, only, t0)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def check(pid, tier, only, t0):
    hmod = pid.lower()
    mod = importlib.import_module("harness." + hmod)
    P = mod.P
    assert P.pid == pid
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = [j for j in P.list(tier) if not only or j[0] == only]
    # wall-clock limits: what is not decided by then is reported as undecided
    budget, total = (500, 560) if tier == "quick" else (7200, 20000)
    todo = [(pid, hmod, j, i, p, o, tier, SCRATCH, o.get("budget", budget), t0 + total) for j, i, p, o in jobs]
    todo.sort(key=lambda t: -t[5].get("cost", 1) * t[4].get("_cost", 1))
    n = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(todo)))
    results, found = [], None
    ctxm = mp.get_context("fork")
    with ctxm.Pool(n, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(worker, todo)
        while True:
            try:
                r = it.next(max(1, t0 + total + 70 - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                seen = {(r["job"], json.dumps(r["params"], sort_keys=True)) for r in results}
                for j, i, p, o in jobs:
                    if (j, json.dumps(p, sort_keys=True)) not in seen:
                        results.append(dict(job=j, params=p, limit="wall-clock limit of the check reached"))
                break
            results.append(r)
            if os.environ.get("SX_VERBOSE", "0") != "0":
                print(r["job"], r["params"], {k: v for k, v in r.get("stats", {}).items()}, "wall=%.1f" % r.get("wall", 0), r.get("limit") or "",
                      (r.get("error") or "")[-1500:], r.get("labels", ""), flush=True)
            if r.get("found"):
                found = r
                break
        pool.terminate()
    stats = {}
    labels, funcs, wit = {}, set(), []
    for r in results:
        for k, v in r.get("stats", {}).items():
            if isinstance(v, dict):
                d = stats.setdefault(k, {})
                for kk, vv in v.items():
                    d[kk] = d.get(kk, 0) + vv
            else:
                stats[k] = stats.get(k, 0) + v
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        funcs.update(r.get("funcs", []))
        for w in r.get("witnesses", []):
            wit.append((r["job"], r["params"], w))
    problems = []
    for r in results:
        if r.get("error"):
            problems.append("engine error in %s%s: %s" % (r["job"], r["params"], r["error"]))
        if r.get("limit"):
            problems.append("bound not reached in %s%s: %s" % (r["job"], r["params"], r["limit"]))
        for u in r.get("unconfirmed", []):
            problems.append("counterexample not reproduced in %s%s: %s inputs=%s where=%s replay=%s" % (
                r["job"], r["params"], u["label"], u.get("inputs"), u.get("where"), u.get("replay")))
    vac = [l for l in getattr(P, "labels", []) if l not in labels] if not only and not found else []
    if vac and not problems:
        problems.append("obligations never reached: %s" % vac)
    # -- path witnesses replayed on the real package ------------------------------------------------
    validated, skipped, wit_bad = 0, 0, None
    if not found:
        cap = 40 if tier == "quick" else 400
        # spread over the jobs
        byjob = {}
        for w in wit:
            byjob.setdefault((w[0], json.dumps(w[1], sort_keys=True)), []).append(w)
        sel = []
        while len(sel) < cap and any(byjob.values()):
            for k in list(byjob):
                if byjob[k] and len(sel) < cap:
                    sel.append(byjob[k].pop(0))
        for scr in (False, True):
            batch = [w for w in sel if has_rng(w[2]) == scr]
            if not batch:
                continue
            spec = dict(property=pid, harness=hmod, scripted=scr, runs=[dict(job=j, params=p, inputs=i) for j, p, i in batch])
            res = replay(spec, 100 if tier == "quick" else 600)
            if len(res) != len(batch):
                problems.append("witness replay failed: %s" % res)
                continue
            for (j, p, i), r in zip(batch, res):
                if r.get("skipped"):
                    skipped += 1
                elif r["ok"]:
                    validated += 1
                else:
                    wit_bad = dict(job=j, params=p, found=dict(label=r["label"], inputs=i, confirmed=r, kind="witness",
                                   spec=dict(property=pid, harness=hmod, job=j, params=p, runs=[dict(inputs=i)], scripted=scr)))
        if wit_bad:
            found = wit_bad
    known = load_known(pid)
    wall = time.time() - t0
    samples = [dict(job=j, params=p, inputs=i) for j, p, i in wit[:3]]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=1 if found else 0,
              assumptions=list(P.assumptions) + GENERAL_ASSUMPTIONS,
              coverage=dict(states=stats.get("paths", 0), transitions=stats.get("forks", 0) + stats.get("completed", 0),
                            traces_validated_against_impl=validated, samples=samples,
                            obligations=stats.get("obligations", 0), discharged=stats.get("discharged", 0),
                            paths_completed=stats.get("completed", 0), paths_infeasible=stats.get("aborted", 0),
                            solver_queries=stats.get("feas_queries", 0), solver_seconds=round(stats.get("solver_s", 0.0), 2),
                            obligations_decided_by_simplification=stats.get("trivial", 0), unknown_answers=stats.get("unknown", 0),
                            under_approximated_values=stats.get("concretised", 0), realised_calls=stats.get("realised_calls", {}),
                            witness_skipped=skipped, jobs=len(results), functions_encoded=sorted(funcs), labels=labels,
                            bounds=[dict(harness=j, params=p) for j, _, p, _ in jobs], bounds_text=list(P.bounds),
                            problems=problems, solver="z3 %s" % z3_version()))
    EV = os.environ.get("SX_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(EV, exist_ok=True)
    with open(os.path.join(EV, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if found:
        v = found["found"]
        rp = os.path.join(EV, "replay-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump(dict(v["spec"], label=v["label"], observed=v["confirmed"]), f, indent=1, default=str)
        for k in known:
            if k["job"] == found["job"] and k["label"] in v["confirmed"]["label"]:
                break
        print("property %s: %s" % (pid, v["label"]))
        print("harness %s%s inputs %s" % (found["job"], found["params"], v["inputs"]))
        print("on the real code: %s" % v["confirmed"].get("label"))
        print("replay with: tools/replay.sh %s" % rp)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if problems:
        # not a verdict: what could not be decided is listed here and in the evidence; nothing explored broke the property
        strict = os.environ.get("SX_STRICT", "0") != "0" or not stats.get("completed")
        for p in problems[:6]:
            print("%s property=%s %s" % ("INCONCLUSIVE" if strict else "UNDECIDED", pid, p[:3000]))
        if strict:
            return 2
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("OK property=%s tier=%s paths=%d obligations=%d discharged=%d queries=%d solver=%.1fs validated=%d wall=%.1fs" % (
        pid, tier, stats.get("paths", 0), stats.get("obligations", 0), stats.get("discharged", 0), stats.get("feas_queries", 0),
        stats.get("solver_s", 0), validated, wall))
    return 0


GENERAL_ASSUMPTIONS = [
    "floating point is modelled by extended reals (NaN, +inf, -inf and zero division as in IEEE, no rounding); comparisons use a tolerance of 1e-6",
    "integers are mathematical (no int64 wrap-around)",
    "numba-compiled functions are executed as the Python they are written in; compiled behaviour is exercised by the witness replays",
    "random draws are unconstrained solver variables within the support of the distribution drawn from",
]


def load_known(pid):
    fn = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known" and d["property"] == pid:
                    out.append(d)
    return out


def z3_version():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()
