#!/usr/bin/env python3-vt
"""Decide one property of py_fatigue from /repo's current source.

  python3-vt check.py P10 [--tier quick|thorough]

1. every contract registered for the property is turned into obligations from
   the current source and the obligations are sent to the solvers;
2. the executable form of the contract is run on the real code: it looks for
   failing inputs, and stands in (as a bounded check) for functions that the
   generator cannot read any more;
3. verdict, replay file, evidence.
"""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
VENV = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")

TRUST = [
    "the obligation generator /verif/pv (python semantics of the statements it accepts, merging of paths, loop rules)",
    "the models of numpy, pandas, numba, pydantic and the standard library in /verif/pv/npmodel.py and interp.py",
    "floating point numbers treated as real numbers with infinities and nan; integers as unbounded",
    "axioms of exp, log, rounding and of sums over index ranges, instantiated per obligation",
    "the solvers z3 4.8.12/z3-solver, cvc5 1.1.2",
    "numba compiles the decorated functions to what CPython does, except division by zero which raises",
    "text of f-strings and of docstrings is not evaluated; plotting and logging are not executed",
]

# functions of a property that are not under a discharged contract: decided by the executable contract only
BOUNDED = {"P31": ["cycle_count.utils.aggregate_cc with columns other than seven kinds of names",
                   "cycle_count.utils.calc_aggregated_damage with more than three curves"]}


def run_task(t, budget, deadline, out):
    """in a child process: generate and discharge"""
    import z3
    from pv import solver, task as tk
    os.setsid()
    rec = {"task": t.name, "functions": t.functions, "status": "error", "reason": "", "obls": []}
    try:
        r = tk.generate(t, REPO)
        rec.update(status=r.status, reason=r.reason, trivial=r.trivial, paths=r.paths, ended=r.ended,
                   called=sorted(r.called), contracts=sorted(r.contracts), ext=sorted(r.ext), gen_s=r.time)
        if r.status == "generated":
            solver.discharge(r.obls, t.budget * budget, nproc=3, deadline=deadline)
            again = [o for o in r.obls if o.status == "unknown"]
            if again and time.time() < deadline - 30:
                solver.discharge(again[:40], t.budget * budget * 3, nproc=3, deadline=deadline)
            for o in r.obls:
                rec["obls"].append({"name": o.name, "status": o.status, "backend": o.backend,
                                    "time": o.time, "path": o.path, "model": o.model, "text": o.model_text,
                                    "where": getattr(o, "where", "")})
            # vacuity: False must not follow from the assumptions of the paths that reached the postconditions
            alive = False
            for pc in r.covers:
                s = z3.Solver()
                s.set("timeout", 3000)
                s.add(*[solver.zb(c) for c in pc])
                if s.check() != z3.unsat:
                    alive = True
                    break
            rec["alive"] = alive
    except Exception as e:
        rec.update(status="error", reason=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-3000:])
    with open(out, "w") as f:
        json.dump(rec, f, default=str)


def oracle_env(scratch):
    e = dict(os.environ)
    e.update(CI="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", NUMBA_NUM_THREADS="2",
             NUMBA_CACHE_DIR=os.path.join(scratch, "nb"), MPLCONFIGDIR=os.path.join(scratch, "mpl"),
             VERIF_REPO=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    e.pop("PYTHONPATH", None)
    return e


def start_oracle(prop, seed, n, secs, scratch, tag):
    out = os.path.join(scratch, f"oracle-{tag}.json")
    log = open(os.path.join(scratch, f"oracle-{tag}.log"), "w")
    p = subprocess.Popen([VENV, "-W", "ignore", os.path.join(HERE, "rt", "run.py"), prop, "--seed", str(seed),
                          "--n", str(n), "--secs", str(secs), "--out", out], env=oracle_env(scratch), stdout=log,
                         stderr=log, cwd=scratch)
    return p, out, log, secs


def wait_oracle(h):
    p, out, log, secs = h
    try:
        p.wait(timeout=secs + 150)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    log.close()
    if os.path.exists(out):
        return json.load(open(out))
    return {"evaluations": 0, "distinct": 0, "samples": [], "fails": [], "truncated": True, "secs": 0,
            "error": open(log.name).read()[-2000:]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deep = a.tier == "thorough"
    limit = t0 + (3000 if deep else 620)
    scratch = tempfile.mkdtemp(prefix="pv-")
    try:
        rc = decide(a, seed, t0, deep, limit, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def stop(p):
    """end a task and its workers"""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        p.kill()
    p.join()


def decide(a, seed, t0, deep, limit, scratch):
    from pv import run as pvrun
    prop = a.prop
    orc = start_oracle(prop, seed, 3000 if deep else 250, 900 if deep else 75, scratch, "a")
    tasks = [t for t in pvrun.load() if prop in t.prop]
    ctx = mp.get_context("fork")
    todo = list(enumerate(tasks))
    running, recs = [], {}
    width = max(1, min(4, (os.cpu_count() or 4) // 2))
    tlimit = limit - (600 if deep else 180)
    known = None            # since when a failing input is known
    more = []               # the larger search, begun once something is not discharged or out of reach
    search = lambda: [start_oracle(prop, seed + 1000 * k, 100000, max(20, min(1500 if deep else 200, limit - time.time() - 20)),
                                   scratch, f"b{k}") for k in range(1, 4)]
    while todo or running:
        for o in [orc] + more if known is None else []:
            if o[0].poll() is not None and os.path.exists(o[1]) and json.load(open(o[1]))["fails"]:
                known = time.time()
                tlimit = min(tlimit, known + 30)
                break
        if time.time() > tlimit:
            for k, t in todo:
                recs[k] = {"task": t.name, "functions": t.functions, "status": "not run",
                           "reason": "a failing input is known already" if known else "out of time", "obls": []}
            todo = []
        while todo and len(running) < width:
            k, t = todo.pop(0)
            f = os.path.join(scratch, f"task-{k}.json")
            p = ctx.Process(target=run_task, args=(t, 3.0 if deep else 1.0, tlimit, f))
            p.start()
            running.append((p, k, f, time.time()))
        for r in list(running):
            p, k, f, s = r
            p.join(0.05)
            if not p.is_alive() or time.time() > tlimit + (0 if known else 60):
                if p.is_alive():
                    stop(p)
                running.remove(r)
                recs[k] = json.load(open(f)) if os.path.exists(f) else {
                    "task": tasks[k].name, "functions": tasks[k].functions, "status": "error",
                    "reason": "stopped: " + ("a failing input is known already" if known else "out of time"),
                    "obls": []}
                if not more and known is None and (recs[k]["status"] != "generated" or any(
                        o["status"] != "proved" for o in recs[k]["obls"])):
                    more = search()
    recs = [recs[k] for k in sorted(recs)]
    o1 = wait_oracle(orc)
    oracles = [o1]
    failed, outside = [], []
    for r in recs:
        bad = [o for o in r["obls"] if o["status"] != "proved" and o["backend"] != "not run"]
        if r["status"] == "generated" and bad:
            failed.append((r, bad))
        elif any(o["backend"] == "not run" for o in r["obls"]):
            r["reason"] = "out of time"
            outside.append(r)
        elif r["status"] != "generated":
            outside.append(r)
        elif not r["obls"] and not r.get("trivial"):
            r["reason"] = "no obligation"
            outside.append(r)
        elif r["ended"] and not r.get("alive"):
            r["reason"] = "assumptions contradictory"
            outside.append(r)
    case = o1["fails"][0] if o1["fails"] else None
    if case is None and (failed or outside):
        # look harder for a failing input, and let the bounded check stand in for what is out of reach
        more = more or search()
    while more and case is None:
        ended = [h for h in more if h[0].poll() is not None] or (more[:1] if time.time() > limit + 60 else [])
        if not ended:
            time.sleep(0.2)
        for h in ended:
            more.remove(h)
            o = wait_oracle(h)
            oracles.append(o)
            if o["fails"] and case is None:
                case = o["fails"][0]
    for h in more:
        h[0].kill()
        wait_oracle(h)
    obls = sum(len(r["obls"]) + r.get("trivial", 0) for r in recs)
    done = sum(sum(1 for o in r["obls"] if o["status"] == "proved") + r.get("trivial", 0) for r in recs)
    backends = {}
    for r in recs:
        if r.get("trivial"):
            backends["z3 simplifier"] = backends.get("z3 simplifier", 0) + r["trivial"]
        for o in r["obls"]:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    violation = case is not None or bool(failed)
    outdir = os.path.join(HERE, "out", prop)
    replay = os.path.join(outdir, "replay.json")
    os.makedirs(outdir, exist_ok=True)
    for r in recs:
        line = (f"{prop} {r['task']}: {r['status']} {r['reason']} obligations {len(r['obls']) + r.get('trivial', 0)}, "
                f"not discharged {sum(1 for o in r['obls'] if o['status'] != 'proved')}")
        print(line)
        for o in r["obls"]:
            if o["status"] != "proved":
                print(f"   not discharged ({o['status']}): {r['task']} / {o['name']}")
    print(f"{prop} executable contract: {sum(o['evaluations'] for o in oracles)} cases on the real code, "
          f"{'a case fails' if case else 'none fails'}")
    for o in oracles:
        if o.get("error"):
            print("   executable contract did not run:", o["error"][-600:])
    if violation:
        with open(replay, "w") as f:
            json.dump({"property": prop, "case": case["case"] if case else None, "why": case["why"] if case else None,
                       "replay_cmd": f"CI=1 {VENV} {HERE}/rt/run.py {prop} --case {replay}" if case else None,
                       "failed_obligations": [dict(task=r["task"], functions=r["functions"], **o)
                                              for r, bad in failed for o in bad]}, f, indent=1, default=str)
    bounded = sorted({r["task"] for r in outside})
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": "proof" if recs and not outside and prop not in BOUNDED else "exploration",
          "coverage": {
              "obligations": obls, "discharged": done,
              "checker_cmd": f"python3-vt {HERE}/check.py {prop} --tier {a.tier}",
              "trusted_base": TRUST,
              "backends": backends,
              "solver_s": round(sum(o["time"] or 0 for r in recs for o in r["obls"]), 2),
              "generation_s": round(sum(r.get("gen_s", 0) for r in recs), 2),
              "functions_under_contract": sorted({f for r in recs for f in r["functions"]}),
              "functions_executed_symbolically": sorted({f for r in recs for f in r.get("called", [])}),
              "callee_contracts_used": sorted({f for r in recs for f in r.get("contracts", [])}),
              "external_models_used": sorted({f for r in recs for f in r.get("ext", [])}),
              "tasks": [{"task": r["task"], "status": r["status"], "reason": r["reason"], "paths": r.get("paths"),
                         "obligations": len(r["obls"]) + r.get("trivial", 0),
                         "discharged": sum(1 for o in r["obls"] if o["status"] == "proved") + r.get("trivial", 0),
                         "reachable": r.get("alive")} for r in recs],
              "out_of_reach_this_run": bounded,
              "functions_only_bounded": BOUNDED.get(prop, []),
              "evaluations": sum(o["evaluations"] for o in oracles),
              "distinct_nontrivial": sum(o["distinct"] for o in oracles),
              "rule": "bounded, never counted as proved: random and boundary cases made by rt/ from the seed, run on "
                      "the real code against the executable contract; distinct by their JSON text",
              "samples": o1["samples"][:1],
          },
          "assumptions": TRUST, "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {done}/{obls} obligations discharged {backends}, {time.time() - t0:.0f} s")
    if case is not None:
        print(f"   failing input: {json.dumps(case)[:1500]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if failed:
        print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        return 1
    if not o1["evaluations"] and outside:
        print(f"{prop}: neither the contracts nor the executable contract could be checked")
        return 2
    return 0


if __name__ == "__main__":
    main()
