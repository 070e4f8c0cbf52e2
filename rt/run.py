"""Run the executable contracts of a property on the real code.

  run.py P01 --seed 1 --n 400 --secs 60 --out result.json
  run.py P01 --case case.json          (replay: exits 1 if the case fails)
"""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from rt.common import ORACLES, Fail, quiet   # noqa: E402

for m in sorted(os.listdir(HERE)):
    if m.startswith("o_") and m.endswith(".py"):
        importlib.import_module("rt." + m[:-3])


def run_case(o, c):
    """-> None or a description of the failure"""
    try:
        quiet(o.check, c)
    except Fail as e:
        return str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-4:]
        return f"{type(e).__name__}: {str(e)[:300]} ({' > '.join(inner)})"
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=200)
    ap.add_argument("--secs", type=float, default=120)
    ap.add_argument("--out")
    ap.add_argument("--case")
    ap.add_argument("--max-fail", type=int, default=1)
    a = ap.parse_args()
    os_ = ORACLES.get(a.prop, [])
    if a.case:
        d = json.load(open(a.case))
        c = d.get("case", d)
        o = os_[c.get("_oracle", 0)] if "_oracle" in c else os_[0]
        r = run_case(o, c)
        print("FAILS: " + r if r else "holds")
        sys.exit(1 if r else 0)
    t0 = time.time()
    n, fails, samples, seen = 0, [], [], set()
    truncated = False
    for k, o in enumerate(os_):
        rng = random.Random(f"{a.prop}-{k}-{a.seed}")
        for c in o.gen(rng, a.n):
            if time.time() - t0 > a.secs * (k + 1) / len(os_):
                truncated = True
                break
            c = json.loads(json.dumps(c))
            n += 1
            key = hash(json.dumps(c, sort_keys=True))
            seen.add(key)
            if len(samples) < 3 and n % 37 == 5:
                samples.append(c)
            r = run_case(o, c)
            if r:
                c["_oracle"] = k
                fails.append({"case": c, "why": r, "oracle": type(o).__name__})
                if len(fails) >= a.max_fail:
                    break
        if len(fails) >= a.max_fail:
            break
    res = {"prop": a.prop, "evaluations": n, "distinct": len(seen), "samples": samples, "fails": fails,
           "truncated": truncated, "secs": time.time() - t0, "seed": a.seed, "n": a.n}
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f)
    else:
        print(a.prop, "evaluations", n, "distinct", len(seen), "truncated" if truncated else "",
              f"{res['secs']:.1f} s", "fails" if fails else "ok", json.dumps(fails)[:3000] if fails else "")


if __name__ == "__main__":
    main()
