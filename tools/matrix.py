#!/usr/bin/env python3-vt
"""Developer command, no check: which obligations fail for each planted bug, without the executable contracts.

  matrix.py SCRATCH [bug ...]    (SCRATCH: a directory for patched copies of the repository)
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(b):
    d, copy = os.path.join(HERE, "seeded", b), os.path.join(sys.argv[1], b)
    p = json.load(open(os.path.join(d, "meta.json")))["property"]
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
    subprocess.run(["git", "-C", copy, "apply", os.path.join(d, "patch.diff")], check=True)
    try:
        r = subprocess.run(["python3-vt", "-m", "pv.run", p], cwd=HERE, env=dict(os.environ, VERIF_REPO=copy),
                           capture_output=True, text=True, timeout=900)
        out = r.stdout.splitlines() + ([r.stderr[-200:]] if r.returncode else [])
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode().splitlines() + ["out of time"]
    shutil.rmtree(copy, ignore_errors=True)
    res, task = [], ""
    for line in out:
        if line.startswith("P"):
            task, st = line.split()[1].rstrip(":"), line.split()[2]
            if st != "generated":
                res.append(f"{task}: {line.split(': ', 1)[1].split(' paths=')[0]}")
        elif line.startswith("    ") and " slow " not in line:
            w = line.split()
            res.append(f"{task} / {line.strip().split(' ', 2)[2].rsplit(' ', 1)[0][:90]} ({w[0]})")
        elif not line.startswith("   slow"):
            res.append(line)
    return b, p, res


with ThreadPoolExecutor(4) as ex:
    for b, p, res in ex.map(one, sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, "seeded")))):
        print(f"{b} ({p}): {len(res)} not discharged", *res[:4], sep="\n    ", flush=True)
