"""Developer command: python3-vt -m pv.run [property] [task]"""
import importlib
import pkgutil
import sys
import time
from . import contracts, lib, task, solver


def load():
    for m in pkgutil.iter_modules(contracts.__path__):
        importlib.import_module("pv.contracts." + m.name)
    return lib.TASKS


if __name__ == "__main__":
    sel = [x for x in sys.argv[1:] if x != "-v"]
    for t in load():
        if sel and not (sel[0] in t.prop or sel[0] == t.name or sel[0] == "all"):
            continue
        if len(sel) > 1 and not any(s in t.name for s in sel[1:]):
            continue
        t0 = time.time()
        r = task.generate(t)
        t1 = time.time()
        solver.discharge(r.obls, t.budget)
        bad = [o for o in r.obls if o.status != "proved"]
        print(f"{'/'.join(t.prop)} {t.name}: {r.status} {r.reason} paths={r.paths}/{r.ended} obls={len(r.obls)} triv={r.trivial} "
              f"bad={len(bad)} gen={t1 - t0:.1f}s solve={time.time() - t1:.1f}s", flush=True)
        if "-v" in sys.argv:
            for o in sorted(r.obls, key=lambda o: -o.time)[:5]:
                print("   slow", o.name, o.backend, f"{o.time:.1f}")
        for o in bad:
            print("   ", o.status, o.backend, o.name, f"{o.time:.1f}s", o.path, str(o.model)[:300])
