"""Executable contracts, run on the real code.

Every property has a reference written from its text alone, a generator of
concrete cases and a comparison.  A case is plain JSON, so that a failing one
can be stored and replayed.
"""
import copy
import datetime as dt
import math
import os
import random
import sys
import warnings

os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")

import numpy as np

ORACLES = {}
INF = float("inf")


class Fail(Exception):
    pass


def oracle(prop):
    """register a class with gen(rng, n) -> cases and check(case)"""
    def d(c):
        ORACLES.setdefault(prop, []).append(c())
        return c
    return d


def need(c, msg, *a):
    if not c:
        raise Fail(msg % a if a else msg)


def close(x, y, rel=1e-9, ab=1e-12):
    x, y = float(x), float(y)
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y or (abs(x) > 1e306 and abs(y) > 1e306 and (x > 0) == (y > 0))
    return abs(x - y) <= ab + rel * max(abs(x), abs(y))


def same_arr(got, want, what, rel=1e-9, ab=1e-12):
    got, want = np.asarray(got), np.asarray(want)
    need(got.shape == want.shape, "%s: shape %s instead of %s", what, got.shape, want.shape)
    for k, (g, w) in enumerate(zip(got.ravel(), want.ravel())):
        if not close(g, w, rel, ab):
            raise Fail(f"{what}[{k}]: {g!r} instead of {w!r}")


def expect(exc, what, f):
    """f raises one of exc"""
    try:
        f()
    except exc:
        return
    except Exception as e:
        raise Fail(f"{what}: {type(e).__name__} instead of {exc}")
    raise Fail(f"{what}: accepted")


def quiet(f, *a, **k):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


# ---------------------------------------------------------------- signals
def sig_int(rng, n, lo=-4, hi=4, plateau=0.3):
    out = []
    while len(out) < n:
        v = rng.randint(lo, hi)
        out += [float(v)] * (1 + (rng.randint(1, 3) if rng.random() < plateau else 0))
    return out[:n]


def sig_grid(rng, n, scale=64):
    return [rng.randint(-4000, 4000) / scale for _ in range(n)]


def sig_shape(rng, n):
    """growing, shrinking and nested swings"""
    k = rng.randint(0, 5)
    if k == 0:
        return [float((-1) ** i * (i + 1)) for i in range(n)]
    if k == 1:
        return [float((-1) ** i * (n - i)) for i in range(n)]
    if k == 2:
        return [float((-1) ** i * min(i + 1, n - i)) for i in range(n)]
    if k == 3:
        return [float((-1) ** i * (n - min(i, n - 1 - i))) for i in range(n)]
    if k == 4:
        return [float((-1) ** i * rng.choice([1, 2, 2, 3])) for i in range(n)]
    return [float((i % 2) * rng.choice([5, 5, 7]) + (i % 7 == 3) * 3) for i in range(n)]


def signal(rng, n=None):
    n = n or (rng.choice([3, 4, 5, 6, 7, 8, 9, 12, 20, 40]) if rng.random() < 0.97 else rng.choice([200, 1500]))
    k = rng.random()
    if k < 0.4:
        return sig_int(rng, n)
    if k < 0.7:
        return sig_grid(rng, n)
    return sig_shape(rng, n)


def ref_reversals(x):
    """interior samples where the signal changes direction, from the text of P01"""
    out = []
    prev = 0
    for p in range(len(x) - 1):
        d = x[p + 1] - x[p]
        s = (d > 0) - (d < 0)
        if p > 0 and s != 0 and (prev == 0 or s != prev):
            out.append(p)
        if s != 0:
            prev = s
    return out


def ref_tp(x):
    r = ref_reversals(x)
    return [0] + r + [len(x) - 1] if len(r) >= 2 else []


def ref_rfc(vals, times):
    """the three-point rule; rows (amplitude, mean, count, start, period)"""
    st, out = [], []

    def row(u, v, c):
        (a, s), (b, t) = u, v
        if a != b:
            out.append((abs(a - b) / 2, (a + b) / 2, c, s, 2 * (t - s)))
    for v, t in zip(vals, times):
        st.append((v, t))
        while len(st) >= 3:
            x = abs(st[-1][0] - st[-2][0])
            y = abs(st[-2][0] - st[-3][0])
            if x < y:
                break
            if len(st) == 3:
                row(st[0], st[1], 0.5)
                st.pop(0)
            else:
                row(st[-3], st[-2], 1.0)
                del st[-3:-1]
    for u, v in zip(st, st[1:]):
        row(u, v, 0.5)
    return out


def ref_rainflow(x):
    tp = ref_tp(x)
    if not tp:
        return [], [], []
    rows = ref_rfc([x[p] for p in tp], tp)
    pos = [int(r[3]) for r in rows if r[2] == 0.5] + [len(x) - 1]
    return rows, [x[p] for p in pos], pos


# ---------------------------------------------------------------- cycle counts
T0 = dt.datetime(2021, 3, 1, 12, 0)


def when(k):
    return T0 + dt.timedelta(minutes=10 * k)


def build(r):
    """a cycle count from a recipe"""
    from py_fatigue.cycle_count.cycle_count import CycleCount
    op = r["op"]
    if op == "ts":
        kw = dict(r.get("kw", {}))
        return CycleCount.from_timeseries(np.array(r["sig"], dtype=float), timestamp=when(r["t"]),
                                          name=r.get("name"), unit=r.get("unit", "MPa"), **kw)
    if op == "raw":
        kw = dict(r.get("kw", {}))
        for k in ("residuals_sequence", "_min_max_sequence"):
            if kw.get(k) is not None:
                kw[k] = np.array(kw[k], dtype=float)
        if "_time_sequence" in kw:
            kw["_time_sequence"] = np.array([when(k) for k in kw["_time_sequence"]])
        return CycleCount(count_cycle=np.array(r["count"], dtype=float),
                          stress_range=np.array(r["range"], dtype=float),
                          mean_stress=np.array(r["mean"], dtype=float),
                          timestamp=when(r["t"]), name=r.get("name"), unit=r.get("unit", "MPa"), **kw)
    if op == "rf":
        return CycleCount.from_rainflow(copy.deepcopy(r["data"]), timestamp=when(r["t"]), name=r.get("name"),
                                        unit=r.get("unit", "MPa"))
    if op == "mul":
        return build(r["x"]) * r["k"]
    if op == "add":
        return build(r["x"]) + build(r["y"])
    if op == "lffd":
        return build(r["x"]).solve_lffd(r.get("mode", "Residuals"))
    if op == "msc":
        return build(r["x"]).mean_stress_correction(r["type"], **r.get("kw", {}))
    raise ValueError(op)


def snap(cc):
    """deep copy of the content"""
    return copy.deepcopy(cc.__dict__)


def eq_val(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if a is None or b is None:
            return False
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype.kind == b.dtype.kind and all(eq_val(x, y) for x, y in
                                                                           zip(a.ravel(), b.ravel()))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b


def untouched(cc, before, what):
    need(set(cc.__dict__) == set(before), "%s: fields changed", what)
    for k, v in before.items():
        need(eq_val(cc.__dict__[k], v), "%s: field %s was modified", what, k)


def times(cc):
    return sorted(set(np.atleast_1d(cc.time_sequence).tolist()))


def resid(cc):
    return [] if cc.residuals_sequence is None else [float(v) for v in np.atleast_1d(cc.residuals_sequence)]


UNITS = ["MPa", "MPa", "MPa", "MNm", "kN"]


def rec_ts(rng, t, unit="MPa"):
    while True:
        n = rng.choice([5, 6, 8, 12, 20, 30])
        sig = sig_grid(rng, n) if rng.random() < 0.5 else [4.0 * v for v in sig_int(rng, n)]
        if len(ref_reversals(sig)) >= 2:
            break
    kw = {}
    if rng.random() < 0.5:
        kw = dict(range_bin_lower_bound=rng.choice([0.0, 0.2, 0.5]), range_bin_width=rng.choice([0.05, 0.25, 1.0]),
                  mean_bin_width=rng.choice([1.0, 2.5, 10.0]))
    return {"op": "ts", "sig": sig, "t": t, "unit": unit, "name": rng.choice([None, "a", "a", "b"]), "kw": kw}


def rec_raw(rng, t, unit="MPa"):
    n = rng.choice([1, 2, 3, 6, 10])
    count = [rng.choice([0.5, 0.5, 1.0, 1.0, 1.0, 2.0, 1.5, 7.0]) for _ in range(n)]
    rg = [rng.randint(1, 4000) / 64 for _ in range(n)]
    mn = [rng.randint(-3000, 3000) / 64 for _ in range(n)]
    kw = {"nr_small_cycles": rng.choice([0, 3, 11]),
          "stress_concentration_factor": rng.choice([1.0, 1.0, 1.5]),
          "range_bin_lower_bound": rng.choice([0.2, 0.0, 1.0]), "range_bin_width": rng.choice([0.05, 0.5, 2.0]),
          "mean_bin_width": rng.choice([10, 2.5])}
    k = rng.random()
    if k < 0.2:
        kw["residuals_sequence"] = None
    elif k < 0.8:
        kw["residuals_sequence"] = signal(rng, rng.choice([2, 3, 5, 8, 12]))
        if rng.random() < 0.3:
            kw["_min_max_sequence"] = signal(rng, rng.choice([2, 4, 6, 10]))
    if rng.random() < 0.4:
        kw["_time_sequence"] = sorted({t + rng.randint(0, 5) for _ in range(3)} | {t})
    return {"op": "raw", "count": count, "range": rg, "mean": mn, "t": t, "unit": unit,
            "name": rng.choice([None, "a", "b"]), "kw": kw}


def rec_rf(rng, t, unit="MPa"):
    d = hist_dict(rng)
    return {"op": "rf", "data": d, "t": t, "unit": unit, "name": rng.choice([None, "a"])}


def hist_dict(rng, means=None):
    """an exported histogram; never without any cycle"""
    means = rng.random() < 0.6 if means is None else means
    while True:
        d = {"nr_small_cycles": rng.randint(0, 9), "range_bin_lower_bound": rng.choice([0.2, 0.0, 1.0]),
             "range_bin_width": rng.choice([0.05, 0.5, 1.0])}
        cell = lambda: float(rng.choice([0, 0, 1, 2, 5]))
        if means:
            d["mean_bin_lower_bound"] = rng.choice([-20.0, -7.5, 0.0, 5.0])
            d["mean_bin_width"] = rng.choice([10.0, 2.5, 5.0])
            d["hist"] = [[cell() for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 4))]
            d["lg_c"] = [[rng.randint(-200, 200) / 8, rng.randint(1, 800) / 8] for _ in range(rng.randint(0, 3))]
            d["res"] = [[rng.randint(-200, 200) / 8, rng.randint(1, 800) / 8] for _ in range(rng.randint(0, 3))]
        else:
            d["hist"] = [cell() for _ in range(rng.randint(0, 6))]
            d["lg_c"] = [rng.randint(1, 800) / 8 for _ in range(rng.randint(0, 3))]
            d["res"] = [rng.randint(1, 800) / 8 for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.7:
            d["res_sig"] = [float(rng.randint(-9, 9)) for _ in range(rng.randint(0, 6))]
        flat = [c for r in d["hist"] for c in r] if means else d["hist"]
        if any(c > 0 for c in flat) or d["lg_c"] or d["res"]:
            return d


def rec_any(rng, t, unit="MPa", depth=2):
    k = rng.random()
    if depth == 0 or k < 0.55:
        return rng.choice([rec_ts, rec_raw, rec_rf])(rng, t, unit)
    if k < 0.7:
        return {"op": "mul", "x": rec_any(rng, t, unit, depth - 1), "k": rng.choice([2.0, 0.5, 3, 1.25])}
    if k < 0.85:
        return {"op": "add", "x": rec_any(rng, t, unit, depth - 1),
                "y": rec_any(rng, t + (40 if depth == 1 else 200), unit, depth - 1)}
    return {"op": "lffd", "x": rec_any(rng, t, unit, depth - 1), "mode": rng.choice(["Residuals", "min-max"])}


def recipes(rng, n, **k):
    return [rec_any(rng, 0, **k) for _ in range(n)]


# ---------------------------------------------------------------- curves
def sn_params(rng, segs=None, ordered=None):
    """slopes and intercepts (base 10) joined at knees"""
    m = segs or rng.choice([1, 1, 2, 2, 2, 3, 4])
    sl = [rng.choice([2.0, 3.0, 3.5, 4.0, 5.0, 6.5, 8.0]) for _ in range(1)]
    for _ in range(m - 1):
        sl.append(sl[-1] + rng.choice([0.5, 1.0, 2.0]))
    a = [rng.uniform(9.0, 14.0)]
    logs = rng.uniform(1.8, 2.5)
    for j in range(1, m):
        logs -= rng.uniform(0.05, 0.5)
        a.append(a[-1] + (sl[j] - sl[j - 1]) * logs)
    if ordered is False or (ordered is None and rng.random() < 0.25):
        k = list(range(m))
        rng.shuffle(k)
        sl, a = [sl[i] for i in k], [a[i] for i in k]
    return sl, a


def ref_life(s, sl, a, endurance=INF):
    if s == 0:
        return INF
    n = max(ai - mi * math.log10(s) for mi, ai in zip(sl, a))
    v = 10.0 ** n if n < 307 else INF
    return INF if v > endurance else v


def ref_knees(sl, a):
    return [((a[j] - a[j + 1]) / (sl[j] - sl[j + 1])) for j in range(len(sl) - 1)]  # log10 of the stress


def sn_endurance(rng, sl, a):
    kn = [a[j] - sl[j] * x for j, x in enumerate(ref_knees(sl, a))]
    if rng.random() < 0.4:
        return INF
    base = max(kn) if kn else rng.uniform(5, 8)
    return 10.0 ** (base + rng.uniform(0.01, 2))


def paris_params(rng, segs=None):
    m = segs or rng.choice([1, 1, 2, 2, 3, 4])
    sl = [rng.uniform(2.0, 6.0)]
    la = [rng.uniform(-32, -22)]
    logk = rng.uniform(3.0, 5.0)
    kn = []
    for _ in range(m - 1):
        s2 = sl[-1] + rng.choice([-1.0, -0.5, 0.4, 1.0, 2.0])
        if s2 < 0.6:
            s2 = sl[-1] + 1.0
        la.append(la[-1] + (sl[-1] - s2) * logk)
        sl.append(s2)
        kn.append(math.exp(logk))
        logk += rng.uniform(0.1, 1.0)
    lo = min(kn) if kn else 40.0
    hi = max(kn) if kn else 40.0
    th = rng.choice([0.0, lo * rng.uniform(0.2, 0.95)])
    cr = rng.choice([INF, hi * rng.uniform(1.05, 8.0)])
    return {"slope": sl, "intercept": [math.exp(v) for v in la], "threshold": th, "critical": cr}


def ref_rate(k, p):
    if k < p["threshold"]:
        return 0.0
    if k > p["critical"] or k == INF:
        return INF
    kn = paris_knees(p)
    j = sum(1 for v in kn if v <= k)
    return p["intercept"][j] * k ** p["slope"][j]


def paris_knees(p):
    c, m = p["intercept"], p["slope"]
    return [(c[j] / c[j + 1]) ** (1 / (m[j + 1] - m[j])) for j in range(len(c) - 1)]


def snc(p):
    from py_fatigue.material.sn_curve import SNCurve
    return SNCurve(slope=p["slope"], intercept=p["intercept"], endurance=p.get("endurance", INF),
                   unit_string=p.get("unit", "MPa"))


def paris(p):
    from py_fatigue.material.crack_growth_curve import ParisCurve
    return ParisCurve(slope=p["slope"], intercept=p["intercept"], threshold=p["threshold"],
                      critical=p["critical"], unit_string=p.get("unit", "MPa √mm"))
