"""P06-P11, P27, P28: operations on cycle counts."""
from .common import *


def joined(objs, cc, what="sum"):
    """cc holds the content of objs one after the other"""
    cat = lambda f: [float(v) for o in objs for v in getattr(o, f)]
    same_arr(cc.count_cycle, cat("count_cycle"), what + ": counts")
    same_arr(cc.stress_range, cat("stress_range"), what + ": ranges")
    same_arr(cc.mean_stress, cat("mean_stress"), what + ": means")
    need(close(cc.nr_small_cycles, sum(o.nr_small_cycles for o in objs)), "%s: %r small cycles", what,
         cc.nr_small_cycles)
    same_arr(resid(cc), [v for o in objs for v in resid(o)], what + ": residual sequence")
    need(cc.unit == objs[0].unit, "%s: unit %r instead of %r", what, cc.unit, objs[0].unit)
    want = sorted({t for o in objs for t in times(o)})
    need(times(cc) == want, "%s: timestamps %s instead of %s", what, times(cc), want)


def extremes(o):
    """minima and maxima of a count: those it has, else the smallest and the largest of its residuals"""
    v, r = [float(x) for x in o._min_max_sequence], resid(o)
    return [min(r), max(r)] if not v and len(r) >= 2 else v


@oracle("P06")
class Add:
    def gen(self, rng, n):
        for _ in range(n):
            u = rng.choice(UNITS)
            dt_ = rng.choice([40, 100, 100, 60, 5, 3, 1, 0, -1, -30])
            v = rng.choice([u, u, u, u, rng.choice(["MPa", "MNm", "kN"])])
            r = rec_any(rng, 50, v, 1)
            yield {"a": rec_any(rng, 0 if dt_ >= 40 else 50 - dt_, u, 1), "b": r,
                   "none": rng.choice(["None", "0", "nan", "0.0"])}

    def check(self, c):
        a, b = build(c["a"]), build(c["b"])
        sa, sb = snap(a), snap(b)
        ta, tb = times(a), times(b)
        if a.unit != b.unit:
            expect(TypeError, f"units {a.unit} and {b.unit}", lambda: a + b)
        elif ta[-1] > tb[0]:
            expect(TypeError, "second operand starts before the first one ends", lambda: a + b)
        else:
            mm = [v for o in (a, b) if o.residuals_sequence is not None for v in extremes(o)]
            s = a + b
            joined([a, b], s)
            for f, pick in (("range_bin_lower_bound", min), ("mean_bin_lower_bound", min), ("range_bin_width", max),
                            ("mean_bin_width", max)):
                x, y = getattr(a, f), getattr(b, f)
                if x is not None and y is not None:
                    need(close(getattr(s, f), pick(x, y)), "%s of the sum is %r, of the operands %r and %r", f,
                         getattr(s, f), x, y)
            need(close(s.stress_concentration_factor,
                       (a.stress_concentration_factor + b.stress_concentration_factor) / 2),
                 "stress concentration factor %r", s.stress_concentration_factor)
            need(not s.lffd_solved, "sum marked as resolved")
            same_arr(s._min_max_sequence, mm, "minima and maxima")
            untouched(a, sa, "first operand")
            untouched(b, sb, "second operand")
        x = {"None": None, "0": 0, "nan": float("nan"), "0.0": 0.0}[c["none"]]
        r = a + x
        joined([a], r, f"sum with {x}")
        r = x + a
        joined([a], r, f"{x} plus the count")
        untouched(a, sa, "first operand")


@oracle("P07")
class PbarSum:
    def gen(self, rng, n):
        sizes = list(range(1, 18)) + [20, 24, 25, 26, 30, 35, 36, 37, 48, 49, 50, 63, 64, 65, 81]
        for m in sizes:
            yield self.case(rng, m, 0.0)
        for _ in range(n // 4):
            yield self.case(rng, rng.choice(sizes), rng.choice([0.0, 0.2, 0.5]))
        for m in range(0, 14):
            for k in range(1, 15):
                yield {"chunk": m, "k": k}
        for _ in range(n):
            yield {"chunk": rng.randint(0, 300), "k": rng.randint(1, 60)}

    def case(self, rng, m, p):
        out = []
        for k in range(m):
            if rng.random() < p and not (k == m - 1 and all(o is None for o in out)):
                out.append(None)
            elif m <= 12 and rng.random() < 0.3:
                out.append(rec_any(rng, 200 * k, "MPa", 1))
            else:
                out.append(rec_raw(rng, 200 * k))
        return {"l": out}

    def check(self, c):
        if "chunk" in c:
            from py_fatigue.utils import chunks
            l = list(range(c["chunk"]))
            cs = [list(x) for x in chunks(l, c["k"])]
            need([v for x in cs for v in x] == l, "chunks of %d by %d: %s", c["chunk"], c["k"], cs)
            need(all(len(x) <= c["k"] for x in cs), "chunk longer than %d: %s", c["k"], cs)
            return
        from py_fatigue.cycle_count import cycle_count as m
        if hasattr(m, "sleep"):
            m.sleep = lambda *_: None
        objs = [None if r is None else build(r) for r in c["l"]]
        before = [None if o is None else snap(o) for o in objs]
        got = m.pbar_sum(list(objs))
        live = [o for o in objs if o is not None]
        joined(live, got, "progress-bar sum")
        tot = live[0]
        for o in live[1:]:
            tot = tot + o
        joined([tot], got, "one by one")
        need(got.timestamp == tot.timestamp, "timestamp differs")
        for o, s in zip(objs, before):
            if o is not None:
                untouched(o, s, "list entry")


@oracle("P08")
class Scale:
    def gen(self, rng, n):
        for _ in range(n):
            yield {"x": rec_any(rng, 0, rng.choice(UNITS), 2) if rng.random() < 0.8 else
                   {"op": "msc", "type": "SWT", "x": rec_raw(rng, 0)},
                   "k": rng.choice([2, 3.5, 0.25, 1, 1.0, -2.0, 10, 1e-3, rng.uniform(0.1, 9)])}

    def check(self, c):
        a = build(c["x"])
        k = c["k"]
        before = snap(a)
        mm = [float(v) for v in a.min_max_sequence]
        lb = a.mean_bin_lower_bound
        for r in (a * k, k * a):
            same_arr(r.stress_range, np.asarray(before["stress_range"]) * k, "ranges")
            same_arr(r.mean_stress, np.asarray(before["mean_stress"]) * k, "means")
            same_arr(resid(r), [k * v for v in resid(a)], "residual sequence")
            same_arr(sorted(float(v) for v in r.min_max_sequence), sorted(k * v for v in mm), "minima and maxima")
            same_arr(r.count_cycle, before["count_cycle"], "counts")
            for f in ("range_bin_lower_bound", "range_bin_width", "mean_bin_width", "stress_concentration_factor"):
                need(close(getattr(r, f), k * before[f]), "%s is %r instead of %r", f, getattr(r, f), k * before[f])
            need(close(r.mean_bin_lower_bound, k * lb), "mean_bin_lower_bound is %r", r.mean_bin_lower_bound)
            for f in ("nr_small_cycles", "unit", "timestamp", "lffd_solved", "mean_stress_corrected"):
                need(getattr(r, f) == before[f], "%s is %r instead of %r", f, getattr(r, f), before[f])
            need(times(r) == times(a), "timestamps changed")
            untouched(a, before, "the original")
        for bad in ("2", [2.0], np.array([2.0]), None, a, {}, 1j):
            expect(TypeError, f"multiplication by {type(bad).__name__}", lambda: a * bad)


def unit_of(x):
    while "x" in x:
        x = x["x"]
    return x.get("unit", "MPa")


MODES = ["Residuals", "residuals", "min-max", "min/max", "min max", "Min-Max"]


@oracle("P09")
class Resolve:
    def gen(self, rng, n):
        for m in MODES + ["", "resid", "max"]:
            yield {"x": {"op": "ts", "sig": [0, 10, 8, 9, -1], "t": 0}, "mode": m}
        for _ in range(n):
            x = rec_any(rng, 0, rng.choice(UNITS), 2)
            if rng.random() < 0.5:
                y = rec_any(rng, 1000, unit_of(x), 1)
                x = {"op": "add", "x": x, "y": y}
            yield {"x": x, "mode": rng.choice(MODES + ["Residuals"] * 4 + (["foo"] if rng.random() < 0.1 else []))}

    def check(self, c):
        a = build(c["x"])
        before = snap(a)
        mode = c["mode"]
        if mode.lower() not in ("residuals", "min-max", "min/max", "min max"):
            expect(ValueError, f"mode {mode}", lambda: a.solve_lffd(mode))
            return
        seq = resid(a) if mode.lower() == "residuals" else [float(v) for v in a.min_max_sequence]
        r = a.solve_lffd(mode) if mode != "Residuals" else a.resolve_residuals()
        untouched(a, before, "the original")
        rows, left, _ = ref_rainflow(seq)
        if a.lffd_solved or a.residuals_sequence is None or len(seq) < 3 or not rows:
            untouched(r, before, "nothing to resolve, result")
            return
        full = [k for k, v in enumerate(a.count_cycle) if v > 0.5]
        same_arr(r.count_cycle, [w[2] for w in rows] + [a.count_cycle[k] for k in full], "counts")
        same_arr(r.stress_range, [2 * w[0] for w in rows] + [a.stress_range[k] for k in full], "ranges")
        same_arr(r.mean_stress, [w[1] for w in rows] + [a.mean_stress[k] for k in full], "means")
        same_arr(resid(r), left, "residual sequence")
        if mode.lower() == "residuals":
            same_arr(r._min_max_sequence, extremes(a), "minima and maxima")
        need(bool(r.lffd_solved), "not marked as resolved")
        need(times(r) == times(a), "timestamps %s instead of %s", times(r), times(a))
        for f in ("nr_small_cycles", "unit", "name", "timestamp"):
            need(getattr(r, f) == getattr(a, f), "%s is %r instead of %r", f, getattr(r, f), getattr(a, f))
        for f in ("stress_concentration_factor", "range_bin_lower_bound", "range_bin_width", "mean_bin_width",
                  "mean_bin_lower_bound"):
            need(close(getattr(r, f), getattr(a, f)), "%s is %r instead of %r", f, getattr(r, f), getattr(a, f))


def ref_dnv(m, a, f):
    mx, mn = m + a, m - a
    v = (mx + f * abs(mn)) / (mx + abs(mn))
    v = min(1.0, v)
    if mn > 0:
        v = 1.0
    if v < f:
        v = f if f == 0.8 else 0.0
    return v * 2 * a


def ref_walker(m, a, g):
    mx = m + a
    if mx < 0 or (mx == 0 and g == 1):
        return 0.0 if 1 - g != int(1 - g) else None
    return mx ** (1 - g) * a ** g


def msc_vals(rng, n):
    a = [rng.randint(1, 4000) / 64 for _ in range(n)]
    m = []
    for v in a:
        k = rng.random()
        m.append(v if k < 0.1 else 0.0 if k < 0.2 else -2 * v if k < 0.3 else rng.randint(-6000, 6000) / 64)
    return m, a


@oracle("P10")
class Formulas:
    def gen(self, rng, n):
        for _ in range(n):
            m, a = msc_vals(rng, rng.choice([1, 2, 3, 8, 30]))
            yield {"m": m, "a": a, "f": rng.choice([0.6, 0.8]), "g": rng.choice([0.5, 0.25, 1.0, 0.9, 0.05]),
                   "bad": rng.choice([0.7, 0.0, 1.0, 0.5999, 0.81, 2.0, -0.8])}

    def check(self, c):
        from py_fatigue.mean_stress import corrections as ms
        m, a = np.array(c["m"]), np.array(c["a"])
        m0, a0 = m.copy(), a.copy()
        f = c["f"]
        got = ms.dnvgl_mean_stress_correction(m, a, detail_factor=f)
        need(len(got) == len(m0), "DNV: length %d", len(got))
        for k in range(len(m0)):
            if f == 0.6 and abs(m0[k] + a0[k]) < 1e-9:
                continue        # on the step itself the rounding decides
            w = ref_dnv(m0[k], a0[k], f)
            need(close(got[k], w), "DNV f=%s mean=%r amplitude=%r: %r instead of %r", f, m0[k], a0[k], got[k], w)
        for what, g, call in (("Walker", c["g"], lambda: ms.walker_mean_stress_correction(m, a, c["g"])),
                              ("Walker default", 0.5, lambda: ms.walker_mean_stress_correction(m, a)),
                              ("SWT", 0.5, lambda: ms.swt_mean_stress_correction(m, a))):
            got = call()
            for k in range(len(m0)):
                w = ref_walker(m0[k], a0[k], g)
                if w is not None:
                    need(close(got[k], w), "%s gamma=%s mean=%r amplitude=%r: %r instead of %r", what, g, m0[k],
                         a0[k], got[k], w)
        expect(ValueError, f"detail factor {c['bad']}",
               lambda: ms.dnvgl_mean_stress_correction(m, a, detail_factor=c["bad"]))
        need(np.array_equal(m, m0) and np.array_equal(a, a0), "input arrays modified")


@oracle("P11")
class Correct:
    def gen(self, rng, n):
        for _ in range(n):
            x = rec_any(rng, 0, rng.choice(UNITS), 2)
            t = rng.choice(["DNVGL-RP-C203", "dnvgl-rp-c203", "Walker", "WALKER", "SWT", "swt", "Smith-Watson-Topper"])
            kw = {}
            if "dnv" in t.lower() and rng.random() < 0.7:
                kw["detail_factor"] = rng.choice([0.6, 0.8])
            if t.lower() == "walker" and rng.random() < 0.7:
                kw["gamma"] = rng.choice([0.3, 0.5, 0.8])
            zero = rng.random() < 0.15
            if zero:
                x = rec_raw(rng, 0)
                x["mean"] = [0.0] * len(x["mean"])
                x["kw"].pop("residuals_sequence", None)
                if rng.random() < 0.5:
                    x["kw"]["lffd_solved"] = True
                kw["enforce_pulsating_load"] = rng.random() < 0.7
            elif rng.random() < 0.2:
                kw["enforce_pulsating_load"] = True
            yield {"x": x, "type": t, "kw": kw, "bad": rng.choice(["foo", "", "dnv", "walker-swt"])}

    def check(self, c):
        a = build(c["x"])
        base = copy.deepcopy(a)
        if not base.lffd_solved:
            base = base.solve_lffd()
        before = snap(a)
        t = c["type"].lower()
        mean = np.array(base.mean_stress, dtype=float)
        amp = np.array(base.stress_range, dtype=float) / 2
        if np.all(mean == 0):
            if not c["kw"].get("enforce_pulsating_load"):
                if a.mean_stress_corrected == "No" and len(mean):
                    expect(ValueError, "nothing but zero means", lambda: a.mean_stress_correction(c["type"], **c["kw"]))
                    untouched(a, before, "the original")
                return
            mean = amp.copy()
        if a.mean_stress_corrected == "No":
            if t == "dnvgl-rp-c203":
                f = c["kw"].get("detail_factor", 0.8)
                want = [ref_dnv(m, v, f) for m, v in zip(mean, amp)]
                skip = [f == 0.6 and abs(m + v) < 1e-9 for m, v in zip(mean, amp)]
            else:
                g = c["kw"].get("gamma", 0.5) if t == "walker" else 0.5
                want = [ref_walker(m, v, g) for m, v in zip(mean, amp)]
                skip = [False] * len(want)
            r = a.mean_stress_correction(c["type"], **c["kw"])
            untouched(a, before, "the original")
            need(len(r.stress_range) == len(want), "%d cycles instead of %d", len(r.stress_range), len(want))
            for k, w in enumerate(want):
                if not skip[k]:
                    need(close(r.stress_range[k], w), "range %d is %r instead of %r", k, r.stress_range[k], w)
            wm = [v / 2 for v in r.stress_range] if t == "dnvgl-rp-c203" else [0.0] * len(want)
            same_arr(r.mean_stress, wm, "means")
            same_arr(r.count_cycle, base.count_cycle, "counts")
            for f in ("nr_small_cycles", "unit", "name", "timestamp"):
                need(getattr(r, f) == getattr(a, f), "%s is %r instead of %r", f, getattr(r, f), getattr(a, f))
            for f in ("range_bin_lower_bound", "range_bin_width", "mean_bin_width", "mean_bin_lower_bound"):
                need(close(getattr(r, f), getattr(a, f)), "%s is %r instead of %r", f, getattr(r, f), getattr(a, f))
            need(close(r.stress_concentration_factor, a.stress_concentration_factor), "factor is %r instead of %r",
                 r.stress_concentration_factor, a.stress_concentration_factor)
            need(eq_val(r.residuals_sequence, base.residuals_sequence), "residual sequence changed")
            need(r.lffd_solved == base.lffd_solved, "resolved: %r instead of %r", r.lffd_solved, base.lffd_solved)
            need(times(r) == times(a), "timestamps changed")
            need(r.mean_stress_corrected != "No", "not marked as corrected")
            s = snap(r)
            again = r.mean_stress_correction(c["type"], **c["kw"])
            untouched(again, s, "corrected again")
        expect(ValueError, f"rule {c['bad']}", lambda: a.mean_stress_correction(c["bad"]))


def ref_full(st, co):
    return [s for s, c in zip(st, co) for _ in range(int(math.floor(c)))]


def ref_half(st, co):
    return [s for s, c in zip(st, co) if c - math.floor(c) == 0.5]


@oracle("P27")
class Partition:
    def gen(self, rng, n):
        import itertools
        for m in range(0, 4):
            for s in itertools.product((0.0, 0.5, 1.0, 1.5, 2.0, 3.0), repeat=m):
                yield {"c": list(s), "s": [10.0 * k + 1 for k in range(m)]}
        for _ in range(n):
            m = rng.randint(1, 30)
            c = [rng.choice([0.5, 0.5, 1.0, 1.0, rng.randint(0, 400) / 2]) for _ in range(m)]
            yield {"c": c, "s": [rng.randint(-500, 500) / 4 for _ in range(m)],
                   "r": [rng.randint(1, 500) / 4 for _ in range(m)]}

    def check(self, c):
        import py_fatigue.utils as u
        co, st = np.array(c["c"], dtype=float), np.array(c["s"], dtype=float)
        full, half = ref_full(c["s"], c["c"]), ref_half(c["s"], c["c"])
        same_arr(u.calc_full_cycles(st, co), full, "full cycles")
        same_arr(u.calc_half_cycles(st, co), half, "half cycles")
        fi, hi = u.split_full_cycles_and_residuals(co)
        need([int(k) for k in fi] == [k for k, v in enumerate(c["c"]) if v >= 1], "positions of full cycles %s", fi)
        need([int(k) for k in hi] == [k for k, v in enumerate(c["c"]) if v - int(v) == 0.5],
             "positions of half cycles %s", hi)
        need(close(len(full) + len(half) / 2, sum(c["c"])), "total")
        if "r" in c:
            from py_fatigue.cycle_count.cycle_count import CycleCount
            cc = CycleCount(count_cycle=co, stress_range=np.array(c["r"]), mean_stress=st, timestamp=T0)
            fr, hr = ref_full(c["r"], c["c"]), ref_half(c["r"], c["c"])
            for what, got, m, r in (("full_cycles", cc.full_cycles, full, fr), ("residuals", cc.residuals, half, hr),
                                    ("half_cycles", cc.half_cycles, half, hr)):
                got = np.asarray(got)
                need(got.shape == (len(m), 2), "%s has shape %s", what, got.shape)
                same_arr(got[:, 0], m, what + " means")
                same_arr(got[:, 1], r, what + " ranges")
        from py_fatigue.stress_range import StressRange
        if len(co):
            for w in (0.5, 2.0):
                o = StressRange(_counts=co, _values=st, bin_width=w)
                same_arr(o.full, full, "StressRange.full")
                same_arr(o.half, half, "StressRange.half")


def struct(rng, d):
    k = rng.random()
    if d == 0 or k < 0.25:
        return rng.choice([1, 2.5, "ab", None, True, "", 0, -3])
    if k < 0.5:
        return {"#a": [rng.randint(-3, 3) * 0.5 for _ in range(rng.randint(0, 4))]}
    if k < 0.75:
        return [struct(rng, d - 1) for _ in range(rng.randint(0, 4))]
    return {"#d": {x: struct(rng, d - 1) for x in rng.sample(["p", "q", "r", "s"], rng.randint(0, 4))}}


def mat(s):
    if isinstance(s, dict):
        if "#a" in s:
            return np.array(s["#a"], dtype=float)
        return {k: mat(v) for k, v in s["#d"].items()}
    if isinstance(s, list):
        return [mat(x) for x in s]
    return s


def mutate(rng, s):
    """a structure of the same kinds that differs in one place"""
    if isinstance(s, dict) and "#a" in s:
        a = list(s["#a"])
        k = rng.random()
        if a and k < 0.6:
            a[rng.randrange(len(a))] += 0.5
        elif a and k < 0.8:
            a.pop()
        else:
            a.append(0.0)
        return {"#a": a}
    if isinstance(s, dict):
        d = dict(s["#d"])
        k = rng.random()
        if d and k < 0.7:
            x = rng.choice(sorted(d))
            d[x] = mutate(rng, d[x])
        elif d and k < 0.85:
            x = rng.choice(sorted(d))
            d["zz"] = d.pop(x)
        else:
            d["y"] = 1
        return {"#d": d}
    if isinstance(s, list):
        l = list(s)
        k = rng.random()
        if l and k < 0.7:
            j = rng.randrange(len(l))
            l[j] = mutate(rng, l[j])
        elif l and k < 0.85:
            l.pop()
        else:
            l.append(4)
        return l
    if isinstance(s, str):
        return s + "x"
    if s is None:
        return 7
    return s + 10


@oracle("P28")
class Equality:
    FIELDS = ["count_cycle", "stress_range", "mean_stress", "timestamp", "unit", "range_bin_lower_bound",
              "range_bin_width", "_mean_bin_lower_bound", "mean_bin_width", "nr_small_cycles", "residuals_sequence",
              "_min_max_sequence", "lffd_solved", "mean_stress_corrected", "stress_concentration_factor", "name",
              "_time_sequence"]

    def gen(self, rng, n):
        for f in self.FIELDS:
            for _ in range(4):
                yield {"x": rec_raw(rng, 0), "f": f, "r": rng.random()}
        for _ in range(n):
            x = rec_any(rng, 0, "MPa", 1)
            yield {"x": x, "f": rng.choice(self.FIELDS), "r": rng.random()}
            s = struct(rng, 3)
            yield {"s": s, "m": mutate(rng, s)}
        yield {"s": {"#a": [1.0, 2.0]}, "m": None}
        yield {"s": None, "m": {"#a": [1.0, 2.0]}}
        yield {"s": {"#d": {"p": None}}, "m": {"#d": {"p": {"#a": []}}}}
        yield {"s": 1.0, "m": {"#a": [1.0, 1.0]}}

    def check(self, c):
        import py_fatigue.utils as u
        if "s" in c:
            a, b, m = mat(c["s"]), mat(c["s"]), mat(c["m"])
            for x, y, w in ((a, b, True), (b, a, True), (a, m, False), (m, a, False)):
                r = u.compare(x, y)
                need(isinstance(r, (bool, np.bool_)), "compare gives %s", type(r).__name__)
                need(bool(r) == w, "compare(%r, %r) is %r", x, y, r)
            return
        a, b = build(c["x"]), build(c["x"])
        need((a == b) is True or (a == b) == True, "equal counts compare unequal")    # noqa: E712
        need(bool(a == copy.deepcopy(a)), "a copy compares unequal")
        f = c["f"]
        v = getattr(b, f)
        if isinstance(v, np.ndarray) and v.dtype.kind == "f" and len(v):
            w = v.copy()
            k = int(c["r"] * 997) % len(w)
            if c["r"] < 0.8:
                w[k] += 1e-6 if c["r"] < 0.3 else 1
            else:
                w = np.delete(w, k)
        elif isinstance(v, np.ndarray) and v.dtype.kind == "O":
            w = np.array([t + dt.timedelta(seconds=1) for t in v])
        elif isinstance(v, np.ndarray):
            w = np.array([1.0, 2.0])
        elif isinstance(v, bool) or isinstance(v, np.bool_):
            w = not v
        elif isinstance(v, (int, float)):
            w = v + (1e-9 if c["r"] < 0.5 else 1) * (abs(v) + 1)
        elif isinstance(v, str):
            w = v + "x"
        elif isinstance(v, dt.datetime):
            w = v + dt.timedelta(seconds=1)
        elif v is None:
            w = "other" if f == "name" else np.array([1.0, 2.0]) if f != "_time_sequence" else np.array([T0])
        else:
            return
        setattr(b, f, w)
        for x, y in ((a, b), (b, a)):
            r = x == y
            need(isinstance(r, (bool, np.bool_)) and not bool(r), "counts differing in %s compare equal", f)
        for o in (1, None, "x", {}, a.__dict__, [a]):
            r = a == o
            need(isinstance(r, (bool, np.bool_)) and not bool(r), "compares equal with %s", type(o).__name__)
