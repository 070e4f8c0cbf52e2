"""P01-P05: turning points, rainflow cycles, residuals, cycle counts of time series."""
import itertools
from .common import *


def all_small(maxlen, vals):
    for n in range(0, maxlen + 1):
        for s in itertools.product(vals, repeat=n):
            yield [float(v) for v in s]


@oracle("P01")
class TurningPoints:
    def gen(self, rng, n):
        for s in all_small(6, (0, 1, 2)):
            yield {"x": s}
        for s in itertools.product((0.0, 1.0), repeat=9):
            yield {"x": list(s)}
        for _ in range(n):
            yield {"x": signal(rng)}
            if rng.random() < 0.1:
                x = signal(rng)
                x = [float("nan") if rng.random() < 0.2 else v for v in x]
                yield {"x": x}
            if rng.random() < 0.1:
                yield {"x": [v * rng.choice([1e-12, 1e12, 1e300, 5e-324]) for v in signal(rng)]}
            if rng.random() < 0.05:
                yield {"x": [int(v) for v in signal(rng)], "int": True}

    def check(self, c):
        from py_fatigue.cycle_count import rainflow as rf
        x = np.array(c["x"], dtype=int if c.get("int") else float)
        if any(v != v for v in c["x"]):
            if len(x) >= 2:
                expect(ValueError, "NaN in the signal", lambda: rf.findtp(x))
            return
        before = x.copy()
        want = ref_tp(c["x"])
        got = rf.findtp(x)
        need([int(v) for v in got] == want, "turning points %s instead of %s", list(got), want)
        ext = rf.findextrema(x)
        want = ref_reversals(c["x"])
        need([int(v) for v in ext] == want, "extrema %s instead of %s", list(ext), want)
        need(np.array_equal(x, before), "signal modified")


def varied(rng, x):
    """now and then with swings far below all others, or of whole numbers"""
    k = rng.random()
    if k < 0.1:
        return {"x": [v + rng.choice([0, 0, 1, -1, 3]) * 2.0 ** -33 for v in x]}
    if k < 0.2:
        return {"x": [int(v) for v in x], "int": True}
    return {"x": x}


def rows_eq(got, want, what, cols):
    got = np.asarray(got, dtype=float)
    need(got.ndim == 2 and got.shape[0] == len(want), "%s: %s cycles instead of %d", what, got.shape, len(want))
    need(got.shape[1] >= cols, "%s: %d columns", what, got.shape[1])
    for k, w in enumerate(want):
        for j in range(cols):
            if not close(got[k, j], w[j]):
                raise Fail(f"{what}: cycle {k} is {got[k].tolist()} instead of {list(w[:cols])}")


@oracle("P02")
class ThreePoint:
    def gen(self, rng, n):
        for s in all_small(6, (0, 1, 3)):
            yield {"x": s}
        for s in itertools.permutations(range(6)):
            yield {"x": [float(v) for v in s]}
        for s in itertools.product((0, 1, 2), repeat=4):
            yield {"x": [float((-1) ** k * v) for k, v in enumerate((3,) + s + (3, 1))]}
        for _ in range(n):
            x = signal(rng)
            t, cur = [], rng.randint(-5, 5)
            for _ in x:
                cur += rng.randint(1, 4)
                t.append(cur / 2)
            yield {**varied(rng, x), "t": t}

    def check(self, c):
        from py_fatigue.cycle_count import rainflow as rf
        x = np.array(c["x"], dtype=int if c.get("int") else float)
        t = np.array(c.get("t", list(range(len(x)))), dtype=float)
        want = ref_rfc(c["x"], t.tolist())
        a, b = x.copy(), t.copy()
        rows_eq(rf.findrfc_astm(a), want, "without times", 3)
        rows_eq(rf.findrfc_astm(a, b), want, "with times", 5)
        need(np.array_equal(a, x) and np.array_equal(b, t), "input modified")
        if len(ref_tp(c["x"])):
            rows, _, _ = ref_rainflow(c["x"])
            rows_eq(rf.rainflow(x, extended_output=False), rows, "rainflow of the signal", 5)
            rows_eq(rf.rainflow(c["x"])[0], rows, "rainflow of the list", 5)


@oracle("P03")
class Conservation:
    def gen(self, rng, n):
        for s in all_small(7, (0, 1, 3)):
            if len(ref_tp(s)):
                yield {"x": s}
        for _ in range(n):
            c = varied(rng, signal(rng))
            if len(ref_tp(c["x"])):
                yield c

    def check(self, c):
        from py_fatigue.cycle_count import rainflow as rf
        x = c["x"]
        rows = np.asarray(rf.rainflow(np.array(x), extended_output=True)[0], dtype=float)
        v = [x[p] for p in ref_tp(x)]
        tv = sum(abs(a - b) for a, b in zip(v, v[1:]))
        got = sum(2 * r[2] * 2 * r[0] for r in rows)
        need(close(got, tv), "2 * sum(range * count) = %r, total variation %r", got, tv)
        need(len(rows) > 0, "no cycles")
        mr = max(2 * r[0] for r in rows)
        need(close(mr, max(v) - min(v)), "largest range %r instead of %r", mr, max(v) - min(v))
        for k, r in enumerate(rows):
            need(r[0] > 0, "cycle %d has amplitude %r", k, r[0])
            need(r[2] in (0.5, 1.0), "cycle %d has count %r", k, r[2])
            p, q = r[3], r[3] + r[4] / 2
            need(p == int(p) and q == int(q) and 0 <= p < len(x) and 0 <= q < len(x) and p != q,
                 "cycle %d spans positions %r and %r", k, p, q)
            a, b = x[int(p)], x[int(q)]
            need(close(abs(a - b), 2 * r[0]) and close((a + b) / 2, r[1]),
                 "cycle %d (%s) does not span the values %r and %r", k, r.tolist(), a, b)


@oracle("P04")
class Residuals:
    def gen(self, rng, n):
        for s in all_small(7, (0, 1, 3)):
            if s:
                yield {"x": s}
        for _ in range(n):
            c = varied(rng, signal(rng))
            t, cur = [], 0
            for _ in c["x"]:
                cur += rng.randint(1, 9)
                t.append(cur / 4)
            yield {**c, "t": t}

    def check(self, c):
        from py_fatigue.cycle_count import rainflow as rf
        x = c["x"]
        t = np.array(c.get("t", [2.5 * k + 1 for k in range(len(x))]))
        out = rf.rainflow(np.array(x), extended_output=True)
        need(len(out) == 3, "%d results without times", len(out))
        outt = rf.rainflow(np.array(x), time=t, extended_output=True)
        need(len(outt) == 4, "%d results with times", len(outt))
        for o in (out, outt):
            rows, seq, pos = np.asarray(o[0]), np.asarray(o[1]), np.asarray(o[2])
            need(len(pos) == len(seq), "sequence and positions differ in length")
            need(all(0 <= p < len(x) for p in pos), "positions out of range")
            need(all(x[p] == s for p, s in zip(pos, seq)), "the residual sequence is not the signal at the positions")
            need(len(pos) > 0 and pos[-1] == len(x) - 1, "does not end at the last sample")
            if not len(ref_tp(x)):
                need(len(rows) == 0, "%d cycles without two reversals", len(rows))
                need(len(pos) == 1, "%d residuals without two reversals", len(pos))
            half = [2 * r[0] for r in rows if r[2] == 0.5]
            dif = [abs(a - b) for a, b in zip(seq, seq[1:])]
            same_arr(dif, half, "differences of the residual sequence")
        same_arr(out[1], outt[1], "sequence with and without times")
        same_arr(outt[3], [t[p] for p in outt[2]], "times of the residuals")


@oracle("P05")
class FromTimeSeries:
    def gen(self, rng, n):
        for k in range(n):
            r = rec_ts(rng, rng.randint(0, 9), rng.choice(UNITS))
            if rng.random() < 0.5:
                r["kw"]["mean_bin_lower_bound"] = rng.choice([-60.0, 0.0, 3.5])
            r["time"] = rng.random() < 0.3
            r["as_list"] = rng.random() < 0.2
            if rng.random() < 0.1 and len(ref_tp([int(v) for v in r["sig"]])):
                r["sig"] = [int(v) for v in r["sig"]]
            yield r

    def check(self, c):
        from py_fatigue.cycle_count.cycle_count import CycleCount
        kw = dict(c["kw"])
        x = c["sig"] if c["as_list"] else np.array(c["sig"])
        if c["time"]:
            kw["time"] = np.arange(len(x)) * 0.5
        cc = CycleCount.from_timeseries(x, timestamp=when(c["t"]), name=c["name"], unit=c["unit"], **kw)
        rows, seq, _ = ref_rainflow(c["sig"])
        same_arr(cc.stress_range, [2 * r[0] for r in rows], "ranges")
        same_arr(cc.mean_stress, [r[1] for r in rows], "means")
        same_arr(cc.count_cycle, [r[2] for r in rows], "counts")
        same_arr(cc.residuals_sequence, seq, "residual sequence")
        same_arr(cc.stress_amplitude, [r[0] for r in rows], "amplitudes")
        same_arr(cc.min_stress, [r[1] - r[0] for r in rows], "minimum stresses")
        same_arr(cc.max_stress, [r[1] + r[0] for r in rows], "maximum stresses")
        need(cc.unit == c["unit"], "unit %r instead of %r", cc.unit, c["unit"])
        need(cc.name == c["name"], "name %r instead of %r", cc.name, c["name"])
        need(cc.timestamp == when(c["t"]), "timestamp %r", cc.timestamp)
        need(times(cc) == [when(c["t"])], "time sequence %r", cc.time_sequence)
        for k, d in (("range_bin_lower_bound", 0.2), ("range_bin_width", 0.05), ("mean_bin_width", 10)):
            need(getattr(cc, k) == kw.get(k, d), "%s is %r instead of %r", k, getattr(cc, k), kw.get(k, d))
        if "mean_bin_lower_bound" in kw:
            need(cc.mean_bin_lower_bound == kw["mean_bin_lower_bound"], "mean_bin_lower_bound is %r",
                 cc.mean_bin_lower_bound)
        elif rows:
            lo, w = min(r[1] for r in rows), cc.mean_bin_width
            need(lo - w - 1e-9 * abs(lo) - 1e-9 <= cc.mean_bin_lower_bound <= lo + 1e-9 * abs(lo) + 1e-9,
                 "mean_bin_lower_bound is %r for means from %r", cc.mean_bin_lower_bound, lo)
        need(np.array_equal(np.asarray(x), np.array(c["sig"])), "signal modified")
