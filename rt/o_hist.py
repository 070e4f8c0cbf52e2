"""P24-P26: bins, export and import of histograms."""
from .common import *
from .o_cycle import ref_full, ref_half

TOL = 1.5e-5


@oracle("P24")
class Bins:
    def gen(self, rng, n):
        for _ in range(n):
            w = rng.choice([0.05, 0.1, 0.25, 1.0, 2.5, 10.0, 0.7, 100.0, rng.uniform(0.02, 20)])
            lb = rng.choice([0.0, 0.2, 1.0, -5.0, rng.uniform(-30, 30), None])
            m = rng.choice([1, 2, 5, 20])
            base = 0.0 if lb is None else lb
            v = []
            for _ in range(m):
                k = rng.random()
                if k < 0.5:
                    v.append(base + w * rng.randint(0, 60))
                elif k < 0.6:
                    v.append(base + w * rng.randint(0, 20) * (1 + rng.choice([1e-16, -1e-16, 2e-16])))
                elif k < 0.65:
                    v.append(base + w * (rng.randint(0, 60) + rng.choice([1, -1, 3]) * 10.0 ** -rng.randint(3, 9)))
                elif k < 0.75:
                    v.append(base - w * rng.random())
                else:
                    v.append(base + w * rng.uniform(0, 60))
            if rng.random() < 0.15:         # the largest just above or below an edge
                w = rng.choice([w, 10.0, 100.0])
                v = [base + w * (rng.randint(0, 20) + rng.choice([1, -1, 3]) * 10.0 ** -rng.randint(4, 7))]
                v += [base + w / 3] * rng.randint(0, 1)
                m = len(v)
            yield {"w": w, "lb": lb, "v": v, "c": [rng.choice([0.5, 1.0, 1.0, 2.0, 3.5]) for _ in range(m)],
                   "k": rng.choice(["range", "mean"])}

    def check(self, c):
        from py_fatigue.stress_range import StressRange
        from py_fatigue.mean_stress import MeanStress
        cls = StressRange if c["k"] == "range" else MeanStress
        w = c["w"]
        kw = {} if c["lb"] is None else {"_bin_lb": c["lb"]}
        o = cls(_counts=np.array(c["c"]), _values=np.array(c["v"]), bin_width=w, **kw)
        full = ref_full(c["v"], c["c"])
        lb = o.bin_lb
        if c["lb"] is not None:
            need(lb == c["lb"], "lower bound %r", lb)
        e = np.asarray(o.bin_edges, dtype=float)
        need(len(e) >= 2, "%d edges", len(e))
        need(abs(e[0] - lb) <= TOL, "first edge %r, lower bound %r", e[0], lb)
        for k in range(len(e)):
            need(abs(e[k] - (lb + k * w)) <= TOL, "edge %d is %r instead of %r", k, e[k], lb + k * w)
        if full:
            need(e[-1] >= max(full) - TOL, "last edge %r, largest full cycle %r", e[-1], max(full))
        idx = np.asarray(o.bins_idx)
        need(len(idx) == len(full), "%d indices for %d full cycles", len(idx), len(full))
        bc, bv = np.asarray(o.bin_centers), np.asarray(o.binned_values)
        need(len(bc) == len(e) - 1, "%d centres", len(bc))
        for k, v in enumerate(full):
            if v < lb:
                continue
            j = int(idx[k])
            need(0 <= j < len(e) - 1, "full cycle %r has bin %d of %d", v, j, len(e) - 1)
            need(e[j] - TOL <= v <= e[j + 1] + TOL, "full cycle %r in the bin from %r to %r", v, e[j], e[j + 1])
            need(abs(bv[k] - (lb + (j + 0.5) * w)) <= TOL, "binned value %r of %r, centre %r", bv[k], v,
                 lb + (j + 0.5) * w)
            need(abs(bv[k] - bc[j]) <= 1e-12, "binned value is not the centre")


def cells(v, lb, w):
    """bins that may hold v, allowing for the rounding of the edges"""
    x = (v - lb) / w
    t = 2e-5 / w
    out = {max(0, math.ceil(x - t) - 1), max(0, math.ceil(x + t) - 1)}
    return out


def check_export(d, count, rg, mn, small0, settings, dec, tol, m, means):
    """the dictionary against the cycles"""
    lb, w, mlb, mw = settings
    need(close(d["range_bin_lower_bound"], lb) and close(d["range_bin_width"], w), "range bins %r, %r",
         d["range_bin_lower_bound"], d["range_bin_width"])
    keep = [k for k in range(len(rg)) if rg[k] >= lb]
    nsmall = len(rg) - len(keep) + small0
    need(close(d["nr_small_cycles"], nsmall), "%r small cycles instead of %r", d["nr_small_cycles"], nsmall)
    C = [count[k] for k in keep]
    F = list(zip(ref_full([mn[k] for k in keep], C), ref_full([rg[k] for k in keep], C)))
    H = list(zip(ref_half([mn[k] for k in keep], C), ref_half([rg[k] for k in keep], C)))
    r = lambda x: round(x, dec)
    q = 0.51 * 10 ** -dec + 1e-9
    # half cycles
    res = d["res"]
    need(len(res) == len(H), "%d half cycles instead of %d", len(res), len(H))
    for x, (a, b) in zip(res, H):
        if means:
            need(abs(x[0] - a) <= q and abs(x[1] - b) <= q, "half cycle %s instead of %s", x, (a, b))
        else:
            need(abs(x - b) <= q, "half cycle %s instead of %s", x, b)
    hist, lg = d["hist"], [x for x in d["lg_c"]]
    if means:
        need(close(d["mean_bin_lower_bound"], mlb) and close(d["mean_bin_width"], mw), "mean bins")
        total = sum(sum(h) for h in hist)
    else:
        total = sum(hist)
    need(close(total + len(lg), len(F)), "%r in the histogram and %d large cycles for %d full cycles", total, len(lg),
         len(F))
    # large cycles are listed unchanged
    left = list(F)
    must = []
    mx = max((b for _, b in F), default=0)
    for a, b in F:
        cs = cells(b, lb, w)
        errs = [abs(1 - ((lb + (j + 0.5) * w) / b) ** m) if b > 0 else 0 for j in cs]
        rel = (b / mx) ** m if mx > 0 else 0
        if rel > tol * (1 + 1e-6) and min(errs) > tol * (1 + 1e-3) + 1e-9:
            must.append((a, b))
    for x in lg:
        k = next((i for i, (a, b) in enumerate(left) if (abs(x[0] - a) <= q and abs(x[1] - b) <= q if means else
                                                         abs(x - b) <= q)), None)
        need(k is not None, "large cycle %s is no full cycle", x)
        left.pop(k)
    lg_l = list(lg)
    for a, b in must:
        k = next((i for i, x in enumerate(lg_l) if (abs(x[0] - a) <= q and abs(x[1] - b) <= q if means else
                                                    abs(x - b) <= q)), None)
        need(k is not None, "cycle (%r, %r) exceeds the tolerance but is not listed as large", a, b)
        lg_l.pop(k)
    # the others are in their cell
    lo, hi = {}, {}
    for a, b in left:
        ca = cells(a, mlb, mw) if means else {0}
        cb = cells(b, lb, w)
        opt = [(i, j) for i in ca for j in cb]
        if len(opt) == 1:
            lo[opt[0]] = lo.get(opt[0], 0) + 1
        for o in opt:
            hi[o] = hi.get(o, 0) + 1
    rows = hist if means else [hist]
    # cycles with equal rounded values may have been matched in another order: compare with slack for ties
    for i, h in enumerate(rows):
        for j, v in enumerate(h):
            need(lo.get((i, j), 0) <= v + 1e-9 and v <= hi.get((i, j), 0) + 1e-9,
                 "cell (%d, %d) holds %r instead of %d..%d", i, j, v, lo.get((i, j), 0), hi.get((i, j), 0))
    for (i, j), v in lo.items():
        need(i < len(rows) and j < len(rows[i]), "cell (%d, %d) with %d cycles is missing", i, j, v)


@oracle("P25")
class Export:
    def gen(self, rng, n):
        for _ in range(n):
            m = rng.choice([1, 2, 5, 12, 30])
            lb, w = rng.choice([(0.2, 0.05), (0.0, 0.5), (1.0, 1.0), (0.5, 0.25), (0.1, 0.1)])
            wide = rng.choice([5, 30, 120])
            rg = []
            for _ in range(m):
                k = rng.random()
                v = lb + w * rng.randint(0, wide) if k < 0.3 else lb + w * (rng.randint(0, wide) + 0.5) if k < 0.5 else \
                    lb + w * rng.uniform(-1, wide)
                rg.append(max(v, 0.01))
            mn = [rng.choice([0.0, rng.uniform(-40, 40), 5.0 * rng.randint(-6, 6)]) for _ in range(m)]
            c = [rng.choice([0.5, 0.5, 1.0, 1.0, 1.0, 2.0, 1.5, 4.0]) for _ in range(m)]
            kw = {"damage_tolerance_for_binning": rng.choice([1e-3, 1e-2, 0.2, 0.9, 10.0]),
                  "damage_exponent": rng.choice([3.0, 5.0, 4]), "round_decimals": rng.choice([4, 4, 6]),
                  "max_consecutive_zeros": rng.choice([32, 2, 8]), "legacy_export": rng.random() < 0.3}
            if rng.random() < 0.3:
                kw = {"legacy_export": rng.random() < 0.5}
            yield {"count": c, "range": rg, "mean": mn, "lb": lb, "w": w, "mw": rng.choice([10.0, 2.5, 5.0]),
                   "small": rng.choice([0, 7]), "res": rng.choice([None, [1.0, 2.00004, -3.0], []]), "kw": kw}
        for _ in range(n // 3):
            yield {"sig": rec_ts(rng, 0)["sig"], "t": rng.choice(["no", "arr", "list"]),
                   "tol": rng.choice([1e-3, 0.1]), "lb": rng.choice([0.2, 3.0]), "w": rng.choice([0.05, 1.0, 3.0])}

    def check(self, c):
        if "sig" in c:
            return self.binned(c)
        from py_fatigue.cycle_count.cycle_count import CycleCount
        cc = CycleCount(count_cycle=np.array(c["count"]), stress_range=np.array(c["range"]),
                        mean_stress=np.array(c["mean"]), timestamp=T0, range_bin_lower_bound=c["lb"],
                        range_bin_width=c["w"], mean_bin_width=c["mw"], nr_small_cycles=c["small"],
                        residuals_sequence=None if c["res"] is None else np.array(c["res"]))
        before = snap(cc)
        d = cc.as_dict(**c["kw"])
        untouched(cc, before, "the cycle count")
        dec = c["kw"].get("round_decimals", 4)
        check_export(d, c["count"], c["range"], c["mean"], c["small"],
                     (c["lb"], c["w"], cc.mean_bin_lower_bound, c["mw"]), dec,
                     c["kw"].get("damage_tolerance_for_binning", 1e-3), c["kw"].get("damage_exponent", 5.0),
                     not c["kw"]["legacy_export"])
        same_arr(d["res_sig"], [round(v, dec) for v in (c["res"] or [])], "residual sequence", ab=1e-9)

    def binned(self, c):
        from py_fatigue.cycle_count.histogram import binned_rainflow
        x = c["sig"]
        rows, seq, _ = ref_rainflow(x)
        t = None if c["t"] == "no" else [0.5 * k for k in range(len(x))]
        d = binned_rainflow(np.array(x), time=np.array(t) if c["t"] == "arr" else t, range_bin_lower_bound=c["lb"],
                            range_bin_width=c["w"], damage_tolerance_for_binning=c["tol"])
        mn = [r[1] for r in rows]
        mlb = round(min(mn) / 10.0) * 10.0 - 5.0
        check_export(d, [r[2] for r in rows], [2 * r[0] for r in rows], mn, 0, (c["lb"], c["w"], mlb, 10.0), 4,
                     c["tol"], 5.0, True)
        same_arr(d["res_sig"], seq, "residual sequence")
        if t is not None:
            need(close(d["as_dur"], t[-1] - t[0]), "duration %r", d["as_dur"])


@oracle("P26")
class Import:
    def gen(self, rng, n):
        for _ in range(n):
            d = hist_dict(rng)
            if rng.random() < 0.2:          # a histogram scaled to parts of cycles
                part = lambda v: [part(x) for x in v] if isinstance(v, list) else v * 0.25
                d["hist"] = part(d["hist"])
            if rng.random() < 0.3:
                d["bin_lb"] = d.pop("range_bin_lower_bound")
                d["bin_width"] = d.pop("range_bin_width")
            if rng.random() < 0.3:
                d["no_sm_c"] = d.pop("nr_small_cycles")
            yield {"d": d, "unit": rng.choice(UNITS), "name": rng.choice([None, "x"]),
                   "bad": rng.choice(["foo", "bin_lbb", "Hist", ""])}

    def check(self, c):
        from py_fatigue.cycle_count.cycle_count import CycleCount
        d = c["d"]
        cc = CycleCount.from_rainflow(copy.deepcopy(d), timestamp=when(3), name=c["name"], unit=c["unit"])
        means = "mean_bin_width" in d
        lb = d.get("range_bin_lower_bound", d.get("bin_lb"))
        w = d.get("range_bin_width", d.get("bin_width"))
        cnt, rg, mn = [], [], []
        if means:
            for i, h in enumerate(d["hist"]):
                for j, v in enumerate(h):
                    if v:
                        cnt.append(v)
                        rg.append(lb + (j + 0.5) * w)
                        mn.append(d["mean_bin_lower_bound"] + (i + 0.5) * d["mean_bin_width"])
            big = [(b, a) for a, b in d["lg_c"]]
            res = [(b, a) for a, b in d["res"]]
        else:
            for j, v in enumerate(d["hist"]):
                if v:
                    cnt.append(v)
                    rg.append(lb + (j + 0.5) * w)
                    mn.append(0.0)
            big = [(b, 0.0) for b in d["lg_c"]]
            res = [(b, 0.0) for b in d["res"]]
        for l, v in ((big, 1.0), (res, 0.5)):
            for b, a in l:
                cnt.append(v)
                rg.append(b)
                mn.append(a)
        same_arr(cc.count_cycle, cnt, "counts")
        same_arr(cc.stress_range, rg, "ranges", ab=6e-5)
        same_arr(cc.mean_stress, mn, "means", ab=1e-9)
        need(cc.nr_small_cycles == d.get("nr_small_cycles", d.get("no_sm_c")), "%r small cycles", cc.nr_small_cycles)
        if d.get("res_sig") is None:
            need(resid(cc) == [], "residual sequence %r", cc.residuals_sequence)
        else:
            same_arr(resid(cc), d["res_sig"], "residual sequence")
        need(close(cc.range_bin_lower_bound, lb) and close(cc.range_bin_width, w), "range bins")
        if means:
            need(close(cc.mean_bin_lower_bound, d["mean_bin_lower_bound"]) and
                 close(cc.mean_bin_width, d["mean_bin_width"]), "mean bins")
        need(cc.unit == c["unit"] and cc.name == c["name"] and cc.timestamp == when(3), "unit, name or timestamp")
        expect(KeyError, f"key {c['bad']!r}", lambda: CycleCount.from_rainflow(dict(copy.deepcopy(d), **{c["bad"]: 1})))
        if "bin_lb" in d:
            expect(KeyError, "both lower bounds",
                   lambda: CycleCount.from_rainflow(dict(copy.deepcopy(d), range_bin_lower_bound=0.1)))
        e = copy.deepcopy(d)
        e["hist"], e["lg_c"], e["res"] = [], [], []
        expect(Exception, "no cycle", lambda: CycleCount.from_rainflow(e))
        e = copy.deepcopy(d)
        del e["hist"]
        e["lg_c"], e["res"] = [], []
        expect(Exception, "no cycle", lambda: CycleCount.from_rainflow(e))
