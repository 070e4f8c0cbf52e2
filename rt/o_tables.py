"""P29-P31: bins, moments and tables of cycle counts, histogram values at points, aggregation."""
from .common import *
from .o_cycle import joined, ref_full, ref_half


@oracle("P29")
class Describe:
    def gen(self, rng, n):
        for _ in range(n):
            x = rec_any(rng, 0, rng.choice(UNITS), 1) if rng.random() < 0.6 else rec_raw(rng, 0)
            if x["op"] == "raw" and rng.random() < 0.3:
                w = x["kw"]["range_bin_width"]
                lb = x["kw"]["range_bin_lower_bound"]
                x["range"] = [lb + w * rng.randint(1, 40) for _ in x["range"]]
            yield {"x": x}

    def check(self, c):
        a = build(c["x"])
        before = snap(a)
        co, rg, mn = (np.array(v, dtype=float).tolist() for v in (a.count_cycle, a.stress_range, a.mean_stress))
        if not rg or not np.all(np.isfinite(rg + mn)):
            return
        full = {"means": ref_full(mn, co), "ranges": ref_full(rg, co)}
        half = ref_half(rg, co)
        lbs = {"means": a.mean_bin_lower_bound, "ranges": a.range_bin_lower_bound}
        ws = {"means": a.mean_bin_width, "ranges": a.range_bin_width}
        if full["means"] and all(lbs[q] is not None and max(full[q]) > lbs[q] + 1e-6 and
                                 (max(full[q]) - lbs[q]) / ws[q] < 5e4 for q in full):
            edges, centres = a.bin_edges, a.bin_centers
            ubs = {"means": a.mean_bin_upper_bound, "ranges": a.range_bin_upper_bound}
            for k, q in enumerate(("means", "ranges")):
                e, m, lb, w, top = np.asarray(edges[k]), np.asarray(centres[k]), lbs[q], ws[q], max(full[q])
                need(len(e) >= 2, "bin edges of %s: %s", q, e)
                want = lb + w * np.arange(len(e))
                need(np.max(np.abs(e - want)) <= 6e-6 + 1e-9 * abs(want[-1]), "bin edges of %s are not one width apart", q)
                need(want[-1] >= top - 6e-6 - 1e-9 * abs(top), "bin edges of %s end at %r before the largest full cycle %r",
                     q, e[-1], top)
                # a quotient just above a whole number may add a bin
                need(want[-2] <= top + w + 6e-6 + 1e-9 * abs(top), "bin edges of %s: bins too many above %r", q, top)
                need(top - 6e-6 - 1e-9 * abs(top) <= ubs[q] <= top + w + 6e-6 + 1e-9 * abs(top), "upper bound of %s", q)
                need(len(m) == len(e) - 1, "bin centres of %s: %d for %d edges", q, len(m), len(e))
                need(np.max(np.abs(m - (want[:-1] + w / 2))) <= 6e-6 + 1e-9 * abs(want[-1]), "bin centres of %s", q)
        v = half + full["ranges"]
        if v:
            m1 = math.fsum(v) / len(v)
            sd = math.sqrt(math.fsum((t - m1) ** 2 for t in v) / len(v))
            m3 = math.fsum((t - m1) ** 3 for t in v) / len(v)
            got = a.statistical_moments
            need(close(got[0], m1, 1e-9), "mean %r instead of %r", got[0], m1)
            need(close(got[1], sd / m1, 1e-7, 1e-7), "coefficient of variation %r instead of %r", got[1], sd / m1)
            need(close(got[2], m3 / m1 ** 3, 1e-7, 1e-9), "skewness %r instead of %r", got[2], m3 / m1 ** 3)
        d = a.to_df()
        for f, want in (("count_cycle", co), ("stress_range", rg), ("mean_stress", mn)):
            same_arr(d[f].values, want, "data frame: " + f)
        for f in ("unit", "name", "nr_small_cycles", "timestamp", "stress_concentration_factor", "lffd_solved",
                  "mean_stress_corrected"):
            need(d._metadata[f] == getattr(a, f), "data frame: %s", f)
        untouched(a, before, "count")


def find_bin(v, e):
    if not e[0] <= v <= e[-1]:
        return None
    for k in range(len(e) - 1):
        if e[k] <= v < e[k + 1]:
            return k
    return len(e) - 2


@oracle("P30")
class Points:
    def gen(self, rng, n):
        for _ in range(n):
            m = rng.randint(1, 25)
            q = rng.choice([1, 2, 4])
            pts = [[rng.randint(-12, 12) / q for _ in range(m)] for _ in range(2)]
            bins = rng.choice(["int", "edges", "edges", "mixed"])
            es = [sorted(rng.sample(range(-10, 11), rng.randint(2, 7))) for _ in range(2)]
            if rng.random() < 0.3:
                es = [[v / 4 for v in e] for e in es]
            c = {"x": pts[0], "y": pts[1], "w": None, "rng": None}
            c["bins"] = {"int": rng.randint(1, 12), "edges": es, "mixed": [rng.randint(1, 9), rng.randint(1, 9)]}[bins]
            if bins != "edges" and rng.random() < 0.4:
                c["rng"] = [sorted(rng.sample(range(-13, 14), 2)) for _ in range(2)]
            if rng.random() < 0.4:
                c["w"] = [rng.randint(0, 6) / 2 for _ in range(m)]
            yield c

    def check(self, c):
        from py_fatigue.cycle_count.histogram import make_histogram, map_hist
        x, y = np.array(c["x"], dtype=float), np.array(c["y"], dtype=float)
        w = None if c["w"] is None else np.array(c["w"])
        bins = [np.array(e, dtype=float) for e in c["bins"]] if isinstance(c["bins"], list) and \
            isinstance(c["bins"][0], list) else c["bins"]
        expect(ValueError, "different lengths", lambda: make_histogram(x, np.append(y, 0.0), bins=bins))
        h, (ex, ey) = make_histogram(x, y, bins=bins, bin_range=c["rng"], weights=w)
        want = np.zeros((len(ex) - 1, len(ey) - 1))
        if isinstance(bins, list) and isinstance(bins[0], np.ndarray):
            same_arr(ex, bins[0], "edges of the first quantity")
            same_arr(ey, bins[1], "edges of the second quantity")
            exact = True
        else:
            nx, ny = (bins, bins) if isinstance(bins, int) else bins
            need((len(ex), len(ey)) == (nx + 1, ny + 1), "number of edges %d, %d", len(ex), len(ey))
            lim = c["rng"] or [[min(x), max(x)], [min(y), max(y)]]
            for e, (lo, hi), v in ((ex, lim[0], x), (ey, lim[1], y)):
                if lo < hi:
                    need(close(e[0], lo) and close(e[-1], hi), "edges from %r to %r", e[0], e[-1])
            on = any(abs(v - t) < 1e-9 and abs(v - t) > 0 for e, vs in ((ex, x), (ey, y)) for v in vs for t in e)
            exact = not on
        if exact:
            for k in range(len(x)):
                i, j = find_bin(x[k], ex), find_bin(y[k], ey)
                if i is not None and j is not None:
                    want[i, j] += 1 if w is None else w[k]
            same_arr(h, want, "histogram")
        s = [v.copy() for v in (x, y, h, ex, ey)]
        r = map_hist(x, y, h, (ex, ey))
        need(len(r) == len(x), "%d values for %d points", len(r), len(x))
        for k in range(len(x)):
            i, j = find_bin(x[k], ex), find_bin(y[k], ey)
            v = math.nan if i is None or j is None else h[i, j]
            need(close(r[k], v), "value at (%r, %r): %r instead of %r", x[k], y[k], r[k], v)
        for v, t in zip((x, y, h, ex, ey), s):
            need(np.array_equal(v, t), "inputs changed")


PERIODS = {"D": lambda t: t.date(), "h": lambda t: (t.date(), t.hour), "M": lambda t: (t.year, t.month),
           "all": lambda t: 0, "ALL": lambda t: 0, "Y": lambda t: t.year}


@oracle("P31")
class Aggregate:
    def gen(self, rng, n):
        for _ in range(max(12, n // 4)):
            m = rng.randint(1, 9)
            steps = [rng.choice([1, 5, 30, 60, 60, 600, 1440, 1440, 20000, 45000]) for _ in range(m)]
            cols = rng.randint(1, 2)
            at, rows = 0, []
            for k in range(m):
                rows.append({"at": at, "v": rng.choice([1.0, 2.5, -3.0, None, 7.0]), "cc": [
                    None if rng.random() < 0.2 else rec_raw(rng, at) if rng.random() < 0.6 else rec_ts(rng, at)
                    for _ in range(cols)]})
                at += steps[k]
            for r in rows:
                for q in r["cc"]:
                    if q is not None and q["op"] == "raw":
                        q["kw"].pop("_time_sequence", None)
            sn = [dict(zip(("slope", "intercept"), sn_params(rng))) for _ in range(rng.randint(1, 2))]
            if rng.random() < 0.4:
                sn = [sn[0], {"slope": sn[0]["slope"], "intercept": [a - 0.5 for a in sn[0]["intercept"]]}]
            yield {"rows": rows, "by": rng.choice(sorted(PERIODS)), "sn": sn,
                   "form": rng.choice(["one", "list", "dict"]), "name": rng.choice(["v", "v", 3, "not CC_"])}

    def check(self, c):
        import pandas as pd
        from py_fatigue.cycle_count.utils import aggregate_cc
        rows = c["rows"]
        cols = len(rows[0]["cc"])
        idx = pd.DatetimeIndex([when(r["at"]).replace(tzinfo=None) for r in rows])
        objs = [[None if r["cc"][q] is None else build(r["cc"][q]) for r in rows] for q in range(cols)]
        before = [[o and snap(o) for o in col] for col in objs]
        mk = lambda: pd.DataFrame({**{f"CC_{q}": pd.Series(objs[q], index=idx, dtype=object) for q in range(cols)},
                                   c["name"]: [math.nan if r["v"] is None else r["v"] for r in rows]}, index=idx)
        groups = {}
        for k, t in enumerate(idx):
            groups.setdefault(PERIODS[c["by"]](t), []).append(k)
        groups = [groups[k] for k in sorted(groups)]
        if any(len(g) > 1 and all(objs[q][k] is None for k in g) for q in range(cols) for g in groups):
            return
        got, res = aggregate_cc(mk(), c["by"], True)
        got2 = aggregate_cc(mk(), c["by"])
        need(len(got) == len(groups) == len(got2), "%d windows instead of %d", len(got), len(groups))
        from functools import reduce
        for q in range(cols):
            ii, rr = [], []
            for w, g in enumerate(groups):
                parts = [objs[q][k] for k in g if objs[q][k] is not None]
                if not parts:
                    need(got[f"CC_{q}"].iloc[w] is None, "window %d: %r where nothing was counted", w, got[f"CC_{q}"].iloc[w])
                    continue
                s = reduce(lambda a, b: a + b, parts)
                joined(parts, s)
                if resid(s):
                    r = s.residuals_sequence
                    from py_fatigue.cycle_count.cycle_count import calc_rainflow
                    _, seq, pos = calc_rainflow(data=np.asarray(r), extended_output=True)
                    off = ii[-1] if ii else 0
                    ii += [int(p) + off for p in pos]
                    rr += [float(t) for t in seq]
                want = s.solve_lffd() if len(times(s)) > 1 else s
                for have in (got[f"CC_{q}"].iloc[w], got2[f"CC_{q}"].iloc[w]):
                    for f in ("count_cycle", "stress_range", "mean_stress"):
                        same_arr(getattr(have, f), getattr(want, f), f"window {w}: {f}")
                    need(have.lffd_solved == want.lffd_solved, "window %d: resolved %s", w, have.lffd_solved)
                    need(times(have) == times(want), "window %d: timestamps", w)
                    need(close(have.nr_small_cycles, want.nr_small_cycles), "window %d: small cycles", w)
            same_arr(res[f"CC_{q}"]["idx"], ii, "positions of the residuals")
            same_arr(res[f"CC_{q}"]["res"], rr, "residuals")
        for w, g in enumerate(groups):
            vs = [rows[k]["v"] for k in g if rows[k]["v"] is not None]
            m = sum(vs) / len(vs) if vs else math.nan
            need(close(got[c["name"]].iloc[w], m), "window %d: mean %r instead of %r", w, got[c["name"]].iloc[w], m)
        for q in range(cols):
            for o, s in zip(objs[q], before[q]):
                if o is not None:
                    untouched(o, s, "count in the frame")
        self.damages(c, got, cols)
        f = mk()
        expect(TypeError, "not a data frame", lambda: aggregate_cc(f.values, "D"))
        expect(TypeError, "index without times", lambda: aggregate_cc(f.reset_index(drop=True), "D"))
        if len(f) > 1:
            expect(ValueError, "decreasing times", lambda: aggregate_cc(f.iloc[::-1], "D"))
        expect(ValueError, "repeated times", lambda: aggregate_cc(pd.concat([f.iloc[:1], f]), "D"))

    def damages(self, c, got, cols):
        from py_fatigue.cycle_count.utils import calc_aggregated_damage
        curves = [snc(p) for p in c["sn"]]
        for k, s in enumerate(curves):
            s.name = f"curve {k}"
        if c["form"] == "one":
            curves = curves[:1]
        arg = {"one": curves[0], "list": curves, "dict": {f"k{k}": s for k, s in enumerate(curves)}}[c["form"]]
        d = calc_aggregated_damage(got, arg)
        need(len(d) == len(curves) * len(got), "%d rows of damage", len(d))
        for k, p in enumerate(c["sn"][:len(curves)]):
            for w in range(len(got)):
                for q in range(cols):
                    cc = got[f"CC_{q}"].iloc[w]
                    have = d[f"CC_{q}"].iloc[k * len(got) + w]
                    if cc is None:
                        need(have == 0, "damage %r where nothing was counted", have)
                        continue
                    lives = [ref_life(s, p["slope"], p["intercept"], p.get("endurance", INF)) for s in cc.stress_range]
                    want = sum(n / l for n, l in zip(cc.count_cycle, lives))
                    need(close(have, want, 1e-7), "damage of window %d: %r instead of %r", w, have, want)
