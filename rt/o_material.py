"""P12-P20: SN curves, damage, Paris curves."""
from .common import *


def sn_case(rng, **k):
    sl, a = sn_params(rng, **k)
    return {"slope": sl, "intercept": a, "endurance": sn_endurance(rng, sl, a)}


def stresses(rng, c, n):
    """ranges around the knees, the endurance stress, zero and elsewhere"""
    kn = [10 ** x for x in ref_knees(c["slope"], c["intercept"])]
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.15:
            out.append(0.0)
        elif kn and k < 0.5:
            out.append(rng.choice(kn) * rng.choice([1.0, 0.999, 1.001, 0.9, 1.1]))
        elif k < 0.7 and c["endurance"] < INF:
            es = max((a - math.log10(c["endurance"])) / m for m, a in zip(c["slope"], c["intercept"]))
            out.append(10 ** es * rng.choice([0.999, 1.001, 0.5, 2.0]))
        else:
            out.append(10 ** rng.uniform(-1, 3.2))
    return out


@oracle("P12")
class Cycles:
    def gen(self, rng, n):
        for _ in range(n):
            c = sn_case(rng)
            yield dict(c, s=stresses(rng, c, rng.choice([1, 2, 7, 20])), scalar=rng.choice(["float", "int", "np"]))

    def check(self, c):
        sn = snc(c)
        s = np.array(c["s"])
        got = sn.get_cycles(s)
        need(np.array_equal(s, np.array(c["s"])), "input modified")
        need(np.shape(got) == s.shape, "shape %s", np.shape(got))
        self.cmp(c, c["s"], got, "array")
        self.cmp(c, c["s"], sn.get_cycles(list(c["s"])), "list")
        self.cmp(c, c["s"], sn.n(s), "older name")
        for x in c["s"][:4]:
            if c["scalar"] == "int":
                x = int(x)
            elif c["scalar"] == "np":
                x = np.float64(x)
            g = sn.get_cycles(x)
            need(np.ndim(g) == 0, "a scalar gives %s", type(g).__name__)
            self.cmp(c, [float(x)], [g], "scalar")
        o = sorted(zip(c["s"], [float(v) for v in got]))
        for (s1, n1), (s2, n2) in zip(o, o[1:]):
            need(n2 <= n1 * (1 + 1e-9) or n1 == INF, "life rises from %r at %r to %r at %r", n1, s1, n2, s2)

    def cmp(self, c, s, got, what):
        for x, g in zip(s, got):
            raw = ref_life(x, c["slope"], c["intercept"])
            if c["endurance"] < INF and raw < INF and abs(raw / c["endurance"] - 1) < 1e-8:
                continue
            w = ref_life(x, c["slope"], c["intercept"], c["endurance"])
            need(close(g, w, 1e-8), "%s: life at %r is %r instead of %r", what, x, g, w)


@oracle("P13")
class Inverse:
    def gen(self, rng, n):
        for _ in range(n):
            c = sn_case(rng)
            top = math.log10(c["endurance"]) if c["endurance"] < INF else 12
            ns = [10 ** rng.uniform(1, top) for _ in range(6)]
            kn = [10 ** (a - m * x) for x, m, a in zip(ref_knees(c["slope"], c["intercept"]), c["slope"],
                                                       c["intercept"])]
            ns += [v * f for v in kn for f in (1.0, 0.99, 1.01) if v * f <= c["endurance"]]
            over = [c["endurance"] * f for f in (1.5, 10.0, 1e4)] if c["endurance"] < INF else []
            yield dict(c, n=ns, over=over, s=stresses(rng, c, 8))

    def check(self, c):
        sn = snc(c)
        e = c["endurance"]
        ns = [v for v in c["n"] if v < e * (1 - 1e-8)]
        es = max((a - math.log10(e)) / m for m, a in zip(c["slope"], c["intercept"])) if e < INF else None
        if ns:
            st = sn.get_stress(np.array(ns))
            back = sn.get_cycles(st)
            same_arr(back, ns, "life at the stress of a life", rel=1e-7)
            same_arr(sn.sigma(np.array(ns)), st, "older name", rel=1e-12)
            for v in ns[:3]:
                need(close(sn.get_cycles(sn.get_stress(v)), v, 1e-7), "scalar round trip at %r", v)
        s = [v for v in c["s"] if v > (10 ** es * (1 + 1e-8) if e < INF else 0)]
        if s:
            back = sn.get_stress(sn.get_cycles(np.array(s)))
            same_arr(back, s, "stress at the life of a stress", rel=1e-7)
        if c["over"]:
            same_arr(sn.get_stress(np.array(c["over"])), [10 ** es] * len(c["over"]), "stress beyond the endurance",
                     rel=1e-7)


@oracle("P14")
class Knees:
    def gen(self, rng, n):
        for _ in range(n):
            c = sn_case(rng, segs=rng.choice([1, 2, 2, 3, 4]))
            yield dict(c, f=rng.uniform(0.05, 0.98))

    def check(self, c):
        sn = snc(c)
        sl, a = c["slope"], c["intercept"]
        ks, kc = sn.get_knee_stress(), sn.get_knee_cycles()
        need(len(ks) == len(sl) - 1 and len(kc) == len(sl) - 1, "%d knees", len(ks))
        ref = ref_knees(sl, a)
        for j, x in enumerate(ref):
            need(close(ks[j], 10 ** x, 1e-7), "knee %d at stress %r instead of %r", j, ks[j], 10 ** x)
            l1, l2 = a[j] - sl[j] * math.log10(ks[j]), a[j + 1] - sl[j + 1] * math.log10(ks[j])
            need(close(l1, l2, 1e-7), "segments disagree at knee %d", j)
            need(close(math.log10(kc[j]), l1, 1e-7), "knee %d at life %r instead of %r", j, kc[j], 10 ** l1)
        if ref:
            lo = max(10 ** (a[j] - sl[j] * x) for j, x in enumerate(ref)) * c["f"]
            expect(ValueError, "endurance below a knee", lambda: snc(dict(c, endurance=lo)))
        expect(ValueError, "one intercept too many", lambda: snc(dict(c, intercept=a + [9.0])))
        expect(ValueError, "one slope too many", lambda: snc(dict(c, slope=sl + [sl[-1] + 1])))
        e = c["endurance"]
        if e < INF:
            es = max((y - math.log10(e)) / m for m, y in zip(sl, a))
            need(close(sn.endurance_stress, 10 ** es, 1e-7), "endurance stress %r instead of %r", sn.endurance_stress,
                 10 ** es)
            need(close(sn.endurance_stress, sn.get_stress(e), 1e-9), "endurance stress is not the stress of it")
        if len(sl) == 1:
            sc = snc(dict(c, slope=sl[0], intercept=a[0]))
            same_arr(sc.get_cycles([10.0, 50.0]), sn.get_cycles([10.0, 50.0]), "scalar parameters")


def history(rng, n=None):
    n = n or rng.choice([1, 2, 5, 12])
    return {"range": [0.0 if rng.random() < 0.08 else rng.randint(1, 40000) / 64 for _ in range(n)],
            "count": [rng.choice([0.5, 1.0, 3.0, 12.5, 1000.0]) for _ in range(n)]}


OTHER_UNITS = ["kN", "Pa", "mpa", "MPa ", ""]


def cc_of(h, unit="MPa"):
    from py_fatigue.cycle_count.cycle_count import CycleCount
    return CycleCount(count_cycle=np.array(h["count"]), stress_range=np.array(h["range"]),
                      mean_stress=np.zeros(len(h["count"])), timestamp=T0, unit=unit)


COLUMNS = ["count_cycle", "mean_stress", "stress_range"]


def unfit(cc, column, run):
    """data frames without one of the columns, or with the result in them already, are rejected"""
    for k in COLUMNS:
        df = cc.to_df().drop(columns=k)
        expect(AttributeError, f"data frame without {k}", lambda: run(df))
    df = cc.to_df()
    df[column] = 1.0
    expect(AttributeError, f"data frame with {column}", lambda: run(df))


@oracle("P15")
class Miner:
    def gen(self, rng, n):
        for _ in range(n):
            yield {"sn": sn_case(rng), "h": history(rng), "g": history(rng), "k": rng.choice([2.0, 0.5, 3.0]),
                   "unit": rng.choice(["MPa", "MPa", "kN"])}

    def check(self, c):
        import py_fatigue.damage.stress_life as sl
        p = c["sn"]
        sn = snc(dict(p, unit=c["unit"]))
        h = c["h"]
        want, amb = [], False
        for s, n in zip(h["range"], h["count"]):
            raw = ref_life(s, p["slope"], p["intercept"])
            if p["endurance"] < INF and raw < INF and abs(raw / p["endurance"] - 1) < 1e-8:
                amb = True
            life = ref_life(s, p["slope"], p["intercept"], p["endurance"])
            want.append(0.0 if life == INF else n / life)
        if amb:
            return
        r, n = np.array(h["range"]), np.array(h["count"])
        cc = cc_of(h, c["unit"])
        same_arr(sl.calc_pm(r, n, sn), want, "calc_pm", rel=1e-8, ab=0)
        same_arr(sl.get_pm(cc, sn), want, "get_pm", rel=1e-8, ab=0)
        df = cc.to_df()
        df = df.miner.damage(sn)
        same_arr(df["pm_damage"].values, want, "data frame damage", rel=1e-8, ab=0)
        same_arr(df["count_cycle"].values, h["count"], "counts of the frame")
        same_arr(df["stress_range"].values, h["range"], "ranges of the frame")
        need(all(v >= 0 for v in sl.get_pm(cc, sn)), "negative damage")
        same_arr(sl.calc_pm(r, c["k"] * n, sn), [c["k"] * v for v in want], "scaled counts", rel=1e-8, ab=0)
        g = c["g"]
        both = sl.calc_pm(np.hstack([r, g["range"]]), np.hstack([n, g["count"]]), sn)
        same_arr(both, np.hstack([want, sl.calc_pm(np.array(g["range"]), np.array(g["count"]), sn)]),
                 "joined histories", rel=1e-8, ab=0)
        if len(r) == 1:
            same_arr(sl.calc_pm(h["range"][0], h["count"][0], sn), want, "scalar arguments", rel=1e-8, ab=0)
        need(np.array_equal(r, np.array(h["range"])) and np.array_equal(n, np.array(h["count"])), "input modified")
        for u in OTHER_UNITS:
            if u == c["unit"]:
                continue
            other = cc_of(h, u)
            expect(ValueError, f"get_pm of {u!r} with {c['unit']!r}", lambda: sl.get_pm(other, sn))
            expect(ValueError, f"data frame in {u!r} with {c['unit']!r}", lambda: other.to_df().miner.damage(sn))
        unfit(cc, "cycles_to_failure", lambda df: df.miner.damage(sn))
        expect(ValueError, "arrays of different length", lambda: sl.calc_pm(r, np.hstack([n, [1.0]]), sn))
        expect(ValueError, "arrays of different length", lambda: sl.calc_pm(np.hstack([r, [1.0, 2.0]]), n, sn))


@oracle("P16")
class Equivalent:
    def gen(self, rng, n):
        for _ in range(n):
            yield {"h": history(rng), "m": rng.choice([3.0, 4, 5.0, 2.5, 1.0]), "neq": rng.choice([1e7, 2e6, 1.0, 350.0]),
                   "k": rng.choice([2.0, 0.25]), "ro": rng.choice([1.5, 4.0]), "ri": rng.choice([0.1, 1.4, 1.0])}

    def check(self, c):
        import py_fatigue.damage.stress_life as sl
        h, m, neq = c["h"], c["m"], c["neq"]
        r, n = np.array(h["range"]), np.array(h["count"])
        want = (sum(a * s ** m for s, a in zip(h["range"], h["count"])) / neq) ** (1 / m)
        cc = cc_of(h)
        for what, v in (("calc_des", sl.calc_des(r, n, m, neq)), ("get_des", sl.get_des(cc, m, neq)),
                        ("data frame", cc.to_df().miner.des(m, neq)), ("lists", sl.calc_des(h["range"], h["count"], m, neq))):
            need(close(v, want, 1e-8), "%s: %r instead of %r", what, v, want)
        d7 = (sum(a * s ** m for s, a in zip(h["range"], h["count"])) / 1e7) ** (1 / m)
        for what, v in (("calc_des", sl.calc_des(r, n, m)), ("get_des", sl.get_des(cc, m)),
                        ("data frame", cc.to_df().miner.des(m))):
            need(close(v, d7, 1e-8), "%s with the default cycles: %r instead of %r", what, v, d7)
        need(close(sl.calc_des(c["k"] * r, n, m, neq), c["k"] * want, 1e-8), "scaled ranges")
        need(close(sl.calc_des(np.array([37.5]), np.array([neq]), m, neq), 37.5, 1e-8), "single block")
        need(close(sl.calc_des(37.5, neq, m, neq), 37.5, 1e-8), "single block, scalars")
        ro, ri = c["ro"], c["ri"]
        w = math.pi / 4 * (ro ** 4 - ri ** 4) / ro * want * 1e6
        for what, v in (("calc_dem", sl.calc_dem(ro, ri, r, n, m, neq)), ("get_dem", sl.get_dem(ro, ri, cc, m, neq)),
                        ("data frame dem", cc.to_df().miner.dem(ro, ri, m, neq))):
            need(close(v, w, 1e-8), "%s: %r instead of %r", what, v, w)
        w7 = math.pi / 4 * (ro ** 4 - ri ** 4) / ro * d7 * 1e6
        for what, v in (("calc_dem", sl.calc_dem(ro, ri, r, n, m)), ("get_dem", sl.get_dem(ro, ri, cc, m)),
                        ("data frame dem", cc.to_df().miner.dem(ro, ri, m))):
            need(close(v, w7, 1e-8), "%s with the default cycles: %r instead of %r", what, v, w7)
        acc = cc.to_df().miner
        acc.des(m, neq)
        acc.dem(ro, ri, m, neq)
        for what, got, keep in (("des_data", acc.des_data, {"slope": m, "equivalent_cycles": neq}),
                                ("dem_data", acc.dem_data, {"outer_radius": ro, "inner_radius": ri, "slope": m,
                                                            "equivalent_cycles": neq})):
            for k, v in keep.items():
                need(got.get(k) == v, "%s keeps %r instead of %r for %s", what, got.get(k), v, k)
        for a, b in ((ri, ro), (ro, ro)):
            expect(ValueError, f"radii {a}, {b}", lambda: sl.calc_dem(a, b, r, n, m, neq))
            expect(ValueError, f"radii {a}, {b}", lambda: sl.get_dem(a, b, cc, m, neq))
            expect(ValueError, f"radii {a}, {b}", lambda: cc.to_df().miner.dem(a, b, m, neq))
        need(np.array_equal(r, np.array(h["range"])) and np.array_equal(n, np.array(h["count"])), "input modified")


@oracle("P17")
class GassnerShift:
    def gen(self, rng, n):
        for _ in range(n):
            h = history(rng)
            if max(h["range"]) == 0:
                continue
            yield {"h": h, "m": rng.choice([3.0, 4.5, 5.0, 1.0])}

    def check(self, c):
        import py_fatigue.damage.stress_life as sl    # registers the accessor
        h = c["h"]
        sn = snc({"slope": c["m"], "intercept": 12.0})
        df = cc_of(h).to_df().gassner.g(sn)
        tot, mx = sum(h["count"]), max(h["range"])
        want = [n / tot * (s / mx) ** c["m"] for s, n in zip(h["range"], h["count"])]
        same_arr(df["shift_factor"].values, want, "shift factor", rel=1e-8, ab=0)
        same_arr(df["count_cycle"].values, h["count"], "counts of the frame")
        same_arr(df["stress_range"].values, h["range"], "ranges of the frame")
        unfit(cc_of(h), "shift_factor", lambda df: df.gassner.g(sn))
        for m in ([3.0, 5.0], [3.0, 4.0, 5.0]):
            two = snc({"slope": m, "intercept": [12.0 + 2 * k for k in m]})
            expect(Exception, f"{len(m)} slopes", lambda: cc_of(h).to_df().gassner.g(two))


RULES = {"pavlou": ["Pavlou", "pavlou", "PAVLOU"], "manson": ["manson", "Manson-Halford", "manson and halford",
         "Manson and Halford", "manson halford"], "leve": ["Leve", "leve"],
         "si jian": ["Si Jian", "si-jian", "Si-Jian et al", "si jian et al"]}


@oracle("P18")
class Nonlinear:
    def gen(self, rng, n):
        for _ in range(n):
            sl, a = sn_params(rng)
            m = rng.choice([1, 2, 3, 6, 12])
            h = {"range": [rng.randint(200, 20000) / 64 for _ in range(m)],
                 "count": [rng.choice([0.5, 1.0, 3.0, 12.5, 1000.0]) for _ in range(m)]}
            rule = rng.choice(sorted(RULES))
            kw = {}
            if rule != "si jian" and rng.random() < 0.6:
                kw["base_exponent"] = {"pavlou": rng.choice([-0.75, -0.4, 0.5]), "manson": rng.choice([0.4, 0.25, 1.0]),
                                       "leve": rng.choice([2, 1.0, 0.5, 3.0])}[rule]
            if rule == "pavlou" and rng.random() < 0.6:
                kw["ultimate_stress"] = rng.choice([900.0, 500.0])
            yield {"sn": {"slope": sl, "intercept": a}, "h": h, "rule": rule, "name": rng.choice(RULES[rule]), "kw": kw}

    def check(self, c):
        import py_fatigue.damage.stress_life as sl
        p, h, rule, kw = c["sn"], c["h"], c["rule"], c["kw"]
        sn = snc(p)
        life = [ref_life(s, p["slope"], p["intercept"]) for s in h["range"]]
        m = len(life)
        if rule == "leve":
            e = [kw.get("base_exponent", 2)] * m
        elif rule == "manson":
            e = [(life[k] / life[k + 1]) ** kw.get("base_exponent", 0.4) for k in range(m - 1)] + [1.0]
        elif rule == "si jian":
            e = [h["range"][k + 1] / h["range"][k] for k in range(m - 1)] + [1.0]
        else:
            b, u = kw.get("base_exponent", -0.75), kw.get("ultimate_stress", 900.0)
            q = [(s / 2 / u) ** b for s in h["range"]]
            e = [q[k + 1] / q[k] for k in range(m - 1)] + [1.0]
        d = 0.0
        try:
            for k in range(m):
                d = (d + h["count"][k] / life[k]) ** e[k]
        except OverflowError:
            return
        if not 1e-250 < d < 1e250:
            return
        cc = cc_of(h)
        r, n = np.array(h["range"]), np.array(h["count"])
        tol = 1e-7 * (1 + max(abs(v) for v in e))
        g = sl.calc_nonlinear_damage(c["name"], r, n, sn, **kw)
        need(close(g, d, tol, 0), "%s: %r instead of %r", c["name"], g, d)
        g = sl.get_nonlinear_damage(c["name"], cc, sn, **kw)
        need(close(g, d, tol, 0), "%s from the cycle count: %r instead of %r", c["name"], g, d)
        need(np.array_equal(r, np.array(h["range"])) and np.array_equal(n, np.array(h["count"])), "input modified")
        for bad in ("miner", "", "pav", "lev e", "manson halfor"):
            expect(ValueError, f"rule {bad!r}", lambda: sl.calc_nonlinear_damage(bad, r, n, sn))
        for u in OTHER_UNITS:
            expect(ValueError, f"units {u!r}", lambda: sl.get_nonlinear_damage(c["name"], cc_of(h, u), sn, **kw))


def sifs(rng, p, n):
    kn = paris_knees(p)
    pts = kn + ([p["threshold"]] if p["threshold"] else []) + ([p["critical"]] if p["critical"] < INF else [])
    out = []
    for _ in range(n):
        k = rng.random()
        if pts and k < 0.5:
            out.append(rng.choice(pts) * rng.choice([1.0, 1 - 1e-4, 1 + 1e-4, 0.9, 1.1]))
        elif k < 0.55:
            out.append(0.0)
        elif k < 0.6:
            out.append(INF)
        else:
            out.append(math.exp(rng.uniform(0, 9)))
    return out


@oracle("P19")
class ParisRate:
    def gen(self, rng, n):
        for _ in range(n):
            p = paris_params(rng)
            yield {"p": p, "k": sifs(rng, p, rng.choice([1, 4, 15])), "f": rng.uniform(1.01, 2.0)}

    def check(self, c):
        p = c["p"]
        pc = paris(p)
        kn = paris_knees(p)
        k = np.array(c["k"])
        got = pc.get_growth_rate(k)
        need(np.shape(got) == k.shape, "shape %s", np.shape(got))
        for x, g in zip(c["k"], got):
            w = ref_rate(x, p)
            need(close(g, w, 1e-7, 0), "growth rate at %r is %r instead of %r", x, g, w)
        g = pc.get_growth_rate(c["k"][0])
        need(np.ndim(g) == 0 and close(g, ref_rate(c["k"][0], p), 1e-7, 0), "scalar growth rate %r", g)
        for what, x in (("threshold", p["threshold"]), ("critical", p["critical"])):
            g = getattr(pc, what + "_growth_rate")
            need(close(g, ref_rate(x, p), 1e-7, 0), "growth rate at the %s value is %r", what, g)
        ks, kr = pc.get_knee_sif(), pc.get_knee_growth_rate()
        same_arr(ks, kn, "knees", rel=1e-7)
        for j, x in enumerate(kn):
            w = p["intercept"][j] * x ** p["slope"][j]
            v = p["intercept"][j + 1] * x ** p["slope"][j + 1]
            need(close(kr[j], w, 1e-7, 0) and close(w, v, 1e-6, 0), "growth rate %r at knee %d, segments %r and %r",
                 kr[j], j, w, v)
        need(np.array_equal(k, np.array(c["k"])), "input modified")
        bad = []
        if kn:
            bad.append(dict(p, threshold=min(kn) * c["f"], critical=INF))
            bad.append(dict(p, threshold=0.0, critical=max(kn) / c["f"]))
        if len(kn) > 1 and kn[1] > kn[0] * 1.01:
            bad.append(dict(p, slope=p["slope"][::-1], intercept=p["intercept"][::-1], threshold=0.0, critical=INF))
        bad.append(dict(p, threshold=10.0 * c["f"], critical=10.0))
        for b in bad:
            rk = [b["threshold"]] + paris_knees(b) + [b["critical"]]
            if all(x < y for x, y in zip(rk, rk[1:])):
                continue
            expect(Exception, f"curve {b}", lambda: paris(b).get_growth_rate(np.array([100.0])))
        expect(ValueError, "one intercept too many", lambda: paris(dict(p, intercept=p["intercept"] + [1e-9])))
        expect(ValueError, "one slope too many", lambda: paris(dict(p, slope=p["slope"] + [3.0])))


@oracle("P20")
class ParisInverse:
    def gen(self, rng, n):
        for _ in range(n):
            p = paris_params(rng)
            lo = p["threshold"] or 1.0
            hi = p["critical"] if p["critical"] < INF else 5000.0
            k = [lo, hi] + [math.exp(rng.uniform(math.log(lo), math.log(hi))) for _ in range(6)]
            k += [v * f for v in paris_knees(p) for f in (1.0, 0.999, 1.001)]
            yield {"p": p, "k": [min(max(v, lo), hi) for v in k]}

    def check(self, c):
        p = c["p"]
        pc = paris(p)
        k = np.array(c["k"])
        back = pc.get_sif(pc.get_growth_rate(k))
        same_arr(back, c["k"], "intensity at the growth rate of an intensity", rel=1e-7)
        x = c["k"][3]
        need(close(pc.get_sif(pc.get_growth_rate(x)), x, 1e-7), "scalar round trip at %r", x)
        if p["threshold"] > 0:
            g = ref_rate(p["threshold"], p)
            for f in (0.0, 0.5, 0.999):
                need(close(pc.get_sif(g * f), p["threshold"], 1e-7), "growth rate %r below the curve gives %r", g * f,
                     pc.get_sif(g * f))
        if p["critical"] < INF:
            g = ref_rate(p["critical"], p)
            for f in (1.001, 2.0, 1e6):
                need(close(pc.get_sif(g * f), p["critical"], 1e-7), "growth rate %r above the curve gives %r", g * f,
                     pc.get_sif(g * f))
