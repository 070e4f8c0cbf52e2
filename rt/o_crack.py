"""P21-P23: crack growth, block splitting, geometries."""
from .common import *
from .o_material import cc_of


def hol(g):
    from py_fatigue.geometry.cylinder import HollowCylinder
    return HollowCylinder(initial_depth=g["initial_depth"], outer_diameter=g["outer_diameter"],
                          thickness=g["thickness"], height=g.get("height", 1000.0),
                          crack_position=g.get("crack_position", "external"),
                          width_to_depth_ratio=g.get("width_to_depth_ratio", 2.0))


def geom(g):
    from py_fatigue.geometry import InfiniteSurface
    return InfiniteSurface(initial_depth=g["initial_depth"]) if g["type"] == "INF" else hol(g)


def rand_geom(rng):
    if rng.random() < 0.5:
        return {"type": "INF", "initial_depth": rng.choice([1.0, 0.5, 2.0, 3.3])}
    d = rng.choice([100.0, 250.0, 60.0])
    t = rng.choice([10.0, 20.0, 25.0])
    return {"type": "HOL", "initial_depth": rng.choice([1.0, 2.0, 4.0]), "outer_diameter": d, "thickness": t,
            "height": 500.0, "width_to_depth_ratio": rng.choice([1.5, 2.0, 2.5]), "crack_position": "external"}


def real_sif(g, obj):
    """stress intensity of the package for unit stress (its own property is P23)"""
    from py_fatigue.damage import crack_growth as cg
    from py_fatigue.utils import to_numba_dict
    d = to_numba_dict(obj.__dict__)
    t = str(obj._id)
    return lambda s, depth: cg.get_sif(float(s), float(depth), t, d)


def ref_split(counts):
    """number of whole steps is free in express mode; without it: whole cycles then the fraction"""
    out = []
    for c in counts:
        w = int(c)
        out.append([1.0] * w + ([c - w] if c - w > 0 else []) if w > 0 else [c])
    return out


def integrate(p, g, obj, ranges, counts):
    """-> depth, sif, factor, failed, ambiguous"""
    sif = real_sif(g, obj)
    a = g["initial_depth"]
    dep, ss, ff = [], [], []
    for s, n in zip(ranges, counts):
        k, y = sif(s, a)
        for lim in (p["threshold"], p["critical"]):
            if lim not in (0.0, INF) and abs(k / lim - 1) < 1e-9 and k != lim:
                return dep, ss, ff, None, True
        r = ref_rate(k, p)
        new = a + r * n
        if y == 0 or k >= p["critical"]:
            return dep, ss, ff, True, False
        if k >= p["threshold"]:
            if abs(new / a - 10) < 1e-6:
                return dep, ss, ff, None, True
            if new / a > 10:
                return dep, ss, ff, True, False
        dep.append(a)
        ss.append(k)
        ff.append(y)
        if k >= p["threshold"]:
            a = new
    return dep, ss, ff, False, False


@oracle("P21")
class Integration:
    def gen(self, rng, n):
        one = {"slope": [2.0], "intercept": [1e-3], "threshold": 0.0, "critical": INF}
        k = math.sqrt(math.pi)
        for th, cr in ((k, INF), (0.0, k), (k * 1.001, INF), (0.0, k * 0.999), (0.0, k * 1.0001), (k * 0.999, INF)):
            yield {"p": dict(one, threshold=th, critical=cr), "g": {"type": "INF", "initial_depth": 1.0},
                   "r": [1.0, 1.0, 2.0], "n": [1.0, 1.0, 1.0]}
        for c in (1e3, 1e4, 4e4):
            yield {"p": one, "g": {"type": "INF", "initial_depth": 1.0}, "r": [1.0, 30.0, 1.0], "n": [1.0, 1.0, 0.5],
                   "x": c}
            yield {"p": dict(one, intercept=[c * 1e-3]), "g": {"type": "INF", "initial_depth": 1.0},
                   "r": [1.0, 1.5, 1.0, 0.5], "n": [1.0, 0.5, 1.0, 1.0]}
        for _ in range(n):
            p = paris_params(rng)
            p["slope"] = [min(s, 4.0 + 0.3 * j) if len(p["slope"]) == 1 else s for j, s in enumerate(p["slope"])]
            g = rand_geom(rng)
            m = rng.choice([1, 3, 10, 40])
            top = rng.choice([20.0, 60.0, 200.0, 600.0])
            r = [0.0 if rng.random() < 0.05 else rng.uniform(0.02, 1.0) * top for _ in range(m)]
            c = [rng.choice([0.5, 1.0, 1.0]) for _ in range(m)]
            q = dict(p)
            if rng.random() < 0.7:
                # make the cracks grow
                f = math.exp(rng.uniform(0, 14))
                q["intercept"] = [v * f for v in p["intercept"]]
            yield {"p": q, "g": g, "r": r, "n": c}

    def check(self, c):
        from py_fatigue.damage.crack_growth import get_crack_growth
        p, g = c["p"], c["g"]
        obj = geom(g)
        cc = cc_of({"range": c["r"], "count": c["n"]})
        got = get_crack_growth(cc, paris(p), obj)
        dep, sif, fac = np.asarray(got.crack_depth), np.asarray(got.sif), np.asarray(got.geometry_factor)
        need(len(dep) == len(sif) == len(fac), "lengths %d, %d, %d", len(dep), len(sif), len(fac))
        d, s, f, failed, amb = integrate(p, g, obj, c["r"], c["n"])
        if amb:
            m = min(len(d), len(dep))
        else:
            need(bool(got.failure) == failed, "failure is %s instead of %s", got.failure, failed)
            need(len(dep) == len(d), "%d steps instead of %d", len(dep), len(d))
            m = len(d)
            need(close(got.final_cycles, sum(c["n"][:m])), "final cycles %r instead of %r", got.final_cycles,
                 sum(c["n"][:m]))
        if len(dep):
            need(dep[0] == g["initial_depth"], "starts at depth %r", dep[0])
        need(all(b >= a for a, b in zip(dep, dep[1:])), "the depth decreases")
        same_arr(dep[:m], d[:m], "depth", rel=1e-6)
        same_arr(sif[:m], s[:m], "stress intensity", rel=1e-6)
        same_arr(fac[:m], f[:m], "geometry factor", rel=1e-6)


@oracle("P22")
class Blocks:
    def gen(self, rng, n):
        for c in ([1.0], [0.5], [2.0], [2.5, 0.5], [10.0, 0.25, 1.0], [1.5, 1.5], [0.5, 0.5, 3.0], [100.0, 1.0],
                  [25.5, 123.0, 7.75]):
            for e in (False, True):
                yield self.case(rng, c, e)
        for _ in range(n):
            m = rng.choice([1, 2, 4, 8])
            c = [rng.choice([0.5, 1.0, 1.5, 2.0, 0.25, float(rng.randint(1, 40)), rng.randint(1, 400) / 4,
                             rng.uniform(0.05, 30)]) for _ in range(m)]
            yield self.case(rng, c, rng.random() < 0.5)
        yield dict(self.case(rng, [3000.5, 12.0], True))

    def case(self, rng, c, e):
        p = paris_params(rng)
        f = math.exp(rng.uniform(0, 12))
        p["intercept"] = [v * f for v in p["intercept"]]
        return {"p": p, "g": rand_geom(rng), "n": c, "r": [rng.uniform(2, 200) for _ in c], "e": e}

    def check(self, c):
        import pandas as pd
        from py_fatigue.damage import crack_growth as m
        pc, obj = paris(c["p"]), geom(c["g"])
        cc = cc_of({"range": c["r"], "count": c["n"]})
        got = m.get_crack_growth(cc, pc, obj, express_mode=c["e"])
        sr, cn = [float(v) for v in got.stress_range], [float(v) for v in got.count_cycle]
        ends = self.blocks(c, sr, cn)
        same_arr(cc.count_cycle, c["n"], "counts of the history")
        same_arr(cc.stress_range, c["r"], "ranges of the history")
        df = cc.to_df()
        df = df.cg.calc_growth(pc, obj, express_mode=c["e"])
        done = len(got.crack_depth)
        cum = np.cumsum(cn)
        for col, vals in (("crack_depth", got.crack_depth), ("sif", got.sif), ("geometry_factor", got.geometry_factor),
                          ("cumul_cycle", cum)):
            need(len(df[col]) == len(c["n"]), "%s has %d rows", col, len(df[col]))
            want = [float(vals[e]) if e < done else float("nan") for e in ends]
            same_arr(df[col].values, want, "data frame " + col, rel=1e-7)
        same_arr(df["count_cycle"].values, c["n"], "counts of the frame")
        same_arr(df["stress_range"].values, c["r"], "ranges of the frame")
        need(close(df.final_cycles, got.final_cycles), "final cycles of the frame")
        from py_fatigue.geometry.cylinder import Cylinder
        bad = [Cylinder(initial_depth=1.0, diameter=20.0, height=10.0),
               hol({"initial_depth": 1.0, "outer_diameter": 100.0, "thickness": 10.0, "crack_position": "internal"})]
        for b in bad:
            expect(ValueError, f"geometry {b._id}", lambda: m.get_crack_growth(cc, pc, b, express_mode=c["e"]))
            expect(ValueError, f"geometry {b._id}", lambda: cc.to_df().cg.calc_growth(pc, b, express_mode=c["e"]))
        for k in ("count_cycle", "mean_stress", "stress_range"):
            less = cc.to_df().drop(columns=k)
            expect(AttributeError, f"data frame without {k}", lambda: less.cg.calc_growth(pc, obj, express_mode=c["e"]))
        expect(AttributeError, "data frame with crack depths", lambda: df.cg.calc_growth(pc, obj, express_mode=c["e"]))
        expect(ValueError, "unit", lambda: m.get_crack_growth(cc_of({"range": c["r"], "count": c["n"]}, "kN"), pc, obj))

    def blocks(self, c, sr, cn):
        """positions of the last step of each block"""
        k, ends = 0, []
        need(len(sr) == len(cn), "%d ranges and %d counts", len(sr), len(cn))
        for b, (n, r) in enumerate(zip(c["n"], c["r"])):
            tot = 0.0
            while k < len(cn) and not (tot > 0 and close(tot, n, 1e-7)):
                need(sr[k] == r, "step %d of block %d at range %r instead of %r", k, b, sr[k], r)
                need(cn[k] > 0, "step %d has %r cycles", k, cn[k])
                if not c["e"]:
                    need(cn[k] <= 1 + 1e-9, "step %d has %r cycles", k, cn[k])
                tot += cn[k]
                k += 1
                need(tot <= n * (1 + 1e-7), "block %d has more than %r cycles", b, n)
            need(close(tot, n, 1e-7), "block %d has %r cycles instead of %r", b, tot, n)
            ends.append(k - 1)
        need(k == len(cn), "%d steps too many", len(cn) - k)
        return ends


@oracle("P23")
class Geometry:
    def gen(self, rng, n):
        for _ in range(n):
            g = {"type": "HOL", "outer_diameter": rng.uniform(40, 400), "thickness": 0, "initial_depth": 0,
                 "width_to_depth_ratio": rng.uniform(1.2, 3.0), "height": rng.uniform(10, 900)}
            g["thickness"] = g["outer_diameter"] / 2 * rng.uniform(0.1, 0.8)
            g["initial_depth"] = g["thickness"] * rng.uniform(0.05, 0.9)
            yield {"g": g, "d": g["thickness"] * rng.uniform(0.05, 0.999), "s": rng.uniform(0, 500),
                   "k": rng.choice([2.0, 0.5, 4.0, 16.0, 1.7, 0.3]), "f": rng.uniform(1.0, 3.0)}

    def check(self, c):
        import pydantic
        from py_fatigue.damage import crack_growth as m
        from py_fatigue.geometry import InfiniteSurface
        from py_fatigue.geometry.cylinder import HollowCylinder, Cylinder
        from py_fatigue.utils import to_numba_dict
        g, d, s, k = c["g"], c["d"], c["s"], c["k"]
        o = hol(g)
        nd = to_numba_dict(o.__dict__)
        y = m.get_geometry_factor(d, "HOL_CYL_01", nd)
        K, y2 = m.get_sif(s, d, "HOL_CYL_01", nd)
        need(str(o._id) == "HOL_CYL_01", "identifier %s", o._id)
        need(close(y, y2), "factor %r and %r", y, y2)
        if math.isfinite(y):
            need(y != 0, "factor is zero at depth %r of thickness %r", d, g["thickness"])
            need(close(K, s * math.sqrt(math.pi * d) * y, 1e-9), "stress intensity %r", K)
        for z in (g["thickness"], g["thickness"] * c["f"]):
            need(m.get_geometry_factor(z, "HOL_CYL_01", nd) == 0.0, "factor at depth %r of thickness %r", z,
                 g["thickness"])
            need(tuple(m.get_sif(s, z, "HOL_CYL_01", nd)) == (0.0, 0.0), "intensity beyond the thickness")
        big = dict(g, outer_diameter=g["outer_diameter"] * k, thickness=g["thickness"] * k,
                   initial_depth=g["initial_depth"] * k, height=g["height"] * k)
        y3 = m.get_geometry_factor(d * k, "HOL_CYL_01", to_numba_dict(hol(big).__dict__))
        exact = k in (2.0, 0.5, 4.0, 16.0)
        ratio = d / g["outer_diameter"]
        if exact or ratio > 0.05:
            need(close(y, y3, 1e-8 if exact else 1e-5), "factor %r becomes %r when lengths are scaled by %r", y, y3, k)
        i = InfiniteSurface(initial_depth=g["initial_depth"])
        ni = to_numba_dict(i.__dict__)
        need(m.get_geometry_factor(d, "INF_SUR_00", ni) == 1.0, "factor of the infinite surface")
        K, y = m.get_sif(s, d, "INF_SUR_00", ni)
        need(y == 1.0 and close(K, s * math.sqrt(math.pi * d), 1e-12), "intensity of the infinite surface %r", K)
        need(str(i._id) == "INF_SUR_00", "identifier %s", i._id)
        ri = g["outer_diameter"] / 2
        for what, b in (("thickness at the outer radius", dict(g, thickness=ri)),
                        ("thickness beyond the outer radius", dict(g, thickness=ri * c["f"])),
                        ("thickness at the initial depth", dict(g, thickness=g["initial_depth"])),
                        ("thickness below the initial depth", dict(g, thickness=g["initial_depth"] / c["f"])),
                        ("crack position", dict(g, crack_position="middle")),
                        ("crack position", dict(g, crack_position="External")),
                        ("zero thickness", dict(g, thickness=0.0)),
                        ("negative depth", dict(g, initial_depth=-1.0)),
                        ("zero depth", dict(g, initial_depth=0.0)),
                        ("zero height", dict(g, height=0.0)),
                        ("negative diameter", dict(g, outer_diameter=-5.0)),
                        ("zero width ratio", dict(g, width_to_depth_ratio=0.0))):
            expect(Exception, what, lambda: hol(b))
        expect(Exception, "zero depth", lambda: InfiniteSurface(initial_depth=0.0))
        expect(Exception, "negative depth", lambda: InfiniteSurface(initial_depth=-2.0))
        for b in (dict(diameter=0.0), dict(height=-1.0), dict(initial_depth=0.0)):
            expect(Exception, f"cylinder {b}", lambda: Cylinder(**dict(dict(initial_depth=1.0, diameter=2.0, height=3.0), **b)))
        hol(dict(g, crack_position="internal"))
        hol(dict(g, thickness=ri * (1 - 1e-9)))
        hol(dict(g, initial_depth=g["thickness"] * (1 - 1e-9)))
