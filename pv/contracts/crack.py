"""P21-P23: crack growth, splitting of blocks, geometries."""
from ..lib import *
from ..degree import Degrees
from .paris import a_curve, post_rate, ensure_posts, zero_or_more, log_of, method, OVER

G = "py_fatigue.geometry.cylinder:"
GG = "py_fatigue.geometry.generic:"
C = "py_fatigue.damage.crack_growth:"


# ---------------------------------------------------------------- P23: factors and intensities
def lengths(I, *names):
    r = [real(I, n) for n in names]
    for x in r:
        pre(I, rlt(0, x.v))
    return r


def cylinder_dict(D, t, w):
    return PyDict({"outer_diameter": D, "thickness": t, "width_to_depth_ratio": w})


@task("P23", [G + "f_hol_cyl_01"])
def factor_scales(I):
    """the factor has degree zero in the lengths; each value the function names is homogeneous"""
    D, t, d, w = lengths(I, "outer_diameter", "thickness", "depth", "width_ratio")
    dg = Degrees(I, {D.v: Fraction(1), t.v: Fraction(1), d.v: Fraction(1)})
    I.rename = dg.name
    try:
        r = callf(I, G + "f_hol_cyl_01", d, cylinder_dict(D, t, w))
    except PyExc:
        return dg.path()
    finally:
        I.rename = None
    dg.path()
    if not isinstance(r, Num):
        return ensure(I, "a number", False)
    dg.check("degree zero", r, 0)


@task("P23", [G + "f_hol_cyl_01"])
def factor_beyond_thickness(I):
    D, t, d, w = lengths(I, "outer_diameter", "thickness", "depth", "width_ratio")
    pre(I, rle(t.v, d.v))
    ensure_num(I, "zero", callf(I, G + "f_hol_cyl_01", d, cylinder_dict(D, t, w)), num(0))


def c_factor(I, b):
    d, g = num(b["crack_depth"]), b["crack_geometry"]
    if not isinstance(g, PyDict):
        raise Unsupported("geometry")
    D, t, w = (num(g.d[k]) for k in ("outer_diameter", "thickness", "width_to_depth_ratio"))
    f = z3.Function("FACTOR", R, R, R, R, R)
    return nite(le(t, d), num(0), Num(f(*[zr(x.v) for x in (d, D, t, w)]), isint=False))


FACTOR = {G + "f_hol_cyl_01": Contract(c_factor)}


@task("P23", [C + "get_geometry_factor", C + "get_sif"], contracts=FACTOR)
def intensity(I):
    D, t, d, w = lengths(I, "outer_diameter", "thickness", "depth", "width_ratio")
    s = real(I, "stress")
    geo = cylinder_dict(D, t, w)
    f = z3.Function("FACTOR", R, R, R, R, R)(*[zr(x.v) for x in (d, D, t, w)])
    root = T.sqrt(mul(Num(T.PI, isint=False), d))
    for kind, want in (("HOL_CYL_01", rite(rle(t.v, d.v), 0, f)), ("INF_SUR_00", 1)):
        ensure_num(I, kind + ":factor", callf(I, C + "get_geometry_factor", d, kind, geo), num(want))
        r = callf(I, C + "get_sif", s, d, kind, geo)
        if not isinstance(r, tuple) or len(r) != 2:
            return ensure(I, kind + ":two numbers", False)
        ensure_num(I, kind + ":factor of the intensity", r[1], num(want))
        ensure_num(I, kind + ":intensity", r[0], Num(rmul(rmul(s.v, root.v), want), isint=False))


@task("P23", [C + "get_geometry_factor"], contracts=FACTOR)
def unknown_geometry(I):
    D, t, d, w = lengths(I, "outer_diameter", "thickness", "depth", "width_ratio")
    kind = SymStr(z3.Const("kind", SymStr.Sort), other=True)
    expect_exc(I, "unknown geometry", "NotImplementedError",
               lambda: callf(I, C + "get_geometry_factor", d, kind, cylinder_dict(D, t, w)))


# ---------------------------------------------------------------- P23: validation
VALID = [G + "HollowCylinder.thickness_validator", G + "HollowCylinder.crack_position_validator"]


def rejected(I, name, thunk):
    """some exception, none of the kinds that mean a slip of the code itself"""
    try:
        thunk()
    except PyExc as e:
        return ensure(I, name + ":rejected", e.etype in ("ValidationError", "ValueError", "KeyError"))
    ensure(I, name + ":rejected", False)


def dims(I, *names):
    return {n: real(I, n) for n in names}


@task("P23", VALID)
def cylinder_accepted(I):
    k = dims(I, "initial_depth", "outer_diameter", "thickness", "height", "width_to_depth_ratio")
    for x in k.values():
        pre(I, rlt(0, x.v))
    pre(I, band(rlt(k["initial_depth"].v, k["thickness"].v), rlt(rmul(2, k["thickness"].v), k["outer_diameter"].v)))
    for pos, ident in (("internal", "HOL_CYL_00"), ("external", "HOL_CYL_01")):
        o = I.call(func(I, G + "HollowCylinder"), [], {**k, "crack_position": pos})
        for n, v in k.items():
            ensure_num(I, f"{pos}:{n}", I.getattr(o, n), v)
        ensure(I, f"{pos}:position", I.getattr(o, "crack_position") == pos)
        ensure(I, f"{pos}:identifier", I.getattr(o, "_id") == ident)


@task("P23", VALID)
def cylinder_rejected(I):
    """a non-positive dimension, or a thickness not between the initial depth and the outer radius"""
    k = dims(I, "initial_depth", "outer_diameter", "thickness", "height", "width_to_depth_ratio")
    pre(I, bor(*[rle(x.v, 0) for x in k.values()], rle(k["thickness"].v, k["initial_depth"].v),
               rle(k["outer_diameter"].v, rmul(2, k["thickness"].v))))
    rejected(I, "dimensions", lambda: I.call(func(I, G + "HollowCylinder"), [], {**k, "crack_position": "external"}))


@task("P23", VALID)
def position_rejected(I):
    k = dims(I, "initial_depth", "outer_diameter", "thickness", "height", "width_to_depth_ratio")
    pos = SymStr(z3.Const("position", SymStr.Sort), other=True)
    rejected(I, "position", lambda: I.call(func(I, G + "HollowCylinder"), [], {**k, "crack_position": pos}))


@task("P23", [G + "Cylinder.__post_init__", GG + "InfiniteSurface"])
def other_geometries(I):
    k = dims(I, "initial_depth", "diameter", "height")
    ok = band(*[rlt(0, x.v) for x in k.values()])
    make = lambda: I.call(func(I, G + "Cylinder"), [], k)
    if I.ctx.branch(ok):
        o = make()
        for n, v in k.items():
            ensure_num(I, "cylinder:" + n, I.getattr(o, n), v)
    else:
        rejected(I, "cylinder", make)
    make = lambda: I.call(func(I, GG + "InfiniteSurface"), [], {"initial_depth": k["initial_depth"]})
    if I.ctx.branch(rlt(0, k["initial_depth"].v)):
        o = make()
        ensure_num(I, "surface:initial_depth", I.getattr(o, "initial_depth"), k["initial_depth"])
        ensure(I, "surface:identifier", I.getattr(o, "_id") == "INF_SUR_00")
    else:
        rejected(I, "surface", make)


# ---------------------------------------------------------------- P21: growth rate of a step
SIFZ, SIFL = z3.Function("SIF_zero", R, R, B), z3.Function("ln_SIF", R, R, R)
GF = z3.Function("GF", R, R)
GROW = [C + "CalcCrackGrowth." + n for n in ("calc_growth_rate", "get_knees_sif")]


def sif_at(s, a):
    """zero or positive"""
    return Num(z3.If(SIFZ(zr(s), zr(a)), z3.RealVal(0), EXP(SIFL(zr(s), zr(a)))), isint=False)


def c_sif(I, b):
    """intensity and factor, P23: some numbers that depend on stress and depth"""
    s, a = num(b["stress_"]), num(b["crack_depth_"])
    require(I, "a depth", band(a.fin, rlt(0, a.v)))
    return sif_at(s.v, a.v), Num(GF(zr(a.v)), isint=False)


def grower(I, **fields):
    o = Obj(func(I, C + "CalcCrackGrowth"))
    o.fields.update(fields)
    return o


@task("P21", GROW, contracts={C + "get_sif": Contract(c_sif)})
def rate_of_step(I):
    cv = a_curve(I)
    s, a = real(I, "stress"), real(I, "depth")
    pre(I, rlt(0, a.v))
    K = inp(I, "intensity", sif_at(s.v, a.v))
    o = grower(I, slope=cv.slope, intercept=cv.icpt, threshold=cv.th, critical=cv.cr, crack_type="X",
               crack_geometry=PyDict({}))
    r = method(I, o, "calc_growth_rate", s, a)
    if not isinstance(r, tuple) or len(r) != 3:
        return ensure(I, "three numbers", False)
    l = log_of(K)[1]

    def hint(j):
        bins_at(I, 0, j - 1, j, j + 1, j + 2)
        cv.meet(I, j, l)
        cv.meet(I, j - 1, l)
    ensure_num(I, "intensity", r[1], K)
    ensure_num(I, "factor", r[2], Num(GF(a.v), isint=False))
    ensure_posts(I, post_rate(cv, K, num(r[0]), lambda f: some_k(I, cv.m, f)), cv.m, True, hint=hint)
    unchanged(I, "slope", cv.slope, cv.m, cv.l0)
    unchanged(I, "intercept", cv.icpt, cv.m, cv.i0)


# ---------------------------------------------------------------- P21: integration
RATE = z3.Function("RATE", R, R)


def c_growth_rate(I, b):
    """rate (P21 rate_of_step), intensity and factor at a stress and depth"""
    o = b["self"]
    th, cr = num(I.getattr(o, "threshold")), num(I.getattr(o, "critical"))
    s, a = num(b["stress_"]), num(b["crack_depth_"])
    require(I, "a depth", band(a.fin, rlt(0, a.v)))
    require(I, "a stress", band(s.fin, rle(0, s.v)))
    K = sif_at(s.v, a.v)
    I.ctx.assume(RATE(zr(K.v)) >= 0)
    return (Num(rite(lt(K, th), 0, RATE(zr(K.v))), lt(cr, K), False, False, False), K, Num(GF(zr(a.v)), isint=False))


class Growth:
    """the specification: depth a(k) before step k, and whether step k ends the calculation"""

    def __init__(self, I, n, s, c, a0, th, cr):
        self.n, self.s, self.c, self.th, self.cr = n, s, c, th, cr
        pre(I, rlt(0, a0.v))
        x, y = z3.Reals("x y")
        I.ctx.assume(z3.ForAll([x], RATE(x) >= 0, patterns=[RATE(x)]))
        self.a = SpecRec(I, "depth", n, a0.v, self.next, inv=lambda v: rlt(0, v))

    def K(self, k, a=None):
        return sif_at(self.s(k).v, self.a.at(k).v if a is None else a)

    def F(self, k):
        return Num(GF(self.a.at(k).v), isint=False)

    def next(self, k, a):
        K = self.K(k, a)
        return radd(a, rite(lt(K, self.th), 0, rmul(RATE(zr(K.v)), self.c(k).v)))

    def stop(self, k):
        K, a = self.K(k), self.a.at(k).v
        return bor(req(self.F(k).v, 0), le(self.cr, K),
                   band(le(self.th, K), rlt(rmul(10, a), radd(a, rmul(RATE(zr(K.v)), self.c(k).v)))))


def depth_inv(I, env, k, gs):
    sp = I.growth
    d, s, f = (env.vars[n] for n in ("the_depth", "the_sif", "the_factor"))
    return [("depths", all_k(I, radd(k, 1), lambda q: same(num(d.get(q)), sp.a.at(q)))),
            ("intensities", all_k(I, k, lambda q: same(num(s.get(q)), sp.K(q)))),
            ("factors", all_k(I, k, lambda q: same(num(f.get(q)), sp.F(q)))),
            ("goes on", all_k(I, k, lambda q: bnot(sp.stop(q))))]


def use_step(I, env, k, gs):
    I.ctx.instantiate(k)
    I.ctx.assume(zb(I.growth.a.step(k)))
    I.ctx.assume(zb(rlt(0, I.growth.a.at(k).v)))


@task("P21", [C + "CalcCrackGrowth.calc_crack_depth", C + "CalcCrackGrowth.size"],
      contracts={C + "CalcCrackGrowth.calc_growth_rate": Contract(c_growth_rate)},
      loops={(C + "CalcCrackGrowth.calc_crack_depth", 0): LoopSpec(depth_inv, pre_body=use_step, of=1)})
def integration(I):
    n = length(I, "n", 1)
    s, c = nonneg_arr(I, "stress", n), nonneg_arr(I, "cycles", n)
    s0, c0 = s._get, c._get
    cv = a_curve(I, ordered=False, distinct=False, m=1)
    a0 = real(I, "initial_depth")
    sp = I.growth = Growth(I, n, s0, c0, a0, cv.th, cv.cr)
    o = grower(I, stress_range=s, count_cycle=c, threshold=cv.th, critical=cv.cr,
               crack_geometry=PyDict({"initial_depth": a0}))
    r = method(I, o, "calc_crack_depth")
    if not isinstance(r, tuple) or len(r) != 4:
        return ensure(I, "four results", False)
    d, K, f, failed = r
    L = d.n
    ensure(I, "equal lengths", band(req(K.n, L), req(f.n, L)))
    ensure_all(I, "depths", L, lambda k: same(num(d.get(k)), sp.a.at(k)))
    ensure_all(I, "intensities", L, lambda k: same(num(K.get(k)), sp.K(k)))
    ensure_all(I, "factors", L, lambda k: same(num(f.get(k)), sp.F(k)))
    ensure_all(I, "goes on", L, lambda k: bnot(sp.stop(k)))
    t = I.truth(failed)
    ensure(I, "fails at the first stop", bimp(t, band(rlt(L, n), sp.stop(L))))
    ensure(I, "otherwise covers every step", bimp(bnot(t), req(L, n)))
    k, g = generic(I, L)
    I.ctx.assume(zb(sp.a.step(k)))
    ensure(I, "depth never decreases", bimp(band(g, rlt(k, n)), rle(sp.a.at(k).v, sp.a.at(k + 1).v)))
    unchanged(I, "stress", s, n, s0)
    unchanged(I, "cycles", c, n, c0)


def c_depth(I, b):
    """result of calc_crack_depth: three arrays of the same length, at most the number of steps"""
    o = b["self"]
    n = as_nd(I, I.getattr(o, "stress_range")).n
    L = I.ctx.fresh("steps", IS)
    I.ctx.assume(band(L >= 0, rle(L, n)))
    I.grown = tuple(fresh_arr(I, x, L) for x in ("depth", "sif", "factor")) + (I.ctx.fresh("failed", B),)
    return I.grown


DEPTH = {C + "CalcCrackGrowth.calc_crack_depth": Contract(c_depth)}


@task("P21", [C + "CalcCrackGrowth.__init__"], contracts=DEPTH)
def results(I):
    """what the calculation keeps, and the final number of cycles"""
    n, m = length(I, "n", 1), length(I, "m", 1)
    s, c = nonneg_arr(I, "stress", n), nonneg_arr(I, "cycles", n)
    cv = a_curve(I, ordered=False, distinct=False, m=m)
    s0, c0 = s._get, c._get
    geo = PyDict({"initial_depth": real(I, "initial_depth")})
    o = I.call(func(I, C + "CalcCrackGrowth"), [s, c, cv.slope, cv.icpt, cv.th, cv.cr, "INF_SUR_00", geo], {})
    d, K, f, failed = I.grown
    for nm, a, w in (("stress_range", s, s0), ("count_cycle", c, c0), ("slope", cv.slope, cv.l0), ("intercept", cv.icpt, cv.i0),
                     ("crack_depth", d, d._get), ("sif", K, K._get), ("geometry_factor", f, f._get)):
        ensure_arr(I, nm, I.getattr(o, nm), a.n, w)
    ensure_num(I, "threshold", I.getattr(o, "threshold"), cv.th)
    ensure_num(I, "critical", I.getattr(o, "critical"), cv.cr)
    ensure(I, "failure", biff(I.truth(I.getattr(o, "failure")), failed))
    ensure(I, "geometry", band(I.getattr(o, "crack_type") == "INF_SUR_00", I.getattr(o, "crack_geometry") is geo))
    ensure_num(I, "final cycles", I.getattr(o, "final_cycles"), NP.sum_closure(I, d.n, lambda k: c0(k)))


# ---------------------------------------------------------------- P22: blocks of cycles
CC = "py_fatigue.cycle_count.cycle_count:"
U = "py_fatigue.utils:"


def calculator(I, a, k):
    """stands for CalcCrackGrowth (P21): remembers what it is given"""
    names = ["stress_range", "count_cycle", "slope", "intercept", "threshold", "critical", "crack_type", "crack_geometry"]
    I.given = {**dict(zip(names, a)), **k}
    n = as_nd(I, I.given["stress_range"]).n
    L = I.ctx.fresh("steps", IS)
    I.ctx.assume(band(L >= 0, rle(L, n)))
    f = {nm: fresh_arr(I, nm, L) for nm in ("crack_depth", "sif", "geometry_factor")}
    I.made = Obj(func(I, CC + "CycleCount"), {**I.given, **f, "final_cycles": Num(I.ctx.fresh("final", R), isint=False),
                                              "failure": I.ctx.fresh("failed", B)})
    return I.made


CALC = {**OVER, C + "CalcCrackGrowth": Builtin("CalcCrackGrowth", calculator)}


def history(I, n, unit="MPa"):
    s, c = nonneg_arr(I, "range", n), pos_arr(I, "count", n)
    o = Obj(func(I, CC + "CycleCount"), {"stress_range": s, "count_cycle": c, "unit": unit})
    return o, s, c


def paris_obj(I, **kw):
    cv = a_curve(I)
    return I.call(func(I, "py_fatigue.material.crack_growth_curve:ParisCurve"), [cv.slope, cv.icpt],
                  {"threshold": cv.th, "critical": cv.cr, **kw}), cv


def surface(I):
    d = real(I, "initial_depth")
    pre(I, rlt(0, d.v))
    return I.call(func(I, GG + "InfiniteSurface"), [], {"initial_depth": d}), d


def blocks_kept(I, n, s0, c0, express):
    """the steps given to the calculation, block by block"""
    sr, cn = as_nd(I, I.given["stress_range"]), as_nd(I, I.given["count_cycle"])
    ensure(I, "as many counts as ranges", req(sr.n, cn.n))
    k, g = generic(I, n, "block")
    fl = cn.flat
    if fl is None:
        # one step per block
        ensure(I, "one step per block", req(cn.n, n))
        ensure(I, "range of a block", bimp(g, same(num(sr.get(k)), num(s0(k)))))
        ensure(I, "cycles of a block", bimp(g, same(num(cn.get(k)), num(c0(k)))))
        if not express:
            ensure(I, "no step exceeds one cycle", bimp(g, le(num(cn.get(k)), num(1))))
        return lambda q: num(q).v
    fl, blk = fl
    if blk is None:
        raise Unsupported("blocks of unknown content")
    b = blk(k)
    tot = b.total()
    if tot is None:
        raise Unsupported("sum of a block")
    p = I.ctx.fresh("step", IS)
    I.ctx.instantiate(p)
    inside = band(g, rle(fl.start(k), p), rlt(p, fl.start(k + 1)))
    I.ctx.assume(fl.within(k, p))
    ensure(I, "blocks fill the sequence", band(req(fl.start(z3.IntVal(0)), 0), req(fl.start(zi(n)), cn.n)))
    ensure(I, "a block has its steps", bimp(g, band(rle(fl.start(k), fl.start(k + 1)),
                                                    req(rsub(fl.start(k + 1), fl.start(k)), b.n))))
    ensure(I, "steps of a block", bimp(inside, same(num(cn.get(p)), num(b.get(rsub(p, fl.start(k)))).real())))
    ensure(I, "range of a block", bimp(inside, same(num(sr.get(p)), num(s0(k)))))
    ensure(I, "cycles of a block", bimp(g, req(name_divisions(I, tot).v, num(c0(k)).v)))
    if not express:
        ensure(I, "no step exceeds one cycle", bimp(inside, le(num(cn.get(p)), num(1))))
    return fl.start


SPLIT = [C + "get_crack_growth", U + "split", U + "to_numba_dict"]


def functional(I, express):
    n = length(I, "n", 1)
    o, s, c = history(I, n)
    s0, c0 = s._get, c._get
    pc, cv = paris_obj(I)
    geo, d = surface(I)
    r = callf(I, C + "get_crack_growth", o, pc, geo, express)
    ensure(I, "the calculation", r is I.made)
    blocks_kept(I, n, s0, c0, express)
    ensure(I, "curve", band(I.given["slope"] is cv.slope, I.given["intercept"] is cv.icpt,
                            same(num(I.given["threshold"]), cv.th), same(num(I.given["critical"]), cv.cr)))
    ensure(I, "kind", I.given["crack_type"] == "INF_SUR_00")
    g = I.given["crack_geometry"]
    ensure(I, "depth", isinstance(g, PyDict) and same(num(g.d["initial_depth"]), d))
    unchanged(I, "ranges", s, n, s0)
    unchanged(I, "counts", c, n, c0)


@task("P22", SPLIT, overrides=CALC)
def blocks(I):
    functional(I, False)


@task("P22", SPLIT, overrides=CALC)
def blocks_express(I):
    functional(I, True)


def hollow(I, pos):
    k = dims(I, "initial_depth", "outer_diameter", "thickness", "height", "width_to_depth_ratio")
    for x in k.values():
        pre(I, rlt(0, x.v))
    pre(I, band(rlt(k["initial_depth"].v, k["thickness"].v), rlt(rmul(2, k["thickness"].v), k["outer_diameter"].v)))
    return I.call(func(I, G + "HollowCylinder"), [], {**k, "crack_position": pos}), k


def unsupported_geometry(I):
    if I.ctx.choose(2) == 0:
        return hollow(I, "internal")[0]
    k = dims(I, "initial_depth", "diameter", "height")
    for x in k.values():
        pre(I, rlt(0, x.v))
    return I.call(func(I, G + "Cylinder"), [], k)


@task("P22", [C + "get_crack_growth", U + "to_numba_dict"], overrides=CALC)
def geometry_passed_on(I):
    """a hollow cylinder reaches the calculation with all its dimensions"""
    n = length(I, "n", 1)
    o, s, c = history(I, n)
    forall(I, n, lambda q: rle(c._get(q).v, 1))
    geo, k = hollow(I, "external")
    callf(I, C + "get_crack_growth", o, paris_obj(I)[0], geo)
    g = I.given["crack_geometry"]
    if not isinstance(g, PyDict):
        return ensure(I, "a dictionary", False)
    for nm, v in k.items():
        ensure(I, nm, nm in g.d and same(num(g.d[nm]), v))
    ensure(I, "kind", I.given["crack_type"] == "HOL_CYL_01")


CG_UNITS = [("kN", {}), ("ksi", {}), ("mpa", {}), ("MPa", {"unit_string": "ksi"}), ("Nm", {})]


@task("P22", [C + "get_crack_growth"], overrides=CALC)
def units_rejected(I):
    n = length(I, "n", 1)
    u, kw = CG_UNITS[I.ctx.choose(len(CG_UNITS))]
    o, s, c = history(I, n, u)
    pc = paris_obj(I, **kw)[0]
    geo, _ = surface(I)
    ex = bool(I.ctx.choose(2))
    expect_exc(I, f"history in {u}", "ValueError", lambda: callf(I, C + "get_crack_growth", o, pc, geo, ex))


@task("P22", [C + "get_crack_growth"], overrides=CALC)
def geometries_rejected(I):
    n = length(I, "n", 1)
    o, s, c = history(I, n)
    pc = paris_obj(I)[0]
    geo = unsupported_geometry(I)
    expect_exc(I, "geometry", "ValueError", lambda: callf(I, C + "get_crack_growth", o, pc, geo, bool(I.ctx.choose(2))))


# ---------------------------------------------------------------- P22: data frames
def block_frame(I):
    n = length(I, "n", 1)
    o, s, c = history(I, n)
    s.kind = c.kind = "series"
    df = DF(n, {"count_cycle": c, "mean_stress": arr(I, "mean", n, kind="series"), "stress_range": s}, {"_metadata": PyDict({"unit": "MPa"})})
    return df, n, s, c


def frame_growth(I, express):
    df, n, s, c = block_frame(I)
    s0, c0 = s._get, c._get
    pc, cv = paris_obj(I)
    geo, d = surface(I)
    acc = I.call(func(I, C + "CrackGrowth"), [df], {})
    r = method(I, acc, "calc_growth", pc, geo, express)
    if not isinstance(r, DF):
        return ensure(I, "a data frame", False)
    start = blocks_kept(I, n, s0, c0, express)
    ensure(I, "curve", band(I.given["slope"] is cv.slope, I.given["intercept"] is cv.icpt,
                            same(num(I.given["threshold"]), cv.th), same(num(I.given["critical"]), cv.cr)))
    ensure(I, "kind", I.given["crack_type"] == "INF_SUR_00")
    made = I.made.fields
    L = made["crack_depth"].n
    cn = as_nd(I, I.given["count_cycle"])
    cum = NP.np_cumsum(I, [Arr(L, cn._get, "f")], {})
    for col, want in (("crack_depth", made["crack_depth"]), ("sif", made["sif"]),
                      ("geometry_factor", made["geometry_factor"]), ("cumul_cycle", cum)):
        v = r.cols.get(col)
        if not isinstance(v, Arr):
            ensure(I, col + ":column", False)
            continue
        ensure(I, col + ":rows", req(v.n, n))
        k, g = generic(I, n, "row")
        last = rsub(start(k + 1), 1)
        x = num(v.get(k))
        ensure(I, col + ":state at the last step", bimp(band(g, rlt(last, L)), same(x, num(want.get(last)))))
        ensure(I, col + ":nothing for an unfinished block", bimp(band(g, rle(L, last)), x.na))
    ensure_num(I, "final cycles", r.attrs.get("final_cycles"), made["final_cycles"])
    for nm, a, w in (("count_cycle", c, c0), ("stress_range", s, s0)):
        ensure_arr(I, "column " + nm, r.cols[nm], n, w)


FRAME = [C + "CrackGrowth.calc_growth", C + "CrackGrowth._validate", C + "CrackGrowth.__init__", U + "split", U + "to_numba_dict"]


@task("P22", FRAME, overrides=CALC)
def frame_blocks(I):
    frame_growth(I, False)


@task("P22", FRAME, overrides=CALC)
def frame_blocks_express(I):
    frame_growth(I, True)


@task("P22", FRAME, overrides=CALC)
def frame_geometries_rejected(I):
    df, n, s, c = block_frame(I)
    pc = paris_obj(I)[0]
    geo = unsupported_geometry(I)
    acc = I.call(func(I, C + "CrackGrowth"), [df], {})
    expect_exc(I, "geometry", "ValueError", lambda: method(I, acc, "calc_growth", pc, geo, bool(I.ctx.choose(2))))


@task("P22", FRAME, overrides=CALC)
def frame_unfit(I):
    """a frame without one of the columns, or with crack depths in it already, is rejected"""
    df, n, s, c = block_frame(I)
    pc, geo = paris_obj(I)[0], surface(I)[0]
    gone = (("count_cycle",), ("mean_stress",), ("stress_range",), ("count_cycle", "stress_range"), ())[I.ctx.choose(5)]
    for k in gone:
        del df.cols[k]
    if not gone:
        df.cols["crack_depth"] = arr(I, "crack_depth", n)
    expect_exc(I, f"frame of {', '.join(df.cols)}", "AttributeError",
               lambda: method(I, I.call(func(I, C + "CrackGrowth"), [df], {}), "calc_growth", pc, geo, False))
