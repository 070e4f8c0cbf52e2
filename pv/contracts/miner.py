"""P15-P18: damage from cycle histories."""
from ..lib import *
from . import sn

M = "py_fatigue.damage.stress_life:"
CC = "py_fatigue.cycle_count.cycle_count:"
SNC = "py_fatigue.material.sn_curve:"

LNLIFE = z3.Function("LNLIFE", R, R)
LIFEINF = z3.Function("LIFEINF", R, B)


def life(s):
    """life of the curve at a stress range: by P12 a function of the range alone, positive, infinite at zero"""
    return Num(EXP(LNLIFE(zr(s))), bor(req(s, 0), LIFEINF(zr(s))), False, False, False)


def c_get_cycles(I, b):
    s = as_nd(I, b["stress_range"])
    k, g = generic(I, s.n)
    require(I, "stress not empty", rlt(0, s.n))
    sk = num(s.get(k))
    require(I, "non-negative stress", bimp(g, band(sk.fin, rle(0, sk.v))))
    sg = NP.raw_snap(s)
    return Arr(s.n, lambda i: life(num(sg(i)).v), "f")


LIFE = {SNC + "SNCurve.get_cycles": Contract(c_get_cycles)}


def curve(I, unit="MPa", slope=None):
    """an SN curve; only its unit, slopes and its get_cycles are used"""
    cls = func(I, SNC + "SNCurve")
    m = length(I, "m", 1)
    f = {"_AbstractSNCurve__unit": unit, "_AbstractSNCurve__slope": pos_arr(I, "slope", m) if slope is None else slope,
         "_AbstractSNCurve__linear": (m == 1) if slope is None else True}
    return Obj(cls, f)


def history(I, n=None, unit="MPa", positive_ranges=False):
    n = length(I, "n", 1) if n is None else n
    s = pos_arr(I, "stress_range", n) if positive_ranges else nonneg_arr(I, "stress_range", n)
    c = nonneg_arr(I, "count_cycle", n)
    mean = arr(I, "mean_stress", n)
    o = Obj(func(I, CC + "CycleCount"), {"stress_range": s, "count_cycle": c, "mean_stress": mean, "unit": unit})
    return o, n, s, c, mean


def frame(I, unit="MPa", **kw):
    o, n, s, c, mean = history(I, unit=unit, **kw)
    df = DF(n, {"count_cycle": c, "mean_stress": mean, "stress_range": s},
            {"_metadata": PyDict({"unit": unit})})
    return df, n, s, c


def ratio(c, s):
    """count over life, zero for infinite life"""
    L = life(s.v)
    return nite(L.pi, num(0), div(c, Num(L.v, isint=False)))


def check_damage(I, r, n, s0, c0):
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, g = generic(I, n)
    ensure(I, "count over life", bimp(g, same(num(r.get(k)), ratio(c0(k), s0(k)))))
    v = num(r.get(k))
    ensure(I, "not negative", bimp(g, band(v.fin, rle(0, v.v))))


@task("P15", [M + "calc_pm"], contracts=LIFE)
def pm_arrays(I):
    o, n, s, c, _ = history(I)
    s0, c0 = s._get, c._get
    r = callf(I, M + "calc_pm", s, c, curve(I))
    check_damage(I, r, n, s0, c0)
    unchanged(I, "stress_range", s, n, s0)
    unchanged(I, "count_cycle", c, n, c0)


@task("P15", [M + "get_pm"], contracts=LIFE)
def pm_history(I):
    o, n, s, c, _ = history(I)
    s0, c0 = s._get, c._get
    r = callf(I, M + "get_pm", o, curve(I))
    check_damage(I, r, n, s0, c0)


@task("P15", [M + "PalmgrenMiner.damage", M + "PalmgrenMiner._validate"], contracts=LIFE)
def pm_frame(I):
    df, n, s, c = frame(I)
    s0, c0 = s._get, c._get
    acc = I.call(func(I, M + "PalmgrenMiner"), [df], {})
    r = I.call(I.getattr(acc, "damage"), [curve(I)], {})
    if not isinstance(r, DF):
        return ensure(I, "result is a data frame", False)
    col = r.cols.get("pm_damage")
    if col is None:
        return ensure(I, "damage column", False)
    check_damage(I, col, n, s0, c0)
    L = r.cols.get("cycles_to_failure")
    if not isinstance(L, Arr):
        return ensure(I, "life column", False)
    k, g = generic(I, n)
    ensure(I, "life column", bimp(g, same(num(L.get(k)), life(s0(k).v))))


UNITS = [("MPa", "ksi"), ("Pa", "MPa"), ("MPa", "Pa"), ("mpa", "MPa"), ("MPa", "MPa "), ("", "MPa"), ("kN", "m")]


@task("P15", [M + "get_pm"], contracts=LIFE)
def pm_units(I):
    u, w = UNITS[I.ctx.choose(len(UNITS))]
    o, n, s, c, _ = history(I, unit=u)
    expect_exc(I, f"history in {u!r}, curve in {w!r}", "ValueError",
               lambda: callf(I, M + "get_pm", o, curve(I, unit=w)))


@task("P15", [M + "PalmgrenMiner.damage"], contracts=LIFE)
def pm_frame_units(I):
    u, w = UNITS[I.ctx.choose(len(UNITS))]
    df, n, s, c = frame(I, unit=u)
    acc = I.call(func(I, M + "PalmgrenMiner"), [df], {})
    cv = curve(I, unit=w)
    expect_exc(I, f"data frame in {u!r}, curve in {w!r}", "ValueError",
               lambda: I.call(I.getattr(acc, "damage"), [cv], {}))


COLUMNS = ("count_cycle", "mean_stress", "stress_range")
UNFIT = [[k for k in COLUMNS if k not in gone] for gone in ((COLUMNS[0],), (COLUMNS[1],), (COLUMNS[2],), COLUMNS[:2], COLUMNS)]


def unfit(I, cls, method, column):
    """a frame without one of the columns, or with the result in it already, is rejected"""
    names = (UNFIT + [list(COLUMNS) + [column]])[I.ctx.choose(len(UNFIT) + 1)]
    n = length(I, "n", 1)
    cols = {k: arr(I, k, n) for k in names}
    for k in ("stress_range", "count_cycle"):
        if k in cols:
            forall(I, n, lambda i, g=cols[k]._get: rle(0, num(g(i)).v))
    df = DF(n, cols, {"_metadata": PyDict({"unit": "MPa"})})
    cv = curve(I, slope=NP.const_arr([positive(I, "slope")], "nd"))
    expect_exc(I, f"frame of {', '.join(names)}", "AttributeError",
               lambda: I.call(I.getattr(I.call(func(I, M + cls), [df], {}), method), [cv], {}))


@task("P15", [M + "PalmgrenMiner.damage", M + "PalmgrenMiner._validate"], contracts=LIFE)
def pm_unfit_frames(I):
    unfit(I, "PalmgrenMiner", "damage", "cycles_to_failure")


@task("P17", [M + "Gassner.g", M + "Gassner._validate"])
def gassner_unfit_frames(I):
    unfit(I, "Gassner", "g", "shift_factor")


@task("P15", [M + "calc_pm"], contracts=LIFE)
def pm_lengths(I):
    n, m = length(I, "n", 1), length(I, "p", 1)
    pre(I, n != m)
    s, c = nonneg_arr(I, "stress_range", n), nonneg_arr(I, "count_cycle", m)
    expect_exc(I, "arrays of different length", "ValueError", lambda: callf(I, M + "calc_pm", s, c, curve(I)))


# ---------------------------------------------------------------- P16
def weighted(I, s0, c0, n, slope):
    """count-weighted sum of the ranges to the slope"""
    def term(k):
        z, l = sn.log_of(s0(k))
        p = rite(z, 0, rexp(rmul(slope.v, l)))
        return Num(rmul(c0(k).v, p), isint=False)
    return NP.sum_closure(I, n, term, "weighted")


def check_des(I, v, n, s0, c0, slope, neq, factor=None):
    """(v / factor)^slope * equivalent cycles == weighted sum"""
    if not isinstance(v, Num):
        return ensure(I, "result is a number", False)
    W = weighted(I, s0, c0, n, slope)
    if isinstance(I.ctx.sums[-1].s, z3.ExprRef):
        for r in I.ctx.sums[:-1]:
            NP.sum_linear(I, I.ctx.sums[-1], [(neq.v, r)])
    ensure(I, "finite", v.fin)
    ensure(I, "zero for no damage", bimp(req(W.v, 0), req(v.v, 0)))
    d = v.v if factor is None else rdiv(v.v, factor)
    ensure(I, "positive otherwise", bimp(rlt(0, W.v), rlt(0, d)))
    p = leaves(v.v, lambda x: rexp(rmul(slope.v, rlog(x))) if isc(x) and x > 0 or not isc(x) else 0)
    ensure(I, "equal damage", bimp(rlt(0, W.v), req(p, rdiv(W.v, neq.v))))


def des_inputs(I):
    slope, neq = positive(I, "slope"), positive(I, "equivalent_cycles")
    return slope, neq


@task("P16", [M + "calc_des"])
def des_arrays(I):
    o, n, s, c, _ = history(I)
    s0, c0 = s._get, c._get
    slope, neq = des_inputs(I)
    v = callf(I, M + "calc_des", s, c, slope, neq)
    check_des(I, v, n, s0, c0, slope, neq)


def des_value(I, s0, c0, n, slope, neq):
    """the only non-negative number with the property checked by check_des"""
    W = weighted(I, s0, c0, n, slope)
    return Num(rite(req(W.v, 0), 0, rexp(rdiv(rsub(rlog(W.v), rlog(neq.v)), slope.v))), isint=False)


def c_des(I, b):
    s, c = as1(I, b["stress_range"]), as1(I, b["count_cycle"])
    slope, neq = num(b["slope"]), num(b["equivalent_cycles"])
    require(I, "one count per range", req(s.n, c.n))
    require(I, "positive slope and cycles", band(slope.fin, rlt(0, slope.v), neq.fin, rlt(0, neq.v)))
    k, g = generic(I, s.n)
    x, y = num(s.get(k)), num(c.get(k))
    require(I, "non-negative ranges and counts", bimp(g, band(x.fin, y.fin, rle(0, x.v), rle(0, y.v))))
    return des_value(I, NP.raw_snap(s), NP.raw_snap(c), s.n, slope, neq)


def as1(I, v):
    if not isinstance(v, Arr):
        raise Unsupported("array expected")
    return v


DES = {M + "calc_des": Contract(c_des)}


def same_des(I, v, s0, c0, n, slope, neq, factor=None):
    if not isinstance(v, Num):
        return ensure(I, "result is a number", False)
    want = des_value(I, s0, c0, n, slope, neq)
    if factor is not None:
        want = mul(want, factor)
    ensure_num(I, "equivalent stress" if factor is None else "stress times section modulus", v, want)


@task("P16", [M + "get_des"], contracts=DES)
def des_history(I):
    o, n, s, c, _ = history(I)
    s0, c0 = s._get, c._get
    slope, neq = des_inputs(I)
    same_des(I, callf(I, M + "get_des", o, slope, neq), s0, c0, n, slope, neq)


@task("P16", [M + "get_des"], contracts=DES)
def des_default_cycles(I):
    o, n, s, c, _ = history(I)
    s0, c0 = s._get, c._get
    slope, neq = des_inputs(I)
    same_des(I, callf(I, M + "get_des", o, slope), s0, c0, n, slope, num(10 ** 7))
    same_des(I, callf(I, M + "calc_des", s, c, slope), s0, c0, n, slope, num(10 ** 7))


@task("P16", [M + "PalmgrenMiner.des"], contracts=DES)
def des_frame(I):
    df, n, s, c = frame(I)
    s0, c0 = s._get, c._get
    slope, neq = des_inputs(I)
    acc = I.call(func(I, M + "PalmgrenMiner"), [df], {})
    same_des(I, I.call(I.getattr(acc, "des"), [slope, neq], {}), s0, c0, n, slope, neq)
    asked(I, acc, "des_data", slope=slope, equivalent_cycles=neq)
    seven = Num(10 ** 7, isint=False)
    same_des(I, I.call(I.getattr(acc, "des"), [slope], {}), s0, c0, n, slope, seven)
    asked(I, acc, "des_data", slope=slope, equivalent_cycles=seven)


def asked(I, acc, field, **want):
    """the accessor keeps what it was last asked with"""
    d = I.getattr(acc, field)
    if not isinstance(d, PyDict):
        return ensure(I, field, False)
    for k, v in want.items():
        if k in d.d:
            ensure_num(I, f"{field}: {k}", d.d[k], v)
        else:
            ensure(I, f"{field}: {k}", False)


def radii(I):
    ri, h = inp(I, "inner_radius", Num(z3.Real("ri"), isint=False)), positive(I, "wall")
    pre(I, z3.Real("ri") >= 0)
    ro = inp(I, "outer_radius", Num(zr(ri.v) + zr(h.v), isint=False))
    return ro, ri


def modulus(ro, ri):
    """section modulus of the annulus, times 1e6 (MPa to Pa)"""
    p4 = lambda x: rmul(rmul(x, x), rmul(x, x))
    num_ = rmul(rmul(PI, Fraction(1, 4)), rsub(p4(ro.v), p4(ri.v)))
    return Num(rdiv(rmul(num_, 10 ** 6), ro.v), isint=False)


@task("P16", [M + "calc_dem"], contracts=DES)
def dem_arrays(I):
    o, n, s, c, _ = history(I)
    s0, c0 = s._get, c._get
    slope, neq = des_inputs(I)
    ro, ri = radii(I)
    same_des(I, callf(I, M + "calc_dem", ro, ri, s, c, slope, neq), s0, c0, n, slope, neq, modulus(ro, ri))


@task("P16", [M + "get_dem"], contracts=DES)
def dem_history(I):
    o, n, s, c, _ = history(I)
    s0, c0 = s._get, c._get
    slope, neq = des_inputs(I)
    ro, ri = radii(I)
    same_des(I, callf(I, M + "get_dem", ro, ri, o, slope, neq), s0, c0, n, slope, neq, modulus(ro, ri))


@task("P16", [M + "PalmgrenMiner.dem"], contracts=DES)
def dem_frame(I):
    df, n, s, c = frame(I)
    s0, c0 = s._get, c._get
    slope, neq = des_inputs(I)
    ro, ri = radii(I)
    acc = I.call(func(I, M + "PalmgrenMiner"), [df], {})
    same_des(I, I.call(I.getattr(acc, "dem"), [ro, ri, slope, neq], {}), s0, c0, n, slope, neq, modulus(ro, ri))
    asked(I, acc, "dem_data", outer_radius=ro, inner_radius=ri, slope=slope, equivalent_cycles=neq)
    seven = Num(10 ** 7, isint=False)
    same_des(I, I.call(I.getattr(acc, "dem"), [ro, ri, slope], {}), s0, c0, n, slope, seven, modulus(ro, ri))
    asked(I, acc, "dem_data", outer_radius=ro, inner_radius=ri, slope=slope, equivalent_cycles=seven)


@task("P16", [M + "calc_dem"], contracts=DES)
def dem_radii(I):
    o, n, s, c, _ = history(I)
    slope, neq = des_inputs(I)
    ro, ri = positive(I, "outer_radius"), positive(I, "inner_radius")
    pre(I, le(ro, ri))
    expect_exc(I, "radii in the wrong order", "ValueError",
               lambda: callf(I, M + "calc_dem", ro, ri, s, c, slope, neq))


# ---------------------------------------------------------------- P17
@task("P17", [M + "Gassner.g", M + "Gassner._validate"])
def gassner(I):
    n = length(I, "n", 1)
    s, c = arr(I, "stress_range", n), arr(I, "count_cycle", n)
    s0, c0 = s._get, c._get
    forall(I, n, lambda k: band(rle(0, s0(k).v), rle(0, c0(k).v)))
    slope = positive(I, "slope")
    w, wc = z3.Ints("largest counted")
    pre(I, band(w >= 0, w < n, rlt(0, s0(w).v)))
    forall(I, n, lambda k: rle(s0(k).v, s0(w).v))
    pre(I, band(wc >= 0, wc < n, rlt(0, c0(wc).v)))
    df = DF(n, {"count_cycle": c, "mean_stress": arr(I, "mean_stress", n), "stress_range": s})
    tot = NP.sum_closure(I, n, lambda k: c0(k), "total")
    NP.sum_ge_term(I, I.ctx.sums[-1], wc)
    ensure(I, "total count is positive", rlt(0, tot.v))
    acc = I.call(func(I, M + "Gassner"), [df], {})
    r = I.call(I.getattr(acc, "g"), [curve(I, slope=NP.const_arr([slope], "nd"))], {})
    col = r.cols.get("shift_factor") if isinstance(r, DF) else None
    if not isinstance(col, Arr):
        return ensure(I, "shift factor column", False)
    ensure(I, "length", req(col.n, n))
    k, g = generic(I, n)
    v = num(col.get(k))
    x = rdiv(s0(k).v, s0(w).v)
    p = rite(rlt(0, x), rexp(rmul(slope.v, rlog(x))), 0)
    ensure(I, "share of the count times relative stress", bimp(g, band(v.fin, req(v.v, rmul(rdiv(c0(k).v, tot.v), p)))))


@task("P17", [M + "Gassner.g"])
def gassner_slopes(I):
    df, n, s, c = frame(I)
    acc = I.call(func(I, M + "Gassner"), [df], {})
    cv = curve(I)
    pre(I, z3.Int("m") >= 2)
    expect_exc(I, "several slopes", "AssertionError", lambda: I.call(I.getattr(acc, "g"), [cv], {}))


# ---------------------------------------------------------------- P18
def last_one(n, f):
    return lambda k: nite(req(k, rsub(n, 1)), num(Fraction(1)), f(k))


def mh_exp(L, p, n):
    """(L(k) / L(k+1))^p; the lives are finite and positive"""
    return last_one(n, lambda k: Num(rexp(rmul(p, rsub(rlog(L(k)), rlog(L(radd(k, 1)))))), isint=False))


def si_exp(s0, n):
    return last_one(n, lambda k: Num(rexp(rsub(rlog(s0(radd(k, 1)).v), rlog(s0(k).v))), isint=False))


def pav_exp(s0, u, p, n):
    """((s(k+1)/2/u)^p / (s(k)/2/u)^p"""
    half = rlog(rmul(2, u))
    q = lambda k: rmul(p, rsub(rlog(s0(k).v), half))
    return last_one(n, lambda k: Num(rexp(rsub(q(radd(k, 1)), q(k))), isint=False))


def pos_finite(I, what, a, *more):
    k, g = generic(I, a.n)
    x = num(a.get(k))
    require(I, f"positive {what}", bimp(g, band(x.fin, rlt(0, x.v))))
    require(I, f"some {what}", rlt(0, a.n))


def c_mh(I, b):
    a, p = as1(I, b["cycles_to_failure"]), num(b["exponent"])
    pos_finite(I, "lives", a)
    require(I, "finite exponent", p.fin)
    g = NP.raw_snap(a)
    return Arr(a.n, mh_exp(lambda k: num(g(k)).v, p.v, a.n), "f")


def c_si(I, b):
    a = as1(I, b["stress_range"])
    pos_finite(I, "ranges", a)
    return Arr(a.n, si_exp(NP.raw_snap(a), a.n), "f")


def c_pav(I, b):
    a, u, p = as1(I, b["stress_range"]), num(b["ultimate_stress"]), num(b["exponent"])
    pos_finite(I, "ranges", a)
    require(I, "positive ultimate stress", band(u.fin, rlt(0, u.v), p.fin))
    return Arr(a.n, pav_exp(NP.raw_snap(a), u.v, p.v, a.n), "f")


def c_pm(I, b):
    s, c = as1(I, b["stress_range"]), as1(I, b["count_cycle"])
    require(I, "one count per range", band(req(s.n, c.n), rlt(0, s.n)))
    k, g = generic(I, s.n)
    x, y = num(s.get(k)), num(c.get(k))
    require(I, "non-negative ranges and counts", bimp(g, band(x.fin, y.fin, rle(0, x.v), rle(0, y.v))))
    s1, c1 = NP.raw_snap(s), NP.raw_snap(c)
    return Arr(s.n, lambda k: ratio(num(c1(k)), num(s1(k))), "f")


NONLIN = {M + "calc_pm": Contract(c_pm), M + "calc_manson_halford_exponents": Contract(c_mh),
          M + "calc_si_jian_exponents": Contract(c_si), M + "calc_pavlou_exponents": Contract(c_pav), **LIFE}


@task("P18", [M + "calc_manson_halford_exponents"])
def exponents_manson_halford(I):
    n = length(I, "n", 1)
    L, p = pos_arr(I, "cycles_to_failure", n), real(I, "exponent")
    L0 = L._get
    ensure_arr(I, "exponents", callf(I, M + "calc_manson_halford_exponents", L, p), n,
               mh_exp(lambda k: L0(k).v, p.v, n))
    ensure_arr(I, "default exponents", callf(I, M + "calc_manson_halford_exponents", L), n,
               mh_exp(lambda k: L0(k).v, Fraction(4, 10), n))


@task("P18", [M + "calc_si_jian_exponents"])
def exponents_si_jian(I):
    n = length(I, "n", 1)
    s = pos_arr(I, "stress_range", n)
    s0 = s._get
    ensure_arr(I, "exponents", callf(I, M + "calc_si_jian_exponents", s), n, si_exp(s0, n))


@task("P18", [M + "calc_pavlou_exponents"])
def exponents_pavlou(I):
    n = length(I, "n", 1)
    s, u, p = pos_arr(I, "stress_range", n), positive(I, "ultimate_stress"), real(I, "exponent")
    s0 = s._get
    ensure_arr(I, "exponents", callf(I, M + "calc_pavlou_exponents", s, u, p), n, pav_exp(s0, u.v, p.v, n))
    ensure_arr(I, "default exponents", callf(I, M + "calc_pavlou_exponents", s), n,
               pav_exp(s0, 900, Fraction(-3, 4), n))


def follow(I, v, n, s0, c0, e, name):
    """v is the last term of D(k+1) = (D(k) + count/life)^e(k)"""
    if not isinstance(v, Num):
        return ensure(I, name + ": result is a number", False)

    def step(k, d):
        x = radd(d, ratio(c0(k), s0(k)).v)
        if isc(e(k).v) and e(k).v == 2:
            return rmul(x, x)
        return rite(rlt(0, x), rexp(rmul(rlog(x), e(k).v)), 0)
    D = SpecRec(I, "damage", n, 0, step, lambda d: rle(0, d))
    agree(I, D, n)
    ensure_num(I, name, v, D.at(n))


RULES = {"leve": ["Leve", "leve"], "si": ["Si-Jian", "si jian", "Si Jian et al"], "pavlou": ["Pavlou", "PAVLOU"],
         "manson": ["Manson-Halford", "manson", "Manson and Halford"]}


def rule_task(rule, names, defaults):
    def t(I):
        o, n, s, c, _ = history(I, positive_ranges=rule != "leve")
        s0, c0 = s._get, c._get
        cv = curve(I)
        kw, p, u = {}, None, None
        if rule == "leve":
            p = positive(I, "base_exponent")
            d = num(2)
        elif rule == "manson":
            p, d = real(I, "base_exponent"), num(Fraction(4, 10))
            forall(I, n, lambda k: bnot(LIFEINF(zr(s0(k).v))))
        elif rule == "pavlou":
            p, d = real(I, "base_exponent"), num(Fraction(-3, 4))
            u = positive(I, "ultimate_stress")
        if defaults:
            if p is not None:
                p = d
            if u is not None:
                u = num(900)
        else:
            if p is not None:
                kw["base_exponent"] = p
            if u is not None:
                kw["ultimate_stress"] = u
        e = {"leve": lambda: (lambda k: p), "si": lambda: si_exp(s0, n),
             "manson": lambda: mh_exp(lambda k: life(s0(k).v).v, p.v, n),
             "pavlou": lambda: pav_exp(s0, u.v, p.v, n)}[rule]()
        j = I.ctx.choose(len(names) + 1)
        if j < len(names):
            v = callf(I, M + "calc_nonlinear_damage", names[j], s, c, cv, **kw)
            follow(I, v, n, s0, c0, e, f"damage of {names[j]}")
        else:
            v = callf(I, M + "get_nonlinear_damage", names[0], o, cv, **kw)
            follow(I, v, n, s0, c0, e, f"damage of a history, {names[0]}")
        unchanged(I, "stress_range", s, n, s0)
        unchanged(I, "count_cycle", c, n, c0)
    t.__name__ = f"{rule}_{'defaults' if defaults else 'damage'}"
    task("P18", [M + "calc_nonlinear_damage", M + "get_nonlinear_damage"], contracts=NONLIN)(t)


for _r, _n in RULES.items():
    rule_task(_r, _n, False)
    if _r != "si":
        rule_task(_r, _n[:1], True)


@task("P18", [M + "calc_nonlinear_damage", M + "get_nonlinear_damage"], contracts=NONLIN)
def rejected(I):
    o, n, s, c, _ = history(I)
    cv = curve(I)
    for bad in ("miner", "Leve ", "", "si_jian"):
        expect_exc(I, f"rule {bad!r}", "ValueError", lambda: callf(I, M + "calc_nonlinear_damage", bad, s, c, cv))
        expect_exc(I, f"rule {bad!r} for a history", "ValueError",
                   lambda: callf(I, M + "get_nonlinear_damage", bad, o, cv))


@task("P18", [M + "get_nonlinear_damage"], contracts=NONLIN)
def rejected_units(I):
    u, w = UNITS[I.ctx.choose(len(UNITS))]
    o, n, s, c, _ = history(I, unit=u)
    p = positive(I, "base_exponent")
    other = curve(I, unit=w)
    for r, names in RULES.items():
        expect_exc(I, f"history in {u!r}, curve in {w!r}, {r}", "ValueError",
                   lambda: callf(I, M + "get_nonlinear_damage", names[0], o, other, base_exponent=p))
