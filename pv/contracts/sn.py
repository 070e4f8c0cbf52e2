"""P12-P14: SN curves."""
from ..lib import *

M = "py_fatigue.material.sn_curve:"
LN10 = rlog(10)
OVER = {M + "_set_color": Builtin("_set_color", lambda I, a, k: ("#000", None))}


# ---------------------------------------------------------------- what the property says, in logarithms
def seg_life(ln_s, slope, icpt):
    """logarithm of 10^intercept * S^-slope"""
    return rsub(rmul(icpt.v, LN10), rmul(slope.v, ln_s))


def seg_stress(ln_n, slope, icpt):
    return rdiv(rsub(rmul(icpt.v, LN10), ln_n), slope.v)


def post_life(I, s, ln_s, zero, v, slope, icpt, m, end, exists):
    """facts about the life v at stress s (ln_s its logarithm unless zero)"""
    L = lambda j: rexp(seg_life(ln_s, slope.get(j), icpt.get(j)))
    beyond = lambda j: band(end.fin, rlt(end.v, L(j)))
    return [
        ("not nan", band(bnot(v.na), bnot(v.ni))),
        ("zero stress", bimp(zero, v.pi)),
        ("not below a segment", lambda j: bimp(band(bnot(zero), bnot(v.pi)), rle(L(j), v.v))),
        ("life of a segment", bor(zero, v.pi, exists(lambda j: req(v.v, L(j))))),
        ("infinite beyond the endurance", lambda j: bimp(band(bnot(zero), beyond(j)), v.pi)),
        ("infinite only beyond the endurance", bor(zero, bnot(v.pi), exists(beyond))),
        ("positive", bor(v.pi, rlt(0, v.v))),
    ]


def post_stress(I, n, v, slope, icpt, m, end, exists):
    """facts about the stress v at n > 0 cycles (held beyond the endurance)"""
    e = nite(lt(end, n), end, n)
    T = lambda j: rexp(seg_stress(rlog(e.v), slope.get(j), icpt.get(j)))
    return [
        ("finite", v.fin),
        ("zero at infinite life", bimp(e.pi, req(v.v, 0))),
        ("not below a segment", lambda j: bimp(e.fin, rle(T(j), v.v))),
        ("stress of a segment", bor(e.pi, exists(lambda j: req(v.v, T(j))))),
        ("positive", bor(e.pi, rlt(0, v.v))),
    ]


def ensure_posts(I, posts, m, g, tag=""):
    for nm, c in posts:
        if callable(c):
            j, gj = generic(I, m, "j")
            ensure(I, tag + nm, bimp(band(g, gj), c(j)))
        else:
            ensure(I, tag + nm, bimp(g, c))


def assume_posts(I, posts_of, n, m):
    """posts_of(k) for all k < n"""
    ctx = I.ctx
    k = z3.Int(ctx.fresh_name("k"))
    j = z3.Int(ctx.fresh_name("j"))
    g = band(k >= 0, rlt(k, n))
    for nm, c in posts_of(k):
        if callable(c):
            ctx.fact(z3.ForAll([k, j], zb(bimp(band(g, j >= 0, rlt(j, m)), c(j)))))
        elif c is not True:
            ctx.fact(z3.ForAll([k], zb(bimp(g, c))))
    if isc(n) and n <= 4:
        for q in range(n):
            for nm, c in posts_of(q):
                if not callable(c) and c is not True:
                    ctx.fact(zb(c))
    elif len(ctx.frames) == 1 and not ctx.scope:
        for i, (nm, c) in enumerate(posts_of(k)):
            if not callable(c):
                ctx.universal(0, n, lambda q, i=i: posts_of(q)[i][1])


def log_of(x):
    """(zero, logarithm) of a non-negative number"""
    return req(x.v, 0), log_raw(x.v)


def log_raw(v):
    if not isc(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        if z3.is_rational_value(a) and a.as_fraction() == 0:
            return log_raw(b)
    return rlog(v)


def curve_pre(I, b):
    """shared preconditions of the two kernels"""
    slope, icpt = as_nd(I, b["slope"]), as_nd(I, b["intercept"])
    end = num(b["endurance"])
    require(I, "as many slopes as intercepts", req(slope.n, icpt.n))
    require(I, "a segment", rlt(0, slope.n))
    sg = NP.raw_snap(slope)
    j, g = generic(I, slope.n, "j")
    require(I, "positive slopes", bimp(g, rlt(0, num(sg(j)).v)))
    require(I, "positive endurance", bor(end.pi, rlt(0, end.v)))
    return slope, icpt, end


def c_cycles(I, b):
    s = as_nd(I, b["stress"])
    slope, icpt, end = curve_pre(I, b)
    k, g = generic(I, s.n)
    require(I, "stress not empty", rlt(0, s.n))
    sk = num(s.get(k))
    require(I, "non-negative stress", bimp(g, band(sk.fin, rle(0, sk.v))))
    ln, inf = I.ctx.fresh_fun("ln_life", IS, R), I.ctx.fresh_fun("life_inf", IS, B)
    wit = I.ctx.fresh_fun("seg", IS, IS)
    r = Arr(s.n, lambda i: Num(EXP(ln(zi(i))), inf(zi(i)), False, False, False), "f")
    sg, lg, ig = NP.raw_snap(s), NP.raw_snap(slope), NP.raw_snap(icpt)
    A, C = Arr(slope.n, lg), Arr(icpt.n, ig)

    def posts(q):
        z, l = log_of(num(sg(q)))
        return post_life(I, None, l, z, r.get(q), A, C, slope.n, end,
                         lambda f: band(wit(q) >= 0, rlt(wit(q), slope.n), f(wit(q))))
    assume_posts(I, posts, s.n, slope.n)
    return r


def c_stress(I, b):
    s = as_nd(I, b["cycles"])
    slope, icpt, end = curve_pre(I, b)
    k, g = generic(I, s.n)
    require(I, "cycles not empty", rlt(0, s.n))
    sk = num(s.get(k))
    require(I, "positive cycles", bimp(g, band(bnot(sk.na), bor(sk.pi, band(sk.fin, rlt(0, sk.v))))))
    ln, zr_ = I.ctx.fresh_fun("ln_stress", IS, R), I.ctx.fresh_fun("stress_zero", IS, B)
    wit = I.ctx.fresh_fun("seg", IS, IS)
    r = Arr(s.n, lambda i: Num(z3.If(zr_(zi(i)), z3.RealVal(0), EXP(ln(zi(i)))), isint=False), "f")
    sg, lg, ig = NP.raw_snap(s), NP.raw_snap(slope), NP.raw_snap(icpt)
    A, C = Arr(slope.n, lg), Arr(icpt.n, ig)

    def posts(q):
        return post_stress(I, num(sg(q)), r.get(q), A, C, slope.n, end,
                           lambda f: band(wit(q) >= 0, rlt(wit(q), slope.n), f(wit(q))))
    assume_posts(I, posts, s.n, slope.n)
    return r


KERNELS = {M + "_calc_cycles": Contract(c_cycles), M + "_calc_stress": Contract(c_stress)}


def curve_arrays(I, m=None, lo=1):
    m = length(I, "m", lo) if m is None else m
    return m, pos_arr(I, "slope", m), arr(I, "intercept", m)


def endurance(I):
    """positive, possibly infinite"""
    inf = boolean(I, "no_endurance")
    e = Num(EXP(z3.Real("ln_endurance")), inf, False, False, False)
    return inp(I, "endurance", e)


# ---------------------------------------------------------------- P12 kernel
@task(["P12"], [M + "_calc_cycles"])
def life_kernel(I):
    m, slope, icpt = curve_arrays(I)
    n = length(I, "n", 1)
    s = nonneg_arr(I, "stress", n)
    end = endurance(I)
    s0, l0, i0 = s._get, slope._get, icpt._get
    r = callf(I, M + "_calc_cycles", s, slope, icpt, end)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, g = generic(I, n)
    z, l = log_of(s0(k))
    v = num(r.get(k))
    A, C = Arr(m, l0), Arr(m, i0)
    ensure_posts(I, post_life(I, None, l, z, v, A, C, m, end, lambda f: some_k(I, m, f)), m, g)
    unchanged(I, "stress", s, n, s0)
    unchanged(I, "slope", slope, m, l0)
    unchanged(I, "intercept", icpt, m, i0)


@task("P12", [M + "_calc_cycles"])
def life_kernel_rejects(I):
    m, slope, icpt = curve_arrays(I)
    n = length(I, "n", 1)
    s = arr(I, "stress", n)
    w = z3.Int("neg")
    pre(I, band(w >= 0, w < n, s.get(w).v < 0))
    expect_exc(I, "negative stress", "AssertionError",
               lambda: callf(I, M + "_calc_cycles", s, slope, icpt, endurance(I)))


# ---------------------------------------------------------------- P13 kernel
@task(["P13"], [M + "_calc_stress"])
def stress_kernel(I):
    m, slope, icpt = curve_arrays(I)
    n = length(I, "n", 1)
    inf = z3.Function("life_inf", IS, B)
    ln = z3.Function("ln_cycles", IS, R)
    c = Arr(n, lambda i: Num(EXP(ln(zi(i))), inf(zi(i)), False, False, False), "f")
    end = endurance(I)
    c0, l0, i0 = c._get, slope._get, icpt._get
    r = callf(I, M + "_calc_stress", c, slope, icpt, end)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, g = generic(I, n)
    v = num(r.get(k))
    A, C = Arr(m, l0), Arr(m, i0)
    lE, lN = z3.Real("ln_endurance"), ln(k)
    seg = lambda j, l: seg_stress(l, l0(j), i0(j))
    lemma(I, "stress falls with the cycles", m, lambda j: band(bimp(lN <= lE, rle(seg(j, lE), seg(j, lN))),
                                                               bimp(lE <= lN, rle(seg(j, lN), seg(j, lE)))))
    ensure_posts(I, post_stress(I, c0(k), v, A, C, m, end, lambda f: some_k(I, m, f)), m, g)
    unchanged(I, "cycles", c, n, c0)


# ---------------------------------------------------------------- the class
def make(I, slope, icpt, **kw):
    return I.call(func(I, M + "SNCurve"), [slope, icpt], kw)


def curve(I, adjacent=True, **kw):
    """an SN curve made by its constructor; rejected ones are left out"""
    m, slope, icpt = curve_arrays(I)
    end = endurance(I)
    if adjacent:
        forall(I, rsub(m, 1), lambda k: bnot(req(slope.get(k).v.arg(0), slope.get(k + 1).v.arg(0))))
    try:
        c = make(I, slope, icpt, endurance=end, **kw)
    except PyExc as e:
        if e.etype == "ValueError":
            raise PathEnd()
        raise
    return c, m, slope, icpt, end


def method(I, obj, name, *a, **kw):
    return I.call(I.getattr(obj, name), list(a), kw)


CLS = [M + "SNCurve.__init__", M + "AbstractSNCurve.__init__", M + "ensure_array"]


@task("P12", [M + "SNCurve.get_cycles", M + "ensure_array"], contracts=KERNELS, overrides=OVER)
def life_array(I):
    c, m, slope, icpt, end = curve(I)
    n = length(I, "n", 1)
    s = nonneg_arr(I, "stress", n)
    s0 = s._get
    r = method(I, c, "get_cycles", s)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, g = generic(I, n)
    z, l = log_of(s0(k))
    ensure_posts(I, post_life(I, None, l, z, num(r.get(k)), slope, icpt, m, end, lambda f: some_k(I, m, f)), m, g)
    unchanged(I, "stress", s, n, s0)


@task("P12", [M + "SNCurve.get_cycles", M + "ensure_array"], contracts=KERNELS, overrides=OVER)
def life_scalar(I):
    c, m, slope, icpt, end = curve(I)
    s = inp(I, "stress", Num(z3.If(z3.Bool("zero_stress"), z3.RealVal(0), EXP(z3.Real("ln_stress"))), isint=False))
    r = method(I, c, "get_cycles", s)
    if not isinstance(r, Num):
        return ensure(I, "result is a number", False)
    z, l = log_of(s)
    ensure_posts(I, post_life(I, None, l, z, r, slope, icpt, m, end, lambda f: some_k(I, m, f)), m, True)


@task("P12", [M + "SNCurve.n", M + "SNCurve.get_cycles"], contracts=KERNELS, overrides=OVER)
def older_name(I):
    c, m, slope, icpt, end = curve(I)
    n = length(I, "n", 1)
    s = nonneg_arr(I, "stress", n)
    s0 = s._get
    r = method(I, c, "n", s)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, g = generic(I, n)
    z, l = log_of(s0(k))
    ensure_posts(I, post_life(I, None, l, z, num(r.get(k)), slope, icpt, m, end, lambda f: some_k(I, m, f)), m, g)


@task("P12", [M + "SNCurve.get_cycles"], contracts=KERNELS, overrides=OVER)
def life_falls(I):
    """life at a larger stress is not longer"""
    c, m, slope, icpt, end = curve(I)
    n = length(I, "n", 2)
    s = nonneg_arr(I, "stress", n)
    r = method(I, c, "get_cycles", s)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    a, b = z3.Ints("a b")
    pre(I, band(a >= 0, a < n, b >= 0, b < n, le(s.get(a), s.get(b))))
    la, lb = log_raw(s.get(a).v), log_raw(s.get(b).v)
    j, g = generic(I, m, "j")
    za = req(s.get(a).v, 0)
    lemma(I, "a segment falls", m, lambda j: bimp(bnot(za), rle(seg_life(lb, slope.get(j), icpt.get(j)),
                                                               seg_life(la, slope.get(j), icpt.get(j)))))
    ensure(I, "life does not increase", le(num(r.get(b)), num(r.get(a))))


@task("P13", [M + "SNCurve.get_cycles", M + "SNCurve.get_stress"], contracts=KERNELS, overrides=OVER)
def life_of_stress(I):
    """get_cycles(get_stress(N)) == N up to the endurance"""
    c, m, slope, icpt, end = curve(I)
    N = positive(I, "N")
    pre(I, le(N, end))
    S = method(I, c, "get_stress", N)
    if not isinstance(S, Num):
        return ensure(I, "stress is a number", False)
    lN, lS = N.v.arg(0), log_raw(S.v)
    T = lambda j: seg_stress(lN, slope.get(j), icpt.get(j))
    L = lambda j: seg_life(lS, slope.get(j), icpt.get(j))
    r = method(I, c, "get_cycles", S)
    if not isinstance(r, Num):
        return ensure(I, "life is a number", False)
    lemma(I, "a segment inverts", m, lambda j: band(rle(T(j), lS) == rle(L(j), lN), req(T(j), lS) == req(L(j), lN)))
    ensure(I, "life of the stress", band(r.fin, req(r.v, N.v)))


@task("P13", [M + "SNCurve.sigma", M + "SNCurve.get_stress"], contracts=KERNELS, overrides=OVER)
def older_name_of_stress(I):
    c, m, slope, icpt, end = curve(I)
    N = positive(I, "N")
    r = method(I, c, "sigma", N)
    if not isinstance(r, Num):
        return ensure(I, "stress is a number", False)
    ensure_posts(I, post_stress(I, N, r, slope, icpt, m, end, lambda f: some_k(I, m, f)), m, True)


@task("P13", [M + "SNCurve.get_cycles", M + "SNCurve.get_stress"], contracts=KERNELS, overrides=OVER)
def stress_of_life(I):
    """get_stress(get_cycles(S)) == S above the endurance stress"""
    c, m, slope, icpt, end = curve(I)
    S = positive(I, "S")
    E = I.getattr(c, "endurance_stress")
    if not isinstance(E, Num):
        return ensure(I, "endurance stress is a number", False)
    pre(I, rlt(E.v, S.v))
    N = method(I, c, "get_cycles", S)
    if not isinstance(N, Num):
        return ensure(I, "life is a number", False)
    lS = S.v.arg(0)
    L = lambda j: seg_life(lS, slope.get(j), icpt.get(j))
    lE = end.v.arg(0)
    lemma(I, "a segment below the endurance", m, lambda j: bimp(
        band(end.fin, rle(seg_stress(lE, slope.get(j), icpt.get(j)), lS)), rle(L(j), lE)))
    ensure(I, "finite life", N.fin)
    lN = log_raw(N.v)
    r = method(I, c, "get_stress", N)
    if not isinstance(r, Num):
        return ensure(I, "stress is a number", False)
    T = lambda j: seg_stress(lN, slope.get(j), icpt.get(j))
    lemma(I, "a segment inverts", m, lambda j: band(rle(T(j), lS) == rle(L(j), lN), req(T(j), lS) == req(L(j), lN)))
    ensure(I, "stress of the life", band(r.fin, req(r.v, S.v)))


@task("P13", [M + "SNCurve.get_stress", M + "SNCurve.endurance_stress"], contracts=KERNELS, overrides=OVER)
def beyond_endurance(I):
    c, m, slope, icpt, end = curve(I)
    E = I.getattr(c, "endurance_stress")
    n = length(I, "n", 1)
    inf, ln = z3.Function("life_inf", IS, B), z3.Function("ln_cycles", IS, R)
    N = Arr(n, lambda i: Num(EXP(ln(zi(i))), inf(zi(i)), False, False, False), "f")
    r = method(I, c, "get_stress", N)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    k, g = generic(I, n)
    ensure(I, "stress held", bimp(band(g, lt(end, N.get(k))), same(num(r.get(k)), num(E))))


# ---------------------------------------------------------------- P14
def ln_knee(slope, icpt, j):
    """logarithm of the stress at which segments j and j + 1 have one life, by Cramer's rule"""
    a, b = slope.get(j).v, slope.get(radd(j, 1)).v
    return rdiv(rmul(rsub(icpt.get(j).v, icpt.get(radd(j, 1)).v), LN10), rsub(a, b))


@task("P14", [M + "SNCurve.get_knee_stress", M + "SNCurve.get_knee_cycles"], contracts=KERNELS, overrides=OVER)
def knees(I):
    c, m, slope, icpt, end = curve(I)
    ks = method(I, c, "get_knee_stress")
    kc = method(I, c, "get_knee_cycles")
    if not (isinstance(ks, Arr) and isinstance(kc, Arr)):
        return ensure(I, "results are arrays", False)
    ensure(I, "a knee between each pair of segments", band(req(ks.n, rsub(m, 1)), req(kc.n, rsub(m, 1))))
    q, g = generic(I, rsub(m, 1))
    s, n = num(ks.get(q)), num(kc.get(q))
    a, b = slope.get(q), slope.get(radd(q, 1))
    x, y = icpt.get(q), icpt.get(radd(q, 1))
    ensure(I, "knee stress is positive", bimp(g, band(s.fin, rlt(0, s.v))))
    l = log_raw(s.v)
    ensure(I, "both segments give one life", bimp(g, req(seg_life(l, a, x), seg_life(l, b, y))))
    ensure(I, "knee cycles are that life", bimp(g, band(n.fin, req(n.v, rexp(seg_life(l, a, x))))))


@task("P14", [M + "SNCurve.get_knee_stress", M + "SNCurve.get_knee_cycles"], contracts=KERNELS, overrides=OVER)
def linear_has_no_knee(I):
    c = make(I, positive(I, "slope"), real(I, "intercept"), endurance=endurance(I))
    for nm in ("get_knee_stress", "get_knee_cycles"):
        r = method(I, c, nm)
        ensure(I, nm + " is empty", isinstance(r, Arr) and req(r.n, 0))
    lin = I.getattr(c, "linear")
    ensure(I, "linear", zb(lin) if not isinstance(lin, bool) else lin)


@task("P14", [M + "SNCurve.endurance_stress", M + "AbstractSNCurve.__init__"], contracts=KERNELS, overrides=OVER)
def endurance_below_knee(I):
    m, slope, icpt = curve_arrays(I, lo=2)
    end = endurance(I)
    forall(I, rsub(m, 1), lambda k: bnot(req(slope.get(k).v.arg(0), slope.get(k + 1).v.arg(0))))
    j = z3.Int("knee")
    I.ctx.instantiate(j)
    L = seg_life(ln_knee(slope, icpt, j), slope.get(j), icpt.get(j))
    pre(I, band(j >= 0, j < m - 1, end.fin, rlt(end.v.arg(0), L)))
    expect_exc(I, "endurance below a knee", "ValueError", lambda: make(I, slope, icpt, endurance=end))


@task("P14", [M + "SNCurve.endurance_stress", M + "AbstractSNCurve.__init__"], contracts=KERNELS, overrides=OVER)
def endurance_beyond_knees(I):
    m, slope, icpt = curve_arrays(I, lo=1)
    end = endurance(I)
    forall(I, rsub(m, 1), lambda k: bnot(req(slope.get(k).v.arg(0), slope.get(k + 1).v.arg(0))))
    forall(I, rsub(m, 1), lambda j: bor(end.pi, rle(seg_life(ln_knee(slope, icpt, j), slope.get(j), icpt.get(j)),
                                                   end.v.arg(0))))
    c = make(I, slope, icpt, endurance=end)
    same_arr(I, "slope", I.getattr(c, "slope"), m, slope)
    same_arr(I, "intercept", I.getattr(c, "intercept"), m, icpt)
    ensure_num(I, "endurance", I.getattr(c, "endurance"), end)


def same_arr(I, name, v, n, want):
    if not isinstance(v, Arr):
        return ensure(I, name + " is an array", False)
    ensure(I, name + ":length", req(v.n, n))
    k, g = generic(I, n)
    ensure(I, name, bimp(g, same(num(v.get(k)), num(want.get(k)))))


@task("P14", [M + "_check_param_couple_types", M + "check_iterable"], contracts=KERNELS, overrides=OVER)
def different_lengths(I):
    m, n = length(I, "m"), length(I, "n")
    pre(I, m != n)
    expect_exc(I, "different lengths", "ValueError",
               lambda: make(I, pos_arr(I, "slope", m), arr(I, "intercept", n), endurance=endurance(I)))


@task("P14", [M + "SNCurve.endurance_stress"], contracts=KERNELS, overrides=OVER)
def endurance_stress(I):
    c, m, slope, icpt, end = curve(I)
    E = num(I.getattr(c, "endurance_stress"))
    ensure_posts(I, post_stress(I, end, E, slope, icpt, m, end, lambda f: some_k(I, m, f)), m, True)
    S = method(I, c, "get_stress", end)
    if not isinstance(S, Num):
        return ensure(I, "stress is a number", False)
    ensure_num(I, "stress at the endurance", S, E)
