"""P19-P20: Paris curves."""
from ..lib import *
from .sn import log_of, log_raw, OVER, method, assume_posts

M = "py_fatigue.material.crack_growth_curve:"
OVER = {**OVER, M + "_set_color": Builtin("_set_color", lambda I, a, k: ("#000", None))}
EPS = Fraction("0.9999999999")          # the kernels widen the range of the curve by this factor


class Curve:
    """slopes and intercepts are positive, the threshold is zero or positive, the critical value may be infinite"""

    def __init__(self, m, slope, icpt, th, cr):
        self.m, self.slope, self.icpt, self.th, self.cr = m, slope, icpt, th, cr
        self.l0, self.i0 = NP.raw_snap(slope), NP.raw_snap(icpt)
        self.noth, self.lt = log_of(th)
        self.nocr, self.lc = cr.pi, log_raw(cr.v)

    def ln_slope(self, j):
        return log_raw(num(self.l0(j)).v)

    def ln_icpt(self, j):
        return log_raw(num(self.i0(j)).v)

    def order(self, I):
        """threshold, knees and critical value increase: [(name, number of instances, formula)]"""
        m = self.m
        return [("adjacent slopes differ", rsub(m, 1), lambda j: bnot(req(self.ln_slope(j), self.ln_slope(radd(j, 1))))),
                ("threshold below critical", 1, lambda j: bor(self.noth, self.nocr, rlt(self.lt, self.lc))),
                ("knees increase", rsub(m, 2), lambda j: rlt(self.knee(j), self.knee(radd(j, 1)))),
                ("threshold below the knees", 1, lambda j: bor(req(m, 1), self.noth, rlt(self.lt, self.knee(0)))),
                ("critical above the knees", 1,
                 lambda j: bor(req(m, 1), self.nocr, rlt(self.knee(rsub(m, 2)), self.lc)))]

    def knee(self, j):
        """logarithm of the intensity where segments j and j+1 agree"""
        j1 = radd(j, 1)
        return rdiv(rsub(self.ln_icpt(j), self.ln_icpt(j1)), rsub(num(self.l0(j1)).v, num(self.l0(j)).v))

    def rate(self, j, l):
        """logarithm of intercept * K^slope"""
        return radd(self.ln_icpt(j), rmul(num(self.l0(j)).v, l))

    def within(self, j, l):
        """K lies between the knees of segment j"""
        return band(bor(req(j, 0), rle(self.knee(rsub(j, 1)), l)), bor(req(j, rsub(self.m, 1)), rle(l, self.knee(j))))

    def meet(self, I, j, l):
        """segments j and j+1 give the same rate at their knee"""
        ensure(I, "lemma:segments meet at their knee",
               bimp(band(bnot(req(self.ln_slope(j), self.ln_slope(radd(j, 1)))), req(l, self.knee(j))),
                    req(self.rate(j, l), self.rate(radd(j, 1), l))))


    def knee_rate(self, j):
        """logarithm of the rate at knee j, as the code writes it"""
        j1 = radd(j, 1)
        s0, s1 = num(self.l0(j)).v, num(self.l0(j1)).v
        return rsub(rmul(rdiv(s1, rsub(s1, s0)), self.ln_icpt(j)), rmul(rdiv(s0, rsub(s1, s0)), self.ln_icpt(j1)))

    def rises(self, I, j, a, b):
        """a segment rises strictly"""
        ensure(I, "lemma:a segment rises", band(rlt(a, b) == rlt(self.rate(j, a), self.rate(j, b)),
                                                req(a, b) == req(self.rate(j, a), self.rate(j, b))))

    def inverts(self, I, j, l, g):
        """(g - intercept) / slope compared with l"""
        s = num(self.l0(j)).v
        x = rdiv(rsub(g, self.ln_icpt(j)), s)
        ensure(I, "lemma:a segment inverts", bimp(rlt(0, s), band(
            zb(rlt(x, l)) == zb(rlt(g, self.rate(j, l))), zb(req(x, l)) == zb(req(g, self.rate(j, l))))))


def curve_lemmas(I, cv):
    """rates at the knees, and their order"""
    m, last, lE = cv.m, rsub(cv.m, 1), rlog(EPS)
    differ = lambda j: bnot(req(cv.ln_slope(j), cv.ln_slope(radd(j, 1))))
    lemma(I, "rate at a knee", rsub(m, 1), lambda j: bimp(differ(j), band(
        req(cv.knee_rate(j), cv.rate(j, cv.knee(j))), req(cv.knee_rate(j), cv.rate(radd(j, 1), cv.knee(j))))))
    lemma(I, "rates at the knees increase", rsub(m, 2), lambda j: bimp(
        rlt(cv.knee(j), cv.knee(radd(j, 1))), rlt(cv.rate(radd(j, 1), cv.knee(j)), cv.rate(radd(j, 1), cv.knee(radd(j, 1))))))
    lt, lc = radd(cv.lt, lE), radd(cv.lc, rlog(1 / EPS))
    cv.rises(I, 0, lt, cv.knee(0))
    cv.rises(I, last, cv.knee(rsub(m, 2)), lc)
    cv.rises(I, 0, lt, lc)


def a_curve(I, ordered=True, distinct=True, m=None):
    """an arbitrary curve"""
    m = length(I, "m", 1) if m is None else m
    slope, icpt = pos_arr(I, "slope", m), pos_arr(I, "intercept", m)
    noth, nocr = z3.Bool("no_threshold"), z3.Bool("no_critical")
    th = inp(I, "threshold", Num(z3.If(noth, z3.RealVal(0), EXP(z3.Real("ln_threshold"))), isint=False))
    cr = inp(I, "critical", Num(EXP(z3.Real("ln_critical")), nocr, False, False, False))
    cv = Curve(m, slope, icpt, th, cr)
    for k, (nm, n, f) in enumerate(cv.order(I)):
        if ordered or (distinct and k == 0):
            if n == 1:
                pre(I, f(0))
            else:
                forall(I, n, f)
    return cv


def post_rate(cv, K, v, exists):
    """growth rate v at K (zero, EXP, or infinite)"""
    z, l = log_of(K)
    below, above = lt(K, cv.th), bor(K.pi, lt(cv.cr, K))
    on = band(bnot(below), bnot(above), bnot(z))
    return [
        ("no growth below the threshold", bimp(below, same(v, num(0)))),
        ("infinite above the critical intensity", bimp(above, v.pi)),
        ("zero intensity", bimp(band(bnot(below), z, K.fin), same(v, num(0)))),
        ("rate of its segment", lambda j: bimp(band(on, cv.within(j, l)),
                                               band(v.fin, req(v.v, rexp(cv.rate(j, l)))))),
        ("there is a segment", bimp(on, exists(lambda j: band(cv.within(j, l), v.fin,
                                                              req(v.v, rexp(cv.rate(j, l))))))),
    ]


def post_sif(cv, g, v, ghost):
    """intensity v at growth rate g; `ghost`: segment and logarithm of the intensity that has this rate"""
    z, lg = log_of(g)
    return [
        ("a number", band(bnot(v.na), bnot(v.ni), bor(v.pi, rle(0, v.v)))),
        ("intensity with this rate", bimp(band(g.fin, bnot(z)), ghost(lambda j, l: bimp(
            band(req(lg, cv.rate(j, l)), cv.within(j, l), bor(cv.noth, rle(cv.lt, l)), bor(cv.nocr, rle(l, cv.lc))),
            band(v.fin, req(v.v, rexp(l))))))),
        ("zero rate", bimp(band(g.fin, z), band(v.fin, bimp(cv.noth, req(v.v, 0)), bimp(bnot(cv.noth), same(v, cv.th))))),
        ("infinite rate", bimp(g.pi, same(v, cv.cr))),
        ("below the curve", bimp(band(g.fin, bnot(z), bnot(cv.noth), rlt(lg, cv.rate(0, cv.lt))),
                                 band(v.fin, rle(v.v, cv.th.v), rle(rexp(radd(cv.lt, rlog(EPS))), v.v)))),
        ("above the curve", bimp(band(g.fin, bnot(z), bnot(cv.nocr), rlt(cv.rate(rsub(cv.m, 1), cv.lc), lg)),
                                 band(v.fin, rle(cv.cr.v, v.v), rle(v.v, rexp(radd(cv.lc, rlog(1 / EPS))))))),
    ]


def of_zero_or_more(I, name, n):
    """an array of zero, positive and infinite numbers"""
    ln, z, inf = z3.Function("ln_" + name, IS, R), z3.Function(name + "_zero", IS, B), z3.Function(name + "_inf", IS, B)
    return inp(I, name, Arr(n, lambda i: Num(z3.If(z(zi(i)), z3.RealVal(0), EXP(ln(zi(i)))), inf(zi(i)),
                                             False, False, False), "f"))


def ensure_posts(I, posts, m, g, tag="", hint=None):
    for nm, c in posts:
        if callable(c):
            j, gj = generic(I, m, "j")
            if hint:
                hint(j)
            ensure(I, tag + nm, bimp(band(g, gj), c(j)))
        else:
            ensure(I, tag + nm, bimp(g, c))


# ---------------------------------------------------------------- the kernels
@task("P19", [M + "_calc_growth_rate"])
def rate_kernel(I):
    cv = a_curve(I)
    n = length(I, "n", 1)
    K = of_zero_or_more(I, "sif", n)
    K0 = K._get
    r = callf(I, M + "_calc_growth_rate", K, cv.slope, cv.icpt, cv.th, cv.cr)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, g = generic(I, n)

    def hint(j):
        bins_at(I, k, j, j + 1, j + 2)
        cv.meet(I, j, log_of(K0(k))[1])
    ensure_posts(I, post_rate(cv, K0(k), num(r.get(k)), lambda f: some_k(I, cv.m, f)), cv.m, g, hint=hint)
    unchanged(I, "sif", K, n, K0)
    unchanged(I, "slope", cv.slope, cv.m, cv.l0)
    unchanged(I, "intercept", cv.icpt, cv.m, cv.i0)


@task("P19", [M + "_calc_growth_rate"])
def rate_kernel_rejects(I):
    """an order violated by more than the margin of the kernel"""
    cv = a_curve(I, ordered=False)
    j, g = generic(I, rsub(cv.m, 2), "j")
    lE = rlog(EPS)
    pre(I, bor(band(bnot(cv.noth), bnot(cv.nocr), rle(cv.lc, cv.lt)), 
               band(g, rle(cv.knee(j + 1), cv.knee(j))),
               band(cv.m > 1, bnot(cv.noth), rle(cv.knee(0), radd(cv.lt, lE))),
               band(cv.m > 1, bnot(cv.nocr), rle(radd(cv.lc, rlog(1 / EPS)), cv.knee(cv.m - 2)))))
    n = length(I, "n", 1)
    K = of_zero_or_more(I, "sif", n)
    expect_exc(I, "wrong order", "AssertionError",
               lambda: callf(I, M + "_calc_growth_rate", K, cv.slope, cv.icpt, cv.th, cv.cr))


@task("P20", [M + "_calc_sif"])
def sif_kernel(I):
    cv = a_curve(I)
    n = length(I, "n", 1)
    G = of_zero_or_more(I, "rate", n)
    G0 = G._get
    m, last = cv.m, rsub(cv.m, 1)
    lE = rlog(EPS)
    curve_lemmas(I, cv)
    r = callf(I, M + "_calc_sif", G, cv.slope, cv.icpt, cv.th, cv.cr)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, g = generic(I, n)
    j, gj = generic(I, m, "j")
    l = z3.Real("ln_intensity")
    lg = log_of(G0(k))[1]
    bins_at(I, k, j, j + 1, j + 2, 1, last)
    cv.rises(I, 0, cv.lt, cv.knee(0))
    cv.rises(I, last, cv.knee(m - 2), cv.lc)
    cv.meet(I, j, l)
    for a, b in ((cv.knee(j - 1), l), (l, cv.knee(j)), (radd(cv.lt, lE), l), (l, radd(cv.lc, rlog(1 / EPS))), (cv.lt, l), (l, cv.lc)):
        cv.rises(I, j, a, b)
    for i in (j, j + 1):
        cv.inverts(I, i, l, lg)
    cv.inverts(I, 0, cv.lt, lg)
    cv.inverts(I, 0, radd(cv.lt, lE), lg)
    cv.inverts(I, last, cv.lc, lg)
    cv.inverts(I, last, radd(cv.lc, rlog(1 / EPS)), lg)
    ensure_posts(I, post_sif(cv, G0(k), num(r.get(k)), lambda f: bimp(gj, f(j, l))), m, g)
    unchanged(I, "rate", G, n, G0)
    unchanged(I, "slope", cv.slope, cv.m, cv.l0)
    unchanged(I, "intercept", cv.icpt, cv.m, cv.i0)


# ---------------------------------------------------------------- contracts of the kernels
def kernel_pre(I, b, first):
    x = as_nd(I, b[first])
    cv = Curve(as_nd(I, b["slope"]).n, as_nd(I, b["slope"]), as_nd(I, b["intercept"]), num(b["threshold"]), num(b["critical"]))
    require(I, "as many slopes as intercepts", req(cv.slope.n, cv.icpt.n))
    require(I, "a segment", rlt(0, cv.m))
    require(I, "not empty", rlt(0, x.n))
    k, g = generic(I, x.n)
    xk = num(x.get(k))
    require(I, first + " not negative", bimp(g, band(bnot(xk.na), bor(xk.pi, band(xk.fin, rle(0, xk.v))))))
    j, gj = generic(I, cv.m, "j")
    require(I, "positive slopes and intercepts", bimp(gj, band(rlt(0, num(cv.l0(j)).v), rlt(0, num(cv.i0(j)).v))))
    require(I, "threshold not negative", band(cv.th.fin, rle(0, cv.th.v)))
    for nm, n, f in cv.order(I):
        if n == 1:
            require(I, nm, f(0))
        else:
            j, gj = generic(I, n, "j")
            require(I, nm, bimp(gj, f(j)))
    return cv, x, NP.raw_snap(x)


def result(I, name, n, zero=True):
    """a fresh array of zero, positive and infinite numbers"""
    ln, z, inf = (I.ctx.fresh_fun(p + name, IS, t) for p, t in (("ln_", R), ("zero_", B), ("inf_", B)))
    return Arr(n, lambda i: Num(z3.If(z(zi(i)), z3.RealVal(0), EXP(ln(zi(i)))), inf(zi(i)), False, False, False), "f")


def c_rate(I, b):
    cv, x, xg = kernel_pre(I, b, "sif")
    r = result(I, "rate", x.n)
    wit = I.ctx.fresh_fun("seg", IS, IS)
    pick = lambda q: lambda f: band(wit(q) >= 0, rlt(wit(q), cv.m), f(wit(q)))
    assume_posts(I, lambda q: post_rate(cv, num(xg(q)), num(r.get(q)), pick(q)), x.n, cv.m)
    I.rated = lambda q: (wit(q), log_of(num(xg(q)))[1])
    return r


def c_sif(I, b):
    cv, x, xg = kernel_pre(I, b, "growth_rate")
    r = result(I, "sif", x.n)
    at = getattr(I, "rated", None)

    def ghost(q):
        if at is None:
            return lambda f: True
        j, l = at(q)
        return lambda f: bimp(band(rle(0, j), rlt(j, cv.m)), f(j, l))
    assume_posts(I, lambda q: post_sif(cv, num(xg(q)), num(r.get(q)), ghost(q)), x.n, cv.m)
    return r


KERNELS = {M + "_calc_growth_rate": Contract(c_rate), M + "_calc_sif": Contract(c_sif)}
CLS = [M + "ParisCurve.__init__", M + "AbstractCrackGrowthCurve.__init__"]


def make(I, cv):
    return I.call(func(I, M + "ParisCurve"), [cv.slope, cv.icpt], {"threshold": cv.th, "critical": cv.cr})


def paris_curve(I, **kw):
    cv = a_curve(I, **kw)
    return make(I, cv), cv


@task("P19", [M + "ParisCurve.get_growth_rate", "py_fatigue.material.sn_curve:ensure_array"] + CLS,
      contracts=KERNELS, overrides=OVER)
def rate_array(I):
    pc, cv = paris_curve(I)
    n = length(I, "n", 1)
    K = of_zero_or_more(I, "sif", n)
    K0 = K._get
    r = method(I, pc, "get_growth_rate", K)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, g = generic(I, n)
    ensure_posts(I, post_rate(cv, K0(k), num(r.get(k)), lambda f: some_k(I, cv.m, f)), cv.m, g)
    unchanged(I, "sif", K, n, K0)
    unchanged(I, "slope", I.getattr(pc, "slope"), cv.m, cv.l0)
    unchanged(I, "intercept", I.getattr(pc, "intercept"), cv.m, cv.i0)
    ensure_num(I, "threshold", I.getattr(pc, "threshold"), cv.th)
    ensure_num(I, "critical", I.getattr(pc, "critical"), cv.cr)


def zero_or_more(I, name):
    return inp(I, name, Num(z3.If(z3.Bool(name + "_zero"), z3.RealVal(0), EXP(z3.Real("ln_" + name))),
                            z3.Bool(name + "_inf"), False, False, False))


@task("P19", [M + "ParisCurve.get_growth_rate", "py_fatigue.material.sn_curve:ensure_array"],
      contracts=KERNELS, overrides=OVER)
def rate_scalar(I):
    pc, cv = paris_curve(I)
    K = zero_or_more(I, "sif")
    r = method(I, pc, "get_growth_rate", K)
    if not isinstance(r, Num):
        return ensure(I, "result is a number", False)
    ensure_posts(I, post_rate(cv, K, r, lambda f: some_k(I, cv.m, f)), cv.m, True)


@task("P19", [M + "ParisCurve.threshold_growth_rate", M + "ParisCurve.critical_growth_rate"],
      contracts=KERNELS, overrides=OVER)
def rates_at_the_ends(I):
    pc, cv = paris_curve(I)
    for what, K in (("threshold", cv.th), ("critical", cv.cr)):
        r = I.getattr(pc, what + "_growth_rate")
        if not isinstance(r, Num):
            return ensure(I, "result is a number", False)
        ensure_posts(I, post_rate(cv, K, r, lambda f: some_k(I, cv.m, f)), cv.m, True, what + ": ")


@task("P19", [M + "ParisCurve.get_knee_sif", M + "ParisCurve.get_knee_growth_rate"], contracts=KERNELS, overrides=OVER)
def knees(I):
    pc, cv = paris_curve(I)
    a, b = method(I, pc, "get_knee_sif"), method(I, pc, "get_knee_growth_rate")
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return ensure(I, "knees are arrays", False)
    n = rsub(cv.m, 1)
    ensure(I, "number of knees", band(req(a.n, n), req(b.n, n)))
    k, g = generic(I, n)
    x, y, l = num(a.get(k)), num(b.get(k)), cv.knee(k)
    differ = bnot(req(cv.ln_slope(k), cv.ln_slope(k + 1)))
    ensure(I, "lemma:rate at a knee", bimp(differ, band(req(cv.knee_rate(k), cv.rate(k, l)),
                                                        req(cv.knee_rate(k), cv.rate(k + 1, l)))))
    ensure(I, "knee intensity", bimp(g, band(x.fin, req(x.v, rexp(l)))))
    ensure(I, "knee rate", bimp(g, band(y.fin, req(y.v, rexp(cv.rate(k, l))))))
    ensure(I, "adjacent segments agree", bimp(g, req(cv.rate(k, l), cv.rate(k + 1, l))))


@task("P19", [M + "ParisCurve.__init__", "py_fatigue.material.sn_curve:_check_param_couple_types"], overrides=OVER)
def couples(I):
    """slopes and intercepts of different number"""
    m, n = length(I, "m", 1), length(I, "n", 1)
    pre(I, bnot(req(m, n)))
    slope, icpt = pos_arr(I, "slope", m), pos_arr(I, "intercept", n)
    expect_exc(I, "different numbers", "ValueError", lambda: I.call(func(I, M + "ParisCurve"), [slope, icpt], {}))


@task("P20", [M + "ParisCurve.get_sif", M + "ParisCurve.get_growth_rate", "py_fatigue.material.sn_curve:ensure_array"] + CLS,
      contracts=KERNELS, overrides=OVER)
def intensity_of_rate(I):
    """get_sif(get_growth_rate(K)) == K between threshold and critical value"""
    pc, cv = paris_curve(I)
    n = length(I, "n", 1)
    K = of_zero_or_more(I, "sif", n)
    K0 = K._get
    forall(I, n, lambda q: band(K0(q).fin, le(cv.th, K0(q)), le(K0(q), cv.cr)))
    g = method(I, pc, "get_growth_rate", K)
    r = method(I, pc, "get_sif", g)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, gd = generic(I, n)
    ensure(I, "the intensity again", bimp(gd, same(num(r.get(k)), K0(k))))
    unchanged(I, "sif", K, n, K0)


@task("P20", [M + "ParisCurve.get_sif", M + "ParisCurve.get_growth_rate", "py_fatigue.material.sn_curve:ensure_array"],
      contracts=KERNELS, overrides=OVER)
def intensity_of_rate_scalar(I):
    pc, cv = paris_curve(I)
    K = zero_or_more(I, "sif")
    pre(I, band(K.fin, le(cv.th, K), le(K, cv.cr)))
    r = method(I, pc, "get_sif", method(I, pc, "get_growth_rate", K))
    if not isinstance(r, Num):
        return ensure(I, "result is a number", False)
    ensure(I, "the intensity again", same(r, K))


@task("P20", [M + "ParisCurve.get_sif"], contracts=KERNELS, overrides=OVER)
def beyond_the_curve(I):
    """rates below the curve give the threshold, above it the critical value (within the margin of the kernel)"""
    pc, cv = paris_curve(I)
    n = length(I, "n", 1)
    G = of_zero_or_more(I, "rate", n)
    G0 = G._get
    r = method(I, pc, "get_sif", G)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, g = generic(I, n)
    ensure_posts(I, post_sif(cv, G0(k), num(r.get(k)), lambda f: True), cv.m, g)
    unchanged(I, "rate", G, n, G0)
