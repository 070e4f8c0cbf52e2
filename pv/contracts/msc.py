"""P10: mean-stress correction formulas."""
from ..lib import *

C = "py_fatigue.mean_stress.corrections:"


def dnv_factor(mx, mn, f):
    """the factor of DNVGL-RP-C203 2.5, from the property's text"""
    raw = div(add(mx, mul(f, nabs(mn))), add(mx, nabs(mn)))
    low = lt(raw, f)
    capped = nite(lt(num(1), raw), num(1), raw)
    capped = nite(lt(num(0), mn), num(1), capped)
    if f.v == Fraction(4, 5):
        return nite(lt(capped, f), f, capped)
    return nite(lt(capped, f), num(0), capped)


def _dnv(I, f):
    n = length(I, "n")
    mean, amp = arr(I, "mean", n), arr(I, "amp", n)
    forall(I, n, lambda k: amp.get(k).v > 0)
    m0, a0 = mean._get, amp._get
    r = callf(I, C + "dnvgl_mean_stress_correction", mean, amp, detail_factor=num(f))
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, g = generic(I, n)
    mx, mn = add(m0(k), a0(k)), sub(m0(k), a0(k))
    pre(I, bimp(g, rlt(0, a0(k).v)))
    want = mul(mul(num(2), dnv_factor(mx, mn, num(f))), a0(k))
    ensure(I, "corrected range", bimp(g, same(num(r.get(k)), want)))
    unchanged(I, "mean", mean, n, m0)
    unchanged(I, "amplitude", amp, n, a0)


@task("P10", [C + "dnvgl_mean_stress_correction"])
def dnv_08(I):
    _dnv(I, 0.8)


@task("P10", [C + "dnvgl_mean_stress_correction"])
def dnv_06(I):
    _dnv(I, 0.6)


@task("P10", [C + "dnvgl_mean_stress_correction"])
def dnv_other(I):
    n = length(I, "n")
    mean, amp = arr(I, "mean", n), arr(I, "amp", n)
    f = real(I, "f")
    pre(I, band(bnot(req(f.v, Fraction(4, 5))), bnot(req(f.v, Fraction(3, 5)))))
    expect_exc(I, "other detail factors", "ValueError",
               lambda: callf(I, C + "dnvgl_mean_stress_correction", mean, amp, detail_factor=f))


def walker_term(mx, a, g):
    """mx^(1-g) * a^g, zero where undefined; a > 0, 0 < g <= 1"""
    return mx, a, g


def _walker(I, call, gamma):
    n = length(I, "n")
    mean, amp = arr(I, "mean", n), pos_arr(I, "amp", n)
    m0, a0 = mean._get, amp._get
    r = call(mean, amp)
    if not isinstance(r, Arr):
        return ensure(I, "result is an array", False)
    ensure(I, "length", req(r.n, n))
    k, g = generic(I, n)
    mx = add(m0(k), a0(k))
    la = a0(k).v.arg(0)
    v = num(r.get(k))
    one = rsub(1, gamma.v)
    # positive maximum: exp((1-g) log(max) + g log(amp))
    L = LOG(zr(mx.v))
    want = rexp(radd(rmul(L, one), rmul(la, gamma.v)))
    ensure(I, "positive maximum", bimp(band(g, rlt(0, mx.v)), band(v.fin, req(v.v, want))))
    ensure(I, "undefined gives zero", bimp(band(g, rlt(mx.v, 0), bnot(T_isint(one))), band(v.fin, req(v.v, 0))))
    ensure(I, "zero maximum gives zero", bimp(band(g, req(mx.v, 0), rlt(0, one)), band(v.fin, req(v.v, 0))))
    unchanged(I, "mean", mean, n, m0)
    unchanged(I, "amplitude", amp, n, a0)


def T_isint(x):
    return is_int_raw(x) if isc(x) else z3.IsInt(zr(x))


@task("P10", [C + "walker_mean_stress_correction"])
def walker(I):
    gm = real(I, "gamma")
    pre(I, band(rlt(0, gm.v), rle(gm.v, 1)))
    _walker(I, lambda m, a: callf(I, C + "walker_mean_stress_correction", m, a, gamma=gm), gm)


@task("P10", [C + "walker_mean_stress_correction"])
def walker_default(I):
    _walker(I, lambda m, a: callf(I, C + "walker_mean_stress_correction", m, a), num(0.5))


@task("P10", [C + "swt_mean_stress_correction"])
def swt(I):
    _walker(I, lambda m, a: callf(I, C + "swt_mean_stress_correction", m, a), num(0.5))
