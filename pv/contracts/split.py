"""P27: full and half cycles."""
from ..lib import *

U = "py_fatigue.utils:"
CC = "py_fatigue.cycle_count.cycle_count:"


class Halves:
    """counts that are whole multiples of one half: w(k) wholes and a half where e(k)"""

    def __init__(self):
        self.w, self.e = z3.Function("wholes", IS, IS), z3.Function("has_half", IS, B)

    def whole(self, k):
        return self.w(zi(k))

    def odd(self, k):
        return self.e(zi(k))

    def count(self, k):
        return z3.ToReal(self.w(zi(k))) + z3.If(self.e(zi(k)), z3.RealVal("1/2"), z3.RealVal(0))


def counts(I, n, kind="nd"):
    h = Halves()
    c = inp(I, "count", Arr(n, lambda i: Num(h.count(i), isint=False), "f", kind))
    forall(I, n, lambda k: band(rle(0, h.whole(k)), bor(h.odd(k), rle(1, h.whole(k)))))
    return c, h


def pair(I, r):
    if not isinstance(r, tuple) or len(r) != 2:
        raise Unsupported("a pair is expected")
    return r


def positions(I, which, mask):
    n = length(I, "n")
    c, h = counts(I, n)
    c0 = c._get
    r = pair(I, callf(I, U + "split_full_cycles_and_residuals", c))
    f = kept(I, n, mask(h))
    ensure_arr(I, "positions", r[which], f.m, lambda j: Num(f.idx(j), isint=True))
    unchanged(I, "counts", c, n, c0)


@task("P27", [U + "split_full_cycles_and_residuals"])
def full_positions(I):
    positions(I, 0, lambda h: lambda k: h.whole(k) >= 1)


@task("P27", [U + "split_full_cycles_and_residuals"])
def half_positions(I):
    positions(I, 1, lambda h: h.odd)


@task("P27", [U + "calc_full_cycles", U + "split_full_cycles_and_residuals"])
def full_cycles(I):
    n = length(I, "n")
    c, h = counts(I, n)
    s = arr(I, "stress", n)
    c0, s0 = c._get, s._get
    full_of(I, "full cycles", callf(I, U + "calc_full_cycles", s, c), n, h, s0)
    unchanged(I, "counts", c, n, c0)
    unchanged(I, "stress", s, n, s0)


def full_of(I, what, r, n, h, s0):
    b = blocks(I, n, h.whole)
    r = as1d(I, r)
    ensure(I, what + ": number", req(r.n, b.total))
    p, g = generic(I, b.total, "p")
    ensure(I, what + ": stress", bimp(g, same(num(r.get(p)), num(s0(b.owner(p))))))


@task("P27", [U + "calc_half_cycles", U + "split_full_cycles_and_residuals"])
def half_cycles(I):
    n = length(I, "n")
    c, h = counts(I, n)
    s = arr(I, "stress", n)
    c0, s0 = c._get, s._get
    half_of(I, "half cycles", callf(I, U + "calc_half_cycles", s, c), n, h, s0)
    unchanged(I, "counts", c, n, c0)
    unchanged(I, "stress", s, n, s0)


def half_of(I, what, r, n, h, s0):
    f = kept(I, n, h.odd)
    ensure_arr(I, what, r, f.m, lambda j: s0(f.idx(j)))


def counted(I):
    """a cycle count with whole and half counts"""
    n = length(I, "n", 1)
    c, h = counts(I, n)
    s, m = arr(I, "range", n), arr(I, "mean", n)
    o = Obj(func(I, CC + "CycleCount"), {"stress_range": s, "count_cycle": c, "mean_stress": m, "unit": "MPa"})
    return o, n, c, h, s, m


def two_columns(I, r):
    if not isinstance(r, Mat) or r.m != 2:
        raise Unsupported("two columns are expected")
    return [Arr(r.n, lambda i, q=q: r.get(i, q)) for q in (0, 1)]


FULL = [U + "calc_full_cycles", U + "split_full_cycles_and_residuals"]


@task("P27", [CC + "CycleCount.full_cycles"] + FULL)
def full_cycles_of_count(I):
    o, n, c, h, s, m = counted(I)
    s0, m0 = s._get, m._get
    r = two_columns(I, I.getattr(o, "full_cycles"))
    full_of(I, "means", r[0], n, h, m0)
    full_of(I, "ranges", r[1], n, h, s0)


def halves_of_count(I, name):
    o, n, c, h, s, m = counted(I)
    s0, m0 = s._get, m._get
    r = two_columns(I, I.getattr(o, name))
    half_of(I, "means", r[0], n, h, m0)
    half_of(I, "ranges", r[1], n, h, s0)


@task("P27", [CC + "CycleCount.residuals", U + "split_full_cycles_and_residuals"])
def residuals_of_count(I):
    halves_of_count(I, "residuals")


@task("P27", [CC + "CycleCount.half_cycles", CC + "CycleCount.residuals", U + "split_full_cycles_and_residuals"])
def half_cycles_of_count(I):
    halves_of_count(I, "half_cycles")


def stress_of(I):
    n = length(I, "n", 1)
    c, h = counts(I, n)
    s = arr(I, "stress", n)
    o = Obj(func(I, "py_fatigue.stress_range.stress_range:StressRange"), {"_values": s, "_counts": c})
    return o, n, h, s._get


@task("P27", [U + "FatigueStress.full", U + "FatigueStress.values", U + "FatigueStress.counts"] + FULL)
def full_of_stress(I):
    o, n, h, s0 = stress_of(I)
    full_of(I, "full cycles", I.getattr(o, "full"), n, h, s0)


@task("P27", [U + "FatigueStress.half", U + "calc_half_cycles", U + "split_full_cycles_and_residuals"])
def half_of_stress(I):
    o, n, h, s0 = stress_of(I)
    half_of(I, "half cycles", I.getattr(o, "half"), n, h, s0)


@task("P27", [])
def nothing_lost(I):
    """whole parts and half the number of half cycles add up to the counts"""
    n = length(I, "n")
    c, h = counts(I, n)
    b = blocks(I, n, h.whole)
    total, rank = (z3.Function(x, IS, IS) for x in ("twice_total", "halves_before"))
    k = z3.Int("k_")
    for f, step in ((total, lambda k: 2 * h.whole(k) + z3.If(h.odd(k), 1, 0)), (rank, lambda k: z3.If(h.odd(k), 1, 0))):
        I.ctx.assume(f(0) == 0)
        I.ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), f(k + 1) == f(k) + step(k)),
                               patterns=[f(k)]))
    induct(I, "sum", n, lambda k: 2 * b.start(zi(k)) + rank(zi(k)) == total(zi(k)))
