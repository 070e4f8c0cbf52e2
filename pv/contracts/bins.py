"""P24: bins."""
from ..lib import *
from .split import counts, FULL

U = "py_fatigue.utils:"
SR = "py_fatigue.stress_range.stress_range:StressRange"
MS = "py_fatigue.mean_stress.mean_stress:MeanStress"
HALF_UNIT = z3.RealVal("0.000005")      # edges are rounded to five decimals


def settings(I):
    lb, w = real(I, "lower_bound"), real(I, "width")
    pre(I, w.v > 0)
    return lb, w


def step(I, name, c):
    I.ctx.obligation("lemma:" + name, c)
    I.ctx.assume(c)


BINS = z3.Function("number_of_bins", R, R, R, IS)


def bins(I, lb, w, top):
    """the least number of bins of width w from lb that reach top"""
    K = BINS(zr(lb), zr(w), zr(top))
    I.ctx.assume(z3.And(zr(w) * z3.ToReal(K) >= zr(top) - zr(lb), zr(w) * (z3.ToReal(K) - 1) < zr(top) - zr(lb)))
    return K


@task("P24", [U + "bin_upper_bound"])
def upper_bound(I):
    lb, w = settings(I)
    top = real(I, "largest")
    r = num(callf(I, U + "bin_upper_bound", lb, w, top))
    K = bins(I, lb.v, w.v, top.v)
    q = (zr(top.v) - zr(lb.v)) / zr(w.v)
    step(I, "quotient", q * zr(w.v) == zr(top.v) - zr(lb.v))
    step(I, "rounded up", z3.And(q <= z3.ToReal(K), q > z3.ToReal(K) - 1))
    ensure(I, "lower bound plus whole bins", band(r.fin, req(r.v, zr(lb.v) + zr(w.v) * z3.ToReal(K))))


def reached(I, bound):
    """contract of bin_upper_bound"""
    lb, w, top = (num(bound[k]) for k in ("bin_lower_bound", "bin_width", "max_val"))
    require(I, "numbers and a positive width", band(lb.fin, w.fin, top.fin, rlt(0, w.v)))
    K = bins(I, lb.v, w.v, top.v)
    return Num(zr(lb.v) + zr(w.v) * z3.ToReal(K), isint=False)


REACHED = {U + "bin_upper_bound": Contract(reached)}


@task("P24", [U + "calc_bin_edges"], contracts=REACHED)
def bin_edges(I):
    lb, w = settings(I)
    top = real(I, "upper_bound")
    pre(I, top.v > lb.v)
    r = as1d(I, callf(I, U + "calc_bin_edges", lb, top, w))
    K = bins(I, lb.v, w.v, top.v)
    lbv, wv, k = zr(lb.v), zr(w.v), z3.ToReal(K)
    step(I, "as many", (lbv + wv * k + wv - lbv) / wv == k + 1)
    ensure(I, "number of edges", band(req(r.n, K + 1), K >= 1))
    j, c = generic(I, K + 1, "j")
    e = lambda j: num(r.get(j))
    ensure(I, "edges", bimp(c, band(e(j).fin, rabs(zr(e(j).v) - zr(lb.v) - zr(w.v) * z3.ToReal(j)) <= HALF_UNIT)))
    ensure(I, "edges increase", bimp(band(0 <= j, j < K), zr(e(j).v) <= zr(e(j + 1).v)))


def rabs(d):
    return z3.If(d >= 0, d, -d)


EDGE = z3.Function("bin_edge", R, R, IS, R)


def rounded_edges(I, bound):
    """contract of calc_bin_edges"""
    lb, top, w = (num(bound[k]) for k in ("bin_lb", "bin_ub", "bin_width"))
    require(I, "numbers, a positive width and an upper bound above the lower one",
            band(lb.fin, w.fin, top.fin, rlt(0, w.v), rlt(lb.v, top.v)))
    K = bins(I, lb.v, w.v, top.v)
    n = K + 1
    I.ctx.assume(K >= 1)
    e = lambda j: EDGE(zr(lb.v), zr(w.v), zi(j))
    near = lambda j: rabs(e(j) - zr(lb.v) - zr(w.v) * z3.ToReal(zi(j))) <= HALF_UNIT
    order = lambda j: e(j) <= e(zi(j) + 1)
    for lo, hi, f in ((0, n, near), (0, n - 1, order)):
        I.ctx.assume(all_k(I, hi, f, lo, patterns=lambda k: [e(k)]))
        I.ctx.universal(lo, hi, f)
    return Arr(n, lambda j: Num(e(j), isint=False), "f", "nd")


BINNED = {**REACHED, U + "calc_bin_edges": Contract(rounded_edges)}
FS = [U + "FatigueStress." + f for f in ("__post_init__", "bin_edges", "bin_centers", "bins_idx", "binned_values", "full")] + FULL


def stress(I, cls, auto):
    lb, w = settings(I)
    n = length(I, "n", 1)
    c, h = counts(I, n)
    v = arr(I, "values", n)
    g = v._get
    kw = {} if auto else {"_bin_lb": lb}
    o = callf(I, cls, c, v, w, **kw)
    b = blocks(I, n, h.whole)
    return o, (None if auto else lb), w, n, b, (lambda p: zr(num(g(b.owner(p))).v)), g


def lower_bound_of(I, o, lb, w, n, g):
    got = num(I.getattr(o, "bin_lb"))
    if lb is not None:
        ensure(I, "the lower bound given", same(got, lb))
        return zr(lb.v)
    k, c = generic(I, n, "k")
    ensure(I, "lower bound below all values", bimp(c, zr(got.v) <= zr(num(g(k)).v)))
    return zr(got.v)


def in_its_bin(I, cls, auto):
    o, lb, w, n, b, full, g = stress(I, cls, auto)
    lb = lower_bound_of(I, o, lb, w, n, g)
    wv = zr(w.v)
    idx, val = (as1d(I, I.getattr(o, f)) for f in ("bins_idx", "binned_values"))
    edges, centres = (as1d(I, I.getattr(o, f)) for f in ("bin_edges", "bin_centers"))
    E = lambda j: zr(num(edges.get(j)).v)
    tol = 3 * HALF_UNIT
    p, c = generic(I, b.total, "p")
    ensure(I, "one bin for each full cycle", band(req(idx.n, b.total), req(val.n, b.total)))
    ensure(I, "one centre for each bin", req(radd(centres.n, 1), edges.n))
    j = zi(num(idx.get(p)).v)
    for q in (j, j + 1, z3.IntVal(0), zi(edges.n) - 1, zi(edges.n) - 2):
        I.ctx.instantiate(q)
    bins_at(I, p, z3.IntVal(0), zi(edges.n) - 1, j, j + 1)
    v = full(p)
    c = band(c, v >= lb)
    ensure(I, "a valid bin", bimp(c, z3.And(0 <= j, j < zi(edges.n) - 1)))
    ensure(I, "reaches the largest full cycle", bimp(c, E(zi(edges.n) - 1) >= v - tol))
    ensure(I, "not below its lower edge", bimp(c, E(j) - tol <= v))
    ensure(I, "not above its upper edge", bimp(c, v <= E(j + 1) + tol))
    ensure(I, "binned value", bimp(c, same(num(val.get(p)), num(centres.get(j)))))
    ensure(I, "the centre of its bin", bimp(c, rabs(zr(num(val.get(p)).v) - lb - wv * (z3.ToReal(j) + z3.RealVal("1/2"))) <= tol))
    ensure(I, "edges", bimp(c, band(rabs(E(j) - lb - wv * z3.ToReal(j)) <= tol, rabs(E(0) - lb) <= tol)))


@task("P24", FS, contracts=BINNED)
def ranges_in_bins(I):
    in_its_bin(I, SR, False)


@task("P24", FS, contracts=BINNED)
def ranges_in_automatic_bins(I):
    in_its_bin(I, SR, True)


@task("P24", FS, contracts=BINNED)
def means_in_bins(I):
    in_its_bin(I, MS, False)


@task("P24", FS, contracts=BINNED)
def means_in_automatic_bins(I):
    in_its_bin(I, MS, True)
