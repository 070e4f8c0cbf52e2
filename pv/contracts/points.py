"""P30: histogram values at points."""
from ..lib import *

H = "py_fatigue.cycle_count.histogram:"


def edges(I, name):
    n = length(I, name + "_bins", 1)
    e = arr(I, name + "_edges", n + 1)
    forall(I, n, lambda k: rlt(num(e._get(k)).v, num(e._get(zi(k) + 1)).v))
    return n, e


def bin_of(I, name, v, n, e):
    """any bin that holds v: its lower edge belongs to it, the upper edge to the last bin only"""
    j = z3.Int(name + "_bin")
    I.inputs[name + "_bin"] = Num(j, isint=True)
    for q in (j, j + 1, z3.IntVal(0), n, n - 1):
        I.ctx.instantiate(q)
    E = lambda k: zr(num(e(zi(k))).v)
    return j, z3.And(0 <= j, j < n, E(j) <= v, z3.Or(v < E(j + 1), z3.And(j == n - 1, v == E(n)))), \
        z3.Or(v < E(0), v > E(n))


@task("P30", [H + "map_hist"])
def value_of_the_bin(I):
    n = length(I, "n")
    x, y = arr(I, "x", n), arr(I, "y", n)
    (a, ex), (b, ey) = edges(I, "x"), edges(I, "y")
    h = z3.Function("hist", IS, IS, R)
    hist = Mat(a, b, lambda i, j: Num(h(zi(i), zi(j)), isint=False))
    x0, y0, gx, gy, h0 = x._get, y._get, ex._get, ey._get, hist._get
    r = as1d(I, callf(I, H + "map_hist", x, y, hist, (ex, ey)))
    ensure(I, "one value for each point", req(r.n, n))
    p, c = generic(I, n, "p")
    v = num(r.get(p))
    i, inx, outx = bin_of(I, "x", zr(num(x0(p)).v), a, gx)
    j, iny, outy = bin_of(I, "y", zr(num(y0(p)).v), b, gy)
    bins_at(I, p, i, i + 1, j, j + 1, z3.IntVal(0), a, b, a - 1, b - 1)
    ensure(I, "the value of its bin", bimp(band(c, inx, iny), band(v.fin, zr(v.v) == h(i, j))))
    ensure(I, "not a number outside", bimp(band(c, z3.Or(outx, outy)), v.na))
    unchanged(I, "x", x, n, x0)
    unchanged(I, "y", y, n, y0)
    ensure(I, "histogram unchanged", hist._get is h0)


class Drawn:
    """numpy's two-dimensional histogram: recorded arguments, any result"""

    def __init__(self, I):
        self.args = self.kw = None
        self.r = (Mat(z3.Int("rows"), z3.Int("cols"), lambda i, j: Num(z3.Function("cell", IS, IS, R)(zi(i), zi(j)),
                                                                       isint=False)),
                  arr(I, "mean_edges", z3.Int("rows") + 1), arr(I, "range_edges", z3.Int("cols") + 1))


@task("P30", [H + "make_histogram"])
def histogram_of_the_points(I):
    d = Drawn(I)

    def drawn(I_, args, kw):
        d.args, d.kw = args, kw
        return d.r
    I.histogram2d = drawn
    n, m = length(I, "n"), length(I, "m")
    x, y = arr(I, "mean_stress", n), arr(I, "stress_range", m)
    bins, rng, w = Opaque("bins"), Opaque("bin_range"), Opaque("weights")
    call = lambda: callf(I, H + "make_histogram", x, y, bins=bins, bin_range=rng, normed=False, weights=w)
    if I.ctx.branch(n != m):
        return expect_exc(I, "different lengths", "ValueError", call)
    r = call()
    if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[1], tuple):
        raise Unsupported("histogram and edges are expected")
    g = {k: v for k, v in zip(("x", "y", "bins", "range"), d.args)}
    g.update(d.kw)
    ensure(I, "of the points", g.get("x") is x and g.get("y") is y)
    ensure(I, "with the bins, limits and weights given", g.get("bins") is bins and g.get("range") is rng
           and g.get("weights") is w)
    ensure(I, "counts, not densities", g.get("normed", False) is False and g.get("density", False) in (False, None))
    ensure(I, "the histogram", r[0] is d.r[0] and r[1][0] is d.r[1] and r[1][1] is d.r[2])
