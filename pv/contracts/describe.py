"""P29: bins, moments and table of a cycle count."""
from ..lib import *
from .bins import BINNED, HALF_UNIT, rabs, step
from .cycle import a_count, same_rest, untouched, K


class Cycles:
    """a cycle count and its full and half cycles (contracts of both: proved for P27)"""

    def __init__(self, I):
        self.o, self.s = a_count(I)
        self.nf, self.nh = length(I, "full"), length(I, "half")
        self.full, self.half = ([z3.Function(t + q, IS, R) for q in ("_mean", "_range")] for t in ("full", "half"))
        I.cycles = self


def rows(n, cols):
    return Mat(n, 2, lambda i, q: Num(z3.If(zi(q) == 0, cols[0](zi(i)), cols[1](zi(i))) if not isinstance(q, int)
                                      else cols[q](zi(i)), isint=False))


def full_rows(I, bound):
    return rows(I.cycles.nf, I.cycles.full)


def half_rows(I, bound):
    return rows(I.cycles.nh, I.cycles.half)


PARTS = {K + ".full_cycles": Contract(full_rows), K + ".half_cycles": Contract(half_rows),
         K + ".residuals": Contract(half_rows)}
UPPER = [K + ".mean_bin_upper_bound", K + ".range_bin_upper_bound", K + ".mean_bin_lower_bound"]


def binned(I, what):
    """both kinds of bins of a count with a full cycle above the lower bounds"""
    c = Cycles(I)
    out = []
    i = [z3.Int("above_mean"), z3.Int("above_range")]
    lbs = [num(c.s["_mean_bin_lower_bound"]), num(c.s["range_bin_lower_bound"])]
    ws = [num(c.s["mean_bin_width"]), num(c.s["range_bin_width"])]
    for q in (0, 1):
        pre(I, band(0 <= i[q], i[q] < c.nf, c.full[q](i[q]) > zr(lbs[q].v)))
        I.ctx.instantiate(i[q])
    r = I.getattr(c.o, what)
    if not isinstance(r, tuple) or len(r) != 2:
        raise Unsupported("a pair is expected")
    for q, name in ((0, "means"), (1, "ranges")):
        a = as1d(I, r[q])
        p, g = generic(I, c.nf, "p")
        out.append((name, a, zr(lbs[q].v), zr(ws[q].v), c.full[q], p, g))
    return out


@task("P29", [K + ".bin_edges"] + UPPER, contracts={**PARTS, **BINNED})
def edges_of_count(I):
    for name, a, lb, w, v, p, g in binned(I, "bin_edges"):
        j, h = generic(I, a.n, "j")
        e = lambda j: num(a.get(j))
        last = zi(a.n) - 1
        I.ctx.instantiate(last)
        I.ctx.instantiate(last - 1)
        ensure(I, name + ": at least one bin", last >= 1)
        ensure(I, name + ": one width apart", bimp(h, band(e(j).fin, rabs(zr(e(j).v) - lb - w * z3.ToReal(j)) <= HALF_UNIT)))
        ensure(I, name + ": reach the largest full cycle", bimp(g, v(p) <= lb + w * z3.ToReal(last)))
        far = all_k(I, I.cycles.nf, lambda k: v(zi(k)) <= lb + w * (z3.ToReal(last) - 1), patterns=lambda k: [v(zi(k))])
        ensure(I, name + ": not one bin too many", z3.Not(far))


@task("P29", [K + ".bin_centers"] + UPPER, contracts={**PARTS, **BINNED})
def centres_of_count(I):
    for name, a, lb, w, v, p, g in binned(I, "bin_centers"):
        j, h = generic(I, a.n, "j")
        e = num(a.get(j))
        n = zi(a.n)
        I.ctx.instantiate(n)
        ensure(I, name + ": at least one bin", n >= 1)
        ensure(I, name + ": in the middle", bimp(h, band(e.fin, rabs(zr(e.v) - lb - w * (z3.ToReal(j) + z3.RealVal("1/2")))
                                                         <= HALF_UNIT)))
        ensure(I, name + ": up to the largest full cycle", bimp(g, v(p) <= lb + w * z3.ToReal(n)))


@task("P29", [K + ".statistical_moments"], contracts=PARTS)
def moments(I):
    c = Cycles(I)
    n = c.nf + c.nh
    pre(I, n >= 1)
    x = lambda k: z3.If(zi(k) < c.nh, c.half[1](zi(k)), c.full[1](zi(k) - c.nh))
    forall(I, n, lambda k: x(k) > 0)
    r = I.getattr(c.o, "statistical_moments")
    r = r if isinstance(r, tuple) else I.call(r, [], {})
    if not isinstance(r, tuple) or len(r) != 3:
        raise Unsupported("three moments are expected")
    term = lambda f: NP.sum_closure(I, n, lambda k: Num(f(k), isint=False), "moment").v
    size = z3.ToReal(n)
    m = term(x) / size
    NP.sum_ge_term(I, I.ctx.sums[-1], z3.IntVal(0))
    var = term(lambda k: (x(k) - m) * (x(k) - m)) / size
    squares = I.ctx.sums[-1]
    skew = term(lambda k: (x(k) - m) * (x(k) - m) * (x(k) - m)) / size
    ensure(I, "mean", band(num(r[0]).fin, req(num(r[0]).v, m)))
    step(I, "positive mean", m > 0)
    step(I, "no negative squares", squares.s >= 0)
    for q in I.ctx.sums:
        if q is not squares and z3.is_real(q.s):
            step(I, "a sum", z3.Implies(q.s == squares.s, q.s / size == var))
    v = I.ctx.fresh("variance", R)
    I.ctx.assume(v == var)
    root = zr(T.sqrt(Num(v, isint=False)).v)
    d = num(r[1])
    ensure(I, "deviation is a number", d.fin)
    ensure(I, "deviation", zr(d.v) * m == root)
    t = num(r[2])
    ensure(I, "skewness", band(t.fin, zr(t.v) * (m * m * m) == skew))


@task("P29", [K + ".to_df"])
def table(I):
    o, s = a_count(I)
    d = I.call(I.getattr(o, "to_df"), [], {})
    if not isinstance(d, DF):
        raise Unsupported("a data frame is expected")
    for f in ("count_cycle", "mean_stress", "stress_range"):
        ensure(I, f + " is a column", f in d.cols)
        ensure_arr(I, f, d.cols[f], *s.arr(f))
    md = d.attrs.get("_metadata")
    ensure(I, "settings kept", isinstance(md, PyDict))
    for f in ("name", "unit", "mean_stress_corrected", "lffd_solved"):
        same_rest(I, f, md.d.get(f), s[f])
    for f in ("nr_small_cycles", "stress_concentration_factor", "timestamp"):
        ensure_num(I, f, md.d.get(f), s.num(f))
    untouched(I, "count", o, s)
