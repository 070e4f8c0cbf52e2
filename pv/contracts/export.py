"""P25: export of histograms."""
from ..lib import *
from .split import Halves
from .bins import BINNED, REACHED, BINS, bins, EDGE, HALF_UNIT, rabs, FS, SR, MS, U
from .cycle import func, a_count, untouched, counting, Snap, K

H = "py_fatigue.cycle_count.histogram:"
TOL = 3 * HALF_UNIT


def stress_object(I, cls, name, n, counts, values, w, lb, ub):
    return Obj(func(I, cls), {"_counts": counts, "_values": values, "bin_width": w, "_bin_lb": lb, "_bin_ub": ub})


def limits(I, name):
    lb, w, ub = (real(I, name + x) for x in ("_lower_bound", "_width", "_upper_bound"))
    pre(I, band(w.v > 0, zr(lb.v) < zr(ub.v)))
    return lb, w, ub


class Bins:
    """bins of the full cycles of one quantity"""

    def __init__(self, I, name):
        self.lb, self.w, self.ub = limits(I, name)
        self.K = bins(I, self.lb.v, self.w.v, self.ub.v)
        I.ctx.assume(self.K >= 1)

    def ok(self, v):
        return band(zr(self.lb.v) <= v, v <= zr(self.ub.v))


def bin_facts(B, v, j, val):
    """what is known of the bin j and the binned value of a full cycle v"""
    lb, w = zr(B.lb.v), zr(B.w.v)
    edge = lambda k: lb + w * z3.ToReal(k)
    return [("a valid bin", z3.And(0 <= j, j < B.K)),
            ("not below its lower edge", edge(j) - TOL <= v), ("not above its upper edge", v <= edge(j + 1) + TOL),
            ("the centre of its bin", rabs(val - edge(j) - w / 2) <= TOL)]


def in_bin(I, cls):
    n = length(I, "n")
    h = Halves()
    c = inp(I, "count", Arr(n, lambda i: Num(h.count(i), isint=False), "f", "nd"))
    forall(I, n, lambda k: band(rle(0, h.whole(k)), bor(h.odd(k), rle(1, h.whole(k)))))
    v = arr(I, "values", n)
    B = Bins(I, "bin")
    g = v._get
    forall(I, n, lambda k: bimp(h.whole(k) >= 1, B.ok(zr(num(g(k)).v))))
    o = stress_object(I, cls, "o", n, c, v, B.w, B.lb, B.ub)
    b = blocks(I, n, h.whole)
    idx, val = (as1d(I, I.getattr(o, f)) for f in ("bins_idx", "binned_values"))
    centres = as1d(I, I.getattr(o, "bin_centers"))
    ensure(I, "one bin for each full cycle", band(req(idx.n, b.total), req(val.n, b.total)))
    ensure(I, "one centre for each bin", req(centres.n, B.K))
    p, cond = generic(I, b.total, "p")
    i = num(idx.get(p))
    j = zi(i.v)
    for q in (j, j + 1, z3.IntVal(0), B.K, B.K - 1):
        I.ctx.instantiate(q)
    bins_at(I, p, z3.IntVal(0), B.K, j, j + 1)
    ensure(I, "numbers", bimp(cond, band(i.fin, num(val.get(p)).fin)))
    for name, f in bin_facts(B, zr(num(g(b.owner(p))).v), j, zr(num(val.get(p)).v)):
        ensure(I, name, bimp(cond, f))


@task(["P24", "P25"], FS, contracts=BINNED)
def bins_of_ranges(I):
    in_bin(I, SR)


@task(["P24", "P25"], FS, contracts=BINNED)
def bins_of_means(I):
    in_bin(I, MS)


class OneBin:
    """the one bin of means of zero"""
    lb, w, ub, K = num(-0.5), num(1), num(0.5), 1
    ok = Bins.ok


class Export:
    """cycles to be exported; the entries not below the lower bound, their full and half cycles"""

    def __init__(self, I, means=True):
        self.n = n = length(I, "n", 1)
        self.h = h = Halves()
        self.count = inp(I, "count", Arr(n, lambda i: Num(h.count(i), isint=False), "f", "nd"))
        forall(I, n, lambda k: band(rle(0, h.whole(k)), bor(h.odd(k), rle(1, h.whole(k)))))
        self.rg = pos_arr(I, "range", n)
        self.mn = arr(I, "mean", n) if means else Arr(n, lambda k: num(0.0), "f", "nd")
        self.r0, self.m0 = self.rg._get, self.mn._get
        self.R, self.M = Bins(I, "range"), Bins(I, "mean") if means else OneBin()
        self.range, self.mean = (lambda k: zr(num(self.r0(k)).v)), (lambda k: zr(num(self.m0(k)).v))
        forall(I, n, lambda k: bimp(h.whole(k) >= 1, band(self.range(k) <= zr(self.R.ub.v), self.M.ok(self.mean(k)))))
        self.kept = f = kept(I, n, lambda k: le(self.R.lb, num(self.r0(k))))
        self.full = blocks(I, f.m, lambda k: h.whole(f.idx(k)))
        self.half = kept(I, f.m, lambda k: h.odd(f.idx(k)))
        self.src = lambda p: f.idx(self.full.owner(p))
        self.objs, self.blocks = {}, None
        I.export = self

    def objects(self, I):
        new = lambda cls, v, B: Obj(func(I, cls), {"_counts": self.count, "_values": v, "bin_width": B.w,
                                                   "_bin_lb": B.lb, "_bin_ub": B.ub})
        return new(SR, self.rg, self.R), new(MS, self.mn, self.M)


def all_of(I, n, f):
    """every element: as a condition to be proved"""
    k, c = generic(I, n, "k")
    return bimp(c, f(k))


def kept_counts(I, e, counts, values):
    require(I, "counts of the entries kept", band(req(counts.n, e.kept.m), req(values.n, e.kept.m), all_of(
        I, e.kept.m, lambda k: req(num(counts.get(k)).v, e.h.count(e.kept.idx(k))))))


def full_of(I, bound):
    """contract of calc_full_cycles (proved for P27): of all entries or of those kept"""
    e, s, c = I.export, as1d(I, bound["stress"]), as1d(I, bound["count_cycle"])
    if LP.same_term(c.n, e.n):
        require(I, "counts of the entries", band(req(s.n, e.n), all_of(
            I, e.n, lambda k: req(num(c.get(k)).v, e.h.count(k)))))
        b = e.blocks or blocks(I, e.n, e.h.whole)
    else:
        kept_counts(I, e, c, s)
        b = e.full
    g = s._get
    return Arr(b.total, lambda p: num(g(b.owner(p))), "f", "nd")


def half_of(I, bound):
    """contract of calc_half_cycles (proved for P27)"""
    e, s, c = I.export, as1d(I, bound["stress"]), as1d(I, bound["count_cycle"])
    kept_counts(I, e, c, s)
    g = s._get
    return Arr(e.half.m, lambda j: num(g(e.half.idx(j))), "f", "nd")


def binned(I, o):
    """contract of the bins of a quantity (proved by bins_of_ranges and bins_of_means)"""
    e = I.export
    name = o.cls.name
    if name not in e.objs:
        B = e.R if name == "StressRange" else e.M
        for k, x in (("_bin_lb", B.lb), ("_bin_ub", B.ub), ("bin_width", B.w)):
            require(I, "bin settings", same(num(o.fields[k]), x))
        full = as1d(I, I.getattr(o, "full"))
        v = lambda p: zr(num(full.get(p)).v)
        require(I, "between the bounds", all_of(I, full.n, lambda p: B.ok(v(p))))
        idx, val = I.ctx.fresh_fun("bin_" + name, IS, IS), I.ctx.fresh_fun("binned_" + name, IS, R)
        facts = lambda p: band(*[f for _, f in bin_facts(B, v(p), idx(zi(p)), val(zi(p)))])
        I.ctx.assume(all_k(I, full.n, facts, patterns=lambda k: [idx(k)]))
        I.ctx.universal(0, full.n, facts)
        e.objs[name] = full.n, idx, val, B.K
    return e.objs[name]


def bins_idx(I, bound):
    n, idx, _, _ = binned(I, bound["self"])
    return Arr(n, lambda p: Num(idx(zi(p)), isint=True), "i", "nd")


def binned_values(I, bound):
    n, _, val, _ = binned(I, bound["self"])
    return Arr(n, lambda p: Num(val(zi(p)), isint=False), "f", "nd")


def bin_centres(I, bound):
    n, _, _, K = binned(I, bound["self"])
    c = I.ctx.fresh_fun("centre", IS, R)
    return Arr(K, lambda j: Num(c(zi(j)), isint=False), "f", "nd")


QUANTITIES = {U + "calc_full_cycles": Contract(full_of), U + "calc_half_cycles": Contract(half_of),
              U + "FatigueStress.bins_idx": Contract(bins_idx), U + "FatigueStress.binned_values": Contract(binned_values),
              U + "FatigueStress.bin_centers": Contract(bin_centres)}


# the loop over the sorted full cycles: ghost functions say which cycles were listed and where, how many cycles
# a cell holds and which cycle is the t-th of them
class Ghost:
    def __init__(self, I, tag):
        f = lambda n, *s: I.ctx.fresh_fun(n + tag, *s)
        self.large, self.pos, self.src = f("large", IS, B), f("listed_at", IS, IS), f("listed", IS, IS)
        self.cell = f("cell", IS, IS, IS)
        self.rank, self.who = f("counted_at", IS, IS), f("counted", IS, IS, IS, IS)
        self.pats = True


class After:
    """the ghost functions after iteration k"""

    def __init__(self, g, k, grew, n, i, j):
        same_ = lambda a, b: z3.And(a == i, b == j)
        self.pats = False
        self.large = lambda q: z3.If(q == k, grew, g.large(q))
        self.pos = lambda q: z3.If(q == k, zi(n), g.pos(q))
        self.src = lambda q: z3.If(z3.And(grew, q == zi(n)), k, g.src(q))
        self.cell = lambda a, b: z3.If(z3.And(z3.Not(grew), same_(a, b)), g.cell(a, b) + 1, g.cell(a, b))
        self.rank = lambda q: z3.If(q == k, g.cell(i, j), g.rank(q))
        self.who = lambda a, b, t: z3.If(z3.And(z3.Not(grew), same_(a, b), t == g.cell(a, b)), k, g.who(a, b, t))


def entries(I, l):
    """length, mean and range of the listed cycles"""
    if isinstance(l, PyList):
        if l.xs:
            raise Unsupported("entries before the loop")
        return 0, None, None
    return l.n, (lambda k: zr(num(l.get(k).xs[0]).v)), (lambda k: zr(num(l.get(k).xs[1]).v))


def order(s):
    """bins and values of the sorted cycles"""
    g = lambda q: lambda k: num(s.get(k)[q])
    return [g(q) for q in range(6)]


def begin(I, env, gs):
    gs["g"] = Ghost(I, "0")
    i, j = z3.Int(I.ctx.fresh_name("i")), z3.Int(I.ctx.fresh_name("j"))
    I.ctx.fact(z3.ForAll([i, j], gs["g"].cell(i, j) == 0))
    gs["top"] = NP.minmax(I, as1d(I, I.getattr(env.vars["ranges"], "full")), True)


def any_cells(I, env, gs):
    h = env.vars["_hist"]
    g = gs["g"] = Ghost(I, "")
    I.ctx.log("mat", h)
    NP.bump(h)
    h._get = lambda i, j: Num(z3.ToReal(g.cell(zi(i), zi(j))), isint=False)


def any_list(I, env, gs):
    n = I.ctx.fresh("listed_n", IS)
    I.ctx.assume(n >= 0)
    a, b = I.ctx.fresh_fun("listed_mean", IS, R), I.ctx.fresh_fun("listed_range", IS, R)
    return Arr(n, lambda k: PyList([num(a(zi(k))), num(b(zi(k)))]), "o", "list")


def remember(I, env, k, gs):
    gs["n"] = env.vars["lg_c"].n


def record(I, env, k, gs):
    im, ir = order(env.vars["binned_sorted"])[:2]
    grew = zb(bnot(req(env.vars["lg_c"].n, gs["n"])))
    gs["g"] = After(gs["g"], k, grew, gs["n"], zi(im(k).v), zi(ir(k).v))


def finished(I, env, k, gs, broke):
    e = I.export
    e.g, e.sorted, e.top = gs["g"], env.vars["binned_sorted"], gs["top"]


def counted(I, env, k, gs):
    g, e = gs["g"], I.export
    im, ir, bm, br, mea, ran = order(env.vars["binned_sorted"])
    n, mean, range_ = entries(I, env.vars["lg_c"])
    hist = env.vars["_hist"]
    pat = lambda f: (lambda k: [f(k)]) if g.pats else None
    at = lambda q: (zi(im(q).v), zi(ir(q).v))
    return [
        ("shape", band(req(hist.n, e.M.K), req(hist.m, e.R.K))),
        ("cells", all_cells(I, e, lambda i, j: z3.And(zb(req(num(hist.get(i, j)).v, z3.ToReal(g.cell(i, j)))),
                                                      g.cell(i, j) >= 0), g)),
        ("listed", all_k(I, k, lambda q: bimp(g.large(q), band(
            0 <= g.pos(q), rlt(g.pos(q), n), g.src(g.pos(q)) == q)), patterns=pat(g.pos))),
        ("list", True if mean is None else all_k(I, n, lambda q: band(
            0 <= g.src(q), rlt(g.src(q), k), g.large(g.src(q)), g.pos(g.src(q)) == q,
            mean(q) == zr(mea(g.src(q)).v), range_(q) == zr(ran(g.src(q)).v)), patterns=pat(g.src))),
        ("counted", all_k(I, k, lambda q: bimp(z3.Not(g.large(q)), band(
            0 <= g.rank(q), g.rank(q) < g.cell(*at(q)), g.who(*at(q), g.rank(q)) == q)), patterns=pat(g.rank))),
        ("count", count_of_cells(I, e, k, g, at)),
        ("damaging cycles are listed", all_k(I, k, lambda q: bimp(
            damaging(I, gs["top"], ran(q), br(q)), g.large(q)), patterns=pat(g.large)))]


def damaging(I, top, ran, b):
    e = I.export
    d = lambda x: I.binop("Pow", x, e.m)
    return band(lt(e.tol, div(d(ran), d(top))), lt(e.tol, div(nabs(sub(d(ran), d(b))), d(ran))))


def all_cells(I, e, f, g):
    i, j = z3.Int(I.ctx.fresh_name("i")), z3.Int(I.ctx.fresh_name("j"))
    body = zb(bimp(band(0 <= i, i < e.M.K, 0 <= j, j < e.R.K), f(i, j)))
    return z3.ForAll([i, j], body, patterns=[g.cell(i, j)]) if g.pats else z3.ForAll([i, j], body)


def count_of_cells(I, e, k, g, at):
    i, j, t = (z3.Int(I.ctx.fresh_name(x)) for x in "ijt")
    q = g.who(i, j, t)
    body = zb(bimp(
        band(0 <= i, i < e.M.K, 0 <= j, j < e.R.K, 0 <= t, t < g.cell(i, j)),
        band(0 <= q, rlt(q, k), z3.Not(g.large(q)), at(q)[0] == i, at(q)[1] == j, g.rank(q) == t)))
    return z3.ForAll([i, j, t], body, patterns=[q]) if g.pats else z3.ForAll([i, j, t], body)


BINNER = {(H + "rainflow_binner", 0): LoopSpec(
    counted, modifies={"_hist": any_cells, "lg_c": any_list}, ghost_init=begin, pre_body=remember, ghost_step=record,
    at_exit=finished, of=2)}


@task("P25", [H + f for f in ("rainflow_binner", "rainflow_threshold", "initialise_binned_rainflow_dict",
                              "_build_binned_dict")], contracts=QUANTITIES, loops=BINNER)
def cells_and_lists(I):
    e = Export(I)
    e.tol, e.m = real(I, "tolerance"), real(I, "exponent")
    ranges, means = e.objects(I)
    zeros = integer(I, "consecutive_zeros")
    d = callf(I, H + "rainflow_binner", ranges, means, e.tol, e.m, zeros, num(4), False)
    settings_kept(I, e, d, True)
    halves_listed(I, e, d, True)
    every_cycle(I, e, d, True)


def item(d, k):
    if not isinstance(d, PyDict) or k not in d.d:
        raise Unsupported("a dictionary with " + k)
    return d.d[k]


def settings_kept(I, e, d, means):
    ensure_num(I, "small cycles", item(d, "nr_small_cycles"), num(zi(e.n) - zi(e.kept.m)))
    ensure_num(I, "lower bound", item(d, "range_bin_lower_bound"), e.R.lb)
    ensure_num(I, "width", item(d, "range_bin_width"), e.R.w)
    if means:
        ensure_num(I, "lower bound of the means", item(d, "mean_bin_lower_bound"), e.M.lb)
        ensure_num(I, "width of the means", item(d, "mean_bin_width"), e.M.w)


def near(x, v):
    d = zr(num(x).v) - v
    return band(num(x).fin, d <= z3.RealVal("0.00005"), -d <= z3.RealVal("0.00005"))


def listed(I, v, means):
    """length of a list of cycles, and whether entry k is this cycle"""
    s = I.to_seq(v)

    def is_(k, mean, range_):
        if isinstance(s.n, int) and s.n == 0:
            return False
        x = s.get(k)
        if not means:
            return near(x, range_)
        xs = I.seq_items(x)
        return band(near(xs[0], mean), near(xs[1], range_))
    return s.n, is_


def halves_listed(I, e, d, means):
    n, is_ = listed(I, item(d, "res"), means)
    ensure(I, "number of half cycles", req(n, e.half.m))
    if isinstance(n, int) and n == 0:
        return
    j, c = generic(I, e.half.m, "j")
    k = e.kept.idx(e.half.idx(j))
    ensure(I, "half cycles", bimp(c, is_(j, e.mean(k), e.range(k))))


def every_cycle(I, e, d, means):
    """each full cycle is listed once or counted once in its cell, and nothing else is listed or counted"""
    n, is_ = listed(I, item(d, "lg_c"), means)
    rows = I.to_seq(item(d, "hist"))
    if not means:
        rows = I.to_seq(PyList([rows]))
    if not hasattr(e, "g"):
        ensure(I, "no full cycles", band(req(e.full.total, 0), req(n, 0), req(rows.n if means else rows.get(0).n, 0)))
        return
    g, perm = e.g, e.sorted.perm
    _, im, _, _ = e.objs["MeanStress"]
    _, ir, br, _ = e.objs["StressRange"]
    cell = lambda i, j: (rlt(j, rows.get(i).n), num(rows.get(i).get(j)))
    p, c = generic(I, e.full.total, "p")
    q = perm.q(p)
    k = e.src(p)
    ensure(I, "large cycles are listed", bimp(band(c, g.large(q)), band(
        0 <= g.pos(q), rlt(g.pos(q), n), perm.p(g.src(g.pos(q))) == p, is_(g.pos(q), e.mean(k), e.range(k)))))
    there, v = cell(im(p), ir(p))
    ensure(I, "rows", req(rows.n, e.M.K))
    ensure(I, "the others are in their cell", bimp(band(c, z3.Not(g.large(q))), band(
        there, 0 <= g.rank(q), rlt(z3.ToReal(g.rank(q)), v.v), perm.p(g.who(im(p), ir(p), g.rank(q))) == p)))
    ensure(I, "damaging cycles are large", bimp(band(c, damaging(I, e.top, num(e.r0(k)), num(br(p)))), g.large(q)))
    l, c = generic(I, n, "l")
    p = perm.p(g.src(l))
    ensure(I, "only full cycles are listed", bimp(c, band(0 <= p, rlt(p, e.full.total), g.large(perm.q(p)),
                                                          g.pos(perm.q(p)) == l)))
    i, c = generic(I, rows.n, "i")
    j, cj = generic(I, rows.get(i).n, "j")
    t = I.ctx.fresh("t", IS)
    _, v = cell(i, j)
    ensure(I, "cells are whole numbers", bimp(band(c, cj), band(v.fin, req(v.v, z3.ToReal(g.cell(i, j))), 0 <= g.cell(i, j))))
    p = perm.p(g.who(i, j, t))
    ensure(I, "only full cycles are counted", bimp(band(c, cj, 0 <= t, rlt(z3.ToReal(t), v.v)), band(
        0 <= p, rlt(p, e.full.total), z3.Not(g.large(perm.q(p))), im(p) == i, ir(p) == j, g.rank(perm.q(p)) == t)))


@task("P25", [H + f for f in ("rainflow_binner", "rainflow_threshold", "initialise_binned_rainflow_dict",
                              "_build_binned_dict")], contracts={**QUANTITIES, **REACHED}, loops=BINNER)
def cells_and_lists_without_means(I):
    e = Export(I, False)
    e.tol, e.m = real(I, "tolerance"), real(I, "exponent")
    ranges, _ = e.objects(I)
    zeros = integer(I, "consecutive_zeros")
    d = callf(I, H + "rainflow_binner", ranges, None, e.tol, e.m, zeros, num(4), False)
    settings_kept(I, e, d, False)
    halves_listed(I, e, d, False)
    every_cycle(I, e, d, False)


# ---------------------------------------------------------------- the callers of rainflow_binner
class Request:
    """cycles handed to rainflow_binner, and how"""

    def __init__(self, I, n, h, count, range_, mean, lb, w, mean_lb, mean_w, ub=None, mean_ub=None):
        self.n, self.h, self.count = n, h, count
        self.blocks = blocks(I, n, h.whole)
        self.quantities = [("ranges", "StressRange", range_, lb, w, ub), ("_means", "MeanStress", mean, mean_lb, mean_w, mean_ub)]
        self.tol, self.m, self.zeros, self.legacy = real(I, "tolerance"), real(I, "exponent"), integer(I, "consecutive_zeros"), False
        self.small, self.parts = real(I, "below"), {k: Opaque(("exported", k)) for k in ("hist", "lg_c", "res")}
        self.keys = {}
        I.export = self

    def in_bins(self, I, o, v, lb, mean):
        """the full cycles lie between the bounds of o, which are a bin apart"""
        ub, k = zr(num(o.fields["_bin_ub"]).v), I.ctx.fresh("entry", IS)
        b, lb = self.blocks, zr(num(lb).v)
        I.ctx.assume(b.within(k, b.start(k)))
        for q in (k, b.start(k)):
            I.ctx.instantiate(q)
            bins_at(I, q)
        x = zr(num(v(k)).v)
        return band(lb < ub, bimp(band(0 <= k, rlt(k, self.n), self.h.whole(k) >= 1), band(
            x <= ub, lb <= x if mean else True)))


def exported(I, bound):
    """contract of rainflow_binner (proved by cells_and_lists)"""
    e = I.export
    for key, cls, v, lb, w, ub in e.quantities:
        o = bound[key]
        if key == "_means" and e.legacy:
            require(I, "no means", o is None)
            continue
        if not isinstance(o, Obj):
            require(I, key, False)
            continue
        require(I, key, o.cls.name == cls)
        for what, f, want in (("counts", "_counts", e.count), ("values", "_values", v)):
            a = as1d(I, o.fields[f])
            require(I, f"{key}: {what}", band(req(a.n, e.n), all_of(I, e.n, lambda k: same(num(a.get(k)), num(want(k))))))
        require(I, key + ": width", same(num(o.fields["bin_width"]), w))
        if lb is not None:
            require(I, key + ": lower bound", same(num(o.fields["_bin_lb"]), lb))
        if ub is not None:
            require(I, key + ": upper bound", same(num(o.fields["_bin_ub"]), ub))
        require(I, key + ": between the bounds", e.in_bins(I, o, v, lb if lb is not None else o.fields["_bin_lb"], key == "_means"))
    for k, v in (("damage_tolerance_for_binning", e.tol), ("damage_exponent", e.m), ("max_consecutive_zeros", e.zeros),
                 ("round_decimals", num(4))):
        require(I, k, same(num(bound[k]), v))
    return PyDict({"nr_small_cycles": e.small, **e.parts})


EXPORTED = {H + "rainflow_binner": Contract(exported), U + "calc_full_cycles": Contract(full_of), **REACHED}
AS_DICT = [K + ".as_dict"] + [U + "FatigueStress." + f for f in ("__post_init__", "full")]


def parts_kept(I, e, d):
    if not isinstance(d, PyDict):
        return ensure(I, "a dictionary", False)
    for k, v in e.parts.items():
        ensure(I, k + " as binned", d.d.get(k) is v)


def as_dictionary(I, legacy, residuals=True):
    o, s = a_count(I, residuals=residuals)
    n, h = s.arr("count_cycle")[0], Halves()
    o.fields["count_cycle"] = c = inp(I, "count", Arr(n, lambda i: Num(h.count(i), isint=False), "f", "nd"))
    forall(I, n, lambda k: band(rle(0, h.whole(k)), bor(h.odd(k), rle(1, h.whole(k)))))
    mean, mean_lb = s.arr("mean_stress")[1], s.num("_mean_bin_lower_bound")
    forall(I, n, lambda k: bimp(h.whole(k) >= 1, le(mean_lb, num(mean(k)))))
    s = Snap(I, o)
    e = Request(I, n, h, c._get, s.arr("stress_range")[1], mean, s["range_bin_lower_bound"], s["range_bin_width"],
                mean_lb, s["mean_bin_width"])
    e.legacy = legacy
    d = I.call(I.getattr(o, "as_dict"), [], {
        "damage_tolerance_for_binning": e.tol, "damage_exponent": e.m, "max_consecutive_zeros": e.zeros,
        **({"legacy_export": True} if legacy else {})})
    parts_kept(I, e, d)
    ensure_num(I, "small cycles", item(d, "nr_small_cycles"), add(e.small, s.num("nr_small_cycles")))
    seq = I.to_seq(item(d, "res_sig"))
    m, g = s.arr("residuals_sequence") if residuals else (0, None)
    ensure(I, "length of the residual sequence", req(seq.n, m))
    if residuals:
        k, c = generic(I, m, "k")
        ensure(I, "residual sequence", bimp(c, near(seq.get(k), zr(num(g(k)).v))))
    untouched(I, "original", o, s)


@task("P25", AS_DICT, contracts=EXPORTED)
def dictionary(I):
    as_dictionary(I, False)


@task("P25", AS_DICT, contracts=EXPORTED)
def dictionary_without_means(I):
    as_dictionary(I, True)


@task("P25", AS_DICT, contracts=EXPORTED)
def dictionary_without_residuals(I):
    as_dictionary(I, False, False)


class Types:
    """counts of one half or one, as rainflow counting gives them"""

    def __init__(self, c):
        self.count = c
        self.whole = lambda k: z3.If(c(zi(k)) == 1, z3.IntVal(1), z3.IntVal(0))
        self.odd = lambda k: c(zi(k)) != 1


def binned_series(I, times, given):
    x = arr(I, "data", length(I, "n", 3))
    t = arr(I, "time", x.n) if times else None
    n, g, gt = x.n, x._get, t._get if times else None
    rf = counting(I, lambda: (n, g), nonempty=True)
    h = Types(rf.cols[2])
    lb, w, mean_w = real(I, "range_lb"), positive(I, "range_width"), positive(I, "mean_width")
    kw = {"mean_bin_lower_bound": real(I, "mean_lb")} if given else {}
    if given:
        forall(I, rf.m, lambda k: le(kw["mean_bin_lower_bound"], num(rf.at(k, 1))))
    e = Request(I, rf.m, h, rf.column(2)[1], rf.column(0, 2)[1], rf.column(1)[1], lb, w,
                kw.get("mean_bin_lower_bound"), mean_w)
    d = callf(I, H + "binned_rainflow", x, **({"time": t} if times else {}), range_bin_lower_bound=lb, range_bin_width=w,
              mean_bin_width=mean_w, damage_tolerance_for_binning=e.tol, damage_exponent=e.m,
              max_consetutive_zeros=e.zeros, **kw)
    parts_kept(I, e, d)
    ensure_num(I, "small cycles", item(d, "nr_small_cycles"), e.small)
    ensure_arr(I, "residual sequence", item(d, "res_sig"), *rf.sequence())
    ensure(I, "duration only with times", ("as_dur" in d.d) is times)
    if times:
        ensure_num(I, "duration", d.d["as_dur"], sub(num(gt(zi(n) - 1)), num(gt(0))))


for times in (False, True):
    for given in (False, True):
        @task("P25", [H + "binned_rainflow"] + AS_DICT[1:], contracts=EXPORTED,
              name="binned_series" + ("_with_times" if times else "") + ("_in_given_bins" if given else ""))
        def series(I, times=times, given=given):
            binned_series(I, times, given)
