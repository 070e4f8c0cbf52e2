"""P05-P09, P11: operations on cycle counts."""
from ..lib import *

U = "py_fatigue.utils:"
CC = "py_fatigue.cycle_count.cycle_count:"
K = CC + "CycleCount"

ARRAYS = ("count_cycle", "stress_range", "mean_stress", "residuals_sequence", "_min_max_sequence", "_time_sequence")
SCALARS = ("range_bin_lower_bound", "range_bin_width", "_mean_bin_lower_bound", "mean_bin_width", "nr_small_cycles",
           "stress_concentration_factor", "timestamp")
REST = ("unit", "lffd_solved", "mean_stress_corrected", "name")


def a_count(I, tag="", residuals=True, times=None, unit=None, name=None, solved=None, corrected=None):
    """any cycle count: arrays of any length, any settings, any state"""
    n, t = length(I, tag + "n", 1), times
    f = {"count_cycle": pos_arr(I, tag + "count", n), "stress_range": arr(I, tag + "range", n),
         "mean_stress": arr(I, tag + "mean", n),
         "timestamp": inp(I, tag + "timestamp", Num(z3.Int(tag + "timestamp"), isint=True)),
         "unit": unit if unit is not None else inp(I, tag + "unit", SymStr(z3.String(tag + "unit"), True)),
         "range_bin_lower_bound": real(I, tag + "range_lb"), "range_bin_width": positive(I, tag + "range_width"),
         "_mean_bin_lower_bound": real(I, tag + "mean_lb"), "mean_bin_width": positive(I, tag + "mean_width"),
         "nr_small_cycles": real(I, tag + "small"),
         "residuals_sequence": arr(I, tag + "res", length(I, tag + "r")) if residuals else None,
         "_min_max_sequence": arr(I, tag + "minmax", length(I, tag + "x")),
         "lffd_solved": solved if solved is not None else boolean(I, tag + "solved"),
         "mean_stress_corrected": corrected if corrected is not None else
         inp(I, tag + "corrected", SymStr(z3.String(tag + "corrected"), True)),
         "stress_concentration_factor": real(I, tag + "scf"),
         "name": name if name is not None else inp(I, tag + "name", SymStr(z3.String(tag + "name"), True)),
         "_time_sequence": times}
    o = Obj(func(I, K), f)
    return o, Snap(I, o)


class Snap:
    """the contents of a cycle count at one moment"""

    def __init__(self, I, o):
        self.f = {}
        for k, v in o.fields.items():
            self.f[k] = (v.n, v._get) if isinstance(v, Arr) else v

    def arr(self, k):
        return self.f[k]

    def num(self, k):
        return num(self.f[k])

    def __getitem__(self, k):
        return self.f[k]


def same_rest(I, what, a, b):
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return ensure(I, what, a is b or zb(a) == zb(b))
    ensure(I, what, a is b or NP.eq_atoms(a, b))


def untouched(I, what, o, s):
    """the object still has the contents s"""
    for k, v in s.f.items():
        w = o.fields.get(k)
        if isinstance(v, tuple):
            if not isinstance(w, Arr):
                ensure(I, f"{what}: {k}", False)
            elif w._get is v[1] and req(w.n, v[0]) is True:
                ensure(I, f"{what}: {k}", True)
            else:
                ensure_arr(I, f"{what}: {k}", w, *v)
        elif v is None:
            ensure(I, f"{what}: {k}", w is None)
        elif isinstance(v, Num):
            ensure_num(I, f"{what}: {k}", w, v)
        else:
            same_rest(I, f"{what}: {k}", w, v)


# ---------------------------------------------------------------- P08: scaling
def timed(I, what, o, s):
    """the timestamps of o are those of the count s"""
    if s["_time_sequence"] is None:
        r = I.getattr(o, "time_sequence")
        ensure_arr(I, what, r, 1, lambda i: s.num("timestamp"))
    else:
        ensure_arr(I, what, I.getattr(o, "time_sequence"), *s.arr("_time_sequence"))


def some_times(I, tag=""):
    return arr(I, tag + "times", length(I, tag + "t", 1), "i")


def scaled(I, mult, factor, residuals=True, times=False):
    o, s = a_count(I, residuals=residuals, times=some_times(I) if times else None)
    r = mult(o)
    if not isinstance(r, Obj):
        return ensure(I, "a cycle count", False)
    x = factor.real()
    for k in ("stress_range", "mean_stress", "residuals_sequence"):
        if not residuals and k == "residuals_sequence":
            continue
        n, g = s.arr(k)
        ensure_arr(I, k, r.fields[k], n, lambda i: mul(x, num(g(i))))
    ensure_arr(I, "counts", r.fields["count_cycle"], *s.arr("count_cycle"))
    for k in ("range_bin_lower_bound", "range_bin_width", "mean_bin_width", "stress_concentration_factor",
              "_mean_bin_lower_bound"):
        ensure_num(I, k, r.fields[k], mul(x, s.num(k)))
    for k in ("nr_small_cycles", "timestamp"):
        ensure_num(I, k, r.fields[k], s[k])
    for k in ("unit", "lffd_solved", "mean_stress_corrected"):
        same_rest(I, k, r.fields[k], s[k])
    timed(I, "timestamps", r, s)
    untouched(I, "original", o, s)


SCALE = [K + ".__mul__", K + ".__rmul__", CC + "_multiplication_by_scalar", K + ".__post_init__", K + ".min_max_sequence"]


@task("P08", SCALE)
def times_a_float(I):
    x = real(I, "x")
    scaled(I, lambda o: I.binop("Mult", o, x), x)


@task("P08", SCALE)
def times_an_integer(I):
    x = integer(I, "x")
    scaled(I, lambda o: I.binop("Mult", o, x), x)


@task("P08", SCALE)
def a_float_times(I):
    x = real(I, "x")
    scaled(I, lambda o: I.binop("Mult", x, o), x)


@task("P08", SCALE)
def many_timestamps(I):
    x = real(I, "x")
    scaled(I, lambda o: I.binop("Mult", o, x), x, times=True)


@task("P08", SCALE)
def no_residuals(I):
    x = real(I, "x")
    scaled(I, lambda o: I.binop("Mult", x, o), x, residuals=False)


@task("P08", SCALE)
def only_scalars(I):
    o, s = a_count(I)
    for what, x in (("text", "2"), ("list", PyList([num(2.0)])), ("array", const_arr([num(2.0)])), ("nothing", None),
                    ("cycle count", o), ("dictionary", PyDict({}))):
        for side in (lambda: I.binop("Mult", o, x),) + ((lambda: I.binop("Mult", x, o),) if what != "array" else ()):
            expect_exc(I, what, "TypeError", side)
    untouched(I, "original", o, s)


# ---------------------------------------------------------------- P06: adding
def joined(I, what, v, parts):
    """v holds the arrays `parts` one after the other"""
    n = 0
    for m, _ in parts:
        n = radd(n, m)
    if not isinstance(v, Arr):
        return ensure(I, what, False)
    ensure(I, what + ": length", req(v.n, n))
    at = 0
    for q, (m, g) in enumerate(parts):
        k, c = generic(I, m)
        ensure(I, f"{what}: part {q + 1}", bimp(c, same(num(v.get(radd(at, k))), num(g(k)))))
        at = radd(at, m)


def times_of(s):
    return s.arr("_time_sequence") if s["_time_sequence"] is not None else (1, lambda i: s.num("timestamp"))


def all_times(I, what, r, parts, last=False):
    """the sorted values of all parts, each once"""
    v = I.getattr(r, "time_sequence")
    if not isinstance(v, Arr):
        return ensure(I, what, False)
    j, c = generic(I, rsub(v.n, 1), "j")
    ensure(I, what + ": increasing", bimp(c, lt(num(v.get(j)), num(v.get(j + 1)))))
    j, c = generic(I, v.n, "j")
    u = getattr(v, "uniq", None)
    x = num(v.get(j))
    at, some = 0, False
    for m, g in parts:
        if u is not None:
            w = rsub(u.src(zi(j)), at)
            some = bor(some, band(rle(0, w), rlt(w, m), same(x, num(g(w)))))
            if last:
                some = bor(some, same(x, num(g(rsub(m, 1)))))
        elif isinstance(m, int):
            some = bor(some, *[same(x, num(g(q))) for q in range(m)])
        else:
            some = bor(some, some_k(I, m, lambda q: same(x, num(g(q)))))
        at = radd(at, m)
    ensure(I, what + ": no others", bimp(c, some))
    at = 0
    for q, (m, g) in enumerate(parts):
        k, c = generic(I, m)
        y = num(g(k))
        if u is not None:
            p = u.pos(zi(radd(at, k)))
            there = band(rle(0, p), rlt(p, v.n), same(num(v.get(p)), y))
        elif isinstance(v.n, int):
            there = bor(*[same(num(v.get(p)), y) for p in range(v.n)])
        else:
            there = some_k(I, v.n, lambda p: same(num(v.get(p)), y))
        ensure(I, f"{what}: part {q + 1}", bimp(c, there))
        at = radd(at, m)


def ordered(I, a, b):
    """the first count ends no later than the second one starts"""
    (n, f), (m, g) = times_of(a), times_of(b)
    i, j = z3.Ints("ti tj")
    x, y = num(f(i)).v, num(g(j)).v
    return z3.ForAll([i, j], zb(bimp(band(rle(0, i), rlt(i, n), rle(0, j), rlt(j, m)), rle(x, y))))


ADD = [K + ".__add__", CC + "_cycle_count_add_checks", CC + "_bin_widths_add_check",
       CC + "_handling_different_bins_in_sum", K + ".__post_init__", K + ".min_max_sequence"]


def extremes(I, s):
    """the minima and maxima of a count: those it has, else the smallest and the largest of its residuals"""
    n, g = s.arr("_min_max_sequence")
    if s["residuals_sequence"] is None:
        return n, g
    m, h = s.arr("residuals_sequence")
    if not I.ctx.branch(band(req(n, 0), rle(2, m))):
        return n, g
    lo, hi = I.ctx.fresh("smallest", R), I.ctx.fresh("largest", R)
    for v, less in ((lo, rle), (hi, lambda a, b: rle(b, a))):
        k, w = z3.Int(I.ctx.fresh_name("k")), I.ctx.fresh("w", IS)
        I.ctx.fact(z3.ForAll([k], zb(bimp(band(k >= 0, rlt(k, m)), less(v, num(h(k)).v)))))
        I.ctx.assume(zb(band(w >= 0, rlt(w, m), req(v, num(h(w)).v))))
    return 2, lambda i: nite(req(i, 0), Num(lo, isint=False), Num(hi, isint=False))


def added(I, ta, tb, ra=True, rb=True):
    a, sa = a_count(I, "a_", residuals=ra, times=some_times(I, "a_") if ta else None)
    b, sb = a_count(I, "b_", residuals=rb, times=some_times(I, "b_") if tb else None)
    pre(I, NP.eq_atoms(sa["unit"], sb["unit"]))
    I.ctx.assume(ordered(I, sa, sb))
    r = I.binop("Add", a, b)
    if not isinstance(r, Obj):
        return ensure(I, "a cycle count", False)
    for k in ("count_cycle", "stress_range", "mean_stress"):
        joined(I, k, r.fields[k], [sa.arr(k), sb.arr(k)])
    joined(I, "residuals", r.fields["residuals_sequence"],
           [s.arr("residuals_sequence") for s in (sa, sb) if s["residuals_sequence"] is not None])
    ensure_num(I, "small cycles", r.fields["nr_small_cycles"], add(sa.num("nr_small_cycles"), sb.num("nr_small_cycles")))
    same_rest(I, "unit", r.fields["unit"], sa["unit"])
    all_times(I, "timestamps", r, [times_of(sa), times_of(sb)])
    for k in ("range_bin_lower_bound", "_mean_bin_lower_bound"):
        x, y = sa.num(k), sb.num(k)
        ensure_num(I, "smaller " + k, r.fields[k], nite(lt(x, y), x, y))
    for k in ("range_bin_width", "mean_bin_width"):
        x, y = sa.num(k), sb.num(k)
        ensure_num(I, "larger " + k, r.fields[k], nite(lt(x, y), y, x))
    k = "stress_concentration_factor"
    ensure_num(I, k, mul(num(2), num(r.fields[k])), add(sa.num(k), sb.num(k)))
    ensure(I, "not resolved", bnot(I.truth(r.fields["lffd_solved"])))
    joined(I, "minima and maxima", r.fields["_min_max_sequence"],
           [extremes(I, s) for s in (sa, sb) if s["residuals_sequence"] is not None])
    untouched(I, "first", a, sa)
    untouched(I, "second", b, sb)


@task("P06", ADD)
def sum_of_two(I):
    added(I, False, False)


@task("P06", ADD)
def sum_with_times(I):
    added(I, True, True)


@task("P06", ADD)
def sum_with_times_of_first(I):
    added(I, True, False)


@task("P06", ADD)
def sum_without_residuals(I):
    added(I, False, True, False, True)


@task("P06", ADD)
def sum_without_residuals_of_second(I):
    added(I, False, False, True, False)


@task("P06", ADD)
def sum_without_any_residuals(I):
    added(I, False, False, False, False)


@task("P06", ADD)
def different_units(I):
    a, sa = a_count(I, "a_")
    b, sb = a_count(I, "b_")
    pre(I, bnot(NP.eq_atoms(sa["unit"], sb["unit"])))
    expect_exc(I, "units", "TypeError", lambda: I.binop("Add", a, b))
    untouched(I, "first", a, sa)
    untouched(I, "second", b, sb)


def overlapping(I, ta, tb):
    a, sa = a_count(I, "a_", times=some_times(I, "a_") if ta else None)
    b, sb = a_count(I, "b_", times=some_times(I, "b_") if tb else None)
    (n, f), (m, g) = times_of(sa), times_of(sb)
    i, j = integer(I, "i").v, integer(I, "j").v
    pre(I, band(rle(0, i), rlt(i, n), rle(0, j), rlt(j, m), lt(num(g(j)), num(f(i)))))
    I.ctx.instantiate(i)
    I.ctx.instantiate(j)
    expect_exc(I, "order", "TypeError", lambda: I.binop("Add", a, b))


@task("P06", ADD)
def wrong_order(I):
    overlapping(I, False, False)


@task("P06", ADD)
def wrong_order_of_times(I):
    overlapping(I, True, True)


@task("P06", ADD + [K + ".__radd__"])
def sum_with_nothing(I):
    a, sa = a_count(I)
    for what, x in (("None", None), ("zero", num(0)), ("nan", Num(0, na=True, isint=False)), ("0.0", num(0.0))):
        for side, r in (("right", I.binop("Add", a, x)), ("left", I.binop("Add", x, a))):
            if r is not a:
                if not isinstance(r, Obj):
                    ensure(I, f"{what} {side}", False)
                    continue
                untouched(I, f"{what} {side}", r, sa)
    untouched(I, "original", a, sa)


@task("P06", ADD)
def sum_with_other_things(I):
    a, sa = a_count(I)
    for what, x in (("text", "x"), ("number", num(2.5))):
        expect_exc(I, what, "TypeError", lambda: I.binop("Add", a, x))


# ---------------------------------------------------------------- P07: sums of lists
def span(I, lo, hi, none=False):
    """the sum of the entries lo, ..., hi - 1 of the list"""
    return Rec(func(I, K), {"lo": Num(zi(lo), isint=True), "hi": Num(zi(hi), isint=True)}, none)


def ends(v):
    return v.fields["lo"].v, v.fields["hi"].v


def add_spans(I, b):
    """what P06 shows of a sum: the entries of the second follow those of the first"""
    x, y = b["self"], b["other"]
    if not isinstance(x, Rec) or not isinstance(y, Rec):
        raise Unsupported("sum of unknown operands")
    for v, what in ((x, "first"), (y, "second")):
        require(I, f"{what} operand is there", bnot(v.none))
    (a, m), (n, c) = ends(x), ends(y)
    require(I, "the second operand continues the first", req(m, n))
    return span(I, a, c)


SUMS = {K + ".__add__": Contract(add_spans)}


@task("P07", [U + "chunks"])
def chunking(I):
    """every element once, in order, no chunk longer than asked for"""
    n, c = length(I, "n"), length(I, "size", 1)
    f = z3.Function("entry", IS, IS)
    l = Arr(n, lambda i: Num(f(zi(i)), isint=True), "i", "list")
    r = as1d(I, NP.b_list(I, [callf(I, U + "chunks", l, Num(c, isint=True))], {}))
    k, g = generic(I, r.n, "chunk")
    part = as1d(I, r.get(k))
    ensure(I, "size", bimp(g, rle(part.n, c)))
    ensure(I, "no empty chunk", bimp(g, rlt(0, part.n)))
    ensure(I, "all but the last are full", bimp(band(g, rlt(k + 1, r.n)), req(part.n, c)))
    ensure(I, "together they cover the list", bimp(band(g, req(k + 1, r.n)), req(radd(rmul(k, c), part.n), n)))
    ensure(I, "an empty list has no chunk", bimp(req(n, 0), req(r.n, 0)))
    ensure(I, "a list has chunks", bimp(rlt(0, n), rlt(0, r.n)))
    p = I.ctx.fresh("p", IS)
    ensure(I, "elements", bimp(band(g, rle(0, p), rlt(p, part.n)),
                               req(num(part.get(p)).v, f(zi(radd(rmul(k, c), p))))))


def chunk_size(env):
    return num(env.vars["chunk_size"]).v


def chunks_summed(I, env, k, st):
    """after k chunks: one sum per chunk, and the sum of all entries of those chunks"""
    c, N = chunk_size(env), env.vars["cc_list"].n
    l, total = I.to_seq(env.vars["cc_sum_list"]), env.vars["cc_sum"]
    out = [("one sum per chunk", req(l.n, k))]
    if isinstance(k, int) and k == 0:
        return out
    if not isinstance(total, Rec):
        raise Unsupported("the running sum is not a cycle count")
    lo, hi = ends(total)
    end = rmul(k, c)
    end = rite(rlt(N, end), N, end)
    return out + [("all entries so far", bimp(rlt(0, k), band(bnot(total.none), req(lo, 0), req(hi, end))))]


def entries_summed(I, env, k, st):
    """after k more entries of the chunk: their sum is the last one of the list"""
    c, j = chunk_size(env), num(env.vars["j"]).v
    l = I.to_seq(env.vars["cc_sum_list"])
    last = l.get(rsub(l.n, 1))
    if not isinstance(last, Rec):
        raise Unsupported("the sum of the chunk is not a cycle count")
    lo, hi = ends(last)
    return [("sums", req(l.n, radd(j, 1))),
            ("entries of the chunk", band(bnot(last.none), req(lo, rmul(j, c)), req(hi, radd(radd(rmul(j, c), 1), k))))]


def any_sum(I, env, st):
    return span(I, I.ctx.fresh("lo", IS), I.ctx.fresh("hi", IS), I.ctx.fresh("none", B))


def any_sums(I, env, st):
    lo, hi, none = (I.ctx.fresh_fun(x, IS, t) for x, t in (("los", IS), ("his", IS), ("nones", B)))
    n = I.ctx.fresh("sums", IS)
    I.ctx.assume(n >= 0)
    return Arr(n, lambda i: span(I, lo(zi(i)), hi(zi(i)), none(zi(i))), "o", "list")


PB = CC + "pbar_sum"
LOOPS = {(PB, 0): LoopSpec(chunks_summed, modifies={"cc_sum": any_sum, "cc_sum_list": any_sums}, of=2),
         (PB, 1): LoopSpec(entries_summed, modifies={"cc_sum_list": any_sums}, of=2)}


@task("P07", [PB, U + "chunks"], contracts=SUMS, loops=LOOPS)
def progress_bar_sum(I):
    n = length(I, "n", 1)
    gone = z3.Function("missing", IS, B)
    there = kept(I, n, lambda k: z3.Not(gone(zi(k))))
    pre(I, there.m >= 1)
    l = Arr(n, lambda k: span(I, there.inv(k), there.inv(k) + 1, gone(zi(k))), "o", "list")
    r = callf(I, PB, l)
    if not isinstance(r, Rec):
        return ensure(I, "a cycle count", False)
    lo, hi = ends(r)
    ensure(I, "not missing", bnot(r.none))
    ensure(I, "all entries", band(req(lo, 0), req(hi, there.m)))


# ---------------------------------------------------------------- P05, P09: rainflow counting of a sequence
RF = "py_fatigue.cycle_count.rainflow:rainflow"


class Counted:
    """contract of the rainflow count: rows of amplitude, mean, count and two more columns, and the residual
    sequence of the signal `want`, which is the only one it may be called with"""

    def __init__(self, I, want, tag="rf_", nonempty=False):
        self.m, self.calls = length(I, tag + "rows", 1 if nonempty else 0), 0
        self.cols = [z3.Function(f"{tag}col{k}", IS, R) for k in range(5)]
        self.r = length(I, tag + "residuals", 1)
        I.ctx.assume(z3.Implies(zi(self.m) > 0, zi(self.r) > 1))
        self.seq = z3.Function(tag + "residual", IS, R)
        self.pos = z3.Function(tag + "position", IS, IS)
        self.want = want
        i = z3.Int("row")
        c = self.cols
        I.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(self.m)),
                                               z3.And(c[0](i) > 0, z3.Or(c[2](i) == z3.RealVal("0.5"), c[2](i) == 1)))))

    def __call__(self, I, bound):
        self.calls += 1
        data = bound["data"]
        if not isinstance(data, (Arr, tuple, PyList)):
            raise Unsupported("rainflow of an unknown sequence")
        x = I.to_seq(data)
        n, g = self.want()
        require(I, "length of the counted sequence", req(x.n, n))
        I.ctx.assume(zb(bimp(rlt(n, 4), req(self.m, 0))))
        require(I, "the counted sequence", all_k(I, n, lambda k: same(num(x.get(k)), num(g(k)))))
        rows = Mat(self.m, 5, lambda i, j: self.at(i, j), "f")
        if not I.truth(bound["extended_output"]) is True:
            return rows
        seq, pos = (Arr(self.r, lambda i, f=f: Num(f(zi(i)), isint=f is self.pos), "f" if f is self.seq else "i", "nd")
                    for f in (self.seq, self.pos))
        if bound.get("time") is None:
            return (rows, seq, pos)
        return (rows, seq, pos, Arr(self.r, lambda i: num(I.to_seq(bound["time"]).get(self.pos(zi(i)))), "f", "nd"))

    def at(self, i, j):
        if isc(j):
            return Num(self.cols[int(j)](zi(i)), isint=False)
        raise Unsupported("unknown column of the rainflow count")

    def column(self, j, scale=1):
        return self.m, lambda i: Num(rmul(scale, self.cols[j](zi(i))), isint=False)

    def sequence(self):
        return self.r, lambda i: Num(self.seq(zi(i)), isint=False)


def counting(I, want, **kw):
    c = Counted(I, want, **kw)
    I.contracts = {**I.contracts, RF: Contract(c)}
    return c


def increasing(I, n, f):
    if isinstance(n, int):
        return
    i, j = z3.Ints("ti tj")
    I.ctx.assume(z3.ForAll([i, j], zb(bimp(band(rle(0, i), rlt(i, j), rlt(j, n)), rlt(num(f(i)).v, num(f(j)).v)))))


RESOLVE = [K + ".solve_lffd", K + ".resolve_residuals", CC + "_solve_lffd", CC + "_lffd_checks"] + ADD


def resolved(I, run, times=False, seq="residuals_sequence"):
    o, s = a_count(I, times=some_times(I) if times else None, solved=False)
    increasing(I, *times_of(s))
    rf = counting(I, lambda: s.arr(seq))
    n = s.arr("count_cycle")[0]
    pre(I, rle(3, s.arr(seq)[0]))
    I.ctx.assume(zb(bimp(rlt(s.arr(seq)[0], 4), req(rf.m, 0))))
    g = s.arr("count_cycle")[1]
    full = kept(I, n, lambda k: lt(num(0.5), num(g(k))))
    r = run(o)
    untouched(I, "original", o, s)
    if r is o:
        return ensure(I, "returned unchanged only when there is nothing to recount", req(rf.m, 0))
    if not isinstance(r, Obj):
        return ensure(I, "a cycle count", False)
    ensure(I, "there is something to recount", rlt(0, rf.m))
    for k, col in (("count_cycle", rf.column(2)), ("stress_range", rf.column(0, 2)), ("mean_stress", rf.column(1))):
        h = s.arr(k)[1]
        joined(I, k, r.fields[k], [col, (full.m, lambda i, h=h: num(h(full.idx(i))))])
    ensure_arr(I, "residuals", r.fields["residuals_sequence"], *rf.sequence())
    if seq == "residuals_sequence":
        ensure_arr(I, "minima and maxima", r.fields["_min_max_sequence"], *extremes(I, s))
    ensure(I, "marked as resolved", r.fields["lffd_solved"] if isinstance(r.fields["lffd_solved"], z3.BoolRef) else
           r.fields["lffd_solved"] is True)
    for k in ("range_bin_lower_bound", "range_bin_width", "_mean_bin_lower_bound", "mean_bin_width", "nr_small_cycles",
              "stress_concentration_factor", "timestamp"):
        ensure_num(I, k, r.fields[k], s[k])
    for k in ("unit", "name"):
        same_rest(I, k, r.fields[k], s[k])
    all_times(I, "timestamps", r, [times_of(s)], last=True)


@task("P09", RESOLVE)
def resolving(I):
    resolved(I, lambda o: I.call(I.getattr(o, "solve_lffd"), [], {}))


@task("P09", RESOLVE)
def resolving_with_times(I):
    resolved(I, lambda o: I.call(I.getattr(o, "resolve_residuals"), [], {}), True)


@task("P09", RESOLVE)
def resolving_by_mode(I):
    resolved(I, lambda o: I.call(I.getattr(o, "solve_lffd"), ["residuals"], {}))


for mode in ("min-max", "min/max", "Min Max"):
    @task("P09", RESOLVE, name="resolving_extremes_" + mode.replace("-", "_").replace("/", "_by_").replace(" ", "_"))
    def resolving_extremes(I, mode=mode):
        resolved(I, lambda o: I.call(I.getattr(o, "solve_lffd"), [mode], {}), seq="_min_max_sequence")


def nothing_to_do(I, mode="Residuals", short=False, **kw):
    o, s = a_count(I, **kw)
    if short:
        pre(I, rle(s.arr("residuals_sequence" if mode == "Residuals" else "_min_max_sequence")[0], 2))
    r = I.call(I.getattr(o, "solve_lffd"), [mode], {})
    untouched(I, "original", o, s)
    if r is not o:
        if not isinstance(r, Obj):
            return ensure(I, "a cycle count", False)
        untouched(I, "result", r, s)


@task("P09", RESOLVE)
def resolved_already(I):
    nothing_to_do(I, solved=True)


@task("P09", RESOLVE)
def resolved_already_by_extremes(I):
    nothing_to_do(I, mode="min-max", solved=True)


@task("P09", RESOLVE)
def too_short(I):
    nothing_to_do(I, short=True, solved=False)


@task("P09", RESOLVE)
def too_few_extremes(I):
    nothing_to_do(I, mode="min max", short=True, solved=False)


@task("P09", RESOLVE)
def without_residuals(I):
    nothing_to_do(I, residuals=False)


@task("P09", RESOLVE)
def unknown_modes(I):
    o, s = a_count(I)
    for mode in ("", "resid", "max", "min", "min-max ", "residuals min", "foo"):
        expect_exc(I, f"mode '{mode}'", "ValueError", lambda: I.call(I.getattr(o, "solve_lffd"), [mode], {}))
    untouched(I, "original", o, s)


# ---------------------------------------------------------------- P05: counting a time series
SERIES = [K + ".from_timeseries", K + ".__post_init__", K + ".stress_amplitude", K + ".min_stress", K + ".max_stress"]


def from_series(I, time=False, **settings):
    n = length(I, "n", 3)
    data = arr(I, "signal", n)
    g = data._get
    rf = counting(I, lambda: (n, g), nonempty=True)
    kw = {k: v for k, v in settings.items()}
    kw.setdefault("timestamp", inp(I, "timestamp", Num(z3.Int("timestamp"), isint=True)))
    if time:
        kw["time"] = arr(I, "time", n)
    o = I.call(I.getattr(func(I, K), "from_timeseries"), [data], kw)
    if not isinstance(o, Obj):
        return ensure(I, "a cycle count", False)
    for k, col in (("count_cycle", rf.column(2)), ("stress_range", rf.column(0, 2)), ("mean_stress", rf.column(1)),
                   ("residuals_sequence", rf.sequence())):
        ensure_arr(I, k, o.fields[k], *col)
    m, (_, a), (_, b) = rf.m, rf.column(0), rf.column(1)
    ensure_arr(I, "amplitudes", I.getattr(o, "stress_amplitude"), m, a)
    ensure_arr(I, "minimum stresses", I.getattr(o, "min_stress"), m, lambda i: sub(b(i), a(i)))
    ensure_arr(I, "maximum stresses", I.getattr(o, "max_stress"), m, lambda i: add(b(i), a(i)))
    for k, d in (("range_bin_lower_bound", 0.2), ("range_bin_width", 0.05), ("mean_bin_width", 10)):
        ensure_num(I, k, o.fields[k], kw.get(k, num(d)))
    if "mean_bin_lower_bound" in kw:
        ensure_num(I, "mean_bin_lower_bound", I.getattr(o, "mean_bin_lower_bound"), kw["mean_bin_lower_bound"])
    else:
        lb, w = num(I.getattr(o, "mean_bin_lower_bound")), num(kw.get("mean_bin_width", num(10)))
        q, h = generic(I, m, "q")
        ensure(I, "default lower bound not above a mean", bimp(h, band(lb.fin, rle(lb.v, num(b(q)).v))))
        far = all_k(I, m, lambda k: zr(lb.v) + zr(w.v) < zr(num(b(k)).v), patterns=lambda k: [zr(num(b(k)).v)])
        ensure(I, "default lower bound within a bin of the smallest mean", z3.Not(far))
    ensure_num(I, "timestamp", o.fields["timestamp"], kw["timestamp"])
    ensure_arr(I, "timestamps", I.getattr(o, "time_sequence"), 1, lambda i: num(kw["timestamp"]))
    for k, d in (("unit", "MPa"), ("name", None)):
        same_rest(I, k, o.fields[k], kw.get(k, d))
    ensure(I, "signal untouched", data._get is g)


def settings(I):
    return {"range_bin_lower_bound": real(I, "range_lb"), "range_bin_width": positive(I, "range_width"),
            "mean_bin_lower_bound": real(I, "mean_lb"), "mean_bin_width": positive(I, "mean_width"),
            "name": inp(I, "name", SymStr(z3.String("name"), True)), "unit": inp(I, "unit", SymStr(z3.String("unit"), True))}


@task("P05", SERIES)
def series_with_settings(I):
    from_series(I, **settings(I))


@task("P05", SERIES)
def series_with_time(I):
    from_series(I, True, **settings(I))


@task("P05", SERIES)
def series_without_lower_bound(I):
    s = settings(I)
    del s["mean_bin_lower_bound"]
    from_series(I, **s)


@task("P05", SERIES)
def series_by_default(I):
    from_series(I)


@task("P05", [K + ".stress_amplitude", K + ".min_stress", K + ".max_stress"])
def stresses_of_a_count(I):
    o, s = a_count(I)
    (n, a), (_, b) = s.arr("stress_range"), s.arr("mean_stress")
    half = lambda i: mul(num(0.5), num(a(i)))
    ensure_arr(I, "amplitudes", I.getattr(o, "stress_amplitude"), n, half)
    ensure_arr(I, "minimum stresses", I.getattr(o, "min_stress"), n, lambda i: sub(num(b(i)), half(i)))
    ensure_arr(I, "maximum stresses", I.getattr(o, "max_stress"), n, lambda i: add(num(b(i)), half(i)))
    untouched(I, "count", o, s)


# ---------------------------------------------------------------- P11: mean-stress correction of a count
M = "py_fatigue.mean_stress.corrections:"
CORRECT = [K + ".mean_stress_correction", K + ".stress_amplitude", K + ".__post_init__"]


class Rule:
    """contract of a correction rule: the corrected ranges of the means and amplitudes given, and nothing else"""

    def __init__(self, I, want, key, option):
        self.want, self.key, self.option, self.calls = want, key, option, 0
        self.f = z3.Function("corrected_range", IS, R)

    def __call__(self, I, bound):
        self.calls += 1
        n, mean, amp = self.want()
        for k, g in (("mean_stress", mean), ("stress_amplitude", amp)):
            x = I.to_seq(bound[k])
            require(I, f"length of {k}", req(x.n, n))
            require(I, k, all_k(I, n, lambda i: same(num(x.get(i)), num(g(i)))))
        if self.option is not None:
            k, v = self.option
            require(I, k, same(num(bound[k]), num(v)))
        if bound.get("plot") not in (None, False):
            raise Unsupported("plotting")
        return Arr(n, lambda i: Num(self.f(zi(i)), isint=False), "f", "nd")


def solved_count(I, s, tag="solved_"):
    """what resolving may return: other cycles, everything else as it was (P09)"""
    o, t = a_count(I, tag, unit=s["unit"], name=s["name"], solved=True, corrected=s["mean_stress_corrected"])
    for k in SCALARS:
        o.fields[k] = s[k]
    n, g = times_of(s)
    o.fields["_time_sequence"] = Arr(n, g, "i", "nd")
    return o, Snap(I, o)


def marked(I, v):
    """not the mark of an uncorrected count"""
    if isinstance(v, Opaque) and v.pieces:
        return ensure(I, "marked as corrected", any(p not in "No" for p in v.pieces))
    if isinstance(v, str):
        return ensure(I, "marked as corrected", v != "No")
    raise Unsupported("unknown mark")


def correcting(I, rule, default, kind, kw, option=None, state=None, zeros=False, times=False):
    o, s = a_count(I, times=some_times(I) if times else None, corrected="No", solved=state == "solved")
    again = {}

    def resolve(I, bound):
        x = bound["self_"]
        if x.fields["lffd_solved"] is True:
            return x
        if x is not o:
            raise Unsupported("resolves another count")
        require(I, "resolves the residuals", str(bound["solve_mode"]).lower() == "residuals")
        again["calls"] = again.get("calls", 0) + 1
        if state == "nothing to resolve":
            return o
        if "o" not in again:
            again["o"], again["s"] = solved_count(I, s)
            means(again["s"])
        return again["o"]

    def means(b):
        n, f = b.arr("mean_stress")
        if zeros:
            forall(I, n, lambda k: req(num(f(k)).v, 0))
        else:
            k = integer(I, "some").v
            pre(I, band(rle(0, k), rlt(k, n), bnot(req(num(f(k)).v, 0))))

    def want():
        b = again.get("s", s)
        (n, m), (_, r) = b.arr("mean_stress"), b.arr("stress_range")
        amp = lambda i: mul(num(0.5), num(r(i)))
        return n, (amp if zeros else m), amp
    if state != "resolved":
        means(s)
    c = Rule(I, want, M + rule, option or default)
    I.contracts = {**I.contracts, M + rule: Contract(c), CC + "_solve_lffd": Contract(resolve)}
    kw = dict(kw)
    if option is not None:
        kw[option[0]] = option[1]
    if zeros == "refused":
        expect_exc(I, "nothing but zero means", "ValueError",
                   lambda: I.call(I.getattr(o, "mean_stress_correction"), [kind], kw))
        return untouched(I, "original", o, s)
    if zeros:
        kw["enforce_pulsating_load"] = True
    r = I.call(I.getattr(o, "mean_stress_correction"), [kind], kw)
    untouched(I, "original", o, s)
    if state != "solved" and "calls" not in again:
        raise Unsupported("the count is not resolved by its own method")
    if not isinstance(r, Obj):
        return ensure(I, "a cycle count", False)
    b = again.get("s", s)
    n = want()[0]
    ensure_arr(I, "ranges", r.fields["stress_range"], n, lambda i: Num(c.f(zi(i)), isint=False))
    dnv = rule.startswith("dnvgl")
    ensure_arr(I, "means", r.fields["mean_stress"], n,
               lambda i: Num(rmul(Fraction(1, 2), c.f(zi(i))), isint=False) if dnv else num(0.0))
    ensure_arr(I, "counts", r.fields["count_cycle"], *b.arr("count_cycle"))
    ensure_arr(I, "residuals", r.fields["residuals_sequence"], *b.arr("residuals_sequence"))
    for k in ("range_bin_lower_bound", "range_bin_width", "_mean_bin_lower_bound", "mean_bin_width", "nr_small_cycles",
              "stress_concentration_factor", "timestamp"):
        ensure_num(I, k, r.fields[k], s[k])
    for k in ("unit", "name"):
        same_rest(I, k, r.fields[k], s[k])
    same_rest(I, "resolved or not", r.fields["lffd_solved"], b["lffd_solved"])
    timed(I, "timestamps", r, s)
    marked(I, r.fields["mean_stress_corrected"])
    if "s" in again:
        untouched(I, "resolved count", again["o"], again["s"])


RULES = {"dnv": ("dnvgl_mean_stress_correction", ("detail_factor", 0.8), "DNVGL-RP-C203"),
         "walker": ("walker_mean_stress_correction", ("gamma", 0.5), "Walker"),
         "swt": ("swt_mean_stress_correction", None, "SWT"),
         "smith_watson_topper": ("swt_mean_stress_correction", None, "smith-watson-topper")}
for what, (rule, default, kind) in RULES.items():
    for state in ("solved", "resolved", "nothing to resolve"):
        for zeros in (False, True):
            @task("P11", CORRECT, name=f"{what}_{state.replace(' ', '_')}{'_zero_means' if zeros else ''}")
            def corrected_count(I, rule=rule, default=default, kind=kind, state=state, zeros=zeros):
                correcting(I, rule, default, kind, {}, None, state, zeros)
    if default is not None:
        @task("P11", CORRECT, name=f"{what}_with_{default[0]}")
        def corrected_with_option(I, rule=rule, default=default, kind=kind):
            correcting(I, rule, default, kind.upper(), {}, (default[0], real(I, default[0])), "solved", False, True)

    @task("P11", CORRECT, name=f"{what}_enforced")
    def enforced_without_need(I, rule=rule, default=default, kind=kind):
        """means that are not all zero are taken as they are"""
        correcting(I, rule, default, kind, {"enforce_pulsating_load": True}, None, "solved", False)

    @task("P11", CORRECT, name=f"{what}_refused")
    def refused(I, rule=rule, default=default, kind=kind):
        correcting(I, rule, default, kind, {}, None, "solved", "refused")


@task("P11", CORRECT)
def corrected_already(I):
    o, s = a_count(I)
    pre(I, bnot(NP.eq_atoms(s["mean_stress_corrected"], "No")))
    for kind in ("DNVGL-RP-C203", "walker", "SWT"):
        r = I.call(I.getattr(o, "mean_stress_correction"), [kind], {})
        if r is not o:
            if not isinstance(r, Obj):
                ensure(I, kind, False)
                continue
            untouched(I, kind, r, s)
    untouched(I, "original", o, s)


@task("P11", CORRECT)
def unknown_rules(I):
    o, s = a_count(I, corrected="No")
    for kind in ("foo", "", "dnv", "walker-swt", "DNVGL-RP-C203 ", "swt,walker"):
        expect_exc(I, f"rule '{kind}'", "ValueError", lambda: I.call(I.getattr(o, "mean_stress_correction"), [kind], {}))
    untouched(I, "original", o, s)
