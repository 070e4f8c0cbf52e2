"""P01-P04: turning points and the ASTM rainflow count."""
from ..lib import *
import ast

RFM = "py_fatigue.cycle_count.rainflow:"


# ---------------------------------------------------------------- P02: the three-point rule
class Machine:
    """The ASTM three-point rule on the points x(0), ..., x(n-1), as a run of states s = 0, 1, ...

    State s has read the points before C(s) and holds the points P(s, 0), ..., P(s, L(s) - 1).  If the last range is
    not smaller than the one before it, the earlier one is taken out: as a half cycle with the starting point if only
    three points are held, as a full cycle with both its points otherwise.  If not, the next point is read.
    Q(s) counts the cycles of positive range taken out before state s, F(s) the full ones among them; A(s) and G(s)
    count all half and full cycles taken out, with zero ranges; origin(q) is the state that takes out cycle q."""

    def __init__(self, I, n, x):
        self.I, self.n, self.x = I, n, x
        self.L, self.C, self.Q, self.F, self.A, self.G = (z3.Function("rule_" + f, IS, IS) for f in "LCQFAG")
        self.P = z3.Function("rule_P", IS, IS, IS)
        self.origin = z3.Function("rule_origin", IS, IS)
        self.t = z3.IntVal(0)
        I.ctx.assume(z3.And(*[f(0) == 0 for f in (self.L, self.C, self.Q, self.F, self.A, self.G)]))

    def val(self, s, k):
        """the k-th point held, as a value"""
        return self.x(self.P(s, zi(k)))

    def diff(self, s, k):
        d = rsub(self.val(s, k), self.val(s, k + 1))
        return z3.If(d >= 0, d, -d)

    def takes(self, s):
        l = self.L(s)
        return z3.And(l >= 3, self.diff(s, l - 3) <= self.diff(s, l - 2))

    def positive(self, s):
        return self.diff(s, self.L(s) - 3) > 0

    def emits(self, s):
        return z3.And(self.takes(s), self.positive(s))

    def row(self, s):
        l = self.L(s)
        return self.P(s, l - 3), self.P(s, l - 2), z3.If(l == 3, z3.RealVal("1/2"), z3.RealVal(1))

    def counters(self, s):
        """one step of the run, by its definition: all but the points held"""
        l, e = self.L(s), z3.simplify(s + 1)
        L, C, Q, F, A, G = self.L, self.C, self.Q, self.F, self.A, self.G
        take, half = self.takes(s), l == 3
        one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
        return z3.And(
            L(e) == z3.If(take, z3.If(half, z3.IntVal(2), l - 2), l + 1),
            C(e) == C(s) + one(z3.Not(take)),
            Q(e) == Q(s) + one(self.emits(s)),
            F(e) == F(s) + one(z3.And(self.emits(s), z3.Not(half))),
            A(e) == A(s) + one(z3.And(take, half)),
            G(e) == G(s) + one(z3.And(take, z3.Not(half))),
            z3.Implies(self.emits(s), self.origin(Q(s)) == s))

    def held(self, s, k):
        """and the k-th of those"""
        l, P = self.L(s), self.P
        return P(s + 1, k) == z3.If(self.takes(s), z3.If(l == 3, P(s, k + 1), z3.If(k == l - 3, P(s, l - 1), P(s, k))),
                                    z3.If(k == l, self.C(s), P(s, k)))

    def from_state(self, q, t):
        s = self.origin(zi(q))
        return z3.And(0 <= s, s < t, self.emits(s), self.Q(s) == zi(q))

    def left_over(self, q):
        """the q-th half cycle left over in the last state: between which points"""
        i = self.place(zi(q))
        return z3.And(0 <= i, i < self.L(self.t) - 1, self.diff(self.t, i) > 0, self.rank(i) == zi(q))

    def next_rank(self, k):
        k, r = zi(k), self.rank
        some = self.diff(self.t, k) > 0
        return z3.And(r(k + 1) == r(k) + z3.If(some, 1, 0), z3.Implies(some, self.place(r(k)) == k))

    def step(self):
        s, e, k = self.t, z3.simplify(self.t + 1), z3.Int("point")
        self.I.ctx.assume(self.counters(s))
        self.I.ctx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.L(e)), self.held(s, k)),
                                    patterns=[self.P(e, k)]))
        self.I.ctx.universal(0, self.L(e), lambda k: self.held(s, zi(k)))
        self.t = e


def cells(out, q):
    return [num(out.get(q, c)).v for c in range(out.m)]


def cycle_row(x, p, q, w, time):
    """amplitude, mean and count of the cycle between points p and q (and its start time and period)"""
    d = rsub(x(p), x(q))
    out = [rdiv(z3.If(d >= 0, d, -d), 2), rdiv(radd(x(p), x(q)), 2), w]
    if time is not None:
        out += [time(p), rmul(2, rsub(time(q), time(p)))]
    return out


def same_row(got, want):
    return band(*[req(zr(g), zr(w)) for g, w in zip(got, want)])


def coupled(I, env, more=()):
    """the code's stack and rows are those of the rule in its present state"""
    m, v = I.machine, env.vars
    t = m.t
    j, po, c1, a, out = num(v["j"]).v, num(v["po"]).v, num(v["c_nr1"]).v, v["a"], v["array_out"]
    l = m.L(t)
    inv = [("points held", band(req(l, radd(j, 1)), l >= 0)),
           ("their values", all_k(I, l, lambda k: req(num(a.get(k)).v, m.val(t, k)))),
           ("their positions", all_k(I, l, lambda k: band(0 <= m.P(t, k), m.P(t, k) < m.C(t)))),
           ("cycles", band(req(po, m.Q(t)), req(c1, m.F(t) + 1))),
           ("points read", band(m.C(t) == l + m.A(t) + 2 * m.G(t), m.C(t) >= 0, m.C(t) <= zi(m.n),
                                bimp(m.C(t) >= 1, l >= 1))),
           ("cycles of points", band(m.Q(t) >= 0, m.F(t) >= 0, m.F(t) <= m.G(t), m.A(t) >= 0,
                                     m.Q(t) <= m.A(t) + m.F(t))),
           ("order of the rows", all_k(I, t, lambda s: bimp(m.emits(s), band(0 <= m.Q(s), m.Q(s) < m.Q(t))))),
           ("rows", all_k(I, t, lambda s: bimp(m.emits(s), same_row(cells(out, m.Q(s)),
                                                                   cycle_row(m.x, *m.row(s), m.time))))),
           ("no gaps", all_k(I, m.Q(t), lambda q: rlt(0, cells(out, q)[2]))),
           ("rows of the rule only", all_k(I, m.Q(t), lambda q: m.from_state(q, t))),
           ("no other rows", all_k(I, m.n, lambda q: bimp(m.Q(t) <= q, band(*[req(c, 0) for c in cells(out, q)]))))]
    if m.time is not None:
        tt = v["t"]
        inv.append(("their times", all_k(I, l, lambda k: req(num(tt.get(k)).v, m.time(m.P(t, k))))))
    return inv + [(a, b) for a, b in more]


def read(I, env, k, st):
    m = I.machine
    return coupled(I, env, [("all points read", m.C(m.t) == zi(k)), ("nothing to take out", z3.Not(m.takes(m.t))),
                            ("state", m.t >= 0)])


def taken(I, env, k, st):
    m = I.machine
    return coupled(I, env, [("all points read", m.C(m.t) == zi(radd(num(env.vars["i"]).v, 1))),
                            ("state", m.t >= 0)])


def some_state(I, env, st):
    I.machine.t = I.ctx.fresh("state", IS)


def one_step(I, env, *a):
    I.machine.step()


def remaining(I, env, k, st):
    """the points left over: half cycles between neighbours"""
    m, v = I.machine, env.vars
    t, r = m.t, m.rank
    po, out = num(v["po"]).v, v["array_out"]
    l = m.L(t)
    return [("cycles", req(po, m.Q(t) + r(zi(k)))),
            ("at most one each", band(0 <= r(zi(k)), r(zi(k)) <= zi(k))),
            ("order of the rows", all_k(I, k, lambda i: bimp(m.diff(t, i) > 0, band(0 <= r(zi(i)), r(zi(i)) < r(zi(k)))))),
            ("rows taken out", all_k(I, t, lambda s: bimp(m.emits(s), same_row(cells(out, m.Q(s)),
                                                                             cycle_row(m.x, *m.row(s), m.time))))),
            ("rows left over", all_k(I, k, lambda i: bimp(m.diff(t, i) > 0, same_row(
                cells(out, m.Q(t) + r(zi(i))), cycle_row(m.x, m.P(t, i), m.P(t, i + 1), z3.RealVal("1/2"), m.time))))),
            ("no gaps", all_k(I, po, lambda q: rlt(0, cells(out, q)[2]))),
            ("half cycles left over only", all_k(I, r(zi(k)), m.left_over)),
            ("no other rows", all_k(I, m.n, lambda q: bimp(m.Q(t) + r(zi(k)) <= q,
                                                           band(*[req(c, 0) for c in cells(out, q)]))))]


def ranks(I, env, st):
    """r(k): how many of the first k ranges left over are positive"""
    m = I.machine
    m.rank, m.place = (z3.Function(I.ctx.fresh_name(f), IS, IS) for f in ("left", "left_place"))
    I.ctx.assume(m.rank(0) == 0)


def next_rank(I, env, k, st):
    I.ctx.assume(I.machine.next_rank(k))


def machine_loops(f):
    return {(f, 0): LoopSpec(read, ghost_havoc=some_state, of=3),
            (f, 1): LoopSpec(taken, ghost_init=one_step, ghost_havoc=some_state, ghost_step=one_step,
                             measure=lambda I, env, k, st: I.machine.L(I.machine.t), of=3, kind=ast.While),
            (f, 2): LoopSpec(remaining, ghost_init=ranks, pre_body=next_rank, of=3)}


def counted_rows(I, timed):
    n = length(I, "n")
    tp = arr(I, "points", n)
    x = tp._get
    time = None
    args = [tp]
    if timed:
        ts = arr(I, "times", n)
        h = ts._get
        time = lambda k: num(h(zi(k))).v
        args.append(ts)
    m = I.machine = Machine(I, n, lambda k: num(x(zi(k))).v)
    m.time = time
    r = callf(I, RFM + "findrfc_astm", *args)
    if not isinstance(r, Mat):
        return ensure(I, "a table", False)
    t, l = m.t, m.L(m.t)
    ensure(I, "the rule has come to its end", band(m.C(t) == n, z3.Not(m.takes(t))))
    left = z3.If(l >= 1, l - 1, 0)
    rows = m.Q(t) + m.rank(left)
    only_first(I, rows)
    ensure(I, "number of cycles", req(r.n, rows))
    s = I.ctx.fresh("s", IS)
    I.ctx.instantiate(s)
    g = band(0 <= s, s < t, m.emits(s))
    ensure(I, "cycles taken out", bimp(g, band(0 <= m.Q(s), m.Q(s) < m.Q(t))))
    ensure(I, "cycles taken out: rows", bimp(g, same_row(cells(r, m.Q(s)), cycle_row(m.x, *m.row(s), time))))
    i, g = generic(I, left, "i")
    g = band(g, m.diff(t, i) > 0)
    ensure(I, "half cycles left over", bimp(g, band(0 <= m.rank(i), m.rank(i) < m.rank(left))))
    ensure(I, "half cycles left over: rows", bimp(g, same_row(
        cells(r, m.Q(t) + m.rank(i)), cycle_row(m.x, m.P(t, i), m.P(t, i + 1), z3.RealVal("1/2"), time))))
    q, g = generic(I, rows, "q")
    ensure(I, "no other cycles", bimp(g, bor(m.from_state(q, t), m.left_over(q - m.Q(t)))))
    unchanged(I, "points", tp, n, x)


def only_first(I, p):
    """a filter that keeps exactly the first p positions keeps position j at j"""
    for f, _, scope in list(I.ctx.filters):
        if scope:
            continue
        lemma(I, "rows kept", f.n, lambda k: zb(f.mask(k)) == zb(rlt(k, p)))
        ensure(I, "rows kept: all there", rle(p, f.n))
        induct(I, "position of a row", rsub(p, 1), lambda k: band(req(f.inv(k), k), req(f._idx(zi(k)), k)))
        last = rsub(p, 1)
        I.ctx.instantiate(last)
        I.ctx.instantiate(p)
        ensure(I, "rows kept: number", req(f.m, p))


@task("P02", [RFM + "findrfc_astm", RFM + "_findrfc3_astm"], loops=machine_loops(RFM + "_findrfc3_astm"))
def cycles_without_times(I):
    counted_rows(I, False)


@task(["P02", "P03", "P04"], [RFM + "findrfc_astm", RFM + "_findrfc5_astm"], loops=machine_loops(RFM + "_findrfc5_astm"))
def cycles_with_times(I):
    counted_rows(I, True)


# ---------------------------------------------------------------- P01: turning points
class Directions:
    """D(i): the last direction other than zero among s(0), ..., s(i), zero if there is none.  Position i is a change
    of direction if s(i + 1) is a direction other than D(i); K(i) counts the changes before i."""

    def __init__(self, I, n, s):
        self.n, self.s = n, s
        self.D, self.K = z3.Function("direction", IS, IS), z3.Function("changes", IS, IS)
        I.ctx.assume(z3.And(self.D(0) == s(0), self.K(0) == 0))

    def change(self, i):
        i = zi(i)
        return z3.And(self.s(i + 1) != 0, self.D(i) != self.s(i + 1))

    def step(self, i):
        i = zi(i)
        s, D, K = self.s, self.D, self.K
        return z3.And(D(i + 1) == z3.If(s(i + 1) != 0, s(i + 1), D(i)), K(i + 1) == K(i) + z3.If(self.change(i), 1, 0))


def pairs(n, f, patterns=None):
    i, j = z3.Ints("first second")
    return z3.ForAll([i, j], zb(bimp(band(0 <= i, i < j, rlt(j, n)), f(i, j))), **({"patterns": patterns(i, j)} if patterns
                                                                                  else {}))


def flat_start(I, env, k, st):
    d, v = I.directions, env.vars
    return [("start", req(num(v["start"]).v, k)), ("nothing yet", band(req(num(v["ix"]).v, 0), req(num(v["dcross"]).v, 0))),
            ("flat", all_k(I, radd(k, 1), lambda q: band(d.s(q) == 0, d.D(q) == 0, d.K(q) == 0)))]


def scanned(I, env, k, st):
    d, v = I.directions, env.vars
    ix, ind = num(v["ix"]).v, v["ind"]
    p = radd(st["start"], k)
    x = lambda j: num(ind.get(j)).v
    return [("direction", req(num(v["dcross"]).v, d.D(zi(p)))),
            ("present sign", band(bimp(d.s(zi(p)) != 0, d.D(zi(p)) == d.s(zi(p))), d.D(zi(p)) >= -1, d.D(zi(p)) <= 1,
                                  bor(d.D(zi(p)) != 0, rle(rsub(d.n, 1), p)))),
            ("changes", band(req(ix, d.K(zi(p))), rle(0, ix), rle(ix, p))),
            ("only changes", all_k(I, ix, lambda j: band(rle(0, x(j)), rlt(x(j), p), d.change(x(j)), req(d.K(zi(x(j))), j)))),
            ("in order", pairs(ix, lambda i, j: rlt(x(i), x(j)))),
            ("all changes", all_k(I, p, lambda q: bimp(d.change(q), band(rle(0, d.K(q)), rlt(d.K(q), ix),
                                                                        req(x(d.K(q)), q)))))]


def from_start(I, env, st):
    st["start"] = num(env.vars["start"]).v


def next_direction(first):
    def f(I, env, k, st):
        i = k if first else radd(st["start"], k)
        I.ctx.assume(I.directions.step(i))
        I.ctx.instantiate(i)
    return f


FC = RFM + "_findcross"
SCAN = {(FC, 0): LoopSpec(flat_start, pre_body=next_direction(True), of=2),
        (FC, 1): LoopSpec(scanned, ghost_init=from_start, pre_body=next_direction(False), of=2)}


@task(["P01", "P03", "P04"], [FC], loops=SCAN)
def crossing_scan(I):
    n = length(I, "n")
    s = z3.Function("sign", IS, IS)
    y = inp(I, "signs", Arr(n, lambda i: Num(s(zi(i)), isint=True), "i", "nd"))
    forall(I, n, lambda k: z3.And(s(zi(k)) >= -1, s(zi(k)) <= 1))
    ind = arr(I, "ind", n, "i")
    d = I.directions = Directions(I, n, s)
    r = callf(I, FC, ind, y)
    last = z3.If(zi(n) >= 1, zi(n) - 1, 0)
    ensure(I, "number of changes", req(num(r).v, d.K(last)))
    x = lambda j: num(ind.get(j)).v
    j, g = generic(I, num(r).v, "j")
    ensure(I, "only changes", bimp(g, band(rle(0, x(j)), rlt(x(j), last), d.change(x(j)))))
    i = I.ctx.fresh("i", IS)
    ensure(I, "in order", bimp(band(g, 0 <= i, i < j), rlt(x(i), x(j))))
    q, g = generic(I, last, "q")
    ensure(I, "all changes", bimp(band(g, d.change(q)), band(rle(0, d.K(q)), rlt(d.K(q), num(r).v), req(x(d.K(q)), q))))
    ensure(I, "fits", band(rle(0, num(r).v), rle(num(r).v, n)))
    unchanged(I, "signs", y, n, lambda i: Num(s(zi(i)), isint=True))


def scan_result(I, bound):
    """what crossing_scan proves, for the signs of the present task"""
    d, y, ind = I.directions, I.to_seq(bound["y"]), bound["ind"]
    require(I, "number of signs", req(y.n, d.n))
    require(I, "room for the positions", rle(y.n, ind.n))
    require(I, "the signs", all_k(I, d.n, lambda k: req(num(y.get(k)).v, d.s(zi(k)))))
    require(I, "signs", all_k(I, d.n, lambda k: band(d.s(zi(k)) >= -1, d.s(zi(k)) <= 1)))
    X = z3.Function("found", IS, IS)
    last = z3.If(zi(d.n) >= 1, zi(d.n) - 1, 0)
    m = d.K(last)
    I.ctx.assume(z3.And(m >= 0, m <= zi(d.n), m <= last))
    for n, f in ((m, lambda j: z3.And(0 <= X(zi(j)), X(zi(j)) < last, d.change(X(zi(j))))),
                 (last, lambda q: z3.Implies(d.change(q), z3.And(0 <= d.K(zi(q)), d.K(zi(q)) < m, X(d.K(zi(q))) == zi(q))))):
        I.ctx.assume(all_k(I, n, f))
        I.ctx.universal(0, n, f)
    I.ctx.assume(pairs(m, lambda i, j: X(i) < X(j), lambda i, j: [z3.MultiPattern(X(i), X(j))]))
    f = lambda j: z3.Implies(zi(j) + 1 < m, X(zi(j)) < X(zi(j) + 1))
    I.ctx.universal(0, m, f)
    old = ind._get
    I.ctx.log("arr", ind)
    ind._get = lambda j: Num(X(zi(j)), isint=True) if rlt(j, m) is True else nite(rlt(j, m), Num(X(zi(j)), isint=True), old(j))
    ind.items = None
    NP.bump(ind)
    d.X, d.m = X, m
    return Num(m, isint=True)


TP = [RFM + "findtp", RFM + "findextrema", RFM + "findcross", RFM + "findcross_indices"]
FOUND = {FC: Contract(scan_result)}


def signs_of(x):
    def s(k):
        u, v = num(x(zi(k))).v, num(x(zi(k) + 1)).v
        return z3.If(v > u, z3.IntVal(1), z3.If(v < u, z3.IntVal(-1), z3.IntVal(0)))
    return s


def a_signal(I, lo=0):
    n = length(I, "n", lo)
    x = arr(I, "x", n)
    g = x._get
    d = I.directions = Directions(I, z3.If(zi(n) >= 1, zi(n) - 1, 0), signs_of(g))
    return n, x, g, d


@task(["P01", "P03", "P04"], TP, contracts=FOUND)
def turning_points(I):
    n, x, g, d = a_signal(I)
    r = callf(I, RFM + "findtp", x)
    if not isinstance(r, Arr):
        return ensure(I, "an array", False)
    inner = z3.If(zi(n) >= 2, zi(n) - 2, 0)
    m = d.K(inner)
    at = lambda j: num(r.get(j)).v
    ensure(I, "fewer than two reversals", bimp(rlt(m, 2), req(r.n, 0)))
    ensure(I, "at most three samples", bimp(rle(n, 3), req(r.n, 0)))
    two = rle(2, m)
    ensure(I, "number", bimp(two, req(r.n, m + 2)))
    ensure(I, "first sample", bimp(two, req(at(0), 0)))
    ensure(I, "last sample", bimp(two, req(at(rsub(r.n, 1)), n - 1)))
    j, c = generic(I, rsub(r.n, 1), "j")
    I.ctx.instantiate(j - 1)
    ensure(I, "increasing", bimp(band(two, c), rlt(at(j), at(j + 1))))
    ensure(I, "only reversals", bimp(band(two, c, rlt(0, j)), band(rlt(0, at(j)), rlt(at(j), n - 1),
                                                                  d.change(rsub(at(j), 1)))))
    p = I.ctx.fresh("p", IS)
    I.ctx.instantiate(p - 1)
    q = d.K(p - 1) + 1
    ensure(I, "all reversals", bimp(band(two, rlt(0, p), rlt(p, n - 1), d.change(p - 1)),
                                    band(rle(1, q), rlt(q, rsub(r.n, 1)), req(at(q), p))))
    unchanged(I, "signal", x, n, g)


def not_reached(I, bound):
    require(I, "no scan of a signal with nan", False)
    return Num(0, isint=True)


@task("P01", TP, contracts={FC: Contract(not_reached)})
def rejects_nan(I):
    n = length(I, "n", 2)
    f, na = z3.Function("x", IS, R), z3.Function("x_nan", IS, B)
    x = inp(I, "x", Arr(n, lambda i: Num(f(zi(i)), na=na(zi(i)), isint=False), "f", "nd"))
    p = integer(I, "p").v
    pre(I, band(rle(0, p), rlt(p, n), na(p)))
    I.ctx.instantiate(p)
    I.ctx.instantiate(p - 1)
    expect_exc(I, "nan", "ValueError", lambda: callf(I, RFM + "findtp", x))


# ---------------------------------------------------------------- P03, P04: the signal between turning points
def heads(x, s, a, b):
    """from sample a to sample b the signal moves in the direction s"""
    u, v = num(x(zi(a))).v, num(x(zi(b))).v
    return band(bimp(s == 1, rlt(u, v)), bimp(s == -1, rlt(v, u)), bimp(s == 0, req(u, v)))


@task(["P03", "P04"], TP, contracts=FOUND)
def reversals_alternate(I):
    """between turning points the signal moves in one direction, the opposite one after each reversal"""
    n, x, g, d = a_signal(I)
    r = callf(I, RFM + "findtp", x)
    if not isinstance(r, Arr):
        return ensure(I, "an array", False)
    inner = z3.If(zi(n) >= 2, zi(n) - 2, 0)
    m = d.K(inner)
    pre(I, rle(2, m))
    if not hasattr(d, "X"):
        raise Unsupported("the signs are not scanned")
    I.ctx.universal(0, inner, d.step)
    at = lambda j: num(r.get(j)).v
    X = d.X
    # from the first sample to the first reversal
    I.ctx.instantiate(z3.IntVal(0))
    induct(I, "first stretch", X(0), lambda k: band(heads(g, d.D(zi(k)), 0, zi(k) + 1), d.D(zi(k)) >= -1,
                                                       d.D(zi(k)) <= 1))
    I.ctx.instantiate(X(0))
    s1 = d.s(at(1))
    ensure(I, "first stretch", bor(heads(g, -s1, at(0), at(1)), req(num(g(at(0))).v, num(g(at(1))).v)))
    # from one reversal to the next, or to the last sample
    j = I.ctx.fresh("j", IS)
    pre(I, band(0 <= j, j < m))
    I.ctx.instantiate(j)
    I.ctx.instantiate(j + 1)
    p, e = X(j) + 1, z3.If(j + 1 < m, X(j + 1), inner)
    I.ctx.instantiate(X(j))
    induct(I, "stretch", e, lambda k: band(d.D(zi(k)) == d.s(p), heads(g, d.s(p), p, zi(k) + 1)), p)
    I.ctx.instantiate(e)
    s = d.s(at(j + 1))
    ensure(I, "a direction", bor(s == 1, s == -1))
    ensure(I, "stretch", heads(g, s, at(j + 1), at(j + 2)))
    ensure(I, "opposite direction", bimp(j + 1 < m, d.s(at(j + 2)) == -s))


# ---------------------------------------------------------------- P03: nothing is lost by the three-point rule
def rabs(d):
    return z3.If(d >= 0, d, -d)


def rmax(*xs):
    m = xs[0]
    for x in xs[1:]:
        m = z3.If(x > m, x, m)
    return m


def rmin(*xs):
    m = xs[0]
    for x in xs[1:]:
        m = z3.If(x < m, x, m)
    return m


class Balance(Machine):
    """the rule together with what it has taken out so far: U(s, k) is the variation along the first k ranges held,
    W(s) twice the sum of range times count taken out; V(k) is the variation along the first k ranges of the points,
    lo(k) and hi(k) are the extremes of the first k points"""

    def __init__(self, I, n, x):
        super().__init__(I, n, x)
        self.U, self.W = z3.Function("rule_U", IS, IS, R), z3.Function("rule_W", IS, R)
        self.V, self.lo, self.hi = (z3.Function("points_" + f, IS, R) for f in ("V", "lo", "hi"))
        I.ctx.assume(z3.And(self.W(0) == 0, self.V(0) == 0, self.lo(1) == x(z3.IntVal(0)), self.hi(1) == x(z3.IntVal(0))))

    def point(self, k):
        """the next point, in V, lo and hi"""
        x = self.x
        return z3.And(self.V(k + 1) == self.V(k) + rabs(x(k + 1) - x(k)),
                      z3.Implies(k >= 1, z3.And(self.lo(k + 1) == rmin(self.lo(k), x(k)),
                                                self.hi(k + 1) == rmax(self.hi(k), x(k)))))

    def counters(self, s):
        l = self.L(s)
        return z3.And(super().counters(s), self.W(s + 1) == self.W(s) + z3.If(
            self.takes(s), z3.If(l == 3, 1, 2) * self.diff(s, l - 3), 0))

    def held(self, s, k):
        l, U, v = self.L(s), self.U, lambda k: self.val(s, k)
        return z3.And(super().held(s, k), U(s + 1, k) == z3.If(
            self.takes(s), z3.If(l == 3, z3.If(k == 0, z3.RealVal(0), self.diff(s, 1)),
                                 z3.If(k == l - 3, U(s, l - 4) + rabs(v(l - 4) - v(l - 1)), U(s, k))),
            z3.If(k == l, z3.If(l == 0, z3.RealVal(0), U(s, l - 1) + rabs(v(l - 1) - self.x(self.C(s)))), U(s, k))))

    def single(self, s):
        """what holds of state s: facts about numbers"""
        l, c, v = self.L(s), self.C(s), lambda k: self.val(s, k)
        x = self.x
        top = v(l - 1)
        return [("points held", z3.And(l >= 0, l <= c, c <= zi(self.n), z3.Implies(c >= 1, l >= 1), z3.Implies(c >= 2, l >= 2))),
                ("last point", z3.Implies(c >= 1, self.P(s, l - 1) == c - 1)),
                ("variation from the start", z3.Implies(l >= 1, self.U(s, 0) == 0)),
                ("last direction", z3.Implies(c >= 2, z3.And((top > v(l - 2)) == (x(c - 1) > x(c - 2)),
                                                             (top < v(l - 2)) == (x(c - 1) < x(c - 2))))),
                ("balance", z3.If(c >= 1, self.W(s) + self.U(s, l - 1) == self.V(c - 1), self.W(s) == 0)),
                ("extremes", z3.And(z3.Implies(l == 1, z3.And(self.hi(c) == v(0), self.lo(c) == v(0))),
                                    z3.Implies(l >= 2, z3.And(self.hi(c) == rmax(v(0), v(1), top),
                                                              self.lo(c) == rmin(v(0), v(1), top)))))]

    def each(self, s):
        """what holds of state s: facts about every point held"""
        l, v = self.L(s), lambda k: self.val(s, k)
        return [("positions", 0, l, lambda k: z3.And(0 <= self.P(s, k), self.P(s, k) < self.C(s))),
                ("variation", 0, l - 1, lambda k: self.U(s, k + 1) == self.U(s, k) + self.diff(s, k)),
                ("decreasing", 0, l - 3, lambda k: self.diff(s, k) > self.diff(s, k + 1)),
                ("positive", 1, l - 1, lambda k: self.diff(s, k) > 0),
                ("alternating", 0, l - 2, lambda k: z3.Or(z3.And(v(k) <= v(k + 1), v(k + 2) <= v(k + 1)),
                                                          z3.And(v(k) >= v(k + 1), v(k + 2) >= v(k + 1)))),
                ("between", 2, l - 1, lambda k: z3.And(rmin(v(0), v(1)) <= v(k), v(k) <= rmax(v(0), v(1))))]


def alternating(I, n, x):
    """the points are those of a signal: e(k) is the direction from point k on"""
    e = z3.Function("heading", IS, IS)
    f = lambda k: z3.And(z3.Or(e(k) == 1, e(k) == -1), (e(k) == 1) == (x(k + 1) > x(k)), (e(k) == -1) == (x(k + 1) < x(k)),
                         z3.Implies(k + 2 < zi(n), e(k + 1) == -e(k)))
    I.ctx.assume(all_k(I, n - 1, f, 1))
    I.ctx.universal(1, n - 1, f)
    I.ctx.assume(z3.Or(x(z3.IntVal(0)) == x(z3.IntVal(1)), (e(1) == 1) == (x(z3.IntVal(0)) > x(z3.IntVal(1)))))
    return e


@task(["P03", "P04"])
def balance_kept(I):
    """every step of the rule keeps the balance of the points of a signal"""
    n = length(I, "n", 4)
    xf = z3.Function("points", IS, R)
    m = Balance(I, n, lambda k: xf(zi(k)))
    alternating(I, n, m.x)
    for nm, f in m.single(z3.IntVal(0)):
        ensure(I, nm + ": start", f)
    for nm, lo, hi, f in m.each(z3.IntVal(0)):
        k = I.ctx.fresh("k", IS)
        ensure(I, nm + ": start", bimp(band(rle(lo, k), rlt(k, hi)), f(k)))
    s = m.t = I.ctx.fresh("state", IS)
    l, c = m.L(s), m.C(s)
    pre(I, z3.And(s >= 0, z3.Or(m.takes(s), c < n)))
    for q in (z3.IntVal(0), z3.IntVal(1), z3.IntVal(2), l - 5, l - 4, l - 3, l - 2, l - 1, l, c - 1, c - 2, c):
        I.ctx.instantiate(q)
    for nm, f in m.single(s):
        I.ctx.assume(f)
    for nm, lo, hi, f in m.each(s):
        I.ctx.universal(lo, hi, lambda k, f=f: f(zi(k)))
    I.ctx.assume(z3.Implies(c >= 1, m.point(c - 1)))
    I.ctx.assume(z3.Implies(c >= 1, m.point(c)))
    m.step()
    e = m.t
    for nm, f in m.single(e):
        ensure(I, nm, f)
    for nm, lo, hi, f in m.each(e):
        k = I.ctx.fresh("k", IS)
        for q in (k, k + 1, k + 2):
            I.ctx.instantiate(q)
        ensure(I, nm, bimp(band(rle(lo, k), rlt(k, hi)), f(k)))


# ---------------------------------------------------------------- P03, P04: the rainflow count of a signal
class Signal:
    """a signal with at least two reversals, its turning points (reversals_alternate, turning_points) and the cycles
    of their rainflow count (cycles_with_times, balance_kept), as the contracts of findtp and findrfc_astm"""

    def __init__(self, I, n, g, rule=True):
        self.n, self.g = n, g
        tp = self.tp = z3.Function("turning_point", IS, IS)
        N = self.N = length(I, "points", 4)
        I.ctx.assume(z3.And(tp(0) == 0, tp(N - 1) == zi(n) - 1))
        inside = lambda k: z3.And(0 <= tp(zi(k)), tp(zi(k)) < zi(n), z3.Implies(zi(k) + 1 < N, tp(zi(k)) < tp(zi(k) + 1)))
        I.ctx.assume(all_k(I, N, inside, patterns=lambda k: [tp(k)]))
        I.ctx.universal(0, N, inside)
        m = self.m = Balance(I, N, lambda k: num(g(tp(zi(k)))).v)
        m.time = lambda k: z3.ToReal(tp(zi(k)))
        self.cols = [z3.Function(f"cycle_{k}", IS, R) for k in range(5)]
        self.row = row = lambda q: [c(zi(q)) for c in self.cols]
        self.start, self.end = (z3.Function("cycle_" + f, IS, IS) for f in ("start", "end"))
        self.rows = length(I, "cycles")
        if rule:
            self.by_the_rule(I)

    def by_the_rule(self, I):
        m, N, row = self.m, self.N, self.row
        alternating(I, N, m.x)
        T = m.t = length(I, "steps")
        m.rank, m.place = z3.Function("left", IS, IS), z3.Function("left_place", IS, IS)
        l = m.L(T)
        I.ctx.assume(z3.And(m.C(T) == N, z3.Not(m.takes(T)), self.rows == m.Q(T) + m.rank(l - 1), m.rank(0) == 0,
                            m.rank(l - 1) >= 0, m.Q(T) >= 0))
        for what, f in m.single(T):
            I.ctx.assume(f)
        for what, lo, hi, f in m.each(T):
            self.known(I, lo, hi, f)
        self.known(I, 0, T, m.counters)
        self.known(I, 0, T, lambda s: z3.Implies(m.emits(s), z3.And(
            0 <= m.Q(s), m.Q(s) < m.Q(T), zb(same_row(row(m.Q(s)), cycle_row(m.x, *m.row(s), m.time))))))
        self.known(I, 0, l - 1, m.next_rank)
        self.known(I, 0, l - 1, lambda i: z3.Implies(m.diff(T, i) > 0, z3.And(
            0 <= m.rank(i), m.rank(i) < m.rank(l - 1), zb(same_row(row(m.Q(T) + m.rank(i)), cycle_row(
                m.x, m.P(T, i), m.P(T, i + 1), z3.RealVal("1/2"), m.time))))))
        self.known(I, 0, self.rows, lambda q: z3.Or(m.from_state(q, T), m.left_over(q - m.Q(T))))

    def rows_known(self, I):
        """what one_cycle proves of every row"""
        def f(q):
            a, mean, w, at, period = self.row(q)
            p, e = self.start(q), self.end(q)
            u, v = num(self.g(p)).v, num(self.g(e)).v
            return z3.And(a > 0, z3.Or(w == z3.RealVal("1/2"), w == 1), z3.ToReal(p) == at, z3.ToReal(e) == at + period / 2,
                          0 <= p, p < zi(self.n), 0 <= e, e < zi(self.n), 2 * a == rabs(u - v))
        self.known(I, 0, self.rows, f)

    def known(self, I, lo, hi, f):
        I.ctx.assume(all_k(I, hi, lambda k: f(zi(k)), lo))
        I.ctx.universal(lo, hi, lambda k: f(zi(k)))

    def positions(self, I, s, *ks):
        """the points held in state s are points read (positions, for every state)"""
        m = self.m
        for k in ks:
            I.ctx.assume(z3.Implies(z3.And(0 <= s, s <= m.t, 0 <= k, k < m.L(s)),
                                    z3.And(0 <= m.P(s, k), m.P(s, k) < m.C(s), m.C(s) <= self.N)))

    def findtp(self, I, bound):
        x = I.to_seq(bound["x"])
        require(I, "the signal", band(req(x.n, self.n), all_k(I, self.n, lambda k: same(num(x.get(k)), num(self.g(k))))))
        return Arr(self.N, lambda j: Num(self.tp(zi(j)), isint=True), "i", "nd")

    def findrfc(self, I, bound):
        y = I.to_seq(bound["tp"])
        require(I, "the turning points", band(req(y.n, self.N),
                                              all_k(I, self.N, lambda k: req(num(y.get(k)).v, self.m.x(zi(k))))))
        if bound.get("t") is None:
            cols = 3
        else:
            t, cols = I.to_seq(bound["t"]), 5
            require(I, "their positions", band(req(t.n, self.N),
                                               all_k(I, self.N, lambda k: req(num(t.get(k)).v, self.tp(zi(k))))))
        return Mat(self.rows, cols, lambda q, c: Num(self.cols[int(c)](zi(q)), isint=False), "f")


RAIN = [RFM + "rainflow"]


def a_counted_signal(I, n=None, **kw):
    n = length(I, "n", 4) if n is None else n
    x = arr(I, "x", n)
    g = x._get
    s = I.signal = Signal(I, n, g, rule=False)
    s.rows_known(I)
    I.contracts = {**I.contracts, RFM + "findtp": Contract(s.findtp), RFM + "findrfc_astm": Contract(s.findrfc)}
    r = callf(I, RFM + "rainflow", x, **kw)
    unchanged(I, "signal", x, n, g)
    return s, r


def table_of(I, s, r):
    """the cycles returned are those of the rule"""
    if not isinstance(r, Mat) or r.m != 5:
        ensure(I, "a table of five columns", False)
        return False
    q, c = generic(I, s.rows, "q")
    ensure(I, "number of cycles", req(r.n, s.rows))
    ensure(I, "the cycles", bimp(c, same_row(cells(r, q), s.row(q))))
    return True


@task("P03", RAIN)
def cycles_of_a_signal(I):
    s, r = a_counted_signal(I, extended_output=False)
    table_of(I, s, r)


@task(["P03", "P04"], RAIN)
def cycles_with_residuals(I):
    s, r = a_counted_signal(I)
    if not isinstance(r, tuple) or len(r) != 3:
        return ensure(I, "cycles, residuals and positions", False)
    table_of(I, s, r[0])


def a_signal_counted(I):
    n = length(I, "n", 4)
    x = arr(I, "x", n)
    return Signal(I, n, x._get)


@task(["P03", "P04"])
def one_cycle(I):
    """every cycle: positive, half or full, between two values of the signal"""
    s = a_signal_counted(I)
    m, T = s.m, s.m.t
    q, c = generic(I, s.rows, "q")
    o, i = m.origin(q), m.place(q - m.Q(T))
    for k in (o, i):
        I.ctx.instantiate(k)
    s.positions(I, o, m.L(o) - 3, m.L(o) - 2)
    s.positions(I, T, i, i + 1)
    a, mean, w, at, period = s.row(q)
    ensure(I, "positive range", bimp(c, a > 0))
    ensure(I, "half or full", bimp(c, z3.Or(w == z3.RealVal("1/2"), w == 1)))
    from_rule = m.from_state(q, T)
    p, e = (z3.If(from_rule, u, v) for u, v in ((m.P(o, m.L(o) - 3), m.P(T, i)), (m.P(o, m.L(o) - 2), m.P(T, i + 1))))
    for k in (p, e):
        I.ctx.instantiate(k)
    ensure(I, "points", bimp(c, z3.And(0 <= p, p < s.N, 0 <= e, e < s.N)))
    p, e = s.tp(p), s.tp(e)
    ensure(I, "start", bimp(c, z3.And(z3.ToReal(p) == at, 0 <= p, p < zi(s.n))))
    ensure(I, "end", bimp(c, z3.And(z3.ToReal(e) == at + period / 2, 0 <= e, e < zi(s.n))))
    u, v = num(s.g(p)).v, num(s.g(e)).v
    ensure(I, "range", bimp(c, 2 * a == rabs(u - v)))
    ensure(I, "mean", bimp(c, mean == (u + v) / 2))


@task("P03")
def sum_of_ranges(I):
    """twice the sum of range times count is the variation along the turning points"""
    s = a_signal_counted(I)
    m, T = s.m, s.m.t
    l = m.L(T)
    S = z3.Function("sum_of_cycles", IS, R)
    add_ = lambda q: z3.Implies(q >= 0, S(q + 1) == S(q) + 2 * s.row(q)[2] * (2 * s.row(q)[0]))
    I.ctx.assume(S(0) == 0)
    I.ctx.universal(0, T, lambda k: add_(m.Q(zi(k))))
    induct(I, "cycles taken out", T, lambda k: S(m.Q(zi(k))) == m.W(zi(k)))
    I.ctx.instantiate(T)
    I.ctx.universal(0, l - 1, lambda k: add_(m.Q(T) + m.rank(zi(k))))
    I.ctx.instantiate(z3.IntVal(0))
    induct(I, "half cycles left over", l - 1, lambda k: z3.And(S(m.Q(T) + m.rank(zi(k))) == m.W(T) + m.U(T, zi(k)),
                                                               m.rank(zi(k)) >= 0))
    I.ctx.instantiate(l - 1)
    ensure(I, "sum of the ranges", S(s.rows) == m.V(s.N - 1))


@task("P03")
def largest_range(I):
    s = a_signal_counted(I)
    m, T = s.m, s.m.t
    l, N = m.L(T), s.N
    for k in (z3.IntVal(0), z3.IntVal(1), z3.IntVal(2), l - 3, l - 2, l - 1, N - 2):
        I.ctx.instantiate(k)
    s.positions(I, T, z3.IntVal(0), z3.IntVal(1), l - 3, l - 2, l - 1)
    I.ctx.universal(1, N, lambda k: m.point(zi(k)))
    j, c = generic(I, N, "j")
    I.ctx.assume(c)
    I.ctx.assume(m.point(j))
    induct(I, "extremes", N, lambda k: z3.And(m.lo(zi(k)) <= m.x(j), m.x(j) <= m.hi(zi(k))), j + 1)
    I.ctx.instantiate(N)
    ensure(I, "largest and smallest turning point", z3.And(m.lo(N) <= m.x(j), m.x(j) <= m.hi(N)))
    a, b = m.P(T, 0), m.P(T, 1)
    ensure(I, "they are turning points", z3.And(0 <= a, a < N, 0 <= b, b < N, z3.Or(
        z3.And(m.lo(N) == m.x(a), m.hi(N) == m.x(b)), z3.And(m.lo(N) == m.x(b), m.hi(N) == m.x(a)))))
    q = m.Q(T)
    ensure(I, "a cycle between them", z3.And(0 <= q, q < s.rows, 2 * s.row(q)[0] == m.hi(N) - m.lo(N)))


# ---------------------------------------------------------------- P04: the residual sequence
def joined(I, s):
    """b(q): where the chain of half cycles has come to before row q"""
    s.rows_known(I)
    b = z3.Function("chain", IS, R)
    half = lambda q: s.row(q)[2] == z3.RealVal("1/2")
    I.ctx.assume(b(0) == num(s.g(z3.IntVal(0))).v)
    s.known(I, 0, s.rows, lambda q: b(q + 1) == z3.If(half(q), num(s.g(s.end(q))).v, b(q)))
    return b, half


def chain_joins(s, b, half):
    return lambda q: z3.Implies(half(q), num(s.g(s.start(q))).v == b(q))


@task("P04")
def half_cycles_join(I):
    """every half cycle starts where the one before it ended, the last one at the last sample"""
    s = a_signal_counted(I)
    m, T = s.m, s.m.t
    l = m.L(T)
    b, half = joined(I, s)
    zero = z3.IntVal(0)
    I.ctx.universal(0, T, lambda k: m.held(zi(k), zero))
    I.ctx.universal(0, T, lambda k: z3.And(m.L(zi(k)) >= 0, m.L(zi(k)) <= m.C(zi(k)), z3.Implies(m.C(zi(k)) >= 1, m.L(zi(k)) >= 1),
                                           z3.Implies(m.C(zi(k)) >= 2, m.L(zi(k)) >= 2)))
    inst = I.ctx.instantiate
    k = I.ctx.fresh("ind", IS)
    for q in (zero, T, l - 1):
        inst(q)
    at = lambda k: z3.If(m.C(zi(k)) == 0, m.Q(zi(k)) == 0, z3.And(m.Q(zi(k)) >= 0, b(m.Q(zi(k))) == m.val(zi(k), zero)))
    I.ctx.obligation("lemma:taken out: start", zb(at(zero)))
    inst(k)
    inst(m.Q(k))
    s.positions(I, k, zero, zero + 1)
    I.ctx.obligation("lemma:taken out: step", bimp(band(0 <= k, k < T, at(k)), at(k + 1)))
    s.known(I, 0, T + 1, at)
    i = I.ctx.fresh("ind", IS)
    inst(i)
    inst(m.Q(T) + m.rank(i))
    s.positions(I, T, i, i + 1)
    left = lambda i: z3.And(m.rank(zi(i)) >= 0, b(m.Q(T) + m.rank(zi(i))) == m.val(T, zi(i)))
    I.ctx.obligation("lemma:left over: start", left(zero))
    I.ctx.obligation("lemma:left over: step", bimp(band(0 <= i, i < l - 1, left(i)), left(i + 1)))
    s.known(I, 0, l, left)
    q, c = generic(I, s.rows, "q")
    for j in (q, m.origin(q), m.place(q - m.Q(T))):
        inst(j)
    ensure(I, "a half cycle starts where the last one ended", bimp(c, chain_joins(s, b, half)(q)))
    ensure(I, "the last sample", b(s.rows) == num(s.g(zi(s.n) - 1)).v)


def residuals(I, s, r, timed):
    b, half = joined(I, s)
    s.known(I, 0, s.rows, chain_joins(s, b, half))
    I.ctx.assume(b(s.rows) == num(s.g(zi(s.n) - 1)).v)
    f = kept(I, s.rows, lambda q: half(zi(q)))
    seq, pos = (I.to_seq(v) for v in r[1:3])
    M = f.m + 1
    ensure(I, "one more than half cycles", band(req(pos.n, M), req(seq.n, M)))
    j, c = generic(I, f.m, "j")
    for k in (j, j + 1, f.idx(j), f.idx(j + 1), f.m - 1):
        I.ctx.instantiate(k)
    P = lambda j: num(pos.get(j)).v
    ensure(I, "positions", bimp(c, band(0 <= zi(P(j)), zi(P(j)) < zi(s.n))))
    ensure(I, "ends at the last sample", req(P(f.m), zi(s.n) - 1))
    ensure(I, "the signal there", bimp(c, same(num(seq.get(j)), num(s.g(zi(P(j)))))))
    ensure(I, "the last value", same(num(seq.get(f.m)), num(s.g(zi(s.n) - 1))))
    I.ctx.assume(c)
    e = z3.If(j + 1 < f.m, f.idx(j + 1), s.rows)
    k = I.ctx.fresh("ind", IS)
    I.ctx.instantiate(f.inv(k))
    start = f.idx(j) + 1
    between = lambda k: band(b(zi(k)) == num(s.g(s.end(f.idx(j)))).v)
    I.ctx.obligation("lemma:no half cycle between: start", zb(between(start)))
    I.ctx.instantiate(k)
    I.ctx.obligation("lemma:no half cycle between: step", bimp(band(start <= k, k < e, between(k)), between(k + 1)))
    I.ctx.assume(between(e))
    u, v = (num(seq.get(z)).v for z in (j, j + 1))
    ensure(I, "differences are the ranges of the half cycles", rabs(zr(u) - zr(v)) == 2 * s.row(f.idx(j))[0])
    if timed is not None:
        t = I.to_seq(r[3])
        ensure(I, "one time for each", req(t.n, M))
        ensure(I, "times", bimp(c, same(num(t.get(j)), num(timed(zi(P(j)))))))
        ensure(I, "time of the last sample", same(num(t.get(f.m)), num(timed(zi(s.n) - 1))))


@task("P04", RAIN)
def residual_sequence(I):
    s, r = a_counted_signal(I)
    if not isinstance(r, tuple) or len(r) != 3:
        return ensure(I, "cycles, residuals and positions", False)
    if table_of(I, s, r[0]):
        residuals(I, s, r, None)


@task("P04", RAIN + [RFM + "findrfc_astm"], contracts={RFM + "findtp": Contract(lambda I, b: Arr(0, lambda k: num(0), "i"))})
def fewer_reversals(I):
    """without turning points (turning_points: fewer than two reversals) there is nothing but the last sample"""
    n = length(I, "n", 1)
    x = arr(I, "x", n)
    g = x._get
    r = callf(I, RFM + "rainflow", x)
    if not isinstance(r, tuple) or len(r) != 3 or not isinstance(r[0], Mat):
        return ensure(I, "cycles, residuals and positions", False)
    ensure(I, "no cycle", req(r[0].n, 0))
    ensure_arr(I, "position", r[2], 1, lambda k: Num(zi(n) - 1, isint=True))
    ensure_arr(I, "residual", r[1], 1, lambda k: num(g(zi(n) - 1)))
    t = arr(I, "t", n)
    at = t._get
    r = callf(I, RFM + "rainflow", x, time=t)
    if not isinstance(r, tuple) or len(r) != 4 or not isinstance(r[0], Mat):
        return ensure(I, "cycles, residuals, positions and times", False)
    ensure(I, "no cycle, with times", req(r[0].n, 0))
    ensure_arr(I, "residual, with times", r[1], 1, lambda k: num(g(zi(n) - 1)))
    ensure_arr(I, "time", r[3], 1, lambda k: num(at(zi(n) - 1)))


@task("P04", RAIN)
def residual_times(I):
    n = I.n = length(I, "n", 4)
    t = arr(I, "times", n)
    h = t._get
    s, r = a_counted_signal(I, n, time=t)
    unchanged(I, "times", t, n, h)
    if not isinstance(r, tuple) or len(r) != 4:
        return ensure(I, "cycles, residuals, positions and times", False)
    if table_of(I, s, r[0]):
        residuals(I, s, r, h)
