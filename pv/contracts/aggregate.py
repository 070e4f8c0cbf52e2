"""P31: aggregation by time window.

The frame of the caller is a Table: any number of rows, of which one generic
row is looked at. What pandas does with it is given here: groupby puts rows of
equal key into one window, agg applies to every column the function given for
it, applymap a function to every cell, concat puts tables one below the other.
"""
from ..lib import *
from ..npmodel import meth
from .cycle import a_count, untouched, K, PB

A = "py_fatigue.cycle_count.utils:"
DAMAGE = "py_fatigue.damage.stress_life:get_pm"
SN = "py_fatigue.material.sn_curve:SNCurve"


def resolved(I, bound):
    """contract of CycleCount.solve_lffd (proved for P09): here only which count it was asked for"""
    I.asked = bound["self"]
    r = Opaque("resolved count")
    r.of = bound["self"]
    return r


SOLVE = {K + ".solve_lffd": Contract(resolved)}


@task("P31", [A + "solve_lffd", K + ".time_sequence"], contracts=SOLVE)
def resolved_over_several_times(I):
    n = length(I, "times", 1)
    o, s = a_count(I, times=arr(I, "time", n, "i"))
    I.asked = None
    r = callf(I, A + "solve_lffd", o)
    if I.ctx.branch(n > 1):
        ensure(I, "resolved", I.asked is o and isinstance(r, Opaque))
    else:
        ensure(I, "as it is", r is o and I.asked is None)
    untouched(I, "count", o, s)


@task("P31", [A + "solve_lffd"])
def others_as_they_are(I):
    v = real(I, "value")
    ensure(I, "number", callf(I, A + "solve_lffd", v) is v)
    ensure(I, "nothing", callf(I, A + "solve_lffd", None) is None)


# ---------------------------------------------------------------- tables
class Index(Stub):
    def __init__(self, times, increasing=True, unique=True, kind="datetime64"):
        self.types = {"DatetimeIndex", "Index"} if times else {"Index", "RangeIndex"}
        self.facts = {"is_monotonic_increasing": increasing, "is_unique": unique, "inferred_type": kind}

    def attr(self, I, name):
        if name in self.facts:
            return self.facts[name]
        if name == "to_period" and "DatetimeIndex" in self.types:
            return meth(lambda I, a, k: Period(self, *a, **k))
        return super().attr(I, name)


class Period(Stub):
    """the window of every row"""

    def __init__(self, index, freq):
        self.index, self.freq = index, freq


class Table(Stub):
    types = {"DataFrame"}

    def __init__(self, names, cells, index):
        self.names, self.cells, self.index = list(names), dict(cells), index
        self.summed = False

    def attr(self, I, name):
        f = {"groupby": self.groupby, "applymap": self.applymap, "copy": self.copy}.get(name)
        if f is not None:
            return meth(f)
        if name == "index":
            return self.index
        if name == "iterrows":
            return meth(self.iterrows)
        if name == "columns":
            return PyList(self.names)
        return super().attr(I, name)

    def seq(self, I):
        return I.to_seq(tuple(self.names))

    def iterrows(self, I, a, k):
        if not self.summed:
            raise Unsupported("rows of another table")
        I.rows_asked = True
        return I.rows

    def copy(self, I, a, k):
        return Table(self.names, self.cells, self.index)

    def item(self, I, key):
        if isinstance(key, (PyList, Arr)):
            xs = I.seq_items(key)
            if any(I.hashable(x) not in self.cells for x in xs):
                raise PyExc("KeyError", "columns")
            return Table(xs, {I.hashable(x): self.cells[I.hashable(x)] for x in xs}, self.index)
        return super().item(I, key)

    def store(self, I, key, v):
        I.ctx.log("stub", self)
        if I.hashable(key) not in self.cells:
            self.names = self.names + [key]
        self.cells = {**self.cells, I.hashable(key): v}

    def groupby(self, I, a, k):
        if len(a) != 1 or k:
            raise Unsupported("groupby")
        by = a[0]
        if isinstance(by, PyList) and len(by.xs) == 1:
            by = by.xs[0]
        if isinstance(by, Period) and by.index is self.index:
            return Groups(self, by.freq)
        if isinstance(by, FuncV):
            r = I.call(by, [Num(I.ctx.fresh("row", IS), isint=True)], {})
            if isinstance(r, (bool, str)) or isinstance(r, Num) and r.isconst():
                return Groups(self, "all")
        raise Unsupported("groupby")

    def applymap(self, I, a, k):
        if len(a) != 1 or k:
            raise Unsupported("applymap")
        return Table(self.names, {c: I.call(a[0], [v], {}) for c, v in self.cells.items()}, self.index)


class Groups(Stub):
    def __init__(self, table, by):
        self.table, self.by = table, by

    def attr(self, I, name):
        if name in ("agg", "aggregate"):
            return meth(self.agg)
        return super().attr(I, name)

    def agg(self, I, a, k):
        if len(a) != 1 or k or not isinstance(a[0], PyDict):
            raise Unsupported("agg")
        d = a[0].d
        if any(c not in self.table.cells for c in d):
            raise PyExc("KeyError", "columns")
        I.made = {c: (f, self.by) for c, f in d.items()}
        cells = {c: I.windows[c] for c in d}
        t = Table([I.unhash(c) for c in d], cells, Stub())
        t.summed = True
        return t


CCS, OTHERS = ["CC_a", "CC_", "CC_b 2"], ["load", "x CC_", "cc_a", num(3)]


def a_table(I, index):
    """columns of counts and of other things between them; what the rows hold does not matter here"""
    names = [OTHERS[0], CCS[0], OTHERS[1], OTHERS[3], CCS[1], CCS[2], OTHERS[2]]
    return Table(names, {I.hashable(c): Opaque(("cells", str(c))) for c in names}, index)


def window(I):
    """what a window holds after summing up: counts of several times, of one time, or nothing; and numbers"""
    n = length(I, "times", 2)
    several, _ = a_count(I, "s_", times=arr(I, "time", n, "i"))
    single, _ = a_count(I, "o_")
    I.windows = {c: v for c, v in zip(CCS, (several, single, None))}
    for k, c in enumerate(OTHERS):
        I.windows[I.hashable(c)] = Num(z3.Real(f"mean{k}"), na=z3.Bool(f"missing{k}"), isint=False)
    return several, single


class Column(Stub):
    """the cells of one column in one window"""


def summed(I, bound):
    """contract of pbar_sum (proved for P07): here only what it was given"""
    r = Opaque("sum of counts")
    r.of = list(bound.values())[0]
    return r


SUM = {PB: Contract(summed)}


def kind_of(I, f):
    """sum or mean, whichever way the function is written"""
    if isinstance(f, Ext) and f.path == "numpy.nanmean":
        return "mean"
    if isinstance(f, FuncV):
        c = Column()
        r = I.call(f, [c], {})
        if isinstance(r, Opaque) and getattr(r, "of", None) is c:
            return "sum"
    raise Unsupported("aggregation by another function")


@task("P31", [A + "aggregate_cc", A + "solve_lffd"], contracts={**SOLVE, **SUM})
def windows_hold_their_sums(I):
    index = Index(True)
    t = a_table(I, index)
    several, single = window(I)
    by = ["all", "All", "ALL", SymStr(z3.Const("alias", SymStr.Sort), True)][I.ctx.choose(4)]
    r = callf(I, A + "aggregate_cc", t, by)
    if not isinstance(r, Table) or not hasattr(I, "made"):
        raise Unsupported("a table is expected")
    want = {I.hashable(c) for c in CCS + OTHERS}
    ensure(I, "all columns", {I.hashable(c) for c in r.names} == want == set(I.made))
    for c in want:
        f, g = I.made[c]
        ensure(I, f"{c}: sum of counts, mean of others", kind_of(I, f) == ("sum" if c in CCS else "mean"))
        ensure(I, f"{c}: one window per period", (g is by) if isinstance(by, SymStr) else g == "all")
    v = r.cells
    ensure(I, "several times: resolved", isinstance(v[CCS[0]], Opaque) and v[CCS[0]].of is several)
    ensure(I, "one time: as it is", v[CCS[1]] is single)
    ensure(I, "nothing: as it is", v[CCS[2]] is None)
    for c in OTHERS:
        c = I.hashable(c)
        ensure(I, f"{c}: as it is", isinstance(v[c], Num) and same(v[c], I.windows[c]))
    ensure(I, "frame untouched", {I.hashable(c) for c in t.names} == want and t.index is index)


# ---------------------------------------------------------------- saved residuals
RF = "py_fatigue.cycle_count.rainflow:rainflow"
KINDS = ["count", "nothing", "count without residuals"]


class Said:
    """What is to be saved, by recursion over the windows: nothing before the first, and each window that is a count
    with residuals puts what is left of them behind what there is, its positions running on from the last one"""

    def __init__(self, col):
        fn = lambda x, *a: z3.Function(f"{x} {col}", *a)
        self.left, self.at, self.of = fn("left", IS, IS), fn("left_at", IS, IS, IS), fn("left_of", IS, IS, R)
        self.len, self.idx, self.res = fn("len", IS, IS), fn("idx", IS, IS, IS), fn("res", IS, IS, R)

    def next(self, I, k, counted):
        """the definition for window k"""
        q = z3.Int(I.ctx.fresh_name("q"))
        n = self.len(k)
        m = z3.If(zb(counted), self.left(k), z3.IntVal(0))
        last = z3.If(n > 0, self.idx(k, n - 1), z3.IntVal(0))
        I.ctx.assume(self.len(k + 1) == n + m)
        I.ctx.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n + m), z3.And(
            self.idx(k + 1, q) == z3.If(q < n, self.idx(k, q), self.at(k, q - n) + last),
            self.res(k + 1, q) == z3.If(q < n, self.res(k, q), self.of(k, q - n))))))

    def matches(self, I, lists, k):
        """the lists hold what is to be saved of the first k windows"""
        k = zi(k)
        a, b = lists.item(I, "idx"), lists.item(I, "res")
        q = I.ctx.fresh("q", IS)
        g = z3.And(q >= 0, q < self.len(k))
        return [("as many positions as values", band(req(a.n, self.len(k)), req(b.n, self.len(k)))),
                ("positions", bimp(g, req(num(a.get(q)).v, self.idx(k, q)))),
                ("values", bimp(g, req(num(b.get(q)).v, self.res(k, q))))]


class Saved(Stub):
    """dictionary of dictionaries of lists, empty where nothing was put"""

    def __init__(self):
        self.parts = {}

    def item(self, I, key):
        return self.parts.setdefault(I.hashable(key), Lists())


class Lists(Stub):
    def __init__(self):
        self.lists = {}

    def item(self, I, key):
        return self.lists.setdefault(key, Arr(0, lambda i: num(0), "i" if key == "idx" else "f", "list"))


class Row(Stub):
    """window k: a count, nothing, or a count without residuals"""

    def __init__(self, I, k):
        self.k, self.cells = k, {}
        I.row = self

    def item(self, I, key):
        key = I.hashable(key)
        if key not in I.said:
            raise Unsupported("cell of another column")
        if key not in self.cells:
            kind = I.ctx.choose(3)
            n = length(I, I.ctx.fresh_name("residuals"))
            v = arr(I, I.ctx.fresh_name("residual"), n)
            o = None if kind == 1 else Obj(func(I, K), {"residuals_sequence": v if kind == 0 else None})
            self.cells[key] = o, v, v._get, kind == 0 and n > 0
        return self.cells[key][0]


class Rows(Stub):
    def __init__(self, n):
        self.n = n

    def seq(self, I):
        return Arr(self.n, lambda k: (Opaque(("window", k)), Row(I, zi(k))), "o", "list")


def left_over(I, b):
    """contract of calc_rainflow (proved for P04): of the residuals of a window something is left, with its positions"""
    d = b["data"]
    said, k = I.at
    o, v, g, _ = I.row.cells[said]
    n = v.n
    s = I.said[said]
    if not isinstance(d, Arr):
        raise Unsupported("count of something else")
    q, c = generic(I, n)
    require(I, "residuals of the window", band(req(d.n, n), bimp(c, same(num(d.get(q)), num(g(q))))))
    require(I, "all results asked for", I.truth(b["extended_output"]))
    m = s.left(k)
    I.ctx.assume(m >= 1)
    return (Opaque("cycles"), Arr(m, lambda i: Num(s.of(k, zi(i)), isint=False), "f"),
            Arr(m, lambda i: Num(s.at(k, zi(i)), isint=True), "i"))


def which(I, env, st):
    """this is the loop over the windows, for one column"""
    col, saved = env.vars.get("col"), env.vars.get("residuals_sequence")
    if not I.rows_asked or not isinstance(saved, Saved) or col not in I.said:
        raise Unsupported("another loop over the windows")
    I.rows_asked = False
    st["said"], st["lists"] = I.said[col], saved.item(I, col)
    st["col"], st["k"] = col, None


def some_windows(I, env, st):
    s, k = st["said"], I.ctx.fresh("done", IS)
    I.ctx.assume(z3.And(k >= 0, s.len(k) >= 0))
    st["k"] = k
    st["lists"].lists = {"idx": Arr(s.len(k), lambda q: Num(s.idx(k, zi(q)), isint=True), "i", "list"),
                         "res": Arr(s.len(k), lambda q: Num(s.res(k, zi(q)), isint=False), "f", "list")}


def lists_so_far(I, env, k, st):
    return st["said"].matches(I, st["lists"], k)


def this_one(I, env, k, st):
    I.ctx.assume(k == st["k"])
    I.at = st["col"], k


def define(I, env, k, st):
    I.row.item(I, st["col"])
    st["said"].next(I, k, I.row.cells[st["col"]][3])


def all_done(I, env, k, st, broke):
    I.ctx.assume(k == st["k"])


WINDOWS = {(A + "aggregate_cc", 1): LoopSpec(lists_so_far, ghost_init=which, ghost_havoc=some_windows, pre_body=this_one,
                                             ghost_step=define, at_exit=all_done, of=2)}


@task("P31", [A + "aggregate_cc"], contracts={**SOLVE, **SUM, RF: Contract(left_over)}, loops=WINDOWS,
      overrides={A + "defaultdict": Builtin("defaultdict", lambda I, a, k: Saved())})
def saved_residuals(I):
    n = length(I, "windows")
    t = a_table(I, Index(True))
    window(I)
    I.said = {c: Said(c) for c in CCS}
    I.rows, I.rows_asked = Rows(n), False
    for s in I.said.values():
        I.ctx.assume(s.len(0) == 0)
    r = callf(I, A + "aggregate_cc", t, "D", True)
    if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[1], Saved):
        raise Unsupported("a table and the residuals are expected")
    ensure(I, "only of counts", set(r[1].parts) <= set(CCS))
    for c, s in I.said.items():
        for what, g in s.matches(I, r[1].item(I, c), n):
            ensure(I, f"{c}: {what}", g)


@task("P31", [A + "aggregate_cc"])
def wrong_frames(I):
    bad = [("a number", num(1), "TypeError"), ("an array", arr(I, "a", length(I, "n", 1)), "TypeError"),
           ("a list", PyList([]), "TypeError"), ("an index without times", a_table(I, Index(False)), "TypeError"),
           ("decreasing times", a_table(I, Index(True, increasing=False)), "ValueError"),
           ("repeated times", a_table(I, Index(True, unique=False)), "ValueError"),
           ("times of another kind", a_table(I, Index(True, kind="mixed")), "ValueError")]
    what, t, e = bad[I.ctx.choose(len(bad))]
    window(I)
    expect_exc(I, what, e, lambda: callf(I, A + "aggregate_cc", t, "D"))


# ---------------------------------------------------------------- damage
def damage_of(I, bound):
    """contract of get_pm (proved for P15): one damage per cycle, of this count and this curve"""
    o, c = bound["cycle_count"], bound["sn_curve"]
    n = o.fields["count_cycle"].n
    for x in I.damages:
        if x[0] is o and x[1] is c:
            return Arr(n, lambda i: Num(x[3](zi(i)), isint=False), "f")
    f = I.ctx.fresh_fun("damage", IS, R)
    a = Arr(n, lambda i: Num(f(zi(i)), isint=False), "f")
    I.damages.append((o, c, n, f))
    return a


class Stack(Stub):
    """tables one below the other"""
    types = {"DataFrame"}

    def __init__(self, parts, indexed=None):
        self.parts, self.indexed = parts, indexed
        self.rows = Stub()

    def attr(self, I, name):
        if name == "index":
            return self.rows
        if name == "set_index":
            return meth(self.set_index)
        return super().attr(I, name)

    def set_index(self, I, a, k):
        if len(a) != 1 or k or not isinstance(a[0], PyList):
            raise Unsupported("set_index")
        xs = a[0].xs
        if len(xs) != 2 or not isinstance(xs[0], str) or xs[1] is not self.rows:
            raise Unsupported("set_index")
        return Stack(self.parts, xs[0])


def join(I, xs):
    out = []
    for x in xs:
        if isinstance(x, Stack) and x.indexed is None:
            out += x.parts
        elif isinstance(x, Table):
            out.append(Table(x.names, x.cells, x.index))
        else:
            raise Unsupported("concat of other things")
    return Stack(out)


def curves(I, n):
    cls = func(I, SN)
    return [Obj(cls, {"name": f"curve {k}", "_AbstractSNCurve__slope": pos_arr(I, f"slope{k}", length(I, f"m{k}", 1))})
            for k in range(n)]


def total(I, n, f):
    return NP.sum_closure(I, n, lambda i: Num(f(zi(i)), isint=False), "damage")


def damages(I, n, form):
    I.empty_frame, I.join_frames, I.damages = lambda: Stack([]), join, []
    t = a_table(I, Stub())
    several, single = window(I)
    t.cells = {I.hashable(c): I.windows[I.hashable(c)] for c in t.names}
    cs = curves(I, n)
    if form == "one":
        arg = cs[0]
    elif form == "list":
        arg = PyList(cs)
    else:
        arg = PyDict({f"key {k}": c for k, c in enumerate(cs)})
    r = callf(I, A + "calc_aggregated_damage", t, arg)
    if not isinstance(r, Stack):
        raise Unsupported("a table is expected")
    ensure(I, "a part per curve", len(r.parts) == n)
    for c, p in zip(cs, r.parts):
        ensure(I, "columns", {I.hashable(x) for x in p.names} == set(CCS) | {r.indexed})
        for q, o in zip(CCS, (several, single)):
            d = [x for x in I.damages if x[0] is o and x[1] is c]
            ensure(I, "damage asked for", len(d) == 1)
            ensure_num(I, "sum of the damages", p.cells[q], total(I, *d[0][2:]))
        ensure_num(I, "nothing counted", p.cells[CCS[2]], num(0))


@task("P31", [A + "calc_aggregated_damage"], contracts={DAMAGE: Contract(damage_of)})
def damage_of_one_curve(I):
    damages(I, 1, ["one", "list", "dict"][I.ctx.choose(3)])


@task("P31", [A + "calc_aggregated_damage"], contracts={DAMAGE: Contract(damage_of)})
def damage_of_several_curves(I):
    damages(I, 2 + I.ctx.choose(2), ["list", "dict"][I.ctx.choose(2)])


@task("P31", [A + "calc_aggregated_damage"])
def wrong_curves(I):
    I.empty_frame, I.join_frames = lambda: Stack([]), join
    t = a_table(I, Stub())
    window(I)
    bad = [[num(1)], curves(I, 1) + [num(2)], [None] + curves(I, 1)][I.ctx.choose(3)]
    expect_exc(I, "not all are curves", "TypeError", lambda: callf(I, A + "calc_aggregated_damage", t, PyList(bad)))
