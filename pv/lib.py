"""Helpers for writing contracts."""
import z3
from .terms import *
from . import terms as T
from .values import *
from .ctx import *
from .task import Task, func
from . import npmodel as NP
from .interp import LoopSpec
from . import loops as LP

IS = z3.IntSort()
TASKS = []


def task(prop, functions=(), name=None, **kw):
    """register a verification task for a property (or several)"""
    def d(f):
        props = [prop] if isinstance(prop, str) else list(prop)
        TASKS.append(Task(props, name or f.__name__, f, functions, **kw))
        return f
    return d


# ---------------------------------------------------------------- symbolic inputs
def inp(I, name, v):
    I.inputs[name] = v
    return v


def real(I, name):
    return inp(I, name, Num(z3.Real(name), isint=False))


def integer(I, name):
    return inp(I, name, Num(z3.Int(name), isint=True))


def boolean(I, name):
    return inp(I, name, z3.Bool(name))


def positive(I, name):
    """a positive real, written EXP(log) so that powers stay simple"""
    return inp(I, name, Num(EXP(z3.Real("ln_" + name)), isint=False))


def length(I, name, lo=0):
    n = z3.Int(name)
    I.ctx.assume(n >= lo)
    I.inputs[name] = Num(n, isint=True)
    return n


def arr(I, name, n, dtype="f", kind="nd"):
    if dtype == "b":
        f = z3.Function(name, IS, B)
        return inp(I, name, Arr(n, lambda i: f(zi(i)), "b", kind))
    f = z3.Function(name, IS, IS if dtype == "i" else R)
    return inp(I, name, Arr(n, lambda i: Num(f(zi(i)), isint=dtype == "i"), dtype, kind))


def pos_arr(I, name, n, kind="nd"):
    f = z3.Function("ln_" + name, IS, R)
    return inp(I, name, Arr(n, lambda i: Num(EXP(f(zi(i))), isint=False), "f", kind))


def nonneg_arr(I, name, n, kind="nd"):
    """each element is zero or positive"""
    f = z3.Function("ln_" + name, IS, R)
    z = z3.Function("zero_" + name, IS, B)
    return inp(I, name, Arr(n, lambda i: Num(z3.If(z(zi(i)), z3.RealVal(0), EXP(f(zi(i)))), isint=False),
                            "f", kind))


def forall(I, n, f, lo=0):
    """assume f(k) for lo <= k < n"""
    k = z3.Int(I.ctx.fresh_name("k"))
    b = f(k)
    I.ctx.assume(z3.ForAll([k], zb(bimp(band(rle(lo, k), rlt(k, n)), b))))
    I.ctx.universal(lo, n, f)


def pre(I, c):
    if c is False:
        raise PathEnd()
    I.ctx.assume(zb(c)) if c is not True else None


# ---------------------------------------------------------------- postconditions
def ensure(I, name, c):
    I.ctx.obligation(name, c)


def generic(I, n, name="q"):
    """an arbitrary index below n; returns (k, guard)"""
    k = I.ctx.fresh(name, IS)
    I.ctx.instantiate(k)
    return k, band(k >= 0, rlt(k, n))


def ensure_all(I, name, n, f, ground=()):
    """f(k) for every 0 <= k < n"""
    if isinstance(n, int) and n <= 32:
        for k in range(n):
            I.ctx.obligation(f"{name}[{k}]", f(k))
        return
    k, g = generic(I, n)
    for h in ground:
        h(k)
    I.ctx.obligation(name, bimp(g, f(k)))


def as1d(I, v):
    if isinstance(v, (PyList, tuple)):
        return NP.as_arr(I, v)
    if isinstance(v, SeqV):
        return I.list_arr(v.n, v.get)
    if isinstance(v, Arr):
        return v
    raise Bad(f"{type(v).__name__} where an array is expected")


class Bad(Exception):
    pass


def ensure_arr(I, name, v, n, f):
    """v is a 1-D array of length n with elements f(k)"""
    if not isinstance(v, (Arr, PyList, SeqV)):
        I.ctx.obligation(f"{name}:is-array", False)
        return
    a = as1d(I, v)
    I.ctx.obligation(f"{name}:length", req(a.n, n))
    ensure_all(I, f"{name}:elements", n, lambda k: same(num(a.get(k)), num(f(k))))


def unchanged(I, name, a, n, f):
    """an input array still has its contents"""
    I.ctx.obligation(f"{name}:length-unchanged", req(a.n, n))
    ensure_all(I, f"{name}:unchanged", n, lambda k: same(num(a.get(k)), num(f(k))))


def ensure_num(I, name, v, w):
    if not isinstance(v, (Num, bool, z3.BoolRef)):
        I.ctx.obligation(f"{name}:is-number", False)
        return
    I.ctx.obligation(name, same(num(v), num(w)))


def expect_exc(I, name, etype, thunk):
    try:
        thunk()
    except PyExc as e:
        I.ctx.obligation(f"{name}:{etype}", exc_matches(e.etype, etype))
        return
    I.ctx.obligation(f"{name}:{etype}", False)


def callf(I, key, *args, **kwargs):
    f = func(I, key)
    if isinstance(f, (StaticV,)):
        f = f.fn
    if isinstance(f, ClassMethodV):
        mod, q = key.split(":")
        cls = func(I, mod + ":" + q.split(".")[0])
        f = BoundV(f.fn, cls)
    return I.call(f, list(args), kwargs)


# ---------------------------------------------------------------- contracts of callees
class Contract:
    """`apply(I, bound)` checks the precondition and returns a fresh result with the postcondition assumed"""

    def __init__(self, fn):
        self.fn = fn

    def apply(self, I, f, bound, args, kwargs):
        return self.fn(I, bound)


def require(I, name, c):
    """precondition of a callee, to be proved by the caller"""
    I.ctx.obligation(f"pre:{name}@{NP.where(I)}", c)


def as_nd(I, v):
    if isinstance(v, Arr):
        return v
    raise Unsupported(f"array expected, got {type(v).__name__}")


def fresh_arr(I, name, n, isint=False):
    f = I.ctx.fresh_fun(name, IS, IS if isint else R)
    return Arr(n, lambda i: Num(f(zi(i)), isint=isint), "i" if isint else "f", "nd")


def all_k(I, n, f, lo=0, patterns=None):
    """the formula: f(k) for all lo <= k < n"""
    k = z3.Int(I.ctx.fresh_name("k"))
    b = f(k)
    if isinstance(b, bool):
        return True if b else rle(n, lo)
    body = zb(bimp(band(rle(lo, k), rlt(k, n)), b))
    if patterns:
        return z3.ForAll([k], body, patterns=patterns(k))
    return z3.ForAll([k], body)


def some_k(I, n, f, lo=0):
    k = z3.Int(I.ctx.fresh_name("k"))
    b = band(rle(lo, k), rlt(k, n), f(k))
    return b if isinstance(b, bool) else z3.Exists([k], b)


def nothing(name="nothing"):
    return Builtin(name, lambda I, a, k: None)


def lemma(I, name, n, f, lo=0, patterns=None):
    """prove f(k) for an arbitrary lo <= k < n, then use it for all"""
    k, _ = generic(I, n, "lm")
    g = band(rle(lo, k), rlt(k, n))
    I.ctx.obligation("lemma:" + name, bimp(g, f(k)))
    a = all_k(I, n, f, lo, patterns)
    if a is not True:
        I.ctx.assume(a)


# ---------------------------------------------------------------- recurrences
class SpecRec:
    """a sequence X(0) = init, X(k+1) = step(k, X(k)) of the specification"""

    def __init__(self, I, name, n, init, step, inv=None):
        f = z3.Function(I.ctx.fresh_name(name), IS, R)
        self.n, self.step_of = n, step
        self.at = lambda k: Num(f(zi(k)), isint=False)
        I.ctx.assume(zb(req(self.at(0).v, init)))
        if inv is not None:
            d, g = generic(I, n, "d")
            I.ctx.obligation(f"lemma {name}: start", inv(self.at(0).v))
            I.ctx.assume(zb(self.step(d)))
            I.ctx.obligation(f"lemma {name}: step", bimp(band(g, inv(self.at(d).v)), inv(self.at(radd(d, 1)).v)))
            I.ctx.assume(all_k(I, radd(n, 1), lambda k: inv(self.at(k).v)))
        self.inv = inv

    def step(self, k):
        return bimp(band(rle(0, k), rlt(k, self.n)), req(self.at(radd(k, 1)).v, self.step_of(k, self.at(k).v)))


def agree(I, spec, at):
    """every recurrence of the code agrees with the sequence `spec` at index `at`, or there is a
    first step at which the two part (induction, as a ground formula)"""
    for r in I.ctx.recs:
        x = r.at(at)
        if not isinstance(x, Num):
            continue
        d = I.ctx.fresh("part", IS)
        I.ctx.instantiate(d)
        D = spec.at(d)
        nxt = spec.step_of(d, D.v)
        parts = band(d >= 0, rlt(d, at), spec.inv(D.v) if spec.inv else True,
                     bnot(same(r.next(d, D), Num(nxt, isint=False))))
        if spec.inv is not None:
            I.ctx.assume(zb(bimp(band(rle(0, at), rle(at, spec.n)), spec.inv(spec.at(at).v))))
        e = rsub(at, 1)
        I.ctx.assume(zb(bimp(rle(0, e), band(r.step(e), spec.step(e)))))
        I.ctx.assume(zb(bimp(band(rle(0, at), rle(at, r.n), rle(at, spec.n), same(r.at(0), spec.at(0))),
                             bor(same(x, spec.at(at)), parts))))


def simp_num(v):
    s = lambda x: T._unz(z3.simplify(x)) if isinstance(x, z3.ExprRef) else x
    b = lambda x: simp(x) if not isinstance(x, z3.ExprRef) else (lambda y: True if z3.is_true(y) else
                                                                 False if z3.is_false(y) else y)(z3.simplify(x))
    return Num(s(v.v), b(v.pi), b(v.ni), b(v.na), v.isint)


def bins_at(I, k, *qs):
    """use the binning of element k at the edges qs"""
    for f, _ in I.ctx.digs:
        for q in qs:
            c = f(k, q)
            if not isinstance(c, bool):
                I.ctx.assume(zb(c))


def name_divisions(I, v):
    """the number v with its integer quotients and remainders named: a = b*q + r, 0 <= r < b"""
    if not isinstance(v.v, z3.ExprRef):
        return v
    pairs, seen = [], {}

    def walk(t):
        for c in t.children():
            walk(c)
        k = t.decl().kind() if z3.is_app(t) else None
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)):
            a, b = t.children()
            key = (a.get_id(), b.get_id())
            if key not in seen:
                q, r, d = (I.ctx.fresh(x, IS) for x in ("quot", "rem", "divisor"))
                seen[key] = (a, b, q, r)
                I.ctx.assume(z3.And(d == b, z3.Implies(d > 0, z3.And(
                    a == d * q + r, zr(a) == zr(d) * zr(q) + zr(r), r >= 0, r < d, q == a / b, r == a % b))))
                pairs.extend([(a / b, q), (a % b, r), (b, d)])
    walk(v.v)
    w = v.v
    for p in pairs:
        w = z3.substitute(w, p)
    return Num(w, v.pi, v.ni, v.na, v.isint)


# ---------------------------------------------------------------- families of the specification
def kept(I, n, mask):
    """the increasing list of the positions k < n with mask(k)"""
    f = NP.make_filter(I, Arr(n, mask, "b"))
    I.ctx.ghosts.append(f)
    return f


def blocks(I, n, cnt):
    """n blocks one after the other, block k of length cnt(k)"""
    f = NP.flat_of(I, n, cnt)
    I.ctx.ghosts.append(f)
    return f


def induct(I, name, n, f, lo=0):
    """prove f(k) for lo <= k <= n by induction, then use it"""
    I.ctx.obligation(f"lemma:{name}: start", bimp(rle(lo, n), f(lo)))
    k = I.ctx.fresh("ind", IS)
    I.ctx.instantiate(k)
    I.ctx.obligation(f"lemma:{name}: step", bimp(band(rle(lo, k), rlt(k, n), f(k)), f(k + 1)))
    all_ = all_k(I, radd(n, 1), f, lo)
    if all_ is not True:
        I.ctx.assume(all_)
        I.ctx.universal(lo, radd(n, 1), f)
