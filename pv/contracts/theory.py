"""Lemmas of the array theory itself, used as schemas by the model of numpy (NP.family_lemmas, Flat.within): filters
with equal masks keep the same positions, blocks of equal lengths lie at the same places, empty blocks may be dropped."""
from ..lib import *

FILTERS = ["P04", "P07", "P09", "P25", "P26", "P27"]
BLOCKS = ["P22", "P24", "P25", "P26", "P27"]


def a_filter(I, name, n):
    m = z3.Function(name, IS, B)
    return NP.make_filter(I, Arr(n, lambda k: m(zi(k)), "b", "nd")), m


def some_blocks(I, name, n):
    c = z3.Function(name, IS, IS)
    forall(I, n, lambda k: rle(0, c(zi(k))))
    return NP.Flat(I, n, lambda k: c(zi(k)))


def at(I, *ks):
    for k in ks:
        I.ctx.instantiate(k)


def filters_alike(I, a, b, n):
    """the element j of a is the element j of b"""
    induct(I, "same positions", a.m, lambda j: bimp(rlt(j, a.m), band(rlt(j, b.m), req(a.idx(j), b.idx(j)))))


@task(FILTERS, [])
def equal_masks(I):
    n = length(I, "n")
    (a, ma), (b, mb) = a_filter(I, "first_mask", n), a_filter(I, "second_mask", n)
    forall(I, n, lambda k: ma(zi(k)) == mb(zi(k)))
    filters_alike(I, a, b, n)
    filters_alike(I, b, a, n)
    j, c = generic(I, a.m, "j")
    at(I, j, a.m, b.m)
    ensure(I, "as many positions", req(a.m, b.m))
    ensure(I, "same positions", bimp(c, req(a.idx(j), b.idx(j))))


def belongs(I, f, n, k, p):
    """a position between the start of block k and the next one belongs to block k"""
    st = f.start
    pre(I, z3.And(k >= 0, k < zi(n), st(k) <= p, p < st(k + 1)))
    induct(I, "later blocks start later", n, lambda j: bimp(rle(k + 1, j), st(k + 1) <= st(zi(j))))
    induct(I, "earlier blocks start earlier", k, lambda d: bimp(rle(d, k), st(k - zi(d)) <= st(k)))
    o = f.owner(p)
    at(I, o, o + 1, k - o, k - o - 1)
    ensure(I, "its block", o == k)


@task(BLOCKS, [])
def position_in_block(I):
    n = length(I, "n")
    f = some_blocks(I, "size_of", n)
    belongs(I, f, n, z3.Int("k"), z3.Int("p"))


@task(BLOCKS, [])
def equal_blocks(I):
    n = length(I, "n")
    a, b = some_blocks(I, "first_size", n), some_blocks(I, "second_size", n)
    forall(I, n, lambda k: a.cnt(k) == b.cnt(k))
    induct(I, "same starts", n, lambda k: a.start(zi(k)) == b.start(zi(k)))
    ensure(I, "same length", a.total == b.total)
    p, c = generic(I, a.total, "p")
    o = a.owner(p)
    at(I, o, o + 1)
    I.ctx.assume(b.within(o, p))
    ensure(I, "same block", bimp(c, b.owner(p) == o))


@task(BLOCKS, [])
def empty_blocks_dropped(I):
    n = length(I, "n")
    f, m = a_filter(I, "mask", n)
    a = some_blocks(I, "size_of", n)
    b = some_blocks(I, "size_of_kept", f.m)
    forall(I, f.m, lambda d: b.cnt(d) == a.cnt(f.idx(d)))
    forall(I, n, lambda k: bor(m(zi(k)), a.cnt(k) == 0))
    # the number of positions kept before position i
    r = z3.Function("kept_before", IS, IS)
    i = z3.Int("i")
    I.ctx.assume(z3.And(r(0) == 0, z3.ForAll([i], r(i + 1) == r(i) + z3.If(m(i), 1, 0), patterns=[r(i)])))
    induct(I, "rank", n, lambda i: z3.And(
        r(zi(i)) >= 0, r(zi(i)) <= f.m, z3.Implies(r(zi(i)) > 0, f.idx(r(zi(i)) - 1) < zi(i)),
        z3.Implies(r(zi(i)) < f.m, f.idx(r(zi(i))) >= zi(i))))
    induct(I, "starts", n, lambda i: a.start(zi(i)) == b.start(r(zi(i))))
    at(I, zi(n))
    ensure(I, "same length", a.total == b.total)
    k, c = generic(I, f.m, "k")
    at(I, k, f.idx(k))
    ensure(I, "rank of a position kept", bimp(c, r(f.idx(k)) == k))
    I.ctx.assume(zb(bimp(c, r(f.idx(k)) == k)))
    ensure(I, "starts of the blocks kept", bimp(c, a.start(f.idx(k)) == b.start(k)))
    p, c = generic(I, a.total, "p")
    o = a.owner(p)
    q = f.inv(o)
    at(I, o, o + 1, q, q + 1)
    I.ctx.assume(b.within(q, p))
    ensure(I, "kept", bimp(c, z3.And(m(o), f.idx(q) == o, r(o) == q, r(o + 1) == q + 1)))
    I.ctx.assume(zb(bimp(c, z3.And(m(o), f.idx(q) == o, r(o) == q, r(o + 1) == q + 1))))
    ensure(I, "same block", bimp(c, b.owner(p) == q))
