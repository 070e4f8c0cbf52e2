"""P28: equality of cycle counts and of nested structures."""
from ..lib import *
from .cycle import a_count, some_times, K, ARRAYS

U = "py_fatigue.utils:"
EQ = z3.Function("alike", IS, IS, B)


def field_eq(I, v, w):
    """(condition, condition on the elements) for two fields"""
    if isinstance(v, Arr) and isinstance(w, Arr):
        return req(v.n, w.n), (v, w)
    if isinstance(v, Num) and isinstance(w, Num):
        return eq(v, w), None
    if isinstance(v, (bool, z3.BoolRef)) and isinstance(w, (bool, z3.BoolRef)):
        return zb(v) == zb(w), None
    if isinstance(v, Arr) or isinstance(w, Arr):
        return False, None
    return NP.eq_atoms(v, w), None


def two_counts(I, ta=False, tb=False, ra=True, rb=True):
    a, _ = a_count(I, "a_", residuals=ra, times=some_times(I, "a_") if ta else None)
    b, _ = a_count(I, "b_", residuals=rb, times=some_times(I, "b_") if tb else None)
    eqs = {k: field_eq(I, a.fields[k], b.fields[k]) for k in a.fields}
    return a, b, eqs


def decides(I, *kw):
    """comparison is true exactly when all fields agree"""
    a, b, eqs = two_counts(I, *kw)
    r = I.truth(NP.compare(I, "Eq", a, b))
    for k, (c, arrs) in eqs.items():
        ensure(I, f"equal only if {k} is", bimp(r, c))
        if arrs is not None:
            v, w = arrs
            q, g = generic(I, v.n)
            ensure(I, f"equal only if {k} is, element by element", bimp(band(r, g), eq(num(v.get(q)), num(w.get(q)))))


def recognises(I, *kw):
    a, b, eqs = two_counts(I, *kw)
    for k, (c, arrs) in eqs.items():
        pre(I, c)
        if arrs is not None:
            v, w = arrs
            forall(I, v.n, lambda q: eq(num(v.get(q)), num(w.get(q))))
    ensure(I, "equal contents", I.truth(NP.compare(I, "Eq", a, b)))


FNS = [K + ".__eq__", U + "compare"]


@task("P28", FNS)
def equal_counts(I):
    recognises(I)


@task("P28", FNS)
def equal_counts_with_times(I):
    recognises(I, True, True)


@task("P28", FNS)
def equal_counts_without_residuals(I):
    recognises(I, False, False, False, False)


@task("P28", FNS)
def different_counts(I):
    decides(I)


@task("P28", FNS)
def different_counts_with_times(I):
    decides(I, True, True)


@task("P28", FNS)
def different_counts_times_missing(I):
    decides(I, True, False, True, False)


@task("P28", FNS)
def different_counts_residuals_missing(I):
    decides(I, False, True, False, True)


@task("P28", [K + ".__eq__"])
def other_types(I):
    a, _ = a_count(I)
    for what, x in (("number", num(1)), ("nothing", None), ("text", "x"), ("dictionary", PyDict({})),
                    ("list", PyList([a]))):
        ensure(I, what, bnot(I.truth(NP.compare(I, "Eq", a, x))))


# ---------------------------------------------------------------- nested structures, by structural induction
def on_parts(I, b):
    """comparison of two parts: what is to be shown for the whole"""
    x, y = b["a"], b["b"]
    if isinstance(x, Opaque) and isinstance(y, Opaque) and isinstance(x.key, z3.ExprRef):
        return EQ(x.key, y.key)
    return I.call_func(func(I, U + "compare"), [x, y], {}, force=True)


PARTS = {U + "compare": Contract(on_parts)}


def whole(I, x, y):
    return I.truth(I.call_func(func(I, U + "compare"), [x, y], {}, force=True))


def parts(I, name, n, kind="list"):
    f = z3.Function(name, IS, IS)
    return Arr(n, lambda i: Opaque(f(zi(i))), "o", kind), f


@task("P28", [U + "compare"], contracts=PARTS)
def sequences(I):
    """lists of any parts: equal lengths and equal parts"""
    n, m = length(I, "n"), length(I, "m")
    (x, f), (y, g) = parts(I, "a", n), parts(I, "b", m)
    r = whole(I, x, y)
    ensure(I, "equal only if the lengths are", bimp(r, req(n, m)))
    k, c = generic(I, n)
    ensure(I, "equal only if the parts are", bimp(band(r, c), EQ(f(k), g(k))))


@task("P28", [U + "compare"], contracts=PARTS)
def equal_sequences(I):
    n, m = length(I, "n"), length(I, "m")
    (x, f), (y, g) = parts(I, "a", n), parts(I, "b", m)
    pre(I, req(n, m))
    forall(I, n, lambda k: EQ(f(zi(k)), g(zi(k))))
    ensure(I, "equal parts", whole(I, x, y))


@task("P28", [U + "compare"], contracts=PARTS)
def dictionaries(I):
    """dictionaries of any parts: the same keys and equal parts"""
    v = [Opaque(z3.Int(f"part{k}")) for k in range(6)]
    e = lambda i, j: EQ(v[i].key, v[j].key)
    for what, x, y, want in (
            ("same keys", {"p": v[0], "q": v[1]}, {"p": v[2], "q": v[3]}, band(e(0, 2), e(1, 3))),
            ("keys in another order", {"p": v[0], "q": v[1]}, {"q": v[3], "p": v[2]}, band(e(0, 2), e(1, 3))),
            ("another key", {"p": v[0], "q": v[1]}, {"p": v[2], "r": v[3]}, False),
            ("a key more", {"p": v[0]}, {"p": v[2], "r": v[3]}, False),
            ("a key less", {"p": v[0], "r": v[1]}, {"p": v[2]}, False),
            ("empty", {}, {}, True), ("one empty", {}, {"p": v[0]}, False)):
        ensure(I, what, zb(whole(I, PyDict(dict(x)), PyDict(dict(y)))) == zb(want))


@task("P28", [U + "compare"])
def arrays(I):
    n, m = length(I, "n"), length(I, "m")
    x, y = arr(I, "a", n), arr(I, "b", m)
    r = whole(I, x, y)
    ensure(I, "equal only if the lengths are", bimp(r, req(n, m)))
    k, c = generic(I, n)
    ensure(I, "equal only if the elements are", bimp(band(r, c), eq(num(x.get(k)), num(y.get(k)))))


@task("P28", [U + "compare"])
def equal_arrays(I):
    n, m = length(I, "n"), length(I, "m")
    x, y = arr(I, "a", n), arr(I, "b", m)
    pre(I, req(n, m))
    forall(I, n, lambda k: eq(num(x.get(k)), num(y.get(k))))
    ensure(I, "equal elements", whole(I, x, y))


@task("P28", [U + "compare"])
def scalars(I):
    x, y = real(I, "x"), real(I, "y")
    ensure(I, "numbers", zb(whole(I, x, y)) == zb(eq(x, y)))
    i, j = integer(I, "i"), integer(I, "j")
    ensure(I, "integers", zb(whole(I, i, j)) == zb(eq(i, j)))
    s, t = SymStr(z3.String("s"), True), SymStr(z3.String("t"), True)
    ensure(I, "texts", zb(whole(I, s, t)) == zb(NP.eq_atoms(s, t)))
    b, c = boolean(I, "b"), boolean(I, "c")
    ensure(I, "truth values", zb(whole(I, b, c)) == (b == c))
    ensure(I, "nothing", whole(I, None, None))
    ensure(I, "nothing and a number", bnot(whole(I, None, x)))
    ensure(I, "a number and nothing", bnot(whole(I, x, None)))
    a = arr(I, "a", length(I, "n"))
    ensure(I, "nothing and an array", bnot(whole(I, None, a)))
    ensure(I, "a number and an array", bnot(whole(I, x, a)))
    ensure(I, "an array and nothing", bnot(whole(I, a, None)))
    ensure(I, "an array and a number", bnot(whole(I, a, x)))
