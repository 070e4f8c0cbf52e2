"""Models of the builtins and of the numpy / pandas operations the code uses.

These are the assumed contracts on dependencies; `ASSUMED` lists them.
"""
import functools
import z3
from .terms import *
from .terms import _unz, _pos, _neg, _zero, _norm, _coerce, _is_app
from . import terms as T
from .values import *
from .values import _unz_
from .values import _unz_
from .ctx import *

RNDI = z3.Function("RNDI", R, I)      # round half to even, to an integer


# ---------------------------------------------------------------- tracking (loop summaries)
def note(I, kind, arr, idx=None, val=None):
    tr = getattr(I, "track", None)
    if tr is not None:
        tr.append((kind, arr, idx, val))


def note_write(I, arr, idx, val):
    note(I, "w", arr, idx, val)


def snap(I, a):
    """the contents of an array now, as a closure"""
    note(I, "rall", a)
    return raw_snap(a)


def raw_snap(a):
    vc = getattr(a, "vcheck", None)
    if vc is not None:
        vc()
    items, g = a.items, a._get

    def get(i):
        if items is not None and isinstance(i, int) and 0 <= i < len(items):
            return items[i]
        return g(i)
    return get


def bump(a):
    a.version = getattr(a, "version", 0) + 1


def mkview(base, n, get, dtype=None, kind=None, items=None):
    v = Arr(n, get, dtype or base.dtype, kind or base.kind, items)
    v0 = getattr(base, "version", 0)

    def vcheck():
        if getattr(base, "version", 0) != v0:
            raise Unsupported("a view is read after its base changed")
    v.vcheck = vcheck
    v.base = base
    return v


def aget(I, a, i):
    """read element i (in bounds) of an array"""
    vc = getattr(a, "vcheck", None)
    if vc is not None:
        vc()
    note(I, "r", a, i)
    return a.get(i)


# ---------------------------------------------------------------- helpers
def is_scalar(v):
    return isinstance(v, (Num, bool, z3.BoolRef))


def as_arr(I, v, kind=None):
    if isinstance(v, Arr):
        return v
    if isinstance(v, PyList):
        xs = v.xs
        if xs and not all(is_scalar(x) for x in xs):
            return to_mat(I, xs)
        return const_arr(xs, kind or "nd")
    if isinstance(v, tuple):
        if v and not all(is_scalar(x) for x in v):
            return to_mat(I, list(v))
        return const_arr(list(v), kind or "nd")
    if isinstance(v, SeqV):
        return Arr(v.n, v.get, "o", "list")
    if isinstance(v, RangeV):
        s = I.to_seq(v)
        return Arr(s.n, s.get, "i", kind or "nd")
    if is_scalar(v):
        return const_arr([v], kind or "nd")
    raise Unsupported(f"array from {type(v).__name__}")


def to_mat(I, rows):
    """2-D array from a list of rows"""
    ars = []
    for r in rows:
        if isinstance(r, (Arr, PyList, tuple)):
            ars.append(as_arr(I, r))
        else:
            raise Unsupported("array of mixed elements")
    if any(not isinstance(a, Arr) for a in ars):
        raise Unsupported("3-D array")
    m = ars[0].n
    for a in ars[1:]:
        if not (isc(m) and isc(a.n) and m == a.n) and not I.same_len(m, a.n):
            raise Unsupported("ragged array")
    sn = [snap(I, a) for a in ars]

    def get(i, j):
        if isinstance(i, int):
            return sn[i](j)
        r = sn[-1](j)
        for k in range(len(sn) - 2, -1, -1):
            r = merge_val(zi(i) == k, sn[k](j), r)
        return r
    dt = "f" if any(a.dtype == "f" for a in ars) else ars[0].dtype
    return Mat(len(ars), m, get, dt)


def same_length(I, ars):
    """common length under numpy broadcasting of 1-D arrays; returns n and index adapters"""
    n = None
    for a in ars:
        if isc(a.n) and a.n == 1:
            continue
        n = a.n if n is None else n
    if n is None:
        return 1
    for a in ars:
        if isc(a.n) and a.n == 1:
            continue
        if isc(n) and isc(a.n) and n == a.n:
            continue
        if not isc(n) and not isc(a.n) and n.eq(a.n):
            continue
        if I.ctx.branch(req(n, a.n)):
            if isc(a.n):
                n = a.n
            continue
        if I.ctx.branch(bor(req(n, 1), req(a.n, 1))):
            raise Unsupported("broadcast of a symbolic length-1 array")
        raise PyExc("ValueError", "operands could not be broadcast together")
    return n


def elementwise(I, f, args, dtype=None, kind=None):
    if any(isinstance(a, Obj) for a in args):
        raise Unsupported("arithmetic on an object")
    args = [as_arr(I, a) if isinstance(a, (PyList,)) else a for a in args]
    if any(isinstance(a, Mat) for a in args):
        return elementwise_mat(I, f, args, dtype)
    ars = [a for a in args if isinstance(a, Arr)]
    for a in args:
        if not isinstance(a, (Arr, Num, bool, z3.BoolRef)):
            if a is None or isinstance(a, (str, Opaque, SymStr, PyDict, tuple)):
                raise PyExc("TypeError", f"unsupported operand {type(a).__name__}")
            raise Unsupported(f"arithmetic on {type(a).__name__}")
    if not ars:
        return f(*args)
    n = same_length(I, ars)
    gets = []
    for a in args:
        if isinstance(a, Arr):
            s = snap(I, a)
            if isc(a.n) and a.n == 1 and not (isc(n) and n == 1):
                x = s(0)
                gets.append(lambda i, x=x: x)
            else:
                gets.append(s)
        else:
            gets.append(lambda i, x=a: x)

    def get(i):
        return f(*[g(i) for g in gets])
    items = None
    if isinstance(n, int) and n <= 64:
        items = [get(i) for i in range(n)]
    if kind is None:
        kind = "series" if any(a.kind == "series" for a in ars) else "nd"
    if dtype is None:
        p = items[0] if items else (get(z3.Int("probe")) if not isinstance(n, int) or n > 0 else num(0))
        dtype = "b" if isinstance(p, (bool, z3.BoolRef)) else ("i" if p.isint else "f")
    if items is not None:
        r = const_arr(items, kind, dtype)
        return r
    return Arr(n, get, dtype, kind)


def elementwise_mat(I, f, args, dtype=None):
    ms = [a for a in args if isinstance(a, Mat)]
    n, m = ms[0].n, ms[0].m
    for a in ms[1:]:
        if not (I.same_len(n, a.n) and I.same_len(m, a.m)):
            raise Unsupported("broadcast of matrices")
    gets = []
    for a in args:
        if isinstance(a, Mat):
            gets.append(a._get)
        elif isinstance(a, Arr):
            if not I.same_len(a.n, m):
                raise Unsupported("broadcast")
            s = snap(I, a)
            gets.append(lambda i, j, s=s: s(j))
        else:
            gets.append(lambda i, j, x=a: x)
    return Mat(n, m, lambda i, j: f(*[g(i, j) for g in gets]), dtype or "f")


def check_index(I, i, n, what="index"):
    """bounds of a scalar index; returns the effective index"""
    if isc(i) and isc(n):
        if not -n <= i < n:
            if I.njit[-1]:
                I.ctx.obligation(f"bounds@{I.line}", False)
                raise PathEnd()
            raise PyExc("IndexError", what)
        return i + n if i < 0 else i
    if isc(i) and i < 0:
        j = radd(n, i)
        I.ctx.obligation(f"bounds@{where(I)}", rle(0, j))
        return j
    if isc(i):
        I.ctx.obligation(f"bounds@{where(I)}", rlt(i, n))
        return i
    if I.ctx.implied(rle(0, i)):
        I.ctx.obligation(f"bounds@{where(I)}", rlt(i, n))
        return i
    I.ctx.obligation(f"bounds@{where(I)}", band(rle(rneg(n), i), rlt(i, n)))
    return rite(rlt(i, 0), radd(i, n), i)


def where(I):
    return f"{I.stack[-1].split(':')[-1] if I.stack else '?'}:{I.line}"


def idx_raw(v):
    if isinstance(v, (bool, z3.BoolRef)):
        return num(v).v
    if isinstance(v, Num):
        if isinstance(v.v, Fraction):
            raise PyExc("TypeError", "indices must be integers")
        if isc(v.v):
            if not v.isint:
                raise PyExc("IndexError", "only integers are valid indices")
            return int(v.v)
        if v.v.sort() == R:
            # an integer-valued float cast to an index
            if v.isint:
                return z3.ToInt(v.v)
            raise PyExc("IndexError", "only integers are valid indices")
        return v.v
    raise PyExc("TypeError", "index")


def slice_bounds(I, s, n):
    """(lo, length, step) of a slice of a sequence of length n"""
    ctx = I.ctx
    step = 1 if s.step is None else idx_raw(s.step)
    if not isc(step):
        raise Unsupported("symbolic slice step")

    def norm(v, dflt):
        if v is None:
            return dflt
        x = idx_raw(v)
        if isc(x) and isc(n):
            return max(min(x if x >= 0 else x + n, n), 0)
        if isc(x) and x == 0:
            return 0
        if isc(x) and x < 0:
            y = radd(n, x)
            if ctx.implied(rle(0, y)):
                return y
            return rite(rlt(y, 0), 0, y)
        lo_ok = True if isc(x) else ctx.implied(rle(0, x))
        y = x if lo_ok else rite(rlt(x, 0), rite(rlt(radd(x, n), 0), 0, radd(x, n)), x)
        if ctx.implied(rle(y, n)):
            return y
        return rite(rlt(n, y), n, y)
    if step > 0:
        lo = norm(s.start, 0)
        hi = norm(s.stop, n)
        d = rsub(hi, lo)
        if isc(d):
            ln = max(d, 0)
        elif ctx.implied(rle(0, d)):
            ln = d
        else:
            ln = rite(rlt(d, 0), 0, d)
        if step != 1:
            ln = -(-ln // step) if isc(ln) else (zi(ln) + (step - 1)) / step
        return lo, ln, step
    if s.start is None and s.stop is None and step == -1:
        return rsub(n, 1), n, -1
    raise Unsupported("negative slice step")


# ---------------------------------------------------------------- filters
class Filter:
    """the increasing list of the positions where a mask holds"""

    def __init__(self, n, mask, m, idx, inv):
        self.n, self.mask, self.m, self._idx, self._inv = n, mask, m, idx, inv

    def idx(self, j):
        # idx(inv(k)) is k
        if not isinstance(j, int) and z3.is_app(j) and j.num_args() and j.decl().name() == self.inv_name:
            return j.arg(j.num_args() - 1)
        return self._idx(zi(j))

    def inv(self, k):
        return self._inv(zi(k))

    def ground(self, ctx, k):
        """instance of the defining facts at source position k"""
        m = zb(self.mask(k))
        ctx.fact(z3.Implies(z3.And(m, zi(k) >= 0, zi(k) < self.n),
                            z3.And(self._inv(zi(k)) >= 0, self._inv(zi(k)) < self.m,
                                   self._idx(self._inv(zi(k))) == zi(k))))

    def ground_out(self, ctx, j):
        """instance at output position j"""
        ctx.fact(z3.Implies(z3.And(zi(j) >= 0, zi(j) < self.m),
                            z3.And(self._idx(zi(j)) >= 0, self._idx(zi(j)) < self.n,
                                   zb(self.mask(self._idx(zi(j)))),
                                   self._inv(self._idx(zi(j))) == zi(j))))


def make_filter(I, mask):
    ctx = I.ctx
    get = snap(I, mask)
    n = mask.n
    probe = z3.Int("filter_probe")
    pm = get(probe)
    pm = zb(pm)
    sp = z3.simplify(pm)
    for f, fsp, sc in ctx.filters:
        if fsp.eq(sp) and len(sc) == len(ctx.scope) and \
                (f.n == n if isc(f.n) and isc(n) else (not isc(f.n) and not isc(n) and f.n.eq(n))):
            return f
    nm = ctx.fresh_name("flt")
    sc = [s[0] for s in ctx.scope]
    idxf = z3.Function(nm + "_idx", *([I_] * len(sc)), I_, I_)
    invf = z3.Function(nm + "_inv", *([I_] * len(sc)), I_, I_)
    m = z3.Function(nm + "_n", *([I_] * len(sc)), I_)(*sc) if sc else z3.Int(nm + "_n")
    f = Filter(n, get, m, lambda j: idxf(*sc, j), lambda k: invf(*sc, k))
    f.inv_name = nm + "_inv"
    f.n = n
    zn = zi(n)
    ctx.fact(z3.And(m >= 0, m <= zn))
    j = z3.Int(ctx.fresh_name("j"))
    k = z3.Int(ctx.fresh_name("k"))
    ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m),
             z3.And(f._idx(j) >= 0, f._idx(j) < zn, zb(get(f._idx(j))), f._inv(f._idx(j)) == j)),
             patterns=[f._idx(j)]))
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zn, zb(get(k))),
             z3.And(f._inv(k) >= 0, f._inv(k) < m, f._idx(f._inv(k)) == k)),
             patterns=[f._inv(k)]))
    j2 = z3.Int(ctx.fresh_name("j"))
    ctx.fact(z3.ForAll([j, j2], z3.Implies(z3.And(j >= 0, j < j2, j2 < m), f._idx(j) < f._idx(j2)),
             patterns=[z3.MultiPattern(f._idx(j), f._idx(j2))]))
    # an empty result means that the mask is false everywhere
    ctx.fact(z3.Implies(m == 0, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zn), z3.Not(zb(get(k)))))))
    # and a positive one has a first element
    ctx.fact(z3.Implies(m > 0, z3.And(f._idx(z3.IntVal(0)) >= 0, f._idx(z3.IntVal(0)) < zn,
                                      zb(get(f._idx(z3.IntVal(0)))))))
    ctx.filters.append((f, sp, sc))
    return f


I_ = z3.IntSort()


def family_lemmas(ctx):
    """filters with equal masks keep the same positions, blocks of equal lengths lie at the same places, and
    empty blocks may be dropped: ground alternatives for each pair made of one object of the specification
    (ctx.ghosts) and one of the code (proved by the lemma tasks of contracts/theory.py)"""
    out = []
    if not ctx.ghosts:
        return out
    ghost = lambda x: any(x is g for g in ctx.ghosts)
    fs = [f for f, _, sc in ctx.filters if not sc]
    fl = [f for _, f in ctx.flats]
    for a in fs:
        for b in fs:
            if ghost(a) and a is not b and not (ghost(b) and fs.index(b) < fs.index(a)):
                out += same_filters(ctx, a, b)
    for a in fl:
        for b in fl:
            if ghost(a) and a is not b and not (ghost(b) and fl.index(b) < fl.index(a)):
                out += same_flats(ctx, a, b)
                for f in fs:
                    out += thinned_flats(ctx, a, b, f)
                    if ghost(b):
                        out += thinned_flats(ctx, b, a, f)
    return out


def same_filters(ctx, a, b):
    s, d = ctx.fresh("alike", B), z3.Int(ctx.fresh_name("fd"))
    j = z3.Int(ctx.fresh_name("j"))
    na, nb = zi(a.n), zi(b.n)
    return [z3.Or(s, na != nb, z3.And(d >= 0, d < na, zb(a.mask(d)) != zb(b.mask(d)))),
            z3.Implies(s, a.m == b.m),
            z3.ForAll([j], z3.Implies(z3.And(s, j >= 0, j < a.m), a._idx(j) == b._idx(j)), patterns=[a._idx(j)]),
            z3.ForAll([j], z3.Implies(z3.And(s, j >= 0, j < a.m), a._idx(j) == b._idx(j)), patterns=[b._idx(j)])]


def same_flats(ctx, a, b):
    s, d = ctx.fresh("alike", B), z3.Int(ctx.fresh_name("fd"))
    j, k = z3.Int(ctx.fresh_name("j")), z3.Int(ctx.fresh_name("k"))
    na, nb = zi(a.n), zi(b.n)
    st = z3.Implies(z3.And(s, k >= 0, k <= na), a.start(k) == b.start(k))
    ow = z3.Implies(z3.And(s, j >= 0, j < a.total), a._owner(j) == b._owner(j))
    return [z3.Or(s, na != nb, z3.And(d >= 0, d < na, a.cnt(d) != b.cnt(d))),
            z3.Implies(s, a.total == b.total),
            z3.ForAll([k], st, patterns=[a.start(k)]), z3.ForAll([k], st, patterns=[b.start(k)]),
            z3.ForAll([j], ow, patterns=[a._owner(j)]), z3.ForAll([j], ow, patterns=[b._owner(j)])]


def thinned_flats(ctx, a, b, f):
    """b has the blocks of a at the positions kept by f; those dropped are empty"""
    s = ctx.fresh("alike", B)
    d, e = z3.Int(ctx.fresh_name("fd")), z3.Int(ctx.fresh_name("fd"))
    j, k = z3.Int(ctx.fresh_name("j")), z3.Int(ctx.fresh_name("k"))
    ow = z3.Implies(z3.And(s, j >= 0, j < a.total), a._owner(j) == f._idx(b._owner(j)))
    st = z3.Implies(z3.And(s, k >= 0, k < f.m), a.start(f._idx(k)) == b.start(k))
    return [z3.Or(s, zi(a.n) != zi(f.n), zi(b.n) != f.m,
                  z3.And(d >= 0, d < f.m, b.cnt(d) != a.cnt(f._idx(d))),
                  z3.And(e >= 0, e < zi(a.n), z3.Not(zb(f.mask(e))), a.cnt(e) != 0)),
            z3.Implies(s, a.total == b.total),
            z3.ForAll([k], st, patterns=[b.start(k)]),
            z3.ForAll([j], ow, patterns=[a._owner(j)]), z3.ForAll([j], ow, patterns=[b._owner(j)])]


def filter_items(mask):
    """positions kept, when the mask is concrete"""
    if mask.items is not None and all(isinstance(x, bool) for x in mask.items):
        return [i for i, x in enumerate(mask.items) if x]
    return None


def filter_index_arr(I, mask):
    its = filter_items(mask)
    if its is not None:
        r = const_arr([num(i) for i in its], dtype="i")
        r.maskarr = mask
        return r
    f = make_filter(I, mask)
    r = Arr(f.m, lambda j: num(f.idx(j)), "i", "nd")
    r.filt = f
    r.maskarr = mask
    return r


def filter_arr(I, a, mask):
    its = filter_items(mask)
    if its is not None and a.items is not None:
        return const_arr([a.items[i] for i in its], a.kind, a.dtype)
    if not I.same_len(a.n, mask.n):
        raise PyExc("IndexError", "boolean index did not match")
    f = make_filter(I, mask)
    g = snap(I, a)
    r = Arr(f.m, lambda j: g(f.idx(j)), a.dtype, a.kind)
    r.filt_of = f
    return r


# ---------------------------------------------------------------- load / store
def load(I, o, ix):
    if isinstance(o, Arr):
        return load_arr(I, o, ix)
    if isinstance(o, Mat):
        return load_mat(I, o, ix)
    if isinstance(o, (PyList, tuple)):
        xs = o.xs if isinstance(o, PyList) else o
        if isinstance(ix, slice):
            if all(x is None or (isinstance(x, Num) and isc(x.v)) for x in (ix.start, ix.stop, ix.step)):
                r = xs[slice(*[None if x is None else int(x.v) for x in (ix.start, ix.stop, ix.step)])]
                return PyList(r) if isinstance(o, PyList) else tuple(r)
            r = load_arr(I, const_arr(xs, "list"), ix)
            return r
        i = idx_raw(ix)
        if isc(i):
            if not -len(xs) <= i < len(xs):
                raise PyExc("IndexError", "list index out of range")
            return xs[i]
        j = check_index(I, i, len(xs))
        return const_arr(xs).get(j)
    if isinstance(o, PyDict):
        k = I.hashable(ix)
        if k not in o.d:
            raise PyExc("KeyError", str(k))
        return o.d[k]
    if isinstance(o, SeqV):
        if isinstance(ix, Num):
            return o.get(check_index(I, idx_raw(ix), o.n))
        raise Unsupported("slice of a lazy sequence")
    if isinstance(o, Stub):
        return o.item(I, ix)
    if isinstance(o, DF):
        if isinstance(ix, str):
            if ix not in o.cols:
                raise PyExc("KeyError", ix)
            return o.cols[ix]
        raise Unsupported("data frame selection")
    if isinstance(o, Ext) and o.path.endswith(".r_"):
        return concat(I, [as_arr(I, x) for x in (ix if isinstance(ix, tuple) else (ix,))])
    if isinstance(o, Obj):
        m, _ = o.cls.find("__getitem__")
        if m is not None:
            return I.call(m, [o, ix], {})
        if o.cls.dataclass and isinstance(ix, Num):
            return list(o.fields.values())[int(ix.v)]
    if isinstance(o, str) and isinstance(ix, Num) and isc(ix.v):
        return o[int(ix.v)]
    if isinstance(o, str) and isinstance(ix, slice):
        return o[slice(*[None if x is None else int(x.v) for x in (ix.start, ix.stop, ix.step)])]
    if is_scalar(o) or o is None:
        raise PyExc("TypeError", "object is not subscriptable")
    raise Unsupported(f"subscript of {type(o).__name__}")


def load_arr(I, a, ix):
    if isinstance(ix, tuple) and len(ix) == 1:
        ix = ix[0]
    if isinstance(ix, (Num,)):
        i = check_index(I, idx_raw(ix), a.n)
        return aget(I, a, i)
    if isinstance(ix, slice):
        lo, ln, step = slice_bounds(I, ix, a.n)
        g = snap(I, a)
        items = None
        if a.items is not None and isc(lo) and isc(ln):
            items = [a.items[lo + step * i] for i in range(ln)]
        if items is not None:
            c = const_arr(items, a.kind, a.dtype)
            return c if a.kind == "list" else mkview(a, c.n, c._get, a.dtype, a.kind, items)
        get = lambda i: g(radd(lo, rmul(step, i)))
        if a.kind == "list":
            return Arr(ln, get, a.dtype, "list")
        r = mkview(a, ln, get)
        f = getattr(a, "filt_of", None)
        return r
    if isinstance(ix, PyList):
        ix = as_arr(I, ix)
    if isinstance(ix, Arr):
        if a.kind == "list":
            raise PyExc("TypeError", "list indices must be integers")
        if ix.dtype == "b":
            return filter_arr(I, a, ix)
        return gather(I, a, ix)
    if ix is None or (isinstance(ix, tuple) and any(x is None for x in ix)):
        if isinstance(ix, tuple) and len(ix) == 2 and isinstance(ix[0], slice) and ix[1] is None:
            g = snap(I, a)
            return Mat(a.n, 1, lambda i, j: g(i), a.dtype)
        raise Unsupported("newaxis")
    if isinstance(ix, (bool, z3.BoolRef)):
        raise Unsupported("scalar boolean index")
    if isinstance(ix, tuple):
        raise PyExc("IndexError", "too many indices for array")
    if isinstance(ix, str) and a.kind != "series":
        raise PyExc("IndexError" if a.kind == "nd" else "TypeError", "string index")
    raise Unsupported(f"array index {type(ix).__name__}")


def gather(I, a, ix):
    g, gi = snap(I, a), snap(I, ix)
    if a.items is not None and ix.items is not None and all(isinstance(x, Num) and isc(x.v) for x in ix.items):
        out = []
        for x in ix.items:
            i = int(x.v)
            if not -len(a.items) <= i < len(a.items):
                raise PyExc("IndexError", "index out of bounds")
            out.append(a.items[i])
        return const_arr(out, a.kind, a.dtype)
    ctx = I.ctx
    if getattr(ix, "filt", None) is not None and (
            (isc(ix.filt.n) and isc(a.n) and ix.filt.n == a.n) or
            (not isc(ix.filt.n) and not isc(a.n) and ix.filt.n.eq(a.n))):
        f = ix.filt
        return _tag(Arr(f.m, lambda j: g(f.idx(j)), a.dtype, a.kind), f)
    if hasattr(a, "cells") and hasattr(ix, "row_column") and a.cells[3] is a._get and ix.row_column[4] is ix._get \
            and ctx.implied(band(req(a.cells[1], ix.row_column[2]), req(a.cells[2], ix.row_column[3]))):
        h, (row, col) = a.cells[0], ix.row_column[:2]
        return Arr(ix.n, lambda k: h(row(k), col(k)), a.dtype, "nd")
    # bounds for every element
    k = z3.Int(ctx.fresh_name("k"))
    e = gi(k)
    r = idx_raw(e)
    guard = band(rle(0, k), rlt(k, ix.n))
    if isinstance(ix.n, int) and ix.items is not None:
        for x in ix.items:
            check_index(I, idx_raw(x), a.n)
        negs = not all(ctx.implied(rle(0, idx_raw(x))) for x in ix.items)
    else:
        ctx.obligation(f"bounds@{where(I)}", bimp(guard, band(rle(rneg(a.n), r), rlt(r, a.n))))
        negs = not (isc(r) and r >= 0) and not ctx.implied(bimp(guard, rle(0, r)))

    def get(j):
        x = idx_raw(gi(j))
        if negs:
            x = rite(rlt(x, 0), radd(x, a.n), x)
        return g(x)
    items = [get(j) for j in range(ix.n)] if isinstance(ix.n, int) and ix.n <= 64 else None
    return Arr(ix.n, get, a.dtype, a.kind, items)


def _tag(a, f):
    a.filt_of = f
    return a


def mat_row(I, m, i):
    g = m._get
    n = m.m
    items = [g(i, j) for j in range(n)] if isinstance(n, int) and n <= 16 else None
    r = mkview(m, n, lambda j: g(i, j), m.dtype, "nd", items)
    r.row_of = m, i
    return r


def mat_col(I, m, j):
    g = m._get
    n = m.n
    items = [g(i, j) for i in range(n)] if isinstance(n, int) and n <= 64 else None
    return mkview(m, n, lambda i: g(i, j), m.dtype, "nd", items)


def load_mat(I, m, ix):
    note(I, "rall", m)
    if isinstance(ix, tuple) and len(ix) == 2:
        a, b = ix
        if isinstance(a, slice) and a.start is None and a.stop is None and a.step is None:
            if isinstance(b, Num):
                return mat_col(I, m, check_index(I, idx_raw(b), m.m))
            if isinstance(b, slice):
                lo, ln, st = slice_bounds(I, b, m.m)
                g = m._get
                return Mat(m.n, ln, lambda i, j: g(i, radd(lo, rmul(st, j))), m.dtype)
        if isinstance(b, slice) and b.start is None and b.stop is None and b.step is None:
            return load_mat(I, m, a)
        if isinstance(a, Num) and isinstance(b, Num):
            return m.get(check_index(I, idx_raw(a), m.n), check_index(I, idx_raw(b), m.m))
        if isinstance(b, Num):
            return load_arr(I, mat_col(I, m, check_index(I, idx_raw(b), m.m)), a)
        raise Unsupported("matrix index")
    if isinstance(ix, Num):
        return mat_row(I, m, check_index(I, idx_raw(ix), m.n))
    if isinstance(ix, slice):
        lo, ln, st = slice_bounds(I, ix, m.n)
        g = m._get
        return Mat(ln, m.m, lambda i, j: g(radd(lo, rmul(st, i)), j), m.dtype)
    if isinstance(ix, Arr) and ix.dtype == "b":
        if not I.same_len(ix.n, m.n):
            raise PyExc("IndexError", "boolean index did not match")
        g = m._get
        its = filter_items(ix)
        if its is not None:
            return Mat(len(its), m.m, lambda i, j: g(its[i], j) if isinstance(i, int) else
                       const_arr([g(x, j) for x in its]).get(i), m.dtype)
        f = make_filter(I, ix)
        r = Mat(f.m, m.m, lambda i, j: g(f.idx(i), j), m.dtype)
        r.filt_of = f
        return r
    raise Unsupported("matrix index")


def cast_store(arr, v):
    if isinstance(v, (bool, z3.BoolRef)) and arr.dtype != "b":
        v = num(v)
    if arr.dtype == "i" and isinstance(v, Num) and not v.isint:
        return Num(rtrunc(v.v), isint=True)
    if arr.dtype == "f" and isinstance(v, Num) and v.isint:
        return v.real()
    if arr.dtype == "b" and isinstance(v, Num):
        return bnot(req(v.v, 0))
    return v


def _guard_store(a):
    if a.base is not None:
        raise Unsupported("store through a view")


def store(I, o, ix, v):
    ctx = I.ctx
    if isinstance(o, Arr):
        if isinstance(ix, tuple) and len(ix) == 1:
            ix = ix[0]
        if hasattr(o, "row_of") and isinstance(ix, Num) and is_scalar(v):
            m, i = o.row_of
            o.vcheck()
            return store(I, m, (Num(i, isint=True), ix), v)
        _guard_store(o)
        if isinstance(ix, Num):
            i = check_index(I, idx_raw(ix), o.n)
            if o.dtype == "o" or isinstance(v, (Arr, PyList, tuple)):
                if o.kind != "list":
                    if isinstance(v, Arr) and v.n == 1:
                        v = v.get(0)
                    else:
                        raise PyExc("ValueError", "setting an array element with a sequence")
            v2 = cast_store(o, v)
            ctx.log("arr", o)
            old = raw_snap(o)
            bump(o)
            if o.items is not None and isc(i):
                o.items = list(o.items)
                o.items[i] = v2
                its = o.items
                o._get = const_arr(its)._get
            else:
                if o.items is not None:
                    o.items = [merge_val(i == k, v2, x) for k, x in enumerate(o.items)]
                o._get = lambda k: merge_val(req(k, i), v2, old(k))
            note(I, "w", o, i, v2)
            return
        if isinstance(ix, slice):
            lo, ln, st = slice_bounds(I, ix, o.n)
            if st != 1:
                raise Unsupported("strided store")
            ctx.log("arr", o)
            old = raw_snap(o)
            bump(o)
            if is_scalar(v):
                vv = cast_store(o, v)
                gv = lambda k: vv
            else:
                va = as_arr(I, v)
                if not I.same_len(va.n, ln):
                    raise PyExc("ValueError", "could not broadcast")
                sv = snap(I, va)
                gv = lambda k: cast_store(o, sv(rsub(k, lo)))
            hi = radd(lo, ln)
            if o.items is not None and isc(lo) and isc(ln):
                o.items = [gv(k) if lo <= k < lo + ln else x for k, x in enumerate(o.items)]
                o._get = const_arr(o.items)._get
            else:
                o._get = lambda k: merge_val(band(rle(lo, k), rlt(k, hi)), gv(k), old(k))
                o.items = None if o.items is None else [o._get(k) for k in range(len(o.items))]
            note(I, "wall", o)
            return
        if isinstance(ix, PyList):
            ix = as_arr(I, ix)
        if isinstance(ix, Arr):
            return store_mask(I, o, ix, v)
        raise Unsupported("array store")
    if isinstance(o, Mat):
        if isinstance(ix, tuple) and len(ix) == 2:
            a, b = ix
            if isinstance(a, Num) and isinstance(b, slice) and b.start is None and b.stop is None:
                i = check_index(I, idx_raw(a), o.n)
                row = as_arr(I, v)
                if not I.same_len(row.n, o.m):
                    raise PyExc("ValueError", "could not broadcast")
                g, r = o._get, snap(I, row)
                ctx.log("mat", o)
                bump(o)
                o._get = lambda p, q: merge_val(req(p, i), cast_store(o, r(q)), g(p, q))
                note(I, "w", o, i, None)
                return
            if isinstance(a, Num) and isinstance(b, Num):
                i = check_index(I, idx_raw(a), o.n)
                j = check_index(I, idx_raw(b), o.m)
                g = o._get
                vv = cast_store(o, v)
                ctx.log("mat", o)
                bump(o)
                o._get = lambda p, q: merge_val(band(req(p, i), req(q, j)), vv, g(p, q))
                note(I, "w", o, i, None)
                return
            if isinstance(a, slice) and a.start is None and a.stop is None and isinstance(b, Num):
                j = check_index(I, idx_raw(b), o.m)
                col = as_arr(I, v) if not is_scalar(v) else None
                g = o._get
                gc = snap(I, col) if col is not None else (lambda p: v)
                ctx.log("mat", o)
                bump(o)
                o._get = lambda p, q: merge_val(req(q, j), cast_store(o, gc(p)), g(p, q))
                note(I, "wall", o)
                return
        raise Unsupported("matrix store")
    if isinstance(o, PyList):
        i = idx_raw(ix) if isinstance(ix, Num) else None
        if i is not None and isc(i):
            if not -len(o.xs) <= i < len(o.xs):
                raise PyExc("IndexError", "list assignment index out of range")
            ctx.log("list", o)
            o.xs = list(o.xs)
            o.xs[i] = v
            return
        if i is not None:
            j = check_index(I, i, len(o.xs))
            ctx.log("list", o)
            o.xs = [merge_val(j == k, v, x) for k, x in enumerate(o.xs)]
            return
        raise Unsupported("list store")
    if isinstance(o, PyDict):
        ctx.log("dict", o)
        o.d = dict(o.d) if o.__class__ is PyDict and getattr(o, "alias", None) is None else o.d
        o.d[I.hashable(ix)] = v
        return
    if isinstance(o, Stub):
        return o.store(I, ix, v)
    if isinstance(o, DF):
        if isinstance(ix, str):
            ctx.log("df", o)
            o.cols = dict(o.cols)
            I.set_df_col(o, ix, v)
            return
    if isinstance(o, Obj):
        m, _ = o.cls.find("__setitem__")
        if m is not None:
            return I.call(m, [o, ix, v], {})
    raise Unsupported(f"store into {type(o).__name__}")


def store_mask(I, o, ix, v):
    """o[mask] = v or o[np.where(mask)] = v"""
    ctx = I.ctx
    _guard_store(o)
    mask = ix if ix.dtype == "b" else getattr(ix, "maskarr", None)
    if mask is None:
        if ix.items is not None and all(isinstance(x, Num) for x in ix.items) and is_scalar(v):
            for x in ix.items:
                store(I, o, x, v)
            return
        raise Unsupported("store at an index array")
    if not I.same_len(mask.n, o.n):
        raise PyExc("IndexError", "boolean index did not match")
    old, mk = raw_snap(o), snap(I, mask)
    ctx.log("arr", o)
    bump(o)
    if is_scalar(v):
        vv = cast_store(o, v)
        new = lambda k: merge_val(mk(k), vv, old(k))
    else:
        va = as_arr(I, v)
        its = filter_items(mask)
        if its is not None and va.items is not None and o.items is not None:
            if len(its) != len(va.items) and len(va.items) != 1:
                raise PyExc("ValueError", "cannot assign")
            vals = list(o.items)
            for p, q in enumerate(its):
                vals[q] = cast_store(o, va.items[p if len(va.items) > 1 else 0])
            o.items = vals
            o._get = const_arr(vals)._get
            note(I, "wall", o)
            return
        f = make_filter(I, mask)
        if not I.same_len(va.n, f.m):
            raise PyExc("ValueError", "cannot assign input values to the mask")
        sv = snap(I, va)
        new = lambda k: merge_val(mk(k), cast_store(o, sv(f.inv(k))), old(k))
        o.mask_filters = getattr(o, "mask_filters", []) + [f]
    if o.items is not None:
        o.items = [new(k) for k in range(len(o.items))]
        o._get = const_arr(o.items)._get
    else:
        o._get = new
    note(I, "wall", o)


def aug_store(I, o, ix, op, rhs):
    if isinstance(o, Arr) and isinstance(ix, tuple) and len(ix) == 1:
        ix = ix[0]
    if isinstance(o, Arr) and isinstance(ix, Arr) and is_scalar(rhs):
        mask = ix if ix.dtype == "b" else getattr(ix, "maskarr", None)
        if mask is not None:
            _guard_store(o)
            if not I.same_len(mask.n, o.n):
                raise PyExc("IndexError", "boolean index did not match")
            old, mk = raw_snap(o), snap(I, mask)
            I.ctx.log("arr", o)
            bump(o)
            new = lambda k: merge_val(mk(k), cast_store(o, binop(I, op, old(k), rhs)), old(k))
            if o.items is not None:
                o.items = [new(k) for k in range(len(o.items))]
                o._get = const_arr(o.items)._get
            else:
                o._get = new
            note(I, "wall", o)
            return
    cur = load(I, o, ix)
    store(I, o, ix, binop(I, op, cur, rhs))


# ---------------------------------------------------------------- operators
DUNDER = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "Pow": "__pow__",
          "FloorDiv": "__floordiv__", "Mod": "__mod__", "BitAnd": "__and__", "BitOr": "__or__"}


def binop(I, op, a, b):
    if isinstance(a, Obj) or isinstance(b, Obj):
        d = DUNDER.get(op)
        if isinstance(a, Obj):
            m, _ = a.cls.find(d)
            if m is not None:
                return I.call(m, [a, b], {})
        if isinstance(b, Obj):
            m, _ = b.cls.find("__r" + d[2:])
            if m is not None:
                return I.call(m, [b, a], {})
        raise PyExc("TypeError", "unsupported operand type(s)")
    if op == "Add":
        if isinstance(a, (str, Opaque, SymStr)) or isinstance(b, (str, Opaque, SymStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if all(isinstance(x, (str, Opaque, SymStr)) for x in (a, b)):
                return Opaque(("concat", id(a), id(b)))
            raise PyExc("TypeError", "can only concatenate str")
        if isinstance(a, PyList) and isinstance(b, PyList):
            return PyList(a.xs + b.xs)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        la = isinstance(a, PyList) or (isinstance(a, Arr) and a.kind == "list")
        lb = isinstance(b, PyList) or (isinstance(b, Arr) and b.kind == "list")
        if la and lb:
            r = concat(I, [as_arr(I, a, "list"), as_arr(I, b, "list")])
            r.kind = "list"
            return r
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (PyList, str, tuple)) or (isinstance(x, Arr) and x.kind == "list"):
                if isinstance(y, (bool, z3.BoolRef)):
                    y = num(y)
                if isinstance(y, Num):
                    if not y.isint:
                        raise PyExc("TypeError", "can't multiply sequence by non-int")
                    return repeat_list(I, x, y)
                if isinstance(x, PyList) and isinstance(y, Arr):
                    break
                raise PyExc("TypeError", "can't multiply sequence")
    if op in ("BitAnd", "BitOr", "BitXor"):
        def f(x, y):
            if isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef)):
                if op == "BitAnd":
                    return band(x, y)
                if op == "BitOr":
                    return bor(x, y)
                return bnot(biff(x, y))
            raise Unsupported("bitwise operation")
        if isinstance(a, PySet) and isinstance(b, PySet):
            return PySet(a.xs & b.xs if op == "BitAnd" else a.xs | b.xs)
        return elementwise(I, f, [a, b], "b")
    if op == "Mod" and isinstance(a, str):
        return Opaque(("format", id(a)))
    if isinstance(a, PySet) and isinstance(b, PySet) and op == "Sub":
        return PySet(a.xs - b.xs)
    if op == "Add":
        f = lambda x, y: add(num(x), num(y))
    elif op == "Sub":
        f = lambda x, y: sub(num(x), num(y))
    elif op == "Mult":
        f = lambda x, y: mul(num(x), num(y))
    elif op == "Div":
        if is_scalar(a) and is_scalar(b) and I.njit[-1]:
            nb = num(b)
            if I.ctx.branch(band(nb.fin, req(nb.v, 0))):
                raise PyExc("ZeroDivisionError", "division by zero")
            nz = True
        else:
            nz = never_zero(I, b)
        f = lambda x, y: div(num(x), num(y), nz)
    elif op == "Pow" and not I.njit[-1] and int_power(a, b) and I.ctx.branch(rle(0, b.v)):
        return Num(IPOW(zi(a.v), zi(b.v)), isint=True)
    elif op == "Pow":
        f = lambda x, y: npow(num(x), num(y))
    elif op == "FloorDiv":
        f = lambda x, y: floordiv(I, num(x), num(y))
    elif op == "Mod":
        f = lambda x, y: mod(I, num(x), num(y))
    elif op == "MatMult":
        raise Unsupported("matrix product")
    else:
        raise Unsupported(f"operator {op}")
    return elementwise(I, f, [a, b])


IPOW = z3.Function("IPOW", I_, I_, I_)       # of a base >= 2; at least one


def int_power(a, b):
    """an integer literal to the power of an unknown integer"""
    return isinstance(a, Num) and isinstance(b, Num) and a.isint and b.isint and isc(a.v) and a.v >= 2 \
        and not isc(b.v) and is_int_raw(b.v)


def never_zero(I, b):
    """do the assumptions exclude zero as (an element of) b?"""
    ctx = I.ctx
    if isinstance(b, Arr):
        if isinstance(b.n, int):
            return False
        k = z3.Int("probe!nz")
        x = num(snap(I, b)(k))
        g = band(k >= 0, rlt(k, b.n))
    elif isinstance(b, Num):
        k, x, g = None, b, True
    else:
        return False
    if not isinstance(x, Num) or isc(x.v) or positive_raw(x.v):
        return False
    ctx.solver.push()
    npc = len(ctx.pc)
    try:
        if k is not None:
            ctx.assume(g)
            ctx.instantiate(k)
        return ctx.implied(bnot(req(x.v, 0)))
    finally:
        del ctx.pc[npc:]
        ctx.solver.pop()


def _posdiv(I, y):
    if isc(y.v):
        if y.v == 0:
            raise PyExc("ZeroDivisionError", "division by zero")
        if y.v < 0:
            raise Unsupported("negative divisor")
        return
    if T._is_app(y.v, IPOW):
        I.ctx.fact(y.v >= 1)
        return
    if not I.ctx.implied(rlt(0, y.v)):
        if I.ctx.branch(req(y.v, 0)):
            raise PyExc("ZeroDivisionError", "division by zero")
        if not I.ctx.branch(rlt(0, y.v)):
            raise Unsupported("negative divisor")


def floordiv(I, x, y):
    if not (x.plain and y.plain):
        raise Unsupported("floor division of infinities")
    _posdiv(I, y)
    if isc(x.v) and isc(y.v):
        return Num(int(Fraction(x.v) // Fraction(y.v)), isint=x.isint and y.isint)
    if is_int_raw(x.v) and is_int_raw(y.v):
        if zi(x.v).eq(zi(y.v)):
            return Num(1, isint=x.isint and y.isint)
        return Num(zi(x.v) / zi(y.v), isint=x.isint and y.isint)
    return Num(rfloor(rdiv(x.v, y.v)), isint=False)


def mod(I, x, y):
    if not (x.plain and y.plain):
        raise Unsupported("modulo of infinities")
    _posdiv(I, y)
    if isc(x.v) and isc(y.v):
        return Num(T._norm(Fraction(x.v) % Fraction(y.v)), isint=x.isint and y.isint)
    if is_int_raw(x.v) and is_int_raw(y.v):
        if zi(x.v).eq(zi(y.v)):
            return Num(0, isint=x.isint and y.isint)
        return Num(zi(x.v) % zi(y.v), isint=x.isint and y.isint)
    return Num(rsub(x.v, rmul(y.v, zr(rfloor(rdiv(x.v, y.v))))), isint=False)


def times(v, n):
    """v * n; n copies where n is zero or one stay a choice"""
    if not isc(n) and z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE and all(z3.is_int_value(c) for c in n.children()[1:]):
        c, a, b = n.children()
        return nite(c, mul(v, num(T._unz(a))), mul(v, num(T._unz(b))))
    return mul(v, Num(n, isint=True))


def repeat_list(I, x, y):
    if isinstance(x, (PyList, tuple, str)) and isc(y.v):
        k = max(int(y.v), 0)
        return PyList(x.xs * k) if isinstance(x, PyList) else x * k
    if isinstance(x, PyList) and len(x.xs) == 1:
        v = x.xs[0]
        n = y.v if I.ctx.implied(rle(0, y.v)) else rite(rlt(y.v, 0), 0, y.v)
        dt = "f"
        if isinstance(v, Num) and v.isint:
            dt = "i"
        elif isinstance(v, (bool, z3.BoolRef)):
            dt = "b"
        elif not isinstance(v, Num):
            dt = "o"
        r = Arr(n, lambda i: v, dt, "list")
        r.constant = v
        if isinstance(v, Num):
            r.runs = times(v, n)
        return r
    if isinstance(x, PyList) and not x.xs:
        return PyList([])
    raise Unsupported("repetition of a list")


# equality of values as python's ==, or deep identity
def compare(I, op, a, b):
    if op in ("Is", "IsNot"):
        r = is_same(a, b)
        return bnot(r) if op == "IsNot" else r
    if op in ("In", "NotIn"):
        r = contains(I, b, a)
        return bnot(r) if op == "NotIn" else r
    if isinstance(a, Obj) or isinstance(b, Obj):
        if op in ("Eq", "NotEq"):
            if isinstance(a, Obj):
                m, _ = a.cls.find("__eq__")
                if m is not None:
                    r = I.truth(I.call(m, [a, b], {}))
                    return bnot(r) if op == "NotEq" else r
            r = a is b
            return (not r) if op == "NotEq" else r
        if isinstance(a, Obj):
            m, _ = a.cls.find({"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op])
            if m is not None:
                return I.call(m, [a, b], {})
        raise PyExc("TypeError", "comparison")
    if isinstance(a, PySet) and isinstance(b, PySet) and op in ("Lt", "LtE", "Gt", "GtE"):
        return {"Lt": a.xs < b.xs, "LtE": a.xs <= b.xs, "Gt": a.xs > b.xs, "GtE": a.xs >= b.xs}[op]
    strs = (str, SymStr, Opaque)
    if op in ("Eq", "NotEq"):
        if isinstance(a, strs) or isinstance(b, strs) or a is None or b is None:
            if isinstance(a, Arr) or isinstance(b, Arr):
                if a is None or b is None:
                    return op == "NotEq"
                raise Unsupported("array compared with a string")
            r = eq_atoms(a, b)
            return bnot(r) if op == "NotEq" else r
        seqs = (PyList, tuple)
        la = isinstance(a, seqs) or (isinstance(a, Arr) and a.kind == "list")
        lb = isinstance(b, seqs) or (isinstance(b, Arr) and b.kind == "list")
        if la and lb:
            r = seq_eq(I, a, b)
            return bnot(r) if op == "NotEq" else r
        if isinstance(a, (ClassV, FuncV, Ext, Builtin)) or isinstance(b, (ClassV, FuncV, Ext, Builtin)):
            r = a is b or (isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path)
            return (not r) if op == "NotEq" else r
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            if set(a.d) != set(b.d):
                r = False
            else:
                r = True
                for k in a.d:
                    r = band(r, I.truth(compare(I, "Eq", a.d[k], b.d[k])))
            return bnot(r) if op == "NotEq" else r
        if isinstance(a, PySet) and isinstance(b, PySet):
            r = a.xs == b.xs
            return (not r) if op == "NotEq" else r
        if type(a) is not type(b) and not (is_scalar(a) and is_scalar(b)) and not \
                (isinstance(a, (Arr, Mat, PyList)) or isinstance(b, (Arr, Mat, PyList))):
            return op == "NotEq"
        if la != lb and (is_scalar(a) or is_scalar(b)):
            return op == "NotEq"

    def f(x, y):
        if op in ("Eq", "NotEq") and isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef)):
            r = biff(x, y)
            return bnot(r) if op == "NotEq" else r
        x, y = num(x), num(y)
        if op == "Lt":
            return lt(x, y)
        if op == "LtE":
            return le(x, y)
        if op == "Gt":
            return lt(y, x)
        if op == "GtE":
            return le(y, x)
        if op == "Eq":
            return eq(x, y)
        return bnot(eq(x, y))
    if not (isinstance(a, (Arr, Mat, PyList)) or isinstance(b, (Arr, Mat, PyList))):
        if is_scalar(a) and is_scalar(b):
            return f(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Unsupported("ordering of tuples")
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("ordering of opaque values")
        raise PyExc("TypeError", "ordering not supported")
    return elementwise(I, f, [a, b], "b")


def eq_atoms(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        return True if a.t.eq(b.t) else a.t == b.t
    if isinstance(a, str) and isinstance(b, SymStr):
        a, b = b, a
    if isinstance(a, SymStr) and isinstance(b, str):
        if a.other:
            return False
        return a.t == SymStr.lit(b)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a.key == b.key:
            return True
        if isinstance(a.key, z3.ExprRef) and isinstance(b.key, z3.ExprRef):
            return a.key == b.key
        raise Unsupported("equality of opaque values")
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("equality of an opaque value")
    return False


def seq_eq(I, a, b):
    sa, sb = I.to_seq(a), I.to_seq(b)
    if isinstance(sa.n, int) and isinstance(sb.n, int):
        if sa.n != sb.n:
            return False
        r = True
        for i in range(sa.n):
            r = band(r, I.truth(compare(I, "Eq", sa.get(i), sb.get(i))))
        return r
    return all_equal(I, sa, sb)


def all_equal(I, sa, sb):
    """sequences have the same length and equal elements"""
    p = z3.Int(I.ctx.fresh_name("p"))
    e = eq(num(sa.get(p)), num(sb.get(p)))
    c = forall_bool(I, lambda k: eq(num(sa.get(k)), num(sb.get(k))), rite(req(sa.n, sb.n), sa.n, 0))
    return band(req(sa.n, sb.n), c)


def is_same(a, b):
    if isinstance(a, Rec) and b is None or isinstance(b, Rec) and a is None:
        return a.none if b is None else b.none
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return biff(a, b)
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a.path == b.path
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Num) and isinstance(b, Num):
        raise Unsupported("identity of numbers")
    return a is b


def contains(I, c, x):
    if isinstance(c, (tuple, PyList)):
        xs = c if isinstance(c, tuple) else c.xs
        r = False
        for y in xs:
            if type(x) is not type(y) and not (is_scalar(x) and is_scalar(y)) \
                    and not isinstance(x, (str, SymStr)) and not isinstance(y, (str, SymStr)):
                if isinstance(x, (Arr, PyList)) and is_scalar(y):
                    raise Unsupported("array in a list")
                continue
            r = bor(r, I.truth(compare(I, "Eq", x, y)))
        return r
    if isinstance(c, PyDict):
        if isinstance(x, SymStr) and not x.other:
            r = False
            for y in c.d:
                if isinstance(y, str):
                    r = bor(r, eq_atoms(x, y))
            return r
        return I.hashable(x) in c.d
    if isinstance(c, PySet):
        r = False
        for y in c.xs:
            r = bor(r, I.truth(compare(I, "Eq", x, I.unhash(y))))
        return r
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        raise Unsupported("substring")
    if isinstance(c, SymStr):
        if isinstance(x, str):
            return SymStr.CONTAINS(c.t, SymStr.lit(x))
        raise Unsupported("substring")
    if isinstance(c, Arr):
        return exists_bool(I, lambda k: eq(num(c.get(k)), num(x)), c.n)
    if isinstance(c, DF):
        return x in c.cols
    if c is None or is_scalar(c):
        raise PyExc("TypeError", "argument is not iterable")
    raise Unsupported(f"in {type(c).__name__}")


# ---------------------------------------------------------------- quantified booleans, reductions
def forall_bool(I, f, n):
    """a boolean equivalent to: f(k) for all 0 <= k < n"""
    ctx = I.ctx
    if isinstance(n, int) and n <= 64:
        return band(*[f(k) for k in range(n)])
    b = ctx.fresh("all", B)
    w = ctx.fresh("w", I_)
    k = z3.Int(ctx.fresh_name("k"))
    fk = f(k)
    if fk is True:
        return True
    ctx.fact(z3.Implies(b, z3.ForAll([k], zb(bimp(band(k >= 0, rlt(k, n)), fk)))))
    if not ctx.scope and len(ctx.frames) == 1:
        ctx.instantiate(w)
        ctx.instantiate(w - 1)
        ctx.universal(0, n, lambda q: bimp(b, f(q)))
    ctx.fact(z3.Implies(z3.Not(b), zb(band(w >= 0, rlt(w, n), bnot(f(w))))))
    return b


def exists_bool(I, f, n):
    r = forall_bool(I, lambda k: bnot(f(k)), n)
    return bnot(r)


def minmax(I, a, ismax, nan_prop=True):
    ctx = I.ctx
    a = as_arr(I, a) if not isinstance(a, (Arr, Mat)) else a
    if isinstance(a, Mat):
        raise Unsupported("reduction of a matrix")
    if isinstance(a.n, int):
        if a.n == 0:
            raise PyExc("ValueError", "zero-size array to reduction operation")
        r = num(aget(I, a, 0))
        for k in range(1, a.n):
            x = num(a.get(k))
            r = nmax(r, x) if ismax else nmin(r, x)
        return r
    if not ctx.implied(rlt(0, a.n)):
        if ctx.branch(rle(a.n, 0)):
            raise PyExc("ValueError", "zero-size array to reduction operation")
    g = snap(I, a)
    key = None
    if len(ctx.frames) == 1 and not ctx.scope:
        p = num(g(z3.Int("probe")))
        key = ("minmax", ismax, str(z3.simplify(zi(a.n)))) + tuple(
            z3.simplify(x).sexpr() if isinstance(x, z3.ExprRef) else str(x) for x in (p.v, p.pi, p.ni, p.na))
        if key in ctx.cache:
            return ctx.cache[key]
    w = ctx.fresh("argm", I_)
    k = z3.Int(ctx.fresh_name("k"))
    gk, gw = num(g(k)), num(g(w))
    ctx.fact(band(w >= 0, rlt(w, a.n)))
    ctx.instantiate(w)
    if gk.na is False:
        c = le(gk, gw) if ismax else le(gw, gk)
        if c is not True:
            ctx.fact(z3.ForAll([k], zb(bimp(band(k >= 0, rlt(k, a.n)), c))))
            if key:
                ctx.universal(0, a.n, lambda q: le(num(g(q)), gw) if ismax else le(gw, num(g(q))))
        r = gw
    else:
        q = ctx.fresh("anynan", B)
        wn = ctx.fresh("wnan", I_)
        c = le(gk, gw) if ismax else le(gw, gk)
        ctx.fact(z3.Implies(q, zb(band(wn >= 0, rlt(wn, a.n), num(g(wn)).na))))
        ctx.fact(z3.Implies(z3.Not(q), z3.And(z3.Not(zb(gw.na)), z3.ForAll([k], zb(
            bimp(band(k >= 0, rlt(k, a.n)), band(bnot(gk.na), c)))))))
        r = Num(gw.v, band(bnot(q), gw.pi), band(bnot(q), gw.ni), q, gw.isint)
    if not isc(r.v) and z3.is_app(r.v) and r.v.decl().eq(EXP):
        if key:
            ctx.cache[key] = r
        return r
    v = ctx.fresh("max" if ismax else "min", I_ if r.isint and not isc(r.v) and r.v.sort() == I_ else R)
    ctx.fact(req(v, r.v))
    out = Num(v, r.pi, r.ni, r.na, r.isint)
    # witnesses at the ends help proofs about first and last elements
    for e in (0, rsub(a.n, 1)):
        ge = num(g(e))
        c = le(ge, out) if ismax else le(out, ge)
        ctx.fact(bor(out.na, c))
    if key:
        ctx.cache[key] = out
    return out


class SumRec:
    def __init__(self, s, n, get, label):
        self.s, self.n, self.get, self.label = s, n, get, label


def asum(I, a, label="sum"):
    """sum of the elements"""
    ctx = I.ctx
    if isinstance(a, Mat):
        raise Unsupported("sum of a matrix")
    a = as_arr(I, a) if not isinstance(a, Arr) else a
    if isinstance(a.n, int) and a.n <= 64:
        r = num(0)
        for k in range(a.n):
            r = add(r, num(a.get(k)))
        return r
    g = snap(I, a)
    return sum_closure(I, a.n, lambda k: num(g(k)), label)


def sum_closure(I, n, g, label="sum"):
    ctx = I.ctx
    if isinstance(n, int) and n <= 64:
        r = num(0)
        for k in range(n):
            r = add(r, g(k))
        return r
    p = g(z3.Int("probe"))
    isint = p.isint
    s = ctx.fresh(label, I_ if isint and is_int_raw(p.v) else R)
    ctx.fact(z3.Implies(zb(rle(n, 0)), s == 0))
    if p.plain:
        ctx.sums.append(SumRec(s, n, lambda k: g(k).v, label))
        return Num(s, isint=isint)
    pi, ni, na = ctx.fresh("spi", B), ctx.fresh("sni", B), ctx.fresh("sna", B)
    w = ctx.fresh("w", I_)
    bad = z3.Or(pi, ni, na)
    ctx.fact(z3.Implies(bad, zb(band(w >= 0, rlt(w, n), bnot(g(w).fin)))))
    k = z3.Int(ctx.fresh_name("k"))
    ctx.fact(z3.Implies(z3.Not(bad), z3.ForAll([k], zb(bimp(band(k >= 0, rlt(k, n)), g(k).fin)))))
    ctx.fact(z3.And(z3.Not(z3.And(pi, ni)), z3.Not(z3.And(pi, na)), z3.Not(z3.And(ni, na))))
    ctx.sums.append(SumRec(s, n, lambda k: g(k).v, label))
    return Num(s, pi, ni, na, isint=False)


def sum_lemmas(ctx):
    """ground instances: pointwise equal terms have equal sums (all pairs)"""
    out = []
    S = ctx.sums[-14:]
    for i in range(len(S)):
        for j in range(i):
            a, b = S[i], S[j]
            d = z3.Int(ctx.fresh_name("sd"))
            out.append(zb(bor(bnot(req(a.n, b.n)), req(a.s, b.s),
                              band(d >= 0, rlt(d, a.n), bnot(req(a.get(d), b.get(d)))))))
    for a in S:
        d = z3.Int(ctx.fresh_name("sd"))
        out.append(zb(bor(rle(0, a.s), band(d >= 0, rlt(d, a.n), rlt(a.get(d), 0)))))
    return out


def sum_ge_term(I, a, w):
    """lemma: a sum of non-negative terms is at least each of its terms"""
    ctx = I.ctx
    d = z3.Int(ctx.fresh_name("sd"))
    ctx.fact(zb(bor(bnot(band(rle(0, w), rlt(w, a.n))), rle(a.get(w), a.s),
                    band(d >= 0, rlt(d, a.n), rlt(a.get(d), 0)))))


def sum_linear(I, a, coeffs):
    """lemma: if terms(a) = sum c_i terms(b_i) pointwise, so are the sums"""
    ctx = I.ctx
    d = z3.Int(ctx.fresh_name("sd"))
    tot = 0
    pt = 0
    ok = True
    for c, b in coeffs:
        tot = radd(tot, rmul(c, b.s))
        pt = radd(pt, rmul(c, b.get(d)))
        ok = band(ok, req(a.n, b.n))
    ctx.fact(zb(bor(bnot(ok), req(a.s, tot), band(d >= 0, rlt(d, a.n), bnot(req(a.get(d), pt))))))


# ---------------------------------------------------------------- building arrays
def concat(I, arrs):
    ctx = I.ctx
    arrs = [as_arr(I, a) if not isinstance(a, Arr) else a for a in arrs]
    arrs = [a for a in arrs if not (isinstance(a.n, int) and a.n == 0)] or arrs[:1]
    if any(not isinstance(a, Arr) for a in arrs):
        raise Unsupported("concatenation of matrices")
    if len(arrs) == 1:
        a = arrs[0]
        r = Arr(a.n, snap(I, a), a.dtype, "nd" if a.kind != "list" else "list",
                None if a.items is None else list(a.items))
        r.runs = a.total()
        return r
    dt = "f" if any(a.dtype == "f" for a in arrs) else ("o" if any(a.dtype == "o" for a in arrs)
                                                       else ("i" if any(a.dtype == "i" for a in arrs) else "b"))
    if all(a.items is not None for a in arrs):
        its = [x if dt == "o" or dt == "b" else num(x) for a in arrs for x in a.items]
        if dt == "f":
            its = [x.real() for x in its]
        return const_arr(its, "nd", dt)
    offs = []
    off = 0
    for a in arrs:
        offs.append(off)
        off = radd(off, a.n)
    sn = [snap(I, a) for a in arrs]

    def get(k):
        r = sn[-1](rsub(k, offs[-1]))
        for q in range(len(sn) - 2, -1, -1):
            v = sn[q](rsub(k, offs[q]))
            if dt in ("f", "i") and not isinstance(v, Num) and is_scalar(v):
                v = num(v)
            r = merge_val(rlt(k, offs[q + 1]), v, r)
        if dt == "f" and isinstance(r, Num):
            r = r.real()
        return r
    out = Arr(off, get, dt, "nd")
    out.snaps = list(zip([a.n for a in arrs], sn))
    ts = [a.total() for a in arrs]
    if all(t is not None for t in ts):
        out.runs = ts[0]
        for t in ts[1:]:
            out.runs = add(out.runs, t)
    return out


def cast(I, a, dt):
    """astype"""
    if dt is None:
        return a
    path = dt.path if isinstance(dt, Ext) else (dt.name if isinstance(dt, Builtin) else str(dt))
    last = path.split(".")[-1]
    if last in ("float", "float64", "float32", "double", "f8"):
        f, d = (lambda x: num(x).real()), "f"
    elif last in ("int", "int64", "int32", "int8", "intp", "uint8"):
        def f(x):
            x = num(x)
            return Num(rtrunc(x.v) if not isc(x.v) else int(x.v), isint=True)
        d = "i"
    elif last in ("bool", "bool_", "bool8"):
        f, d = (lambda x: x if isinstance(x, (bool, z3.BoolRef)) else bnot(req(num(x).v, 0))), "b"
    elif last in ("object", "object_"):
        return a
    else:
        raise Unsupported(f"dtype {path}")
    if isinstance(a, Arr) and a.dtype == d:
        return Arr(a.n, snap(I, a), d, a.kind, None if a.items is None else list(a.items))
    return elementwise(I, f, [a], d)


def digitize(I, x, edges, right=False):
    """index i with edges[i-1] <= x < edges[i] (right: edges[i-1] < x <= edges[i])"""
    ctx = I.ctx
    scalar = is_scalar(x)
    edges = as_arr(I, edges)
    ge = snap(I, edges)
    m = edges.n
    # numpy requires monotonic edges
    inc = forall_bool(I, lambda k: le(num(ge(k)), num(ge(radd(k, 1)))), rsub(m, 1))
    if inc is False:
        raise Unsupported("digitize with edges that do not increase")
    if inc is not True and not ctx.implied(zb(inc)):
        if ctx.scope or len(ctx.frames) > 1:
            if not ctx.branch(inc):
                raise Unsupported("digitize with edges that do not increase")
        else:
            q_ = z3.Int(ctx.fresh_name("edge"))
            ctx.instantiate(q_)
            ctx.instantiate(q_ - 1)
            ctx.obligation(f"edges increase@{where(I)}", bimp(band(q_ >= 0, rlt(q_, rsub(m, 1))),
                                                              le(num(ge(q_)), num(ge(radd(q_, 1))))))

    def cond_low(v, e):      # e belongs below v
        return lt(num(e), v) if right else le(num(e), v)
    if isinstance(m, int) and m <= 32:
        def one(v):
            v = num(v)
            r = num(0)
            for k in range(m):
                r = add(r, num(cond_low(v, ge(k))))
            return r
        if not scalar:
            xa = as_arr(I, x)
            if not any(isinstance(xa.n, int) for _ in [0]) and m > 0:
                pass
        return elementwise(I, lambda v: one(v), [x], "i")
    nm = ctx.fresh_name("dig")
    if scalar:
        d = ctx.fresh("dig", I_)
        v = num(x)
        _dig_facts(ctx, d, v, ge, m, cond_low)
        return num(d)
    xa = as_arr(I, x)
    gx = snap(I, xa)
    key = None
    if not ctx.scope and len(ctx.frames) == 1:
        p = z3.Int("probe")
        key = ("dig", right) + tuple(z3.simplify(x).sexpr() if isinstance(x, z3.ExprRef) else str(x) for y in (
            num(gx(p)), num(ge(p))) for x in (y.v, y.pi, y.ni, y.na)) + tuple(str(z3.simplify(zi(x))) for x in (xa.n, m))
    if key in ctx.cache:
        fn = ctx.cache[key]
        r = Arr(xa.n, lambda i: num(fn(zi(i))), "i", "nd")
        r.dig = (gx, ge, m, right)
        return r
    fn = ctx.fresh_fun("dig", I_, I_)
    if key:
        ctx.cache[key] = fn
    k = z3.Int(ctx.fresh_name("k"))
    v = num(gx(k))
    d = fn(k)
    q = z3.Int(ctx.fresh_name("q"))
    rng = z3.And(k >= 0, zb(rlt(k, xa.n)))
    ctx.fact(z3.ForAll([k], z3.Implies(rng, z3.And(
        d >= 0, zb(rle(d, m)),
        z3.Implies(d > 0, zb(cond_low(v, ge(d - 1)))),
        z3.Implies(zb(rlt(d, m)), zb(bnot(cond_low(v, ge(d))))))), patterns=[d]))
    if not ctx.scope and len(ctx.frames) == 1:
        # the edges increase, so that d separates all of them
        ctx.digs.append((lambda k_, q_: bimp(band(k_ >= 0, rlt(k_, xa.n), rle(0, q_), rlt(q_, m)), band(
            biff(rlt(q_, fn(k_)), cond_low(num(gx(k_)), ge(q_))), fn(k_) >= 0, rle(fn(k_), m),
            bimp(fn(k_) > 0, cond_low(num(gx(k_)), ge(fn(k_) - 1))),
            bimp(rlt(fn(k_), m), bnot(cond_low(num(gx(k_)), ge(fn(k_))))))), m))
    r = Arr(xa.n, lambda i: num(fn(zi(i))), "i", "nd")
    r.dig = (gx, ge, m, right)
    return r


def _dig_facts(ctx, d, v, ge, m, cond_low):
    q = z3.Int(ctx.fresh_name("q"))
    ctx.fact(z3.And(d >= 0, zb(rle(d, m))))
    ctx.fact(z3.Implies(d > 0, zb(cond_low(v, ge(d - 1)))))
    ctx.fact(z3.Implies(zb(rlt(d, m)), zb(bnot(cond_low(v, ge(d))))))
    ctx.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < d), zb(cond_low(v, ge(q))))))
    ctx.fact(z3.ForAll([q], z3.Implies(z3.And(q >= d, zb(rlt(q, m))), zb(bnot(cond_low(v, ge(q)))))))


def round_half_even(x):
    """nearest integer, as a Num"""
    if x.isint:
        return x
    if isc(x.v) and x.plain:
        return Num(round(Fraction(x.v)), isint=True)
    v = RNDI(zr(x.v))
    return Num(v, x.pi, x.ni, x.na, isint=True)


def around(x, d):
    if isc(x.v) and x.plain:
        s = Fraction(10) ** d
        return Num(T._norm(Fraction(round(Fraction(x.v) * s)) / s), isint=x.isint and d == 0)
    s = T._norm(Fraction(10) ** d)
    return Num(rdiv(zr(RNDI(zr(rmul(x.v, s)))), s), x.pi, x.ni, x.na, isint=False)


def repeat(I, a, reps):
    """np.repeat with one count per element"""
    ctx = I.ctx
    a = as_arr(I, a)
    if is_scalar(reps):
        r = num(reps)
        if isc(r.v) and a.items is not None:
            return const_arr([x for x in a.items for _ in range(int(r.v))], a.kind, a.dtype)
        g = snap(I, a)
        if isinstance(a.n, int) and a.n == 1:
            x = g(0)
            return Arr(r.v, lambda i: x, a.dtype, a.kind)
        raise Unsupported("repeat of an array by a scalar")
    reps = as_arr(I, reps)
    if a.items is not None and reps.items is not None and all(isc(x.v) for x in reps.items):
        if len(a.items) != len(reps.items):
            raise PyExc("ValueError", "operands could not be broadcast together")
        return const_arr([x for x, c in zip(a.items, reps.items) for _ in range(int(c.v))], a.kind, a.dtype)
    if not I.same_len(a.n, reps.n):
        raise PyExc("ValueError", "operands could not be broadcast together")
    g = snap(I, a)
    fl = flat_of(I, a.n, snap_num(I, reps))
    r = Arr(fl.total, lambda j: g(fl.owner(j)), a.dtype, a.kind)
    r.flat = (fl, None)
    return r


def snap_num(I, a):
    g = snap(I, a)
    return lambda k: num(g(k)).v


def flat_of(I, n, cnt):
    """the blocks of these lengths; the same lengths give the same blocks"""
    k = z3.Int("probe")
    key = (zi(n), z3.simplify(zi(cnt(k))))
    for (m, c), fl in I.ctx.flats:
        if m.eq(key[0]) and c.eq(key[1]):
            return fl
    fl = Flat(I, n, cnt)
    I.ctx.flats.append((key, fl))
    return fl


def flatten(I, n, blk, kind, dtype=None):
    """the sequences blk(0), ..., blk(n-1) one after the other"""
    p = blk(z3.Int("probe"))
    if not isinstance(p, Arr):
        raise Unsupported("chain of " + type(p).__name__)
    fl = flat_of(I, n, lambda k: blk(k).n)
    r = Arr(fl.total, lambda p: blk(fl.owner(p)).get(rsub(zi(p), fl.start(fl.owner(p)))), dtype or p.dtype, kind)
    r.flat = (fl, blk)
    return r


class Flat:
    """concatenation of n blocks, block i of length cnt(i) >= 0"""

    def __init__(self, I, n, cnt):
        ctx = I.ctx
        self.n = n
        self.start = ctx.fresh_fun("start", I_, I_)
        self._owner = ctx.fresh_fun("owner", I_, I_)
        self.owner = lambda j: self._owner(zi(j))
        st, ow = self.start, self._owner
        zn = zi(n)
        k, j = z3.Int(ctx.fresh_name("k")), z3.Int(ctx.fresh_name("j"))
        nonneg = forall_bool(I, lambda k: rle(0, cnt(k)), n)
        if nonneg is not True and not ctx.branch(nonneg):
            raise PyExc("ValueError", "counts cannot be negative")
        size = ctx.fresh_fun("size", I_, I_)
        ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zn), z3.And(size(k) == zi(cnt(k)), size(k) >= 0)),
                           patterns=[size(k)]))
        cnt = self.cnt = lambda i: size(zi(i))
        self.total = st(zn)
        ctx.fact(st(z3.IntVal(0)) == 0)
        ctx.fact(st(zn) >= 0)
        ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zn), z3.And(
            st(k + 1) == st(k) + zi(cnt(k)), st(k) >= 0, st(k) <= st(k + 1), st(k + 1) <= st(zn))),
            patterns=[st(k)]))
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < st(zn)), z3.And(
            ow(j) >= 0, ow(j) < zn, st(ow(j)) <= j, j < st(ow(j) + 1),
            st(ow(j) + 1) == st(ow(j)) + zi(cnt(ow(j))))), patterns=[ow(j)]))

    def within(self, k, p):
        """a position between the start of block k and the next one belongs to block k"""
        st = self.start
        return z3.Implies(z3.And(k >= 0, k < zi(self.n), st(k) <= p, p < st(k + 1)), self.owner(p) == k)


# ---------------------------------------------------------------- kinds and isinstance
def type_names(v):
    if isinstance(v, (bool, z3.BoolRef)):
        return {"bool", "int", "Number", "Hashable"}
    if isinstance(v, Num):
        return {"int", "Integral", "Number", "Real"} if v.isint else {"float", "Number", "Real", "float64", "floating"}
    if isinstance(v, (str, SymStr)) or (isinstance(v, Opaque) and isinstance(v.key, tuple)):
        return {"str", "Collection", "Iterable", "Sized", "Sequence"}
    if v is None:
        return {"NoneType"}
    if isinstance(v, Arr):
        if v.kind == "list":
            return {"list", "Collection", "Iterable", "Sized", "Sequence"}
        if v.kind == "series":
            return {"Series", "Collection", "Iterable", "Sized"}
        return {"ndarray", "Collection", "Iterable", "Sized"}
    if isinstance(v, Mat):
        return {"ndarray", "Collection", "Iterable", "Sized"}
    if isinstance(v, PyList):
        return {"list", "Collection", "Iterable", "Sized", "Sequence"}
    if isinstance(v, tuple):
        return {"tuple", "Collection", "Iterable", "Sized", "Sequence"}
    if isinstance(v, PyDict):
        return {"dict", "Collection", "Iterable", "Sized", "Mapping"}
    if isinstance(v, PySet):
        return {"set", "Collection", "Iterable", "Sized"}
    if isinstance(v, DF):
        return {"DataFrame"}
    if isinstance(v, RangeV):
        return {"range", "Collection", "Iterable", "Sized"}
    if isinstance(v, (FuncV, BoundV, Builtin)):
        return {"Callable", "function"}
    return set()


def isinstance_(I, v, t):
    if isinstance(t, tuple):
        r = False
        for x in t:
            r = bor(r, isinstance_(I, v, x))
        return r
    if isinstance(t, ClassV):
        return isinstance(v, Obj) and v.cls.subclass_of(t)
    if isinstance(v, Obj):
        if isinstance(t, Builtin) and t.name == "object":
            return True
        return False
    name = t.name if isinstance(t, Builtin) else (t.path.split(".")[-1] if isinstance(t, Ext) else None)
    if name is None:
        raise Unsupported("isinstance")
    if name == "object":
        return True
    if isinstance(v, Opaque) and not isinstance(v.key, tuple):
        raise Unsupported("type of an opaque value")
    tn = getattr(v, "types", None) or type_names(v)
    return name in tn


# ---------------------------------------------------------------- builtins
def b_len(I, args, kw):
    v = args[0]
    if isinstance(v, (Arr, Mat, SeqV)):
        return num(v.n)
    if isinstance(v, PyList):
        return num(len(v.xs))
    if isinstance(v, (tuple, str)):
        return num(len(v))
    if isinstance(v, PyDict):
        return num(len(v.d))
    if isinstance(v, PySet):
        return num(len(v.xs))
    if isinstance(v, DF):
        return num(v.n)
    if isinstance(v, RangeV):
        return num(I.to_seq(v).n)
    if isinstance(v, Obj):
        m, _ = v.cls.find("__len__")
        if m is not None:
            return I.call(m, [v], {})
    raise PyExc("TypeError", f"object of type {type(v).__name__} has no len()")


def b_range(I, args, kw):
    a = [idx_raw(x) for x in args]
    if len(a) == 1:
        return RangeV(0, a[0])
    return RangeV(*a)


def b_enumerate(I, args, kw):
    s = I.to_seq(args[0])
    st = num(args[1]) if len(args) > 1 else num(kw.get("start", num(0)))
    return SeqV(s.n, lambda i: (num(radd(st.v, i)), s.get(i)))


def b_zip(I, args, kw):
    if not args:
        return PyList([])
    ss = [I.to_seq(a) for a in args]
    n = ss[0].n
    for s in ss[1:]:
        if isc(n) and isc(s.n):
            n = min(n, s.n)
        elif not isc(n) and not isc(s.n) and n.eq(s.n):
            pass
        elif I.ctx.implied(req(n, s.n)):
            pass
        else:
            n = rite(rlt(s.n, n), s.n, n)
    return SeqV(n, lambda i: tuple(s.get(i) for s in ss), "zip")


def b_abs(I, args, kw):
    return elementwise(I, lambda a: nabs(num(a)), [args[0]])


def pymax(I, args, ismax):
    if len(args) == 1:
        v = args[0]
        if isinstance(v, (PyList, tuple)):
            xs = v.xs if isinstance(v, PyList) else list(v)
            if not xs:
                raise PyExc("ValueError", "empty sequence")
            return pymax(I, xs, ismax) if len(xs) > 1 else xs[0]
        if isinstance(v, (Arr,)):
            return minmax(I, v, ismax)
        if isinstance(v, SeqV):
            return minmax(I, Arr(v.n, v.get, "f", "list"), ismax)
        raise PyExc("TypeError", "not iterable")
    if all(is_scalar(a) for a in args):
        r = num(args[0])
        for a in args[1:]:
            a = num(a)
            # python: keeps the first unless the next one is strictly better
            r = nite(lt(r, a) if ismax else lt(a, r), a, r)
        return r
    raise Unsupported("max of non-numbers")


def b_max(I, args, kw):
    if "key" in kw:
        raise Unsupported("max with a key")
    if "default" in kw and len(args) == 1 and isinstance(args[0], Arr):
        if I.ctx.branch(rle(args[0].n, 0)):
            return kw["default"]
    return pymax(I, args, True)


def b_min(I, args, kw):
    if "key" in kw:
        raise Unsupported("min with a key")
    return pymax(I, args, False)


def b_sum(I, args, kw):
    v = args[0]
    start = args[1] if len(args) > 1 else kw.get("start", num(0))
    if isinstance(v, (Arr,)) and v.dtype != "o":
        return add(num(start), asum(I, v))
    s = I.to_seq(v)
    if isinstance(s.n, int):
        r = start
        for i in range(s.n):
            r = binop(I, "Add", r, s.get(i))
        return r
    if isinstance(v, SeqV):
        p = v.get(z3.Int("probe"))
        if is_scalar(p):
            return add(num(start), sum_closure(I, v.n, lambda k: num(v.get(k))))
    raise Unsupported("sum of a symbolic sequence of non-numbers")


def b_int(I, args, kw):
    v = args[0] if args else num(0)
    if isinstance(v, Arr) and v.n == 1:
        v = v.get(0)
    if not is_scalar(v):
        if isinstance(v, str):
            raise Unsupported("int of a string")
        raise PyExc("TypeError", "int()")
    v = num(v)
    if not v.plain:
        if I.ctx.branch(v.na):
            raise PyExc("ValueError", "cannot convert float NaN to integer")
        if I.ctx.branch(bor(v.pi, v.ni)):
            raise PyExc("OverflowError", "cannot convert float infinity to integer")
    return Num(int(v.v) if isc(v.v) else rtrunc(v.v), isint=True)


def b_float(I, args, kw):
    v = args[0] if args else num(0.0)
    if isinstance(v, Arr) and v.n == 1:
        v = v.get(0)
    if isinstance(v, str):
        return num(float(v))
    if not is_scalar(v):
        raise PyExc("TypeError", "float()")
    return num(v).real()


def b_round(I, args, kw):
    x = num(args[0])
    d = args[1] if len(args) > 1 else kw.get("ndigits")
    if d is None:
        if not x.plain:
            if I.ctx.branch(bnot(x.fin)):
                raise PyExc("ValueError", "cannot round")
        r = round_half_even(x)
        round_fact(I, r, x)
        return r
    dd = num(d)
    if not isc(dd.v):
        raise Unsupported("symbolic number of digits")
    return around_fact(I, x, int(dd.v))


def round_fact(I, r, x):
    pass        # see axioms: |RNDI(x) - x| <= 1/2 for every x


def around_fact(I, x, d):
    return around(x, d)


def b_list(I, args, kw):
    if not args:
        return PyList([])
    v = args[0]
    if isinstance(v, Arr):
        return Arr(v.n, snap(I, v), v.dtype, "list", None if v.items is None else list(v.items)) \
            if v.items is None else PyList(v.items)
    s = I.to_seq(v)
    if isinstance(s.n, int):
        return PyList([s.get(i) for i in range(s.n)])
    return I.list_arr(s.n, s.get)


def b_tuple(I, args, kw):
    if not args:
        return ()
    s = I.to_seq(args[0])
    if isinstance(s.n, int):
        return tuple(s.get(i) for i in range(s.n))
    return I.list_arr(s.n, s.get)


def b_dict(I, args, kw):
    d = {}
    if args:
        if isinstance(args[0], PyDict):
            d.update(args[0].d)
        else:
            for p in I.seq_items(args[0]):
                k, v = I.seq_items(p)
                d[I.hashable(k)] = v
    d.update(kw)
    return PyDict(d)


def b_set(I, args, kw):
    if not args:
        return PySet([])
    return PySet([I.hashable(x) for x in I.seq_items(args[0])])


def b_str(I, args, kw):
    v = args[0] if args else ""
    if isinstance(v, (str, SymStr)):
        return v
    if isinstance(v, Num) and v.isconst() and v.plain and v.isint:
        return str(v.v)
    return Opaque(("str", id(v)))


def b_isinstance(I, args, kw):
    return isinstance_(I, args[0], args[1])


def b_hasattr(I, args, kw):
    o, n = args
    if n == "__iter__":
        return isinstance(o, (Arr, Mat, PyList, tuple, PyDict, str, SymStr, PySet, SeqV, RangeV, DF)) or \
            (isinstance(o, Opaque) and isinstance(o.key, tuple)) or \
            (isinstance(o, Obj) and o.cls.find("__iter__")[0] is not None)
    if n == "__len__":
        return isinstance(o, (Arr, Mat, PyList, tuple, PyDict, str, SymStr, PySet, RangeV, DF))
    try:
        I.getattr(o, n)
        return True
    except PyExc as e:
        if e.etype == "AttributeError":
            return False
        raise


def b_getattr(I, args, kw):
    try:
        return I.getattr(args[0], args[1])
    except PyExc as e:
        if e.etype == "AttributeError" and len(args) > 2:
            return args[2]
        raise


def b_setattr(I, args, kw):
    I.setattr(args[0], args[1], args[2])


def b_iter(I, args, kw):
    v = args[0]
    if is_scalar(v) or v is None or isinstance(v, Obj):
        raise PyExc("TypeError", "object is not iterable")
    return v


def b_none(I, args, kw):
    return None


def b_all(I, args, kw):
    v = args[0]
    s = I.to_seq(v)
    if isinstance(s.n, int):
        r = True
        for i in range(s.n):
            r = band(r, I.truth(s.get(i)))
            if r is False:
                return False
        return r
    return forall_bool(I, lambda k: I.truth(s.get(k)), s.n)


def b_any(I, args, kw):
    v = args[0]
    s = I.to_seq(v)
    if isinstance(s.n, int):
        r = False
        for i in range(s.n):
            r = bor(r, I.truth(s.get(i)))
            if r is True:
                return True
        return r
    return exists_bool(I, lambda k: I.truth(s.get(k)), s.n)


def b_type(I, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        return v.cls
    for n in ("bool", "int", "float", "str", "list", "tuple", "dict"):
        if n in type_names(v):
            return BUILTINS[n]
    if isinstance(v, (Arr, Mat)):
        return Ext("numpy.ndarray")
    if v is None:
        return Ext("builtins.NoneType")
    raise Unsupported("type()")


def b_map(I, args, kw):
    f = args[0]
    s = I.to_seq(args[1])
    if isinstance(s.n, int):
        return PyList([I.call(f, [s.get(i)], {}) for i in range(s.n)])
    idx = z3.Int(I.ctx.fresh_name("i"))
    g = I.generic(lambda: I.call(f, [s.get(idx)], {}), idx, band(rle(0, idx), rlt(idx, s.n)), s.n)
    return SeqV(s.n, g)


def b_reversed(I, args, kw):
    s = I.to_seq(args[0])
    return SeqV(s.n, lambda i: s.get(rsub(rsub(s.n, 1), i)))


class Perm:
    def __init__(self, n, p, q):
        self.n, self.p, self.q = n, p, q


def b_sorted(I, args, kw):
    if "key" in kw:
        raise Unsupported("sorted with a key")
    v = args[0]
    s = I.to_seq(v)
    ctx = I.ctx
    if isinstance(s.n, int):
        xs = [s.get(i) for i in range(s.n)]
        if all(isinstance(x, str) for x in xs):
            return PyList(sorted(xs))

        def cv(x):
            if isinstance(x, tuple):
                return tuple(cv(y) for y in x)
            x = num(x)
            if not (isc(x.v) and x.plain):
                raise Unsupported("sorted of symbolic values")
            return x.v
        rev = kw.get("reverse", False)
        order = sorted(range(len(xs)), key=lambda i: cv(xs[i]), reverse=bool(rev))
        return PyList([xs[i] for i in order])
    rev = kw.get("reverse", False)
    if not isinstance(rev, bool):
        raise Unsupported("symbolic reverse")
    pf = ctx.fresh_fun("perm", I_, I_)
    qf = ctx.fresh_fun("iperm", I_, I_)
    zn = zi(s.n)
    k = z3.Int(ctx.fresh_name("k"))
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zn), z3.And(
        pf(k) >= 0, pf(k) < zn, qf(pf(k)) == k)), patterns=[pf(k)]))
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zn), z3.And(
        qf(k) >= 0, qf(k) < zn, pf(qf(k)) == k)), patterns=[qf(k)]))

    def first(x):
        return num(x[0]) if isinstance(x, tuple) else num(x)
    j = z3.Int(ctx.fresh_name("j"))
    a, b = first(s.get(pf(j))), first(s.get(pf(k)))
    c = le(b, a) if rev else le(a, b)
    ctx.fact(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j <= k, k < zn), zb(c)),
                       patterns=[z3.MultiPattern(pf(j), pf(k))]))
    r = Arr(s.n, lambda i: s.get(pf(zi(i))), "o", "list")
    r.perm = Perm(s.n, pf, qf)
    return r


def _b(name, fn):
    return Builtin(name, fn)


def _unsup(name):
    def f(I, args, kw):
        raise Unsupported(f"builtin {name}")
    return f


def b_filter(I, args, kw):
    f, v = args
    s = I.to_seq(v)
    if isinstance(s.n, int):
        return PyList([x for x in [s.get(i) for i in range(s.n)]
                       if I.branch_truth(I.call(f, [x], {}) if f is not None else x)])
    raise Unsupported("filter of a symbolic sequence")


def b_next(I, args, kw):
    s = I.to_seq(args[0])
    if isinstance(s.n, int):
        if s.n == 0:
            if len(args) > 1:
                return args[1]
            raise PyExc("StopIteration", "")
        return s.get(0)
    if I.ctx.branch(rle(s.n, 0)):
        if len(args) > 1:
            return args[1]
        raise PyExc("StopIteration", "")
    return s.get(0)


BUILTINS = {n: _b(n, f) for n, f in {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "abs": b_abs, "max": b_max,
    "min": b_min, "sum": b_sum, "int": b_int, "float": b_float, "round": b_round, "list": b_list,
    "tuple": b_tuple, "dict": b_dict, "set": b_set, "str": b_str, "isinstance": b_isinstance,
    "hasattr": b_hasattr, "getattr": b_getattr, "setattr": b_setattr, "iter": b_iter, "print": b_none,
    "all": b_all, "any": b_any, "type": b_type, "map": b_map, "reversed": b_reversed, "sorted": b_sorted,
    "filter": b_filter, "next": b_next,
    "bool": lambda I, a, k: I.truth(a[0]) if a else False,
    "repr": lambda I, a, k: Opaque(("repr", id(a[0]))),
    "callable": lambda I, a, k: isinstance(a[0], (FuncV, BoundV, Builtin, ClassV)),
    "id": _unsup("id"), "super": _unsup("super"), "property": lambda I, a, k: PropV(a[0]),
    "staticmethod": _unsup("staticmethod"), "classmethod": _unsup("classmethod"), "object": _unsup("object"),
    "vars": lambda I, a, k: PyDict(a[0].fields),
    "pow": lambda I, a, k: binop(I, "Pow", a[0], a[1]),
    "frozenset": b_set,
}.items()}


# ---------------------------------------------------------------- numpy
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


CONSTS = {"numpy.inf": INF, "numpy.Inf": INF, "numpy.nan": NAN, "numpy.NaN": NAN, "math.inf": INF,
          "math.nan": NAN, "numpy.newaxis": None, "numpy.NINF": NINF, "numpy.NAN": NAN,
          "numpy.pi": Num(PI, isint=False), "math.pi": Num(PI, isint=False), "numpy.infty": INF}


def ext_attr(path):
    if path in CONSTS:
        return CONSTS[path]
    return Ext(path)


def call_ext(I, path, args, kw):
    f = EXT.get(path)
    if f is None:
        last = path.split(".")[-1]
        if last in EXC_BASE:
            return PyExc(last, "")
        raise Unsupported(f"external function {path}")
    I.ext_used.add(path)
    return f(I, args, kw)


def unary(path, fn, dtype=None):
    def f(I, args, kw):
        v = args[0]
        if isinstance(v, tuple):
            v = as_arr(I, v)
        return elementwise(I, lambda a: fn(num(a)), [v], dtype)
    for p in (path if isinstance(path, (list, tuple)) else [path]):
        EXT[p] = f


def nsign(a):
    if isc(a.v) and a.plain:
        return Num((a.v > 0) - (a.v < 0), isint=a.isint)
    v = rite(bor(a.pi, band(a.fin, rlt(0, a.v))), 1, rite(bor(a.ni, band(a.fin, rlt(a.v, 0))), -1, 0))
    return Num(v, False, False, a.na, a.isint)


unary(["numpy.log", "math.log"], log, "f")
unary("numpy.log10", lambda a: div(log(a), Num(LOG(zr(10)), isint=False)), "f")
unary(["numpy.exp", "math.exp"], exp, "f")
unary(["numpy.sqrt", "math.sqrt"], sqrt, "f")


def sqrt_of_count(I, args, kw, general=EXT["numpy.sqrt"]):
    r = general(I, args, kw)
    if isinstance(args[0], Num) and args[0].isint and args[0].plain and not isc(args[0].v):
        I.ctx.assume(bimp(rle(1, args[0].v), rle(1, r.v)))
    return r


EXT["numpy.sqrt"] = EXT["math.sqrt"] = sqrt_of_count
unary(["numpy.abs", "numpy.absolute", "numpy.fabs", "math.fabs"], nabs)
unary("numpy.sign", nsign)
unary("numpy.isnan", lambda a: a.na, "b")
unary("math.isnan", lambda a: a.na, "b")
unary("pandas.isna", lambda a: a.na, "b")
unary("numpy.isinf", lambda a: bor(a.pi, a.ni), "b")
unary("numpy.isfinite", lambda a: a.fin, "b")
unary("numpy.sin", lambda a: Num(SIN(zr(a.v)), isint=False), "f")
unary("numpy.cos", lambda a: Num(COS(zr(a.v)), isint=False), "f")
unary("numpy.arcsin", lambda a: Num(ASIN(zr(a.v)), False, False,
                                    bor(bnot(a.fin), rlt(a.v, -1), rlt(1, a.v)), isint=False), "f")
unary("numpy.square", lambda a: mul(a, a))


def _ceil(a):
    v = rceil(a.v)
    return Num(v if isc(v) else zr(v), a.pi, a.ni, a.na, isint=False)


def _floor(a):
    v = rfloor(a.v)
    return Num(v if isc(v) else zr(v), a.pi, a.ni, a.na, isint=False)


unary("numpy.ceil", _ceil, "f")
unary("numpy.floor", _floor, "f")
unary("numpy.trunc", lambda a: Num(rtrunc(a.v), a.pi, a.ni, a.na, isint=False), "f")
EXT["math.ceil"] = lambda I, a, k: Num(rceil(num(a[0]).v), isint=True)
EXT["math.floor"] = lambda I, a, k: Num(rfloor(num(a[0]).v), isint=True)


@ext("numpy.around", "numpy.round", "numpy.round_")
def np_around(I, args, kw):
    d = args[1] if len(args) > 1 else kw.get("decimals", num(0))
    d = num(d)
    if not isc(d.v):
        raise Unsupported("symbolic decimals")
    dd = int(d.v)

    a = args[0]

    def f(x):
        x = num(x)
        if dd == 0:
            r = round_half_even(x)
            return r if x.isint else Num(r.v if isc(r.v) else zr(r.v), r.pi, r.ni, r.na, isint=False)
        return around(x, dd)
    return elementwise(I, f, [np_array(I, [a], {}) if isinstance(a, PyList) or isinstance(a, Arr) and a.dtype == "o" else a])


@ext("numpy.rint")
def np_rint(I, args, kw):
    return np_around(I, [args[0]], {})


def binary(path, fn, dtype=None):
    def f(I, args, kw):
        if len(args) > 2 or "out" in kw or "where" in kw:
            raise Unsupported(f"{path} with out/where")
        a = [as_arr(I, x) if isinstance(x, tuple) else x for x in args]
        return elementwise(I, lambda x, y: fn(num(x), num(y)), a, dtype)
    for p in (path if isinstance(path, (list, tuple)) else [path]):
        EXT[p] = f


binary(["numpy.power", "numpy.float_power", "math.pow"], npow)
binary("numpy.multiply", mul)
binary("numpy.add", add)
binary("numpy.subtract", sub)
binary(["numpy.divide", "numpy.true_divide"], div)
binary("numpy.maximum", nmax)
binary("numpy.minimum", nmin)
binary("numpy.greater", lambda a, b: lt(b, a), "b")
binary("numpy.less", lt, "b")
binary("numpy.greater_equal", lambda a, b: le(b, a), "b")
binary("numpy.less_equal", le, "b")


@ext("numpy.logical_and")
def np_land(I, args, kw):
    return elementwise(I, lambda a, b: band(I.truth(a), I.truth(b)), args, "b")


@ext("numpy.logical_or")
def np_lor(I, args, kw):
    return elementwise(I, lambda a, b: bor(I.truth(a), I.truth(b)), args, "b")


@ext("numpy.logical_not")
def np_lnot(I, args, kw):
    return elementwise(I, lambda a: bnot(I.truth(a)), args, "b")


@ext("numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray")
def np_asarray(I, args, kw):
    v = args[0]
    dt = args[1] if len(args) > 1 else kw.get("dtype")
    if isinstance(v, Mat):
        return v
    if isinstance(v, Arr) and v.kind == "nd":
        if dt is None:
            return v
        return cast(I, v, dt) if not _is_dtype(v, dt) else v
    return np_array(I, [v], {"dtype": dt} if dt is not None else {})


def _is_dtype(a, dt):
    path = dt.path if isinstance(dt, Ext) else (dt.name if isinstance(dt, Builtin) else str(dt))
    last = path.split(".")[-1]
    return (a.dtype == "f" and last in ("float", "float64")) or (a.dtype == "i" and last in ("int", "int64"))


@ext("numpy.array")
def np_array(I, args, kw):
    v = args[0]
    dt = args[1] if len(args) > 1 else kw.get("dtype")
    if is_scalar(v):
        return cast(I, v, dt) if dt is not None else v      # 0-d array: behaves as a scalar
    if isinstance(v, str) or isinstance(v, (SymStr, Opaque)):
        raise PyExc("ValueError", "could not convert string to float")
    if isinstance(v, PyDict) or v is None or isinstance(v, Obj):
        if dt is not None:
            raise PyExc("TypeError", "float() argument")
        raise Unsupported("object array")
    if isinstance(v, Mat):
        r = Mat(v.n, v.m, v._get, v.dtype)
    else:
        a = as_arr(I, v)
        if isinstance(a, Mat):
            r = a
        else:
            if a.dtype == "o":
                return arr_of_seqs(I, a)
            its = None if a.items is None else list(a.items)
            dtt = a.dtype
            if its is not None and dtt in ("f", "i") and any(not isinstance(x, Num) for x in its):
                its = [num(x) for x in its]
            g = snap(I, a)
            if dtt == "f" and its is not None:
                its = [x.real() for x in its]
            r = const_arr(its, "nd", dtt) if its is not None else Arr(a.n, g, dtt, "nd")
            for at in ("flat", "filt", "filt_of", "perm", "maskarr", "dig"):
                if hasattr(a, at):
                    setattr(r, at, getattr(a, at))
    if dt is not None:
        if isinstance(r, Mat):
            return r
        return cast(I, r, dt)
    return r


def arr_of_seqs(I, a):
    """array of a symbolic list of tuples / equally long rows: a matrix"""
    p = a.get(z3.Int("probe"))
    if not I.ctx.implied(rlt(0, a.n)) and not I.ctx.branch(rlt(0, a.n)):
        return const_arr([])
    if isinstance(p, PyList):
        g0 = a._get
        a = Arr(a.n, lambda i: tuple(g0(i).xs), "o", "list")
        p = tuple(p.xs)
    if isinstance(p, tuple) and all(is_scalar(x) for x in p):
        g = snap(I, a)
        m = len(p)

        def get(i, j):
            t = g(i)
            if isinstance(j, int):
                return num(t[j])
            return const_arr([num(x) for x in t]).get(j)
        return Mat(a.n, m, get)
    raise Unsupported("array of objects")


@ext("numpy.atleast_1d")
def np_atleast1d(I, args, kw):
    v = args[0]
    if isinstance(v, Arr) and v.kind == "nd":
        return v
    return np_array(I, [v], {}) if not is_scalar(v) else const_arr([v])


@ext("numpy.ravel")
def np_ravel(I, args, kw):
    return np_asarray(I, [args[0]], {})


@ext("numpy.copy")
def np_copy(I, args, kw):
    return np_array(I, [args[0]], {})


def _shape(I, v):
    if isinstance(v, tuple):
        if len(v) == 1:
            return (idx_raw(v[0]),)
        return tuple(idx_raw(x) for x in v)
    if isinstance(v, PyList):
        return tuple(idx_raw(x) for x in v.xs)
    return (idx_raw(v),)


def _filled(I, shape, val, dt):
    d = "f"
    if dt is not None:
        path = dt.path if isinstance(dt, Ext) else (dt.name if isinstance(dt, Builtin) else str(dt))
        last = path.split(".")[-1]
        d = "i" if last.startswith("int") or last == "intp" else ("b" if last.startswith("bool") else "f")
    s = _shape(I, shape)
    for x in s:
        if not isc(x) and not I.ctx.implied(rle(0, x)):
            if I.ctx.branch(rlt(x, 0)):
                raise PyExc("ValueError", "negative dimensions are not allowed")
    if len(s) == 1:
        n = s[0]
        if isinstance(n, int) and n <= 64:
            return const_arr([val(k) for k in range(n)], "nd", d)
        return Arr(n, val, d, "nd")
    if len(s) == 2:
        return Mat(s[0], s[1], lambda i, j: val(i), d)
    raise Unsupported("3-D array")


def _conv(dt, v):
    if dt is None:
        return v
    return v


@ext("numpy.zeros")
def np_zeros(I, args, kw):
    dt = args[1] if len(args) > 1 else kw.get("dtype")
    r = _filled(I, args[0] if args else kw["shape"], lambda k: num(0.0), dt)
    if isinstance(r, Arr) and r.dtype == "i":
        return const_arr([num(0)] * r.n, "nd", "i") if r.items is not None else Arr(r.n, lambda k: num(0), "i")
    if isinstance(r, Arr) and r.dtype == "b":
        return const_arr([False] * r.n, "nd", "b") if r.items is not None else Arr(r.n, lambda k: False, "b")
    return r


@ext("numpy.ones")
def np_ones(I, args, kw):
    dt = args[1] if len(args) > 1 else kw.get("dtype")
    r = _filled(I, args[0] if args else kw["shape"], lambda k: num(1.0), dt)
    if isinstance(r, Arr) and r.dtype == "b":
        return const_arr([True] * r.n, "nd", "b") if r.items is not None else Arr(r.n, lambda k: True, "b")
    return r


@ext("numpy.full")
def np_full(I, args, kw):
    fill = args[1] if len(args) > 1 else kw["fill_value"]
    dt = args[2] if len(args) > 2 else kw.get("dtype")
    v = fill
    r = _filled(I, args[0] if args else kw["shape"], lambda k: v, dt)
    if dt is None and isinstance(fill, (bool, z3.BoolRef)):
        r.dtype = "b"
    if dt is None and isinstance(fill, Num) and fill.isint:
        r.dtype = "i"
    return r


@ext("numpy.empty")
def np_empty(I, args, kw):
    dt = args[1] if len(args) > 1 else kw.get("dtype")
    nm = I.ctx.fresh_fun("empty", I_, R)
    nmi = I.ctx.fresh_fun("emptyi", I_, I_)
    r = _filled(I, args[0] if args else kw["shape"], lambda k: num(nm(zi(k))), dt)
    if isinstance(r, Arr) and r.dtype == "i":
        g = lambda k: num(nmi(zi(k)))
        return Arr(r.n, g, "i", "nd", None if r.items is None else [g(k) for k in range(r.n)])
    return r


def _like(v):
    return v.n if isinstance(v, Arr) else None


@ext("numpy.zeros_like")
def np_zeros_like(I, args, kw):
    a = args[0]
    dt = kw.get("dtype")
    if isinstance(a, Mat):
        return Mat(a.n, a.m, lambda i, j: num(0.0))
    a = as_arr(I, a)
    r = np_zeros(I, [num(a.n)], {"dtype": dt} if dt is not None else {})
    if dt is None:
        r.dtype = a.dtype
    return r


@ext("numpy.ones_like")
def np_ones_like(I, args, kw):
    a = as_arr(I, args[0])
    r = np_ones(I, [num(a.n)], kw)
    if kw.get("dtype") is None:
        r.dtype = a.dtype
    return r


@ext("numpy.empty_like")
def np_empty_like(I, args, kw):
    a = as_arr(I, args[0])
    r = np_empty(I, [num(a.n)], kw)
    return r


@ext("numpy.full_like")
def np_full_like(I, args, kw):
    a = as_arr(I, args[0])
    v = args[1] if len(args) > 1 else kw["fill_value"]
    r = np_full(I, [num(a.n), v], {"dtype": kw["dtype"]} if "dtype" in kw else {})
    if "dtype" not in kw:
        r.dtype = a.dtype
    return r


@ext("numpy.arange")
def np_arange(I, args, kw):
    a = [num(x) for x in args]
    if all(x.isint for x in a):
        r = b_range(I, a, {})
        s = I.to_seq(r)
        return Arr(s.n, s.get, "i", "nd", [s.get(i) for i in range(s.n)] if isinstance(s.n, int) else None)
    raise Unsupported("float arange")


@ext("numpy.linspace")
def np_linspace(I, args, kw):
    a = args[0] if args else kw["start"]
    b = args[1] if len(args) > 1 else kw["stop"]
    n = args[2] if len(args) > 2 else kw.get("num", num(50))
    a, b, nn = num(a), num(b), idx_raw(n)
    if isc(nn) and nn < 0 or (not isc(nn) and not I.ctx.implied(rle(0, nn)) and I.ctx.branch(rlt(nn, 0))):
        raise PyExc("ValueError", "Number of samples must be non-negative")

    def get(k):
        if isc(nn):
            d = max(nn - 1, 1)
        else:
            d = rsub(nn, 1)
        f = div(num(k).real() if isc(k) else num(zr(k)), num(d).real() if isc(d) else num(zr(d))) \
            if not isc(d) else num(rdiv(k, d))
        if not isc(d):
            f = num(rdiv(zr(k), rite(req(d, 0), 1, zr(d))))
        return add(a, mul(f, sub(b, a)))
    items = [get(k) for k in range(nn)] if isc(nn) and nn <= 64 else None
    r = Arr(nn, get, "f", "nd", items)
    return r


@ext("numpy.hstack", "numpy.concatenate")
def np_hstack(I, args, kw):
    v = args[0]
    xs = I.seq_items(v)
    xs = [np_array(I, [x], {}) if not is_scalar(x) else const_arr([x]) for x in xs]
    if any(isinstance(x, Mat) for x in xs):
        raise Unsupported("hstack of matrices")
    r = concat(I, xs)
    r.kind = "nd"
    return r


@ext("numpy.append")
def np_append(I, args, kw):
    if len(args) > 2 or kw:
        raise Unsupported("append along an axis")
    r = concat(I, [np_array(I, [x], {}) if not is_scalar(x) else const_arr([x]) for x in args])
    r.kind = "nd"
    return r


@ext("numpy.insert")
def np_insert(I, args, kw):
    a, pos, v = args[:3]
    a = as_arr(I, a)
    p = idx_raw(pos)
    if not isc(p):
        raise Unsupported("insert at a symbolic position")
    lo = load_arr(I, a, slice(None, num(p), None))
    hi = load_arr(I, a, slice(num(p), None, None))
    r = concat(I, [lo, as_arr(I, v), hi])
    r.dtype = a.dtype
    r.kind = "nd"
    return r


@ext("numpy.vstack", "numpy.stack")
def np_vstack(I, args, kw):
    return to_mat(I, I.seq_items(args[0]))


@ext("numpy.column_stack")
def np_column_stack(I, args, kw):
    m = to_mat(I, I.seq_items(args[0]))
    return transpose(m)


def transpose(m):
    g = m._get
    return Mat(m.m, m.n, lambda i, j: g(j, i), m.dtype)


@ext("numpy.transpose")
def np_transpose(I, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        return v
    if isinstance(v, (tuple, PyList)):
        v = as_arr(I, v)
    return transpose(v) if isinstance(v, Mat) else v


@ext("numpy.diff")
def np_diff(I, args, kw):
    a = as_arr(I, args[0])
    if len(args) > 1 or kw:
        raise Unsupported("diff options")
    g = snap(I, a)
    if isinstance(a.n, int):
        return const_arr([sub(num(g(i + 1)), num(g(i))) for i in range(max(a.n - 1, 0))], "nd", a.dtype)
    n = rsub(a.n, 1)
    if not I.ctx.implied(rle(0, n)):
        n = rite(rlt(n, 0), 0, n)
    return Arr(n, lambda i: sub(num(g(radd(i, 1))), num(g(i))), a.dtype, "nd")


def reduction(ismax):
    def f(I, args, kw):
        a = args[0]
        ax = args[1] if len(args) > 1 else kw.get("axis")
        if isinstance(a, Mat) or (isinstance(a, PyList) and a.xs and not is_scalar(a.xs[0])):
            m = a if isinstance(a, Mat) else as_arr(I, a)
            return mat_reduce(I, m, ax, nmax if ismax else nmin)
        if is_scalar(a):
            return a
        return minmax(I, a, ismax)
    return f


def mat_reduce(I, m, ax, op):
    if ax is None:
        raise Unsupported("reduction of a matrix")
    k = int(num(ax).v)
    g = m._get
    if k == 0 and isinstance(m.n, int):
        if m.n == 0:
            raise PyExc("ValueError", "zero-size array")

        def get(j):
            r = num(g(0, j))
            for i in range(1, m.n):
                r = op(r, num(g(i, j)))
            return r
        return Arr(m.m, get, m.dtype, "nd", [get(j) for j in range(m.m)] if isinstance(m.m, int) else None)
    if k in (1, -1) and isinstance(m.m, int):
        def get(i):
            r = num(g(i, 0))
            for j in range(1, m.m):
                r = op(r, num(g(i, j)))
            return r
        return Arr(m.n, get, m.dtype, "nd", [get(i) for i in range(m.n)] if isinstance(m.n, int) else None)
    raise Unsupported("reduction along a symbolic axis")


EXT["numpy.max"] = EXT["numpy.amax"] = reduction(True)
EXT["numpy.min"] = EXT["numpy.amin"] = reduction(False)


def _nanmm(ismax):
    def f(I, args, kw):
        a = as_arr(I, args[0])
        p = num(a.get(z3.Int("probe"))) if a.items is None else None
        if p is not None and p.na is False:
            return minmax(I, a, ismax)
        raise Unsupported("nanmax of values that may be nan")
    return f


EXT["numpy.nanmax"], EXT["numpy.nanmin"] = _nanmm(True), _nanmm(False)


@ext("numpy.sum")
def np_sum(I, args, kw):
    a = args[0]
    ax = args[1] if len(args) > 1 else kw.get("axis")
    if is_scalar(a):
        return num(a)
    if isinstance(a, Mat):
        return mat_reduce(I, a, ax, add)
    if isinstance(a, Arr) and a.dtype == "b":
        g = snap(I, a)
        return sum_closure(I, a.n, lambda k: num(g(k)))
    return asum(I, a)


@ext("numpy.prod")
def np_prod(I, args, kw):
    a = as_arr(I, args[0])
    if isinstance(a.n, int):
        r = num(1)
        for k in range(a.n):
            r = mul(r, num(a.get(k)))
        return r
    raise Unsupported("product of a symbolic array")


@ext("numpy.cumsum")
def np_cumsum(I, args, kw):
    a = as_arr(I, args[0])
    g = snap(I, a)
    if isinstance(a.n, int) and a.n <= 64:
        out, r = [], num(0)
        for k in range(a.n):
            r = add(r, num(g(k)))
            out.append(r)
        return const_arr(out, "nd", a.dtype)
    p = num(g(z3.Int("probe")))
    if not p.plain:
        raise Unsupported("cumulative sum of infinities")
    isint = p.isint and is_int_raw(p.v)
    key = (zi(a.n), z3.simplify(zi(p.v) if isint else zr(p.v)))
    for (m, c), fl in I.ctx.flats:
        if m.eq(key[0]) and c.eq(key[1]):
            return Arr(a.n, lambda i: Num(fl.start(zi(i)) + zi(fl.cnt(i)), isint=True), a.dtype, "nd")
    for (m, c), r in I.ctx.cums:
        if m.eq(key[0]) and c.eq(key[1]):
            return Arr(r.n, r._get, r.dtype, "nd")
    if isc(p.v):
        return Arr(a.n, lambda i: Num(rmul(radd(zi(i), 1), p.v), isint=p.isint), a.dtype, "nd")
    S = I.ctx.fresh_fun("cum", I_, I_ if isint else R)
    k = z3.Int(I.ctx.fresh_name("k"))
    ex = lambda t: zi(t) if isint else zr(t)
    zn = zi(a.n)
    I.ctx.fact(z3.Implies(zn > 0, S(z3.IntVal(0)) == ex(num(g(0)).v)))
    I.ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 1, k < zn), S(k) == S(k - 1) + ex(num(g(k)).v)),
                         patterns=[S(k)]))
    r = Arr(a.n, lambda i: Num(S(zi(i)), isint=p.isint), a.dtype, "nd")
    r.cum = (S, a.n, lambda k: num(g(k)).v)
    I.ctx.cums.append((key, Arr(r.n, r._get, r.dtype)))
    return r


@ext("numpy.mean", "numpy.average")
def np_mean(I, args, kw):
    a = as_arr(I, args[0])
    w = kw.get("weights")
    if w is not None:
        wa = as_arr(I, w)
        return div(asum(I, binop(I, "Mult", a, wa)), asum(I, wa))
    s = asum(I, a)
    if not isc(a.n) and s.plain and I.ctx.implied(rlt(0, a.n)):
        return Num(zr(s.v) / zr(a.n), isint=False)
    return div(s, num(zr(a.n)) if not isc(a.n) else num(a.n))


@ext("numpy.all")
def np_all(I, args, kw):
    v = args[0]
    if isinstance(v, Mat):
        raise Unsupported("all of a matrix")
    if is_scalar(v):
        return I.truth(v)
    return b_all(I, [v], {})


@ext("numpy.any")
def np_any(I, args, kw):
    v = args[0]
    if is_scalar(v):
        return I.truth(v)
    return b_any(I, [v], {})


@ext("numpy.array_equal")
def np_array_equal(I, args, kw):
    a, b = args
    if is_scalar(a) and is_scalar(b):
        return eq(num(a), num(b))
    if isinstance(a, (str, SymStr, Opaque)) or a is None or isinstance(b, (str, SymStr, Opaque)) or b is None:
        return eq_atoms(a, b)
    try:
        a = as_arr(I, a) if not isinstance(a, Mat) else a
        b = as_arr(I, b) if not isinstance(b, Mat) else b
    except Unsupported:
        raise
    if isinstance(a, Arr) and isinstance(b, Arr):
        if isinstance(a.n, int) and isinstance(b.n, int):
            if a.n != b.n:
                return False
            return band(*[eq(num(a.get(i)), num(b.get(i))) for i in range(a.n)])
        return all_equal(I, SeqV(a.n, snap(I, a)), SeqV(b.n, snap(I, b)))
    raise Unsupported("array_equal of matrices")


@ext("numpy.where")
def np_where(I, args, kw):
    if len(args) == 1:
        m = args[0]
        if not isinstance(m, Arr):
            raise Unsupported("where of a non-array")
        if m.dtype != "b":
            m = elementwise(I, lambda a: bnot(req(num(a).v, 0)), [m], "b")
        return (filter_index_arr(I, m),)
    c, a, b = args
    return elementwise(I, lambda c, x, y: merge_val(I.truth(c), num(x) if is_scalar(x) else x,
                                                     num(y) if is_scalar(y) else y), [c, a, b])


@ext("numpy.nonzero", "numpy.flatnonzero")
def np_nonzero(I, args, kw):
    r = np_where(I, args, kw)
    return r


EXT["numpy.flatnonzero"] = lambda I, a, k: np_where(I, a, k)[0]


@ext("numpy.argwhere")
def np_argwhere(I, args, kw):
    raise Unsupported("argwhere")


@ext("numpy.modf")
def np_modf(I, args, kw):
    a = args[0]

    def ip(x):
        x = num(x)
        t = rtrunc(x.v)
        return Num(t if isc(t) else zr(t), x.pi, x.ni, x.na, isint=False)

    def fp(x):
        x = num(x)
        t = rtrunc(x.v)
        if not x.plain:
            return Num(rite(x.fin, rsub(x.v, t if isc(t) else zr(t)), 0), False, False, x.na, isint=False)
        return Num(rsub(x.v, t if isc(t) else zr(t)), isint=False)
    return (elementwise(I, fp, [a], "f"), elementwise(I, ip, [a], "f"))


@ext("numba.typed.Dict.empty")
def nb_dict(I, args, kw):
    return PyDict({})


@ext("numpy.repeat")
def np_repeat(I, args, kw):
    return repeat(I, args[0], args[1] if len(args) > 1 else kw["repeats"])


@ext("numpy.digitize")
def np_digitize(I, args, kw):
    r = kw.get("right", args[2] if len(args) > 2 else False)
    return digitize(I, args[0], args[1] if len(args) > 1 else kw["bins"], bool(r))


@ext("numpy.searchsorted")
def np_searchsorted(I, args, kw):
    side = kw.get("side", args[2] if len(args) > 2 else "left")
    return digitize(I, args[1], args[0], side == "left")


@ext("numpy.delete")
def np_delete(I, args, kw):
    a, ix = as_arr(I, args[0]), args[1]
    mask = getattr(ix, "maskarr", None) if isinstance(ix, Arr) else None
    if isinstance(ix, Arr) and ix.dtype == "b":
        mask = ix
    if mask is not None:
        neg_ = elementwise(I, lambda m: bnot(m), [mask], "b")
        return filter_arr(I, a, neg_)
    if isinstance(ix, Num):
        i = check_index(I, idx_raw(ix), a.n)
        g = snap(I, a)
        n = rsub(a.n, 1)
        get = lambda k: merge_val(rlt(k, i), g(k), g(radd(k, 1)))
        items = [get(k) for k in range(n)] if isinstance(n, int) and isc(i) else None
        return Arr(n, get, a.dtype, a.kind, items)
    raise Unsupported("delete")


@ext("numpy.nan_to_num")
def np_nan_to_num(I, args, kw):
    nanv = kw.get("nan", num(0.0))

    def f(x):
        x = num(x)
        big = num(1.7976931348623157e308)
        r = nite(x.na, num(nanv), Num(x.v, isint=False))
        if x.pi is not False:
            r = nite(x.pi, num(kw.get("posinf") or big), r)
        if x.ni is not False:
            r = nite(x.ni, num(kw.get("neginf") or neg(big)), r)
        return r
    return elementwise(I, f, [args[0]])


@ext("numpy.sort")
def np_sort(I, args, kw):
    a = args[0]
    r = b_sorted(I, [a], {})
    return np_array(I, [r], {}) if isinstance(r, PyList) else Arr(r.n, r._get, as_arr(I, a).dtype, "nd")


@ext("numpy.isclose")
def np_isclose(I, args, kw):
    rtol = num(kw.get("rtol", num(1e-5)))
    atol = num(kw.get("atol", num(1e-8)))

    def f(a, b):
        a, b = num(a), num(b)
        return bor(eq(a, b), band(a.fin, b.fin, le(nabs(sub(a, b)), add(atol, mul(rtol, nabs(b))))))
    return elementwise(I, f, args[:2], "b")


@ext("numpy.allclose")
def np_allclose(I, args, kw):
    r = np_isclose(I, args, kw)
    return r if is_scalar(r) else b_all(I, [r], {})


@ext("numpy.isscalar")
def np_isscalar(I, args, kw):
    return isinstance(args[0], (Num, bool, z3.BoolRef, str))


@ext("numpy.size")
def np_size(I, args, kw):
    return value_attr(I, as_arr(I, args[0]), "size")


@ext("numpy.count_nonzero")
def np_count_nonzero(I, args, kw):
    return np_sum(I, [elementwise(I, lambda a: a if isinstance(a, (bool, z3.BoolRef)) else bnot(req(num(a).v, 0)),
                                  [args[0]], "b")], {})


@ext("numpy.clip")
def np_clip(I, args, kw):
    a, lo, hi = args
    r = a
    if lo is not None:
        r = EXT["numpy.maximum"](I, [r, lo], {})
    if hi is not None:
        r = EXT["numpy.minimum"](I, [r, hi], {})
    return r


@ext("numpy.float64", "numpy.float32")
def np_float64(I, args, kw):
    return b_float(I, args, kw)


@ext("numpy.int64", "numpy.int32", "numpy.int8")
def np_int64(I, args, kw):
    return b_int(I, args, kw)


@ext("numba.prange")
def nb_prange(I, args, kw):
    return b_range(I, args, kw)


@ext("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings", "logging.getLogger")
def w_warn(I, args, kw):
    return None


@ext("typing.cast")
def t_cast(I, args, kw):
    return args[1]


@ext("typing.TypeVar")
def t_typevar(I, args, kw):
    return Opaque(("typevar", args[0]))


@ext("copy.copy")
def c_copy(I, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        m, _ = v.cls.find("__copy__")
        if m is not None:
            return I.call(m, [v], {})
        return Obj(v.cls, v.fields)
    if isinstance(v, Arr):
        return Arr(v.n, snap(I, v), v.dtype, v.kind, None if v.items is None else list(v.items))
    if isinstance(v, PyList):
        return PyList(v.xs)
    if isinstance(v, PyDict):
        return PyDict(v.d)
    if isinstance(v, DF):
        return DF(v.n, v.cols, v.attrs)
    if isinstance(v, Mat):
        return Mat(v.n, v.m, v._get, v.dtype)
    return v


@ext("copy.deepcopy")
def c_deepcopy(I, args, kw):
    v = args[0]
    if isinstance(v, Obj):
        return Obj(v.cls, {k: c_deepcopy(I, [x], {}) for k, x in v.fields.items()})
    if isinstance(v, PyList):
        return PyList([c_deepcopy(I, [x], {}) for x in v.xs])
    if isinstance(v, PyDict):
        return PyDict({k: c_deepcopy(I, [x], {}) for k, x in v.d.items()})
    if isinstance(v, tuple):
        return tuple(c_deepcopy(I, [x], {}) for x in v)
    return c_copy(I, [v], {})


@ext("pandas.Series")
def pd_series(I, args, kw):
    a = as_arr(I, args[0])
    return Arr(a.n, snap(I, a), a.dtype, "series", None if a.items is None else list(a.items))


@ext("pandas.DataFrame.from_dict")
def pd_from_dict(I, args, kw):
    if len(args) != 1 or kw or not isinstance(args[0], PyDict):
        raise Unsupported("data frame from " + type(args[0]).__name__)
    return pd_dataframe(I, args, kw)


@ext("pandas.DataFrame")
def pd_dataframe(I, args, kw):
    d = args[0] if args else kw.get("data")
    if d is None and not kw and hasattr(I, "empty_frame"):
        return I.empty_frame()
    if isinstance(d, PyDict):
        cols = {}
        n = None
        for k, v in d.d.items():
            if isinstance(v, (Arr, PyList)):
                a = as_arr(I, v)
                if n is None:
                    n = a.n
                elif not I.same_len(n, a.n):
                    raise PyExc("ValueError", "All arrays must be of the same length")
                cols[k] = Arr(a.n, snap(I, a), a.dtype, "series", a.items)
        for k, v in d.d.items():
            if k not in cols:
                if n is None:
                    raise PyExc("ValueError", "If using all scalar values, you must pass an index")
                cols[k] = Arr(n, lambda i, v=v: v, "f" if is_scalar(v) else "o", "series")
        return DF(n, cols, {"_metadata": PyDict({})})
    raise Unsupported("data frame")


@ext("pandas.concat")
def pd_concat(I, args, kw):
    """only as the contract of the task at hand states it"""
    if not hasattr(I, "join_frames") or kw or len(args) != 1:
        raise Unsupported("concat of data frames")
    return I.join_frames(I, I.seq_items(args[0]))


@ext("collections.ChainMap")
def chain_map(I, args, kw):
    if not all(isinstance(a, PyDict) for a in args):
        raise Unsupported("chain of mappings")
    d = {}
    for a in reversed(args):
        d.update(a.d)
    return PyDict(d)


@ext("time.time")
def time_time(I, args, kw):
    return Num(I.ctx.fresh("now", R), isint=False)


@ext("functools.reduce")
def f_reduce(I, args, kw):
    f = args[0]
    s = I.to_seq(args[1])
    if not isinstance(s.n, int):
        raise Unsupported("reduce of a symbolic sequence")
    xs = [s.get(i) for i in range(s.n)]
    if len(args) > 2:
        r = args[2]
    else:
        if not xs:
            raise PyExc("TypeError", "reduce() of empty sequence with no initial value")
        r, xs = xs[0], xs[1:]
    for x in xs:
        r = I.call(f, [r, x], {})
    return r


@ext("itertools.chain.from_iterable")
def it_chain_from(I, args, kw):
    s = I.to_seq(args[0])
    if isinstance(s.n, int):
        return concat_lists(I, [s.get(i) for i in range(s.n)])
    return flatten(I, s.n, lambda k: as_arr(I, s.get(k), "list"), "list")


def zip_longest_rows(I, v, kw):
    """zip_longest(*rows): column j holds the elements j of all rows, or the fill value"""
    s, ctx = I.to_seq(v), I.ctx
    fill = kw.get("fillvalue")
    p = s.get(z3.Int("probe"))
    if not isinstance(p, Arr) or not isinstance(fill, Num):
        raise Unsupported("zip_longest of " + type(p).__name__)
    m, at = ctx.fresh("longest", I_), ctx.fresh("longest_at", I_)
    k = z3.Int(ctx.fresh_name("k"))
    size = lambda i: zi(s.get(i).n)
    ctx.fact(z3.And(m >= 0, z3.Implies(m > 0, z3.And(at >= 0, at < zi(s.n), size(at) == m))))
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(s.n)), size(k) <= m), patterns=[size(k)]))
    return SeqV(m, lambda j: Arr(s.n, lambda i: merge_val(rlt(j, s.get(i).n), num(s.get(i).get(j)), fill), "f", "list"))


@ext("itertools.zip_longest")
def it_zip_longest(I, args, kw):
    """of a fixed number of arrays"""
    rows, fill = [as_arr(I, a) for a in args], kw.get("fillvalue")
    if not rows:
        return SeqV(0, lambda j: PyList([]))
    if not isinstance(fill, Num):
        raise Unsupported("zip_longest without a fill value")
    m = rows[0].n
    for r in rows[1:]:
        m = rite(rle(m, r.n), r.n, m)
    gs = [snap(I, r) for r in rows]
    return SeqV(m, lambda j: PyList([
        num(g(j)) if len(rows) == 1 else merge_val(rlt(j, r.n), num(g(j)), fill) for r, g in zip(rows, gs)]))


@ext("numpy.trim_zeros")
def np_trim_zeros(I, args, kw):
    a = as_arr(I, args[0])
    trim = args[1] if len(args) > 1 else kw.get("trim", "fb")
    if trim != "b":
        raise Unsupported("trim_zeros at the front")
    ctx, g = I.ctx, snap(I, a)
    zero = lambda k: band(num(g(k)).fin, req(num(g(k)).v, 0))
    t, k = ctx.fresh("trimmed", I_), z3.Int(ctx.fresh_name("k"))
    ctx.fact(z3.And(t >= 0, t <= zi(a.n), z3.Implies(t > 0, zb(bnot(zero(t - 1))))))
    ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= t, k < zi(a.n)), zb(zero(k)))))
    return Arr(t, g, a.dtype, "nd")


@ext("itertools.chain")
def it_chain(I, args, kw):
    return concat_lists(I, args)


def concat_lists(I, xs):
    if all(isinstance(x, (PyList, tuple)) for x in xs):
        out = []
        for x in xs:
            out.extend(I.seq_items(x))
        return PyList(out)
    r = concat(I, [as_arr(I, x, "list") for x in xs])
    r.kind = "list"
    return r


@ext("time.sleep")
def time_sleep(I, args, kw):
    return None


class Uniq:
    """the strictly increasing list of the values of an array"""

    def __init__(self, I, n, get, isint):
        ctx = I.ctx
        self.n, self.get = n, get
        S = I_ if isint else R
        self.at = u = ctx.fresh_fun("uniq", I_, S)
        self.src, self.pos = src, pos = ctx.fresh_fun("usrc", I_, I_), ctx.fresh_fun("upos", I_, I_)
        self.m = m = ctx.fresh("uniq_n", I_)
        zn = zi(n)
        j, k = z3.Int(ctx.fresh_name("j")), z3.Int(ctx.fresh_name("k"))
        ctx.fact(z3.And(m >= 0, m <= zn, z3.Implies(zn > 0, m > 0)))
        ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(
            src(j) >= 0, src(j) < zn, u(j) == get(src(j)), pos(src(j)) == j)), patterns=[u(j)]))
        ctx.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zn), z3.And(
            pos(k) >= 0, pos(k) < m, u(pos(k)) == get(k))), patterns=[pos(k)]))
        ctx.fact(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < m), u(j) < u(k)),
                           patterns=[z3.MultiPattern(u(j), u(k))]))


def unique_of(I, n, get, isint):
    key = (zi(n), z3.simplify(get(z3.Int("probe"))))
    for (m, c), u in I.ctx.uniqs:
        if m.eq(key[0]) and c.eq(key[1]):
            return u
    u = Uniq(I, n, get, isint)
    I.ctx.uniqs.append((key, u))
    return u


@ext("numpy.unique")
def np_unique(I, args, kw):
    if kw:
        raise Unsupported("unique with options")
    a = as_arr(I, args[0])
    g = snap(I, a)
    p = num(g(z3.Int("probe"))) if a.items is None else None
    if a.items is not None:
        if not all(isinstance(x, Num) and x.plain for x in a.items):
            raise Unsupported("unique of special values")
        isint = all(x.isint and is_int_raw(x.v) for x in a.items)
        its = list(a.items)
        if len(its) == 1:
            return const_arr(its, "nd", a.dtype)
        base = lambda k: functools.reduce(lambda r, q: rite(req(k, q[0]), q[1].v, r), list(enumerate(its))[:-1],
                                          its[-1].v)
    else:
        if not p.plain:
            raise Unsupported("unique of special values")
        isint = p.isint and is_int_raw(p.v)
        base = lambda k: num(g(k)).v
    get = (lambda k: zi(base(k))) if isint else (lambda k: zr(base(k)))
    u = unique_of(I, a.n, get, isint)
    r = Arr(u.m, lambda i: Num(u.at(zi(i)), isint=isint), a.dtype, "nd")
    r.uniq = u
    return r


# ---------------------------------------------------------------- attributes of values
def meth(f):
    return Builtin(getattr(f, "__name__", "method"), f)


# names that values of these kinds have in Python, numpy and pandas, modelled here or not
ND_NAMES = set("""
    T all any argmax argmin argpartition argsort as_integer_ratio astype base byteswap choose clip compress conj
    conjugate copy ctypes cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten fromhex getfield
    hex imag is_integer item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put
    ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum
    swapaxes take tobytes tofile tolist tostring trace transpose var view
""".split())
PD_NAMES = set("""
    abs add add_prefix add_suffix agg aggregate align apply applymap array asfreq asof assign at at_time attrs
    autocorr axes backfill between between_time bfill bool boxplot case_when cat columns combine combine_first
    compare convert_dtypes corr corrwith count cov cummax cummin describe diff div divide divmod drop
    drop_duplicates droplevel dropna dt dtypes duplicated empty eq equals eval ewm expanding explode factorize ffill
    fillna filter first first_valid_index floordiv from_dict from_records ge get groupby gt hasnans head hist iat
    idxmax idxmin iloc index infer_objects info insert interpolate is_monotonic_decreasing is_monotonic_increasing
    is_unique isetitem isin isna isnull items iterrows itertuples join keys kurt kurtosis last last_valid_index le
    list loc lt map mask median melt memory_usage merge mod mode mul multiply name ne nlargest notna notnull
    nsmallest nunique pad pct_change pipe pivot pivot_table plot pop pow product quantile query radd rank rdiv
    rdivmod reindex reindex_like rename rename_axis reorder_levels replace resample reset_index rfloordiv rmod rmul
    rolling rpow rsub rtruediv sample select_dtypes sem set_axis set_flags set_index shift skew sort_index
    sort_values sparse stack str struct style sub subtract swaplevel tail to_clipboard to_csv to_dict to_excel
    to_feather to_frame to_gbq to_hdf to_html to_json to_latex to_list to_markdown to_numpy to_orc to_parquet
    to_period to_pickle to_records to_sql to_stata to_string to_timestamp to_xarray to_xml transform truediv
    truncate tz_convert tz_localize unique unstack update value_counts values where xs
""".split())


def has_name(o, name):
    """whether the value the model stands for has this attribute"""
    for model, real in ((PySet, set), (PyList, list), (PyDict, dict), (tuple, tuple), ((str, SymStr, Opaque), str)):
        if isinstance(o, model):
            return hasattr(real, name)
    if isinstance(o, Arr) and o.kind == "list":
        return hasattr(list, name)
    if isinstance(o, (Num, bool, z3.BoolRef)):
        return hasattr(float, name) or hasattr(int, name) or name in ND_NAMES
    if isinstance(o, DF) or (isinstance(o, Arr) and o.kind == "series"):
        return name in PD_NAMES or name in ND_NAMES
    if isinstance(o, (Arr, Mat)):
        return name in ND_NAMES
    if isinstance(o, (FuncV, Builtin)):
        return hasattr(has_name, name) or name in ("py_func", "signatures")
    return False


def value_attr(I, o, name, default=UNDEF):
    if isinstance(o, Arr):
        r = arr_attr(I, o, name)
    elif isinstance(o, Mat):
        r = mat_attr(I, o, name)
    elif isinstance(o, PyList):
        r = list_attr(I, o, name)
    elif isinstance(o, PyDict):
        r = dict_attr(I, o, name)
    elif isinstance(o, (str, SymStr, Opaque)):
        r = str_attr(I, o, name)
    elif isinstance(o, DF):
        r = df_attr(I, o, name)
    elif isinstance(o, Stub):
        r = o.attr(I, name)
    elif isinstance(o, Num) or isinstance(o, (bool, z3.BoolRef)):
        r = num_attr(I, o, name)
    elif isinstance(o, tuple):
        r = tuple_attr(I, o, name)
    elif isinstance(o, PySet):
        r = set_attr(I, o, name)
    elif isinstance(o, FuncV):
        r = {"__name__": o.name, "__doc__": ""}.get(name, UNDEF)
    elif isinstance(o, Builtin):
        r = {"__name__": o.name}.get(name, UNDEF)
    elif isinstance(o, PropV):
        r = UNDEF
    elif o is None:
        r = UNDEF
    else:
        raise Unsupported(f"attribute {name} of {type(o).__name__}")
    if r is UNDEF:
        if name == "__class__":
            return b_type(I, [o], {})
        if has_name(o, name):
            raise Unsupported(f"attribute {name} of {type(o).__name__}")
        if default is not UNDEF:
            return default
        raise PyExc("AttributeError", f"{type(o).__name__}.{name}")
    return r


def arr_attr(I, o, name):
    if o.kind == "list":
        def append(I, args, kw):
            I.ctx.log("arr", o)
            n, old = o.n, raw_snap(o)
            v = args[0]
            o.n = radd(n, 1)
            o._get = lambda k: merge_val(req(k, n), v, old(k))
            o.items = None if o.items is None else o.items + [v]
            bump(o)
            note(I, "append", o, n, v)

        def extend(I, args, kw):
            c = concat(I, [o, as_arr(I, args[0], "list")])
            I.ctx.log("arr", o)
            o.n, o._get, o.items = c.n, c._get, c.items
            bump(o)
            note(I, "wall", o)
        def copy(I, args, kw):
            return Arr(o.n, snap(I, o), o.dtype, "list", None if o.items is None else list(o.items))
        r = {"append": append, "extend": extend, "copy": copy}.get(name)
        return meth(r) if r else UNDEF
    if name in ("size",):
        return num(o.n)
    if name == "shape":
        return (num(o.n),)
    if name == "ndim":
        return num(1)
    if name == "T":
        return o
    if name == "dtype":
        return Ext({"f": "numpy.float64", "i": "numpy.int64", "b": "numpy.bool_", "o": "numpy.object_"}[o.dtype])
    if name == "values" and o.kind == "series":
        return mkview(o, o.n, raw_snap(o), o.dtype, "nd", None if o.items is None else list(o.items)) \
            if False else Arr(o.n, raw_snap(o), o.dtype, "nd", None if o.items is None else list(o.items))
    if name == "empty" and o.kind == "series":
        return rle(o.n, 0)
    if name == "iloc" and o.kind == "series":
        return Arr(o.n, raw_snap(o), o.dtype, "nd", o.items)
    if name == "index":
        return UNDEF if o.kind == "nd" else Arr(o.n, lambda i: num(i), "i", "nd")
    F = {
        "ravel": lambda I, a, k: o, "flatten": lambda I, a, k: c_copy(I, [o], {}),
        "copy": lambda I, a, k: c_copy(I, [o], {}),
        "astype": lambda I, a, k: cast(I, o, a[0] if a else k["dtype"]),
        "tolist": lambda I, a, k: PyList(o.items) if o.items is not None else Arr(o.n, snap(I, o), o.dtype, "list"),
        "max": lambda I, a, k: minmax(I, o, True), "min": lambda I, a, k: minmax(I, o, False),
        "sum": lambda I, a, k: np_sum(I, [o], {}), "mean": lambda I, a, k: np_mean(I, [o], {}),
        "all": lambda I, a, k: b_all(I, [o], {}), "any": lambda I, a, k: b_any(I, [o], {}),
        "cumsum": lambda I, a, k: np_cumsum(I, [o], {}),
        "to_numpy": lambda I, a, k: Arr(o.n, snap(I, o), o.dtype, "nd", o.items),
        "fill": lambda I, a, k: store(I, o, slice(None, None, None), a[0]),
        "item": lambda I, a, k: load_arr(I, o, a[0] if a else num(0)),
        "round": lambda I, a, k: np_around(I, [o] + list(a), k),
        "nonzero": lambda I, a, k: np_where(I, [o], {}),
        "clip": lambda I, a, k: np_clip(I, [o] + list(a), k),
        "repeat": lambda I, a, k: repeat(I, o, a[0]),
    }
    if name in F:
        return meth(F[name])
    if name == "reshape":
        return meth(_unsup("reshape"))
    return UNDEF


def mat_attr(I, o, name):
    if name == "T":
        return transpose(o)
    if name == "shape":
        return (num(o.n), num(o.m))
    if name == "size":
        return mul(num(o.n), num(o.m))
    if name == "ndim":
        return num(2)
    if name == "copy":
        return meth(lambda I, a, k: Mat(o.n, o.m, o._get, o.dtype))
    if name == "tolist":
        return meth(lambda I, a, k: PyList([PyList([o.get(i, j) for j in range(o.m)]) for i in range(o.n)])
                    if isinstance(o.n, int) and isinstance(o.m, int) else rows_of(o))
    if name == "flatten":
        return meth(lambda I, a, k: flat_matrix(I, o))
    if name in ("max", "min", "sum", "mean", "ravel", "reshape", "astype"):
        return meth(_unsup(name))
    return UNDEF


def flat_matrix(I, o):
    """the cells row by row; `cells` keeps the matrix for indices that come from rows and columns"""
    g, m = o._get, zi(o.m)
    r = Arr(rmul(o.n, o.m), lambda k: g(zi(k) / m, zi(k) % m), o.dtype, "nd")
    r.cells = (g, o.n, o.m, r._get)
    return r


@ext("numpy.histogram2d")
def np_histogram2d(I, args, kw):
    """only as the contract of the task at hand states it"""
    if not hasattr(I, "histogram2d"):
        raise Unsupported("histogram2d")
    return I.histogram2d(I, args, kw)


@ext("numpy.ravel_multi_index")
def np_ravel_multi_index(I, args, kw):
    at, dims = args[0], args[1]
    if not isinstance(at, tuple) or not isinstance(dims, tuple) or len(at) != 2 or len(dims) != 2 \
            or kw.get("mode", args[2] if len(args) > 2 else "raise") != "clip":
        raise Unsupported("ravel_multi_index")
    at, dims = [as_arr(I, a) for a in at], [num(d).v for d in dims]
    if not I.same_len(at[0].n, at[1].n) or not all(I.ctx.implied(rlt(0, d)) for d in dims):
        raise Unsupported("ravel_multi_index")
    gs = [snap(I, a) for a in at]

    def clip(q):
        def f(k):
            v, d = num(gs[q](k)).v, dims[q]
            return rite(rlt(v, 0), 0, rite(rlt(v, d), v, rsub(d, 1)))
        return f
    i, j = clip(0), clip(1)
    r = Arr(at[0].n, lambda k: Num(radd(rmul(i(k), dims[1]), j(k)), isint=True), "i", "nd")
    r.row_column = (i, j, dims[0], dims[1], r._get)
    return r


def rows_of(o):
    """a matrix as a list of lists"""
    g, m, dt = o._get, o.m, o.dtype
    if isinstance(m, int):
        return Arr(o.n, lambda i: PyList([g(i, j) for j in range(m)]), "o", "list")
    return Arr(o.n, lambda i: Arr(m, lambda j: g(i, j), dt, "list"), "o", "list")


def _raise_unsup(x):
    raise Unsupported(x)


def list_attr(I, o, name):
    def append(I, args, kw):
        I.ctx.log("list", o)
        o.xs = o.xs + [args[0]]

    def extend(I, args, kw):
        I.ctx.log("list", o)
        o.xs = o.xs + list(I.seq_items(args[0]))

    def insert(I, args, kw):
        I.ctx.log("list", o)
        xs = list(o.xs)
        xs.insert(int(num(args[0]).v), args[1])
        o.xs = xs

    def pop(I, args, kw):
        if not o.xs:
            raise PyExc("IndexError", "pop from empty list")
        i = int(num(args[0]).v) if args else -1
        I.ctx.log("list", o)
        xs = list(o.xs)
        v = xs.pop(i)
        o.xs = xs
        return v

    def copy(I, args, kw):
        return PyList(o.xs)

    def index(I, args, kw):
        for i, x in enumerate(o.xs):
            if I.branch_truth(compare(I, "Eq", x, args[0])):
                return num(i)
        raise PyExc("ValueError", "not in list")

    def clear(I, args, kw):
        I.ctx.log("list", o)
        o.xs = []
    r = {"append": append, "extend": extend, "insert": insert, "pop": pop, "copy": copy, "index": index,
         "clear": clear}.get(name)
    if name in ("sort", "reverse", "remove", "count"):
        return meth(_unsup(name))
    return meth(r) if r else UNDEF


def tuple_attr(I, o, name):
    return UNDEF


def set_attr(I, o, name):
    def issubset(I, args, kw):
        return o.xs <= set(I.hashable(x) for x in I.seq_items(args[0]))

    def difference(I, args, kw):
        return PySet(o.xs - set(I.hashable(x) for x in I.seq_items(args[0])))

    def issuperset(I, args, kw):
        return o.xs >= set(I.hashable(x) for x in I.seq_items(args[0]))

    def isdisjoint(I, args, kw):
        return o.xs.isdisjoint([I.hashable(x) for x in I.seq_items(args[0])])

    def union(I, args, kw):
        return PySet(o.xs.union(*([I.hashable(x) for x in I.seq_items(a)] for a in args)))

    def intersection(I, args, kw):
        return PySet(o.xs.intersection(*([I.hashable(x) for x in I.seq_items(a)] for a in args)))
    r = {"issubset": issubset, "issuperset": issuperset, "isdisjoint": isdisjoint, "difference": difference,
         "union": union, "intersection": intersection}.get(name)
    return meth(r) if r else UNDEF


def dict_attr(I, o, name):
    def items(I, args, kw):
        return tuple((I.unhash(k), v) for k, v in o.d.items())

    def keys(I, args, kw):
        return PySet(o.d.keys()) if False else tuple(I.unhash(k) for k in o.d)

    def values(I, args, kw):
        return tuple(o.d.values())

    def get(I, args, kw):
        k = args[0]
        d = args[1] if len(args) > 1 else None
        return o.d.get(I.hashable(k), d)

    def pop(I, args, kw):
        k = I.hashable(args[0])
        if k not in o.d:
            if len(args) > 1:
                return args[1]
            raise PyExc("KeyError", str(k))
        I.ctx.log("dict", o)
        o.d = dict(o.d)
        return o.d.pop(k)

    def update(I, args, kw):
        I.ctx.log("dict", o)
        o.d = dict(o.d)
        if args:
            if isinstance(args[0], PyDict):
                o.d.update(args[0].d)
            else:
                raise Unsupported("dict.update")
        o.d.update(kw)

    def copy(I, args, kw):
        return PyDict(o.d)

    def setdefault(I, args, kw):
        k = I.hashable(args[0])
        if k not in o.d:
            I.ctx.log("dict", o)
            o.d = dict(o.d)
            o.d[k] = args[1] if len(args) > 1 else None
        return o.d[k]
    r = {"items": items, "keys": keys, "values": values, "get": get, "pop": pop, "update": update,
         "copy": copy, "setdefault": setdefault}.get(name)
    return meth(r) if r else UNDEF


def str_attr(I, o, name):
    if name not in dir(str):
        if isinstance(o, Opaque) and not isinstance(o.key, tuple):
            if name in ("strftime", "isoformat"):
                return meth(lambda I, a, k: Opaque(("strftime", id(o))))
        return UNDEF

    def f(I, args, kw):
        if name == "join":
            if isinstance(args[0], (SymStr, Opaque)) or isinstance(args[0], Arr) and not isinstance(args[0].n, int):
                if o == "" and isinstance(args[0], (SymStr, Opaque)):
                    return args[0]
                return Opaque(("join", id(args[0])))
            xs = I.seq_items(args[0])
            if isinstance(o, str) and all(isinstance(x, str) for x in xs):
                return o.join(xs)
            return Opaque(("join", id(o)))
        if isinstance(o, str) and all(isinstance(a, str) for a in args) and not kw:
            r = getattr(o, name)(*args)
            if isinstance(r, list):
                return PyList(r)
            if isinstance(r, int) and not isinstance(r, bool):
                return num(r)
            return r
        if isinstance(o, SymStr):
            if o.other and name in ("lower", "upper", "strip", "replace"):
                return o
            raise Unsupported(f"str.{name} of an unknown string")
        if name == "format":
            return Opaque(("format", id(o)))
        if name in ("replace", "lower", "strip"):
            return o
        raise Unsupported(f"str.{name}")
    return meth(f)


def num_attr(I, o, name):
    if name in ("strftime", "isoformat"):
        return meth(lambda I, a, k: Opaque(("strftime", id(o))))
    if name == "item":
        return meth(lambda I, a, k: o)
    if name == "size":
        return num(1) if True else UNDEF
    if name == "is_integer":
        return meth(lambda I, a, k: is_integer(o))
    if name in ("real",):
        return o
    if name == "astype":
        return meth(lambda I, a, k: cast(I, o, a[0]))
    if name in ("timestamp",):
        return UNDEF
    return UNDEF


def is_integer(o):
    if isc(o.v):
        return is_int_raw(o.v)
    return True if o.v.sort() == I_ else z3.IsInt(o.v)


def df_attr(I, o, name):
    if name in o.attrs:
        return o.attrs[name]
    if name == "columns":
        return PyList(list(o.cols))
    if name in o.cols:
        return o.cols[name]
    if name == "index":
        return Arr(o.n, lambda i: num(i), "i", "nd")
    if name == "shape":
        return (num(o.n), num(len(o.cols)))
    if name == "copy":
        return meth(lambda I, a, k: DF(o.n, o.cols, o.attrs))
    if name == "empty":
        return rle(o.n, 0)
    return UNDEF


ASSUMED = sorted(EXT)


NAMESPACE = ClassV("SimpleNamespace", None, [], {}, [])


@ext("types.SimpleNamespace")
def x_namespace(I, a, k):
    return Obj(NAMESPACE, dict(k))
