"""Values of the symbolic interpreter other than numbers and booleans."""
import z3
from .terms import *
from . import terms as T


class PyExc(Exception):
    """A python exception raised by the interpreted code."""

    def __init__(self, etype, msg=""):
        super().__init__(f"{etype}: {msg}")
        self.etype, self.msg = etype, msg


EXC_BASE = {"ValueError": "Exception", "TypeError": "Exception", "KeyError": "LookupError",
            "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception",
            "AssertionError": "Exception", "NotImplementedError": "RuntimeError",
            "RuntimeError": "Exception", "ZeroDivisionError": "ArithmeticError",
            "OverflowError": "ArithmeticError", "ArithmeticError": "Exception",
            "UnboundLocalError": "NameError", "NameError": "Exception", "UserWarning": "Warning",
            "FutureWarning": "Warning", "Warning": "Exception", "StopIteration": "Exception",
            "Exception": "BaseException", "ValidationError": "ValueError"}


def exc_matches(etype, target):
    while etype is not None:
        if etype == target:
            return True
        etype = EXC_BASE.get(etype)
    return False


_SERIAL = [0]


def serial():
    _SERIAL[0] += 1
    return _SERIAL[0]


class Cells(dict):
    """variables of a scope or fields of an object, with the time of creation"""

    def __init__(self, *a):
        super().__init__(*a)
        self.born = serial()


class Arr:
    """1-D sequence of symbolic length: numpy array, pandas series or python list."""

    def __init__(self, n, get, dtype="f", kind="nd", items=None):
        self.born = serial()
        self.n = n
        self._get = get
        self.dtype = dtype
        self.kind = kind
        self.items = items          # list of values when the length is concrete
        self.views = 0
        self.base = None
        self.filt = None            # Filter whose kept positions this array lists
        self.written = None         # loop summarisation: see interp
        self.label = None
        self.runs = None            # sum of the elements, where it is known in closed form
        self.flat = None            # blocks this array is made of

    def total(self):
        """sum of the elements, or None"""
        if self.items is not None:
            r = T.Num(0)
            for x in self.items:
                if not isinstance(x, T.Num):
                    return None
                r = T.add(r, x)
            return r
        return self.runs if getattr(self, "version", 0) == 0 else None

    def get(self, i):
        if self.items is not None and isinstance(i, int):
            if 0 <= i < len(self.items):
                return self.items[i]
        return self._get(i)

    def __repr__(self):
        return f"Arr(n={self.n}, {self.dtype}, {self.kind})"


class Mat:
    """2-D array: n rows, m columns"""

    def __init__(self, n, m, get, dtype="f", kind="nd"):
        self.born = serial()
        self.n, self.m, self._get, self.dtype, self.kind = n, m, get, dtype, kind
        self.views = 0
        self.base = None
        self.written = None

    def get(self, i, j):
        return self._get(i, j)


class PyList:
    def __init__(self, xs=None):
        self.born = serial()
        self.xs = list(xs or [])

    def __repr__(self):
        return f"PyList({self.xs})"


class PyDict:
    def __init__(self, d=None):
        self.born = serial()
        self.d = dict(d or {})

    def __repr__(self):
        return f"PyDict({self.d})"


class PySet:
    def __init__(self, xs):
        self.xs = set(xs)


class Opaque:
    """A value about which only identity (equality of `key`) is known; of a text also some `pieces` it has"""

    def __init__(self, key, pieces=()):
        self.key, self.pieces = key, pieces

    def __repr__(self):
        return f"Opaque({self.key})"


class SymStr:
    """An unknown string, modelled by an element of an uninterpreted sort."""
    Sort = z3.DeclareSort("Str")
    CONTAINS = z3.Function("CONTAINS", Sort, Sort, z3.BoolSort())
    LIT = {}

    def __init__(self, t, other=False):
        self.t = t
        self.other = other      # known to differ from every literal of the program

    @classmethod
    def lit(cls, s):
        if s not in cls.LIT:
            cls.LIT[s] = z3.Const(f"str:{s}", cls.Sort)
        return cls.LIT[s]

    def __repr__(self):
        return f"SymStr({self.t})"


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SeqV:
    """a lazy sequence (zip, enumerate, generator, ...): n and get"""

    def __init__(self, n, get, kind="seq"):
        self.n, self.get, self.kind = n, get, kind


class Obj:
    """An instance of a class of the program."""
    _c = 0

    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = Cells(fields or {})

    def __repr__(self):
        return f"Obj({self.cls.name})"


class Rec(Obj):
    """an object known by a few numbers only (ghost description), possibly None where `none` holds"""

    def __init__(self, cls, fields, none=False):
        super().__init__(cls, fields)
        self.none = none


class DF:
    """A pandas data frame: named columns of one length, free attributes."""

    def __init__(self, n, cols, attrs=None):
        self.born = serial()
        self.n, self.cols, self.attrs = n, dict(cols), dict(attrs or {})


class Stub:
    """A value of a library whose behaviour a contract file gives; what it does not give is unsupported."""
    types = ()

    def _no(self, what):
        raise Unsupported(f"{what} of {type(self).__name__}")

    def attr(self, I, name):
        self._no("attribute " + name)

    def item(self, I, key):
        self._no("item")

    def store(self, I, key, v):
        self._no("assignment to an item")

    def seq(self, I):
        self._no("iteration")


class ModuleV:
    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return f"ModuleV({self.name})"


class Ext:
    """A name of an external library, resolved when it is called."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"Ext({self.path})"


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"Builtin({self.name})"


class FuncV:
    def __init__(self, node, module, name, closure=None, cls=None, njit=False):
        self.node, self.module, self.name = node, module, name
        self.closure, self.cls, self.njit = closure, cls, njit

    @property
    def key(self):
        q = f"{self.cls.name}.{self.name}" if self.cls is not None else self.name
        return f"{self.module.name}:{q}"

    def __repr__(self):
        return f"FuncV({self.key})"


class BoundV:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV:
    def __init__(self, fn):
        self.fn = fn


class ClassMethodV:
    def __init__(self, fn):
        self.fn = fn


class ClassV:
    def __init__(self, name, module, bases, attrs, fields, dataclass=False, node=None):
        self.name, self.module, self.bases, self.attrs = name, module, bases, attrs
        self.fields = fields          # ordered [(name, default expr or None)] of a dataclass
        self.dataclass = dataclass
        self.node = node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def all_fields(self):
        seen = {}
        for c in reversed(self.mro()):
            for n, d in c.fields:
                seen[n] = (d, c)
        return seen

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"ClassV({self.name})"


class Undefined:
    def __repr__(self):
        return "Undefined"


UNDEF = Undefined()
LOST = Undefined()          # a variable whose value is not followed: reading it is unsupported


# ---------------------------------------------------------------- generic helpers
def subst_raw(t, pairs):
    if isinstance(t, bool) or isc(t):
        return t
    return tidy(z3.substitute(t, *pairs))


def tidy(t):
    """constants in integer sums folded (a substitution leaves k - 1 + 1)"""
    for _ in range(4):
        seen, st, out = set(), [t], []
        while st:
            x = st.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if x.sort() == T.I and (z3.is_add(x) or z3.is_sub(x)):
                y = fold_sum(x)
                if y is not None:
                    out.append((x, y))
                    continue
            st.extend(x.children())
        if not out:
            return t
        t = z3.substitute(t, *out)
    return t


def fold_sum(x):
    """base + constant for an integer sum with several constants, or with one in front"""
    c, rest, nc = 0, [], 0
    st = [(x, 1)]
    while st:
        y, sg = st.pop()
        if z3.is_int_value(y):
            c += sg * y.as_long()
            nc += 1
        elif z3.is_add(y):
            st.extend((a, sg) for a in reversed(y.children()))
        elif z3.is_sub(y):
            st.extend((a, sg if k == 0 else -sg) for k, a in reversed(list(enumerate(y.children()))))
        else:
            rest.append((y, sg))
    if len(rest) == 0:
        return z3.IntVal(c)
    if len(rest) == 1 and rest[0][1] == 1:
        y = rest[0][0]
        r = y if c == 0 else y + c if c > 0 else y - (-c)
        return None if r.eq(x) else r
    return None


def subst_val(v, pairs):
    """substitute terms in a scalar value (or a tuple of scalar values)"""
    if isinstance(v, AltNum):
        r = AltNum(_unz_(subst_raw(v.v, pairs)), subst_raw(v.pi, pairs), subst_raw(v.ni, pairs),
                   subst_raw(v.na, pairs), v.isint)
        r.alts = [(subst_raw(c, pairs), subst_val(x, pairs)) for c, x in v.alts]
        return r
    if isinstance(v, Num):
        return Num(_unz_(subst_raw(v.v, pairs)), subst_raw(v.pi, pairs), subst_raw(v.ni, pairs),
                   subst_raw(v.na, pairs), v.isint)
    if isinstance(v, (bool, z3.BoolRef)):
        return subst_raw(v, pairs)
    if isinstance(v, tuple):
        return tuple(subst_val(x, pairs) for x in v)
    if isinstance(v, Opaque) and isinstance(v.key, z3.ExprRef):
        return Opaque(z3.substitute(v.key, *pairs))
    if v is None or isinstance(v, (str, Opaque, UNDEF.__class__)):
        return v
    if isinstance(v, Rec):
        return Rec(v.cls, {k: subst_val(x, pairs) for k, x in v.fields.items()}, subst_raw(v.none, pairs))
    if isinstance(v, SymStr):
        return SymStr(z3.substitute(v.t, *pairs), v.other)
    if isinstance(v, Arr):
        g, t = v._get, v.total()
        r = Arr(subst_raw(v.n, pairs), lambda i: subst_val(g(i), pairs), v.dtype, v.kind,
                None if v.items is None else [subst_val(x, pairs) for x in v.items])
        r.runs = None if t is None else subst_val(t, pairs)
        return r
    if isinstance(v, PyList):
        return PyList([subst_val(x, pairs) for x in v.xs])
    raise Unsupported(f"substitution in {type(v).__name__}")


class AltNum(Num):
    """a number whose type depends on the case: alts are (condition, number)"""
    __slots__ = ("alts",)


def alt_num(outs):
    """the merged value of outcomes that are numbers of different types"""
    vs = [o.val for o in outs]
    if not all(isinstance(v, Num) for v in vs) or len({v.isint for v in vs}) == 1:
        return None
    v = vs[-1]
    for o in reversed(outs[:-1]):
        v = merge_val(o.cond, o.val, v)
    r = AltNum(v.v, v.pi, v.ni, v.na, False)
    r.alts = [(o.cond, o.val) for o in outs]
    return r


def _unz_(t):
    return T._unz(t) if not isinstance(t, bool) and not isc(t) else t


def merge_val(c, a, b):
    """If(c, a, b) over values"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return bite(c, a, b)
    if isinstance(a, (Num, bool, z3.BoolRef)) and isinstance(b, (Num, bool, z3.BoolRef)):
        return nite(c, num(a), num(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, Arr) and isinstance(b, Arr):
        r = Arr(rite(c, a.n, b.n), lambda i: merge_val(c, a.get(i), b.get(i)),
                a.dtype if a.dtype == b.dtype else "f", a.kind)
        ta, tb = a.total(), b.total()
        r.runs = None if ta is None or tb is None else merge_val(c, ta, tb)
        return r
    if isinstance(a, PyList) and isinstance(b, PyList):
        if len(a.xs) == len(b.xs):
            return PyList([merge_val(c, x, y) for x, y in zip(a.xs, b.xs)])
        return merge_val(c, pylist_to_arr(a), pylist_to_arr(b))
    if isinstance(a, PyList) and isinstance(b, Arr):
        return merge_val(c, pylist_to_arr(a), b)
    if isinstance(a, Arr) and isinstance(b, PyList):
        return merge_val(c, a, pylist_to_arr(b))
    if a is UNDEF or b is UNDEF or a is LOST or b is LOST:
        return LOST
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls is b.cls:
        return Rec(a.cls, {k: merge_val(c, x, b.fields[k]) for k, x in a.fields.items()}, bite(c, a.none, b.none))
    raise Unsupported(f"merging {type(a).__name__} and {type(b).__name__}")


def const_arr(items, kind="nd", dtype=None):
    items = list(items)
    if dtype is None:
        dtype = "f"
        if items and all(isinstance(x, (bool, z3.BoolRef)) for x in items):
            dtype = "b"
        elif items and all(isinstance(x, Num) and x.isint for x in items):
            dtype = "i"

    def get(i):
        if isinstance(i, int):
            if 0 <= i < len(items):
                return items[i]
            return items[-1] if items else num(0)
        if not items:
            return num(0)
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = merge_val(i == k, items[k], r)
        return r
    return Arr(len(items), get, dtype, kind, items)


def pylist_to_arr(p):
    return const_arr(p.xs, kind="list")
