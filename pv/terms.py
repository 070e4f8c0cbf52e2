"""Numbers and booleans of the verifier.

A boolean is a python bool or a z3 BoolRef.  A number is a `Num`: a value (python
int, Fraction or a z3 Int/Real term) plus three flags telling when it is +inf,
-inf or nan.  Floats are mathematical reals, integers are unbounded; infinities
and nan follow numpy.  exp, log, sin, ... are uninterpreted functions with
axioms (see `axioms`).
"""
from fractions import Fraction
import decimal
import z3

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
EXP = z3.Function("EXP", R, R)
LOG = z3.Function("LOG", R, R)
SIN = z3.Function("SIN", R, R)
COS = z3.Function("COS", R, R)
ASIN = z3.Function("ASIN", R, R)
POWNEG = z3.Function("POWNEG", R, R, R)      # x**y for x < 0 (only equality used)
RND = z3.Function("RND", R, I, R)            # np.around(x, decimals)
PI = z3.Real("PI")


class Unsupported(Exception):
    """The code uses something outside the verifier's subset."""


# ---------------------------------------------------------------- booleans
def isb(x):
    return isinstance(x, (bool, z3.BoolRef))


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def bnot(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bimp(a, b):
    if a is False or b is True:
        return True
    if a is True:
        return b
    if b is False:
        return bnot(a)
    return z3.Implies(a, b)


def biff(a, b):
    if isinstance(a, bool):
        return b if a else bnot(b)
    if isinstance(b, bool):
        return a if b else bnot(a)
    if a.eq(b):
        return True
    return a == b


def exponent(t):
    if _is_app(t, EXP):
        return t.arg(0)
    c, a = scaled_exp(t)
    return radd(a, const_log(c))


def bite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else bnot(c)
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ---------------------------------------------------------------- raw arithmetic
def isc(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def zr(x):
    """raw -> z3 Real"""
    if isinstance(x, bool):
        x = int(x)
    if isc(x):
        return z3.RealVal(x if isinstance(x, int) else f"{x.numerator}/{x.denominator}")
    return z3.ToReal(x) if x.sort() == I else x


def zi(x):
    if isc(x):
        if isinstance(x, Fraction):
            assert x.denominator == 1
            x = x.numerator
        return z3.IntVal(x)
    if x.sort() == R:
        return z3.ToInt(x)
    return x


def _norm(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


def is_int_raw(x):
    if isinstance(x, int):
        return True
    if isinstance(x, Fraction):
        return x.denominator == 1
    return x.sort() == I


def _coerce(a, b):
    """bring two raw values (not both constants) to one z3 sort"""
    if isc(a):
        if b.sort() == I and isinstance(a, int):
            return z3.IntVal(a), b
        return zr(a), zr(b)
    if isc(b):
        if a.sort() == I and isinstance(b, int):
            return a, z3.IntVal(b)
        return zr(a), zr(b)
    if a.sort() == b.sort():
        return a, b
    return zr(a), zr(b)


def radd(a, b):
    if isc(a) and isc(b):
        return _norm(a + b)
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    a, b = _coerce(a, b)
    if a.sort() == I:
        r = fold_offset(a, b, 1)
        if r is not None:
            return r
    if b.decl().kind() == z3.Z3_OP_UMINUS:
        return a - b.arg(0)
    return a + b


def split_const(t):
    """(base, constant) of an integer term base + constant"""
    if z3.is_add(t) and t.num_args() == 2:
        for x, y in ((0, 1), (1, 0)):
            if z3.is_int_value(t.arg(y)):
                return t.arg(x), t.arg(y).as_long()
    if z3.is_sub(t) and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
        return t.arg(0), -t.arg(1).as_long()
    return t, 0


def fold_offset(a, b, sign):
    """a + sign * b for an integer constant b, constants folded"""
    if sign == 1 and z3.is_int_value(a):
        a, b = b, a
    if not z3.is_int_value(b):
        return None
    base, c = split_const(a)
    if c == 0:
        return None
    c += sign * b.as_long()
    return base if c == 0 else base + c if c > 0 else base - (-c)


def rneg(a):
    if isc(a):
        return -a
    return -a


def rsub(a, b):
    if isc(a) and isc(b):
        return _norm(a - b)
    if isc(b) and b == 0:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return 0
    a, b = _coerce(a, b)
    if a.sort() == I:
        r = fold_offset(a, b, -1)
        if r is not None:
            return r
    return a - b


def _is_app(t, f):
    return z3.is_app(t) and t.decl().eq(f)


def rmul(a, b):
    if isc(a) and isc(b):
        return _norm(a * b)
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if x == 0:
                return 0
            if x == 1:
                return y
    if not isc(a) and not isc(b) and _is_app(a, EXP) and _is_app(b, EXP):
        return rexp(radd(a.arg(0), b.arg(0)))
    for x, y in ((a, b), (b, a)):
        # EXP times a case distinction over EXPs: push the product inside
        if not isc(y) and _is_ite(y) and (isc(x) and x > 0 or not isc(x) and _is_app(x, EXP)) and _exp_leaf(y):
            c, p, q = y.children()
            return rite(c, rmul(_unz(p), x), rmul(_unz(q), x))
    a, b = _coerce(a, b)
    return a * b


def _is_ite(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE


def _exp_leaf(t, depth=6):
    """a small case distinction with an EXP among its leaves"""
    if depth == 0:
        return False
    if _is_ite(t):
        return any(_exp_leaf(c, depth - 1) for c in t.children()[1:])
    return _is_app(t, EXP)


def rdiv(a, b):
    """a / b, b assumed non-zero"""
    if isc(a) and isc(b) and b != 0:
        return _norm(Fraction(a) / Fraction(b))
    if isc(b) and b == 1:
        return a if isc(a) else zr(a)
    if isc(a) and a == 0:
        return 0
    if not isc(b) and _is_app(b, EXP):
        inv = rexp(rneg(b.arg(0)))
        return rmul(a, inv)
    if isc(b) and not isc(a) and exp_like(a):
        return rmul(1 / Fraction(b), a)
    if not isc(b) and not z3.is_rational_value(b):
        inv = z3.RealVal(1) / zr(b)
        return inv if isc(a) and a == 1 else rmul(a, inv)
    return zr(a) / zr(b)


def exp_like(t):
    return _is_app(t, EXP) or _is_ite(t) and _exp_leaf(t)


def exp_leaves(t, out, conds):
    """leaves EXP(..) or constants <= 0 of a tree of conditionals; False if there are others"""
    if isc(t):
        out.append(t)
        return t <= 0
    if z3.is_rational_value(t) or z3.is_int_value(t):
        out.append(t)
        return (t.as_fraction() if z3.is_rational_value(t) else t.as_long()) <= 0
    if _is_app(t, EXP):
        out.append(t)
        return True
    if scaled_exp(t) is not None:
        out.append(t)
        return True
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return len(out) < 6 and exp_leaves(t.arg(1), out, conds) and exp_leaves(t.arg(2), out, conds)
    return False


def scaled_exp(t):
    """(c, a) for c * EXP(a) with a positive constant c"""
    if z3.is_mul(t) and t.num_args() == 2:
        for x, y in ((0, 1), (1, 0)):
            if z3.is_rational_value(t.arg(x)) and _is_app(t.arg(y), EXP) and t.arg(x).as_fraction() > 0:
                return t.arg(x).as_fraction(), t.arg(y).arg(0)
    return None


CONST_LOGS = {}


def const_log(c):
    """LOG of a constant, with rational bounds"""
    c = Fraction(c)
    t = LOG(zr(c))
    if c not in CONST_LOGS:
        with decimal.localcontext() as d:
            d.prec = 60
            x = (decimal.Decimal(c.numerator) / decimal.Decimal(c.denominator)).ln()
        e = Fraction(1, 10 ** 40)
        CONST_LOGS[c] = z3.And(t > z3.RealVal(str(Fraction(x) - e)), t < z3.RealVal(str(Fraction(x) + e)))
    return t


def exp_cmp(a, b, f):
    """comparison of exponentials: compare the exponents"""
    if isc(a) and a == 0 and not isc(b) and z3.is_sub(b) and b.num_args() == 2:
        return exp_cmp(b.arg(1), b.arg(0), f)
    if isc(b) and b == 0 and not isc(a) and z3.is_sub(a) and a.num_args() == 2:
        return exp_cmp(a.arg(0), a.arg(1), f)
    la, lb = [], []
    if not (exp_leaves(a, la, None) and exp_leaves(b, lb, None)):
        return None
    isexp = lambda t: not isc(t) and (_is_app(t, EXP) or scaled_exp(t) is not None)
    if not any(isexp(x) for x in la) or not any(isexp(x) for x in lb):
        return None
    if len(la) * len(lb) > 16:
        return None

    def go(x, y):
        if not isc(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c, p, q = x.children()
            return bite(c, go(p, y), go(q, y))
        if not isc(y) and z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE:
            c, p, q = y.children()
            return bite(c, go(x, p), go(x, q))
        if isexp(x) and isexp(y):
            return f(exponent(x), exponent(y))
        x = _unz(x)
        y = _unz(y)
        return f(x, y)
    return go(a, b)


def bite(c, a, b):
    if a is True and b is False:
        return c
    if a is False and b is True:
        return bnot(c)
    if isinstance(a, bool) and isinstance(b, bool):
        return a
    if a is True:
        return bor(c, b)
    if a is False:
        return band(bnot(c), b)
    if b is True:
        return bor(bnot(c), a)
    if b is False:
        return band(c, a)
    return z3.If(c, a, b)


def rlt(a, b):
    if isc(a) and isc(b):
        return a < b
    if isc(a) and a <= 0 and positive_raw(b):
        return True
    if isc(b) and b <= 0 and positive_raw(a):
        return False
    if not isc(a) and not isc(b) and a.eq(b):
        return False
    r = exp_cmp(a, b, rlt)
    if r is not None:
        return r
    a, b = _coerce(a, b)
    return a < b


def rle(a, b):
    if isc(a) and isc(b):
        return a <= b
    if isc(a) and a <= 0 and positive_raw(b):
        return True
    if isc(b) and b <= 0 and positive_raw(a):
        return False
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    r = exp_cmp(a, b, rle)
    if r is not None:
        return r
    a, b = _coerce(a, b)
    return a <= b


def req(a, b):
    if isc(a) and isc(b):
        return a == b
    if (isc(a) and a <= 0 and positive_raw(b)) or (isc(b) and b <= 0 and positive_raw(a)):
        return False
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    r = exp_cmp(a, b, req)
    if r is not None:
        return r
    a, b = _coerce(a, b)
    return a == b


def rite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isc(a) and isc(b) and a == b:
        return a
    if not isc(a) and not isc(b) and a.eq(b):
        return a
    if isc(a) and isc(b):
        if isinstance(a, int) and isinstance(b, int):
            a, b = z3.IntVal(a), z3.IntVal(b)
        else:
            a, b = zr(a), zr(b)
    else:
        a, b = _coerce(a, b)
    return z3.If(c, a, b)


def rexp(t):
    if isc(t):
        if t == 0:
            return 1
        t = zr(t)
    t = zr(t)
    if _is_app(t, LOG):
        return t.arg(0)          # only built for positive arguments, see log()
    return EXP(t)


LOGC = {}


def rlog(t):
    """log of a raw value assumed positive"""
    if isc(t):
        if t == 1:
            return 0
        return const_log(t) if t > 0 else LOG(zr(t))
    t = zr(t)
    if _is_app(t, EXP):
        return t.arg(0)
    if scaled_exp(t) is not None:
        return exponent(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and some_exp(t):
        c, a, b = t.children()
        return rite(c, rlog(_unz(a)), rlog(_unz(b)))
    return LOG(t)


def some_exp(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return some_exp(t.arg(1)) or some_exp(t.arg(2))
    return _is_app(t, EXP)


def leaves(v, f):
    """apply f to the leaves of a tree of conditionals"""
    if not isc(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        return rite(c, leaves(a, f), leaves(b, f))
    return f(_unz(v) if not isc(v) else v)


# ---------------------------------------------------------------- extended numbers
class Num:
    __slots__ = ("v", "pi", "ni", "na", "isint", "npy", "choice")

    def __init__(self, v, pi=False, ni=False, na=False, isint=None):
        self.v, self.pi, self.ni, self.na = v, pi, ni, na
        self.isint = is_int_raw(v) if isint is None else isint

    @property
    def plain(self):
        return self.pi is False and self.ni is False and self.na is False

    @property
    def fin(self):
        return bnot(bor(self.pi, self.ni, self.na))

    def isconst(self):
        return isc(self.v) and all(isinstance(f, bool) for f in (self.pi, self.ni, self.na))

    def __repr__(self):
        s = str(self.v)
        for n in ("pi", "ni", "na"):
            f = getattr(self, n)
            if f is not False:
                s += f" {n}:{f}"
        return f"<{s}>"

    def real(self):
        """the same value as a float"""
        if not self.isint:
            return self
        return Num(self.v if isc(self.v) else zr(self.v), self.pi, self.ni, self.na, False)


def num(x, isint=None):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num(int(x), isint=True)
    if isinstance(x, int):
        return Num(x, isint=True if isint is None else isint)
    if isinstance(x, float):
        if x != x:
            return Num(0, na=True, isint=False)
        if x in (float("inf"), float("-inf")):
            return Num(0, pi=x > 0, ni=x < 0, isint=False)
        return Num(_norm(Fraction(repr(x))), isint=False)
    if isinstance(x, Fraction):
        return Num(_norm(x), isint=False if isint is None else isint)
    if isinstance(x, z3.ArithRef):
        return Num(x, isint=(x.sort() == I) if isint is None else isint)
    if isinstance(x, z3.BoolRef):
        return Num(z3.If(x, z3.IntVal(1), z3.IntVal(0)), isint=True)
    raise Unsupported(f"not a number: {x!r}")


INF = Num(0, pi=True, isint=False)
NINF = Num(0, ni=True, isint=False)
NAN = Num(0, na=True, isint=False)


def add(a, b):
    i = a.isint and b.isint
    if a.plain and b.plain:
        return Num(radd(a.v, b.v), isint=i)
    na = bor(a.na, b.na, band(a.pi, b.ni), band(a.ni, b.pi))
    return Num(radd(a.v, b.v), band(bor(a.pi, b.pi), bnot(na)), band(bor(a.ni, b.ni), bnot(na)), na, i)


def neg(a):
    return Num(rneg(a.v), a.ni, a.pi, a.na, a.isint)


def sub(a, b):
    if a.plain and b.plain:
        return Num(rsub(a.v, b.v), isint=a.isint and b.isint)
    r = add(a, neg(b))
    return Num(rsub(a.v, b.v), r.pi, r.ni, r.na, r.isint)


def _pos(a):
    return bor(a.pi, band(a.fin, rlt(0, a.v)))


def _neg(a):
    return bor(a.ni, band(a.fin, rlt(a.v, 0)))


def _zero(a):
    return band(a.fin, req(a.v, 0))


def mul(a, b):
    i = a.isint and b.isint
    if a.plain and b.plain:
        return Num(rmul(a.v, b.v), isint=i)
    for x, y in ((a, b), (b, a)):
        if y.plain and positive_raw(y.v):
            return Num(rmul(a.v, b.v), x.pi, x.ni, x.na, i)
    ainf, binf = bor(a.pi, a.ni), bor(b.pi, b.ni)
    na = bor(a.na, b.na, band(ainf, _zero(b)), band(binf, _zero(a)))
    inf = band(bor(ainf, binf), bnot(na))
    same = bor(band(_pos(a), _pos(b)), band(_neg(a), _neg(b)))
    return Num(rmul(a.v, b.v), band(inf, same), band(inf, bnot(same)), na, i)


def div(a, b, nz=False):
    """numpy true division; nz: the divisor is known not to be zero"""
    bz = False if nz else _zero(b)
    if a.plain and b.plain and bz is False:
        return Num(rdiv(a.v, b.v), isint=False)
    if a.plain and b.plain and not isc(b.v) and _is_app(b.v, EXP):
        return Num(rdiv(a.v, b.v), isint=False)
    if b.plain and positive_raw(b.v):
        return Num(rdiv(a.v, b.v), a.pi, a.ni, a.na, False)
    binf = bor(b.pi, b.ni)
    ainf = bor(a.pi, a.ni)
    na = bor(a.na, b.na, band(ainf, binf), band(bz, _zero(a)))
    # zero is taken as +0
    inf = band(bor(ainf, band(bz, bnot(_zero(a)))), bnot(na), bnot(binf))
    bneg = _neg(b)
    pos = bor(band(_pos(a), bnot(bneg)), band(_neg(a), bneg))
    safe = rite(bz, 1, b.v) if bz is not False else b.v
    v = rite(band(binf, bnot(na)), 0, rdiv(a.v, safe))
    return Num(v, band(inf, pos), band(inf, bnot(pos)), na, False)


def lt(a, b):
    if a.plain and b.plain:
        return rlt(a.v, b.v)
    if a.na is False and b.na is False:
        return band(bnot(a.pi), bnot(b.ni), bor(b.pi, a.ni, rlt(a.v, b.v)))
    return band(bnot(bor(a.na, b.na)),
                bor(band(a.ni, bnot(b.ni)), band(b.pi, bnot(a.pi)),
                    band(a.fin, b.fin, rlt(a.v, b.v))))


def eq(a, b):
    if a.plain and b.plain:
        return req(a.v, b.v)
    return band(bnot(bor(a.na, b.na)),
                bor(band(a.pi, b.pi), band(a.ni, b.ni), band(a.fin, b.fin, req(a.v, b.v))))


def le(a, b):
    if a.plain and b.plain:
        return rle(a.v, b.v)
    if a.na is False and b.na is False:
        return bor(b.pi, a.ni, band(bnot(a.pi), bnot(b.ni), rle(a.v, b.v)))
    return bor(lt(a, b), eq(a, b))


def same(a, b):
    """identical values (nan equals nan): the equality used in contracts"""
    if a.plain and b.plain:
        return req(a.v, b.v)
    return band(biff(a.na, b.na), biff(a.pi, b.pi), biff(a.ni, b.ni),
                bor(bnot(a.fin), req(a.v, b.v)))


def nite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    r = Num(rite(c, a.v, b.v), bite(c, a.pi, b.pi), bite(c, a.ni, b.ni), bite(c, a.na, b.na),
            a.isint and b.isint)
    r.choice = (c, a, b)
    return r


def nabs(a):
    if isc(a.v) and a.plain:
        return Num(abs(a.v), isint=a.isint)
    return Num(rite(rlt(a.v, 0), rneg(a.v), a.v), bor(a.pi, a.ni), False, a.na, a.isint)


def nmax(a, b):
    """numpy maximum (nan propagates)"""
    r = nite(lt(a, b), b, a)
    if a.na is False and b.na is False:
        return r
    na = bor(a.na, b.na)
    return Num(r.v, band(r.pi, bnot(na)), band(r.ni, bnot(na)), na, r.isint)


def nmin(a, b):
    r = nite(lt(b, a), b, a)
    if a.na is False and b.na is False:
        return r
    na = bor(a.na, b.na)
    return Num(r.v, band(r.pi, bnot(na)), band(r.ni, bnot(na)), na, r.isint)


def _split_ite(x):
    """Num whose value is If(c,a,b) -> (c, Num a, Num b) for plain ones"""
    if x.plain and not isc(x.v) and z3.is_app(x.v) and x.v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = x.v.children()
        return c, Num(_unz(a), isint=x.isint), Num(_unz(b), isint=x.isint)
    return None


def _unz(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return _norm(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    return t


def exp(a):
    if a.plain:
        s = _split_ite(a)
        if s:
            return nite(s[0], exp(s[1]), exp(s[2]))
        return Num(rexp(a.v), isint=False)
    fin = rexp(a.v)
    return Num(rite(a.ni, 0, fin), a.pi, False, a.na, False)


def positive_raw(v):
    """syntactically positive"""
    if isc(v):
        return v > 0
    if _is_app(v, EXP):
        return True
    if v.eq(PI):
        return True
    if _is_app(v, LOG) and z3.is_rational_value(v.arg(0)):
        return v.arg(0).as_fraction() > 1
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL:
        return False
    if z3.is_rational_value(v):
        return v.as_fraction() > 0
    if z3.is_mul(v) or z3.is_add(v) or (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DIV):
        return all(positive_raw(_unz(c)) for c in v.children())
    return False


def log(a):
    if a.plain:
        s = _split_ite(a)
        if s:
            return nite(s[0], log(s[1]), log(s[2]))
        if positive_raw(a.v):
            return Num(_logsum(a.v), isint=False)
        if isc(a.v):
            return NINF if a.v == 0 else NAN
    return Num(rlog(a.v), a.pi, band(a.fin, req(a.v, 0)), bor(a.na, a.ni, band(a.fin, rlt(a.v, 0))), False)


def _logsum(v):
    """log of a syntactically positive product"""
    v = _unz(v) if not isc(v) else v
    if isc(v):
        return rlog(v)
    if z3.is_mul(v):
        r = 0
        for c in v.children():
            r = radd(r, _logsum(_unz(c)))
        return r
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DIV:
        a, b = v.children()
        return rsub(_logsum(_unz(a)), _logsum(_unz(b)))
    return rlog(v)


def npow(a, b):
    """numpy power for floats"""
    if b.plain and isc(b.v) and b.v == 1:
        return a
    if a.plain and b.plain and isc(a.v) and isc(b.v):
        if is_int_raw(b.v) and abs(b.v) <= 64 and (a.v != 0 or b.v >= 0):
            return Num(_norm(Fraction(a.v) ** int(b.v)), isint=a.isint and b.isint and b.v >= 0)
    if a.plain and b.plain and isc(b.v) and is_int_raw(b.v) and 0 <= b.v <= 8 and not positive_raw(a.v):
        r = 1
        for _ in range(int(b.v)):
            r = rmul(r, a.v)
        return Num(r, isint=a.isint and b.isint)
    sp = _split_ite(a)
    if sp:
        return nite(sp[0], npow(sp[1], b), npow(sp[2], b))
    if a.plain and positive_raw(a.v) and b.plain:
        return Num(rexp(rmul(_logsum(a.v), b.v)), isint=False)
    if not a.plain and b.plain and isc(b.v) and is_int_raw(b.v) and 2 <= b.v <= 8 and not positive_raw(a.v):
        r = a.v
        for _ in range(int(b.v) - 1):
            r = rmul(r, a.v)
        odd = b.v % 2 == 1
        return Num(r, a.pi if odd else bor(a.pi, a.ni), a.ni if odd else False, a.na, False)
    if a.pi is not False and a.ni is False and a.na is False and b.plain and positive_raw(b.v):
        r = npow(Num(a.v, isint=False), b)
        return Num(r.v, bor(a.pi, r.pi), band(bnot(a.pi), r.ni), band(bnot(a.pi), r.na), False)
    b0 = _zero(b)
    azero = _zero(a)
    bpos, bneg = _pos(b), _neg(b)
    apos = band(a.fin, rlt(0, a.v))
    aneg = band(a.fin, rlt(a.v, 0))
    one_base = band(a.fin, req(a.v, 1))
    gt1 = bor(a.pi, band(a.fin, rlt(1, a.v)))
    lt1 = band(a.fin, rlt(a.v, 1))          # used only together with apos or azero
    bint = is_int_raw(b.v) if isc(b.v) else (True if b.v.sort() == I else z3.IsInt(b.v))
    na = band(bnot(b0), bnot(one_base),
              bor(a.na, b.na, band(aneg, b.fin, bnot(bint))))
    exact = band(b.fin, bnot(b0))
    pi = band(bnot(na), bor(band(a.pi, bpos),
                            band(azero, bneg, exact),
                            band(b.pi, gt1), band(b.ni, bor(azero, band(apos, lt1)))))
    v = rite(b0, 1, rite(one_base, 1, rite(apos, rexp(rmul(rlog(a.v), b.v)),
             rite(aneg, POWNEG(zr(a.v), zr(b.v)), 0))))
    # infinite exponents and bases: finite results are 0
    infb = bor(b.pi, b.ni)
    v = rite(band(infb, bnot(one_base)), 0, v)
    v = rite(band(a.pi, bneg), 0, v)
    if aneg is not False:
        # -inf bases and negative bases with infinite exponents are outside the model
        na2 = band(bor(a.ni, band(aneg, infb)))
        if na2 is not False:
            na = bor(na, na2)
            pi = band(pi, bnot(na2))
    return Num(v, pi, False, na, False)


def sqrt(a):
    if a.plain and not isc(a.v) and positive_raw(a.v):
        return Num(rexp(rmul(_logsum(a.v), Fraction(1, 2))), isint=False)
    return npow(a, Num(Fraction(1, 2), isint=False))


# ---------------------------------------------------------------- floor and friends
def rfloor(v):
    if isc(v):
        return int(v // 1)
    if v.sort() == I:
        return v
    return z3.ToInt(v)


def rceil(v):
    return rneg(rfloor(rneg(v)))


def rtrunc(v):
    if isc(v):
        return int(v)
    if v.sort() == I:
        return v
    if positive_raw(v):
        return z3.ToInt(v)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


# ---------------------------------------------------------------- evaluation of closed terms
def evalf(t, env=None):
    """float value of a term without free uninterpreted symbols (conformance tests)"""
    import math
    if isinstance(t, bool):
        return t
    if isc(t):
        return float(t) if isinstance(t, Fraction) else t
    cache = {}

    def ev(x):
        k = x.get_id()
        if k in cache:
            return cache[k]
        r = ev1(x)
        cache[k] = r
        return r

    def ev1(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return float(x.as_fraction())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        d = x.decl()
        k = d.kind()
        if x.eq(PI):
            return math.pi
        if env is not None and x.num_args() == 0 and d.name() in env:
            return env[d.name()]
        if k == z3.Z3_OP_ITE:
            return ev(x.arg(1)) if ev(x.arg(0)) else ev(x.arg(2))
        if k == z3.Z3_OP_AND:
            return all(ev(c) for c in x.children())
        if k == z3.Z3_OP_OR:
            return any(ev(c) for c in x.children())
        if k == z3.Z3_OP_IMPLIES:
            return (not ev(x.arg(0))) or ev(x.arg(1))
        c = [ev(y) for y in x.children()]
        if k == z3.Z3_OP_ADD:
            return sum(c)
        if k == z3.Z3_OP_SUB:
            return c[0] - sum(c[1:])
        if k == z3.Z3_OP_UMINUS:
            return -c[0]
        if k == z3.Z3_OP_MUL:
            r = 1
            for y in c:
                r = r * y
            return r
        if k == z3.Z3_OP_DIV:
            return c[0] / c[1] if c[1] else math.nan
        if k == z3.Z3_OP_IDIV:
            return c[0] // c[1]
        if k == z3.Z3_OP_MOD:
            return c[0] % c[1]
        if k == z3.Z3_OP_TO_REAL:
            return c[0]
        if k == z3.Z3_OP_TO_INT:
            return math.floor(c[0])
        if k == z3.Z3_OP_IS_INT:
            return float(c[0]).is_integer()
        if k == z3.Z3_OP_LT:
            return c[0] < c[1]
        if k == z3.Z3_OP_LE:
            return c[0] <= c[1]
        if k == z3.Z3_OP_GT:
            return c[0] > c[1]
        if k == z3.Z3_OP_GE:
            return c[0] >= c[1]
        if k == z3.Z3_OP_EQ:
            return c[0] == c[1]
        if k == z3.Z3_OP_DISTINCT:
            return c[0] != c[1]
        if k == z3.Z3_OP_NOT:
            return not c[0]
        n = d.name()
        if n == "EXP":
            try:
                return math.exp(c[0])
            except OverflowError:
                return math.inf
        if n == "LOG":
            return math.log(c[0]) if c[0] > 0 else math.nan
        if n == "SIN":
            return math.sin(c[0])
        if n == "COS":
            return math.cos(c[0])
        if n == "ASIN":
            return math.asin(c[0]) if -1 <= c[0] <= 1 else math.nan
        if n == "POWNEG":
            r = c[0] ** c[1]
            return r if not isinstance(r, complex) else math.nan
        if n == "RND":
            return round(c[0], int(c[1]))
        raise Unsupported(f"evalf: {x}")
    return ev(t)


def num_to_float(a):
    import math
    def fl(f):
        return f if isinstance(f, bool) else evalf(f)
    if fl(a.na):
        return math.nan
    if fl(a.pi):
        return math.inf
    if fl(a.ni):
        return -math.inf
    return evalf(a.v)
