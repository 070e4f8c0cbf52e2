"""Degrees of homogeneity: how a value changes when every length is multiplied by the same positive factor."""
import z3
from fractions import Fraction
from .terms import *
from .ctx import PathEnd
from .npmodel import where

ANY = "any"


class Mixed(Exception):
    pass


def same_degree(ds, what):
    ds = {d for d in ds if d != ANY}
    if len(ds) > 1:
        raise Mixed(f"{what} of degrees {', '.join(str(d) for d in sorted(ds))}")
    return ds.pop() if ds else ANY


class Degrees:
    """degree of every symbol; values given a name get a fresh symbol of the degree of their definition"""

    def __init__(self, I, base):
        self.I, self.base = I, {s.get_id(): (s, d) for s, d in base.items()}
        self.memo = {}

    def deg(self, t):
        if not isinstance(t, z3.ExprRef):
            return ANY if t == 0 else Fraction(0)
        k = t.get_id()
        if k not in self.memo:
            self.memo[k] = (t, self._deg(t))
        return self.memo[k][1]

    def _deg(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return ANY if t.as_fraction() == 0 else Fraction(0)
        k, ch = t.decl().kind(), t.children()
        if t.get_id() in self.base:
            return self.base[t.get_id()][1]
        if not ch:
            return Fraction(0)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL):
            return same_degree([self.deg(c) for c in ch], "a sum")
        if k == z3.Z3_OP_MUL:
            ds = [self.deg(c) for c in ch]
            return ANY if ANY in ds else sum(ds)
        if k == z3.Z3_OP_DIV:
            a, b = map(self.deg, ch)
            return ANY if a == ANY else a - (0 if b == ANY else b)
        if k == z3.Z3_OP_ITE:
            self.hom(ch[0])
            return same_degree([self.deg(c) for c in ch[1:]], "a choice")
        if t.decl().name() == "EXP":
            return self.logdeg(ch[0])
        for c in ch:
            same_degree([self.deg(c), Fraction(0)], "argument of " + t.decl().name())
        return Fraction(0)

    def logdeg(self, t):
        """degree of EXP(t)"""
        if not isinstance(t, z3.ExprRef):
            return Fraction(0)
        k, ch = t.decl().kind(), t.children()
        if t.decl().name() == "LOG":
            d = self.deg(ch[0])
            return Fraction(0) if d == ANY else d
        if k == z3.Z3_OP_ADD:
            return sum(self.logdeg(c) for c in ch)
        if k == z3.Z3_OP_SUB:
            return self.logdeg(ch[0]) - sum(self.logdeg(c) for c in ch[1:])
        if k == z3.Z3_OP_UMINUS:
            return -self.logdeg(ch[0])
        if k == z3.Z3_OP_MUL and any(z3.is_rational_value(c) for c in ch):
            q = Fraction(1)
            rest = []
            for c in ch:
                if z3.is_rational_value(c):
                    q *= c.as_fraction()
                else:
                    rest.append(c)
            return q * self.logdeg(rest[0]) if len(rest) == 1 else self.zero(t)
        if k == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]):
            return self.logdeg(ch[0]) / ch[1].as_fraction()
        if k == z3.Z3_OP_ITE:
            self.hom(ch[0])
            return same_degree([self.logdeg(c) for c in ch[1:]], "a choice")
        return self.zero(t)

    def zero(self, t):
        same_degree([self.deg(t), Fraction(0)], "an exponent")
        return Fraction(0)

    def hom(self, f):
        """the truth of f does not change"""
        if not isinstance(f, z3.ExprRef) or not f.children():
            return
        k = ("f", f.get_id())
        if k in self.memo:
            return
        ch = f.children()
        if all(z3.is_bool(c) for c in ch):
            for c in ch:
                self.hom(c)
        elif f.decl().kind() == z3.Z3_OP_ITE:
            for c in ch:
                self.hom(c)
        else:
            same_degree([self.deg(c) for c in ch], "a comparison")
        self.memo[k] = f

    def num(self, v):
        for b in (v.pi, v.ni, v.na):
            self.hom(b)
        return self.deg(v.v)

    def name(self, v):
        """replace a value by a fresh one of the same degree"""
        if not isinstance(v, Num) or not isinstance(v.v, z3.ExprRef) or not v.v.children():
            return v
        try:
            d = self.num(v)
        except Mixed as e:
            self.I.ctx.obligation(f"degree of a value@{where(self.I)}: {e}", False)
            raise PathEnd()
        self.I.ctx.obligation(f"degree of a value@{where(self.I)}", True)
        s = self.I.ctx.fresh("v", v.v.sort())
        self.base[s.get_id()] = (s, d)
        b = lambda x: x if isinstance(x, bool) else self.I.ctx.fresh("flag", B)
        return Num(s, b(v.pi), b(v.ni), b(v.na), v.isint)

    def path(self):
        """the decisions of this path do not change"""
        try:
            for f in self.I.ctx.pc:
                self.hom(f)
        except Mixed as e:
            self.I.ctx.obligation(f"decisions keep under scaling: {e}", False)
            raise PathEnd()
        self.I.ctx.obligation("decisions keep under scaling", True)

    def check(self, name, v, degree):
        try:
            ok = self.num(v) in (ANY, degree)
            why = ""
        except Mixed as e:
            ok, why = False, f": {e}"
        self.I.ctx.obligation(name + why, ok)
