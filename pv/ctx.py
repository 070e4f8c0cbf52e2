"""Path exploration, assumptions, obligations."""
import time
import z3
from .terms import *
from .values import *
from .values import _unz_, serial


class PathEnd(Exception):
    """the current path ends here (infeasible, or a loop body was checked)"""


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class Budget(Unsupported):
    pass


class Frame:
    def __init__(self, dec):
        self.dec = list(dec)
        self.pos = 0
        self.alts = []
        self.conds = []      # conditions assumed by decisions in this frame
        self.facts = []      # facts to export from a nested frame


class Obligation:
    def __init__(self, name, pc, goal, where=""):
        self.name, self.pc, self.goal, self.where = name, list(pc), goal, where
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model, self.model_text = None, ""


def has_quant(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def simp(c):
    if isinstance(c, bool):
        return c
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return c


class Ctx:
    def __init__(self, dec=(), deadline=None, feas_ms=300):
        self.frames = [Frame(dec)]
        self.pc = []
        self.counter = {}
        self.scope = []           # [(index var, guard)]
        self.journal = None       # list of undo entries while in a nested frame
        self.obls = []
        self.cache = {}
        self.sums = []
        self.filters = []
        self.digs = []            # binned arrays: (element, edge) -> which side of the edge
        self.ghosts = []           # filters and blocks of the specification
        self.uniqs = []            # sorted values: (elements, Uniq)
        self.cums = []            # running sums: (elements, sums)
        self.flats = []           # blocks laid out one after the other: (lengths, NP.Flat)
        self.recs = []            # recurrences of loops without a closed form
        self.deadline = deadline
        self.feas_ms = feas_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", feas_ms)
        self.notes = []
        self.forced0 = len(dec)
        self.in_check = 0
        self.points = []          # indices of interest
        self.insts = []           # universal preconditions, to be used at new indices

    # ---- symbols
    def fresh_name(self, name):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return f"{name}!{k}"

    def fresh(self, name, sort=None):
        sort = R if sort is None else sort
        n = self.fresh_name(name)
        if self.scope:
            f = z3.Function(n, *([I] * len(self.scope)), sort)
            return f(*[s[0] for s in self.scope])
        return z3.Const(n, sort)

    def fresh_fun(self, name, *sorts):
        """a function of the given argument sorts (and of the enclosing index variables)"""
        n = self.fresh_name(name)
        idx = [s[0] for s in self.scope]
        f = z3.Function(n, *([I] * len(idx)), *sorts)
        return lambda *a: f(*idx, *a)

    # ---- assumptions
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(c)
        if not has_quant(c):
            self.solver.add(c)

    def fact(self, c):
        """a definitional fact: survives nested frames"""
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.assume(c)
        if len(self.frames) > 1:
            self.frames[-1].facts.append(c)

    def forall(self, f, lo, hi, name="k", patterns=None):
        """fact: for all lo <= k < hi: f(k)"""
        k = z3.Int(self.fresh_name(name))
        b = f(k)
        if b is True:
            return True
        body = bimp(band(rle(lo, k), rlt(k, hi)), b)
        if isinstance(body, bool):
            return body
        if patterns:
            pats = []
            for p in patterns:
                p = p(k)
                pats.append(z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p)
            return z3.ForAll([k], body, patterns=pats)
        return z3.ForAll([k], body)

    def exists_witness(self, f, lo, hi, name="w"):
        """a fresh witness index with its defining fact"""
        w = self.fresh(name, I)
        return w, band(rle(lo, w), rlt(w, hi), f(w))

    def universal(self, lo, n, f):
        """use f(k), which holds for lo <= k < n, at the known indices and at later ones"""
        self.insts.append((lo, n, f))
        for k in list(self.points):
            c = bimp(band(rle(lo, k), rlt(k, n)), f(k))
            if not isinstance(c, bool):
                self.assume(c)

    def instantiate(self, k):
        if not self.scope and len(self.frames) == 1:
            self.points.append(k)
        for f, m in self.digs:
            for q in (0, rsub(m, 1)):
                c = f(k, q)
                if not isinstance(c, bool):
                    self.assume(c)
        for lo, n, f in self.insts:
            c = bimp(band(rle(lo, k), rlt(k, n)), f(k))
            if c is not True and c is not False:
                self.assume(c)

    # ---- branching
    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time budget for symbolic execution used up")

    def feasible(self, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        self.check_deadline()
        self.solver.push()
        if CONST_LOGS:
            self.solver.add(*CONST_LOGS.values())
        self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        return r != z3.unsat

    def implied(self, c):
        return not self.feasible(bnot(c))

    def branch(self, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        fr = self.frames[-1]
        if fr.pos < len(fr.dec):
            d = fr.dec[fr.pos]
        else:
            ft = self.feasible(c)
            ff = self.feasible(bnot(c)) if ft else True
            if ft and ff:
                fr.alts.append(fr.dec + [False])
                d = True
            else:
                d = ft
            fr.dec.append(d)
        fr.pos += 1
        cc = c if d else bnot(c)
        fr.conds.append(cc)
        self.assume(cc)
        return d

    def choose(self, n=2):
        """non-deterministic choice between n continuations; every one is explored"""
        fr = self.frames[-1]
        if fr.pos < len(fr.dec):
            d = fr.dec[fr.pos]
        else:
            d = 0
            for k in range(1, n):
                fr.alts.append(fr.dec + [k])
            fr.dec.append(d)
        fr.pos += 1
        return d

    def replaying(self):
        """inside the prefix that an earlier path has executed already"""
        fr = self.frames[0]
        return fr.pos < self.forced0

    # ---- obligations
    def obligation(self, name, goal, where=""):
        if self.replaying():
            if goal is not True:
                self.assume(goal) if goal is not False else None
            return
        g = simp(goal)
        if g is True:
            self.obls.append(("triv", name))
            return
        self.obls.append(Obligation(name, self.pc, zb(goal), where))
        if goal is not False:
            self.assume(goal)
        # a false goal on a feasible path stays an obligation (it must be unreachable)

    # ---- journal of mutations (nested frames)
    def log(self, kind, target, key=None):
        """to be called before a mutable cell is changed"""
        if self.journal is not None:
            self.journal.append((kind, target, key, read_cell(kind, target, key)))


def read_cell(kind, target, key):
    if kind == "env" or kind == "field" or kind == "dict1":
        return target.get(key, UNDEF)
    if kind == "arr":
        return (target.n, target._get, None if target.items is None else list(target.items), target.dtype)
    if kind == "mat":
        return (target.n, target.m, target._get)
    if kind == "list":
        return list(target.xs)
    if kind == "dict":
        return dict(target.d)
    if kind == "df":
        return (dict(target.cols), dict(target.attrs))
    raise AssertionError(kind)


def write_cell(kind, target, key, v):
    if kind == "env" or kind == "field" or kind == "dict1":
        if v is UNDEF:
            target.pop(key, None)
        else:
            target[key] = v
    elif kind == "arr":
        target.n, target._get, target.items, target.dtype = v
    elif kind == "mat":
        target.n, target.m, target._get = v
    elif kind == "list":
        target.xs = list(v)
    elif kind == "dict":
        target.d = dict(v)
    elif kind == "df":
        target.cols, target.attrs = dict(v[0]), dict(v[1])


class Outcome:
    def __init__(self, cond, kind, val, cells):
        self.cond, self.kind, self.val, self.cells = cond, kind, val, cells


def explore(ctx, thunk, index=None, guard=True, max_paths=64):
    """Run thunk along all its paths without leaving a trace.

    Returns outcomes (condition, kind, value, changed cells) and the facts to
    assume afterwards.  With `index`, an index variable ranges under `guard`:
    symbols created inside are functions of it and facts are closed over it.
    """
    outcomes = []
    exported = []
    pending = [[]]
    saved_counter = None
    outer_journal = ctx.journal
    start = serial()
    while pending:
        dec = pending.pop()
        if len(outcomes) > max_paths:
            raise Unsupported("too many paths in a nested expression")
        fr = Frame(dec)
        ctx.frames.append(fr)
        npc = len(ctx.pc)
        nflt = len(ctx.filters)
        ctx.solver.push()
        if index is not None:
            ctx.scope.append((index, guard))
        ctx.journal = []
        kind = val = None
        try:
            try:
                ctx.assume(guard)
                if index is not None:
                    ctx.instantiate(index)
                val = thunk()
                kind = "val"
            except PyExc as e:
                kind, val = "exc", e
            except BreakEx:
                kind = "break"
            except ContinueEx:
                kind = "val"
            except ReturnEx as e:
                kind, val = "return", e.v
            except PathEnd:
                kind = None
            cells = {}
            # cells of objects made inside the thunk are not effects
            ctx.journal = [j for j in ctx.journal if getattr(j[1], "born", 0) <= start]
            for k, t, key, old in ctx.journal:
                ck = (k, id(t), key)
                if ck not in cells:
                    cells[ck] = [k, t, key, old, read_cell(k, t, key)]
        finally:
            for k, t, key, old in reversed(ctx.journal):
                write_cell(k, t, key, old)
            ctx.journal = outer_journal
            if index is not None:
                ctx.scope.pop()
            ctx.frames.pop()
            del ctx.pc[npc:]
            del ctx.filters[nflt:]
            ctx.solver.pop()
        pending.extend(fr.alts)
        cond = band(*fr.conds)
        for f in fr.facts:
            b = bimp(band(guard, cond) if index is not None else cond, f)
            if index is not None:
                b = z3.ForAll([index], b) if not isinstance(b, bool) else b
            exported.append(b)
        if kind is not None:
            outcomes.append(Outcome(cond, kind, val, cells))
    return outcomes, exported


def merge_outcomes(outs):
    """value of pairwise exclusive, exhaustive outcomes"""
    v = outs[-1].val
    for o in reversed(outs[:-1]):
        v = merge_val(o.cond, o.val, v)
    return v


def export_facts(ctx, facts):
    for f in facts:
        ctx.fact(f)
