"""Loops over sequences of symbolic length.

auto_for    loops whose effect has a closed form (element-wise stores, sums,
            maxima, appends, searches); the form is read off one symbolic
            iteration at a generic index and checked, never guessed
spec_loop   loops with a written invariant: established, preserved by an
            arbitrary iteration, used after the loop
"""
import ast
import z3
from .terms import *
from .terms import _unz, _pos, _neg, _zero, _norm, _coerce, _is_app
from . import terms as T
from .values import *
from .values import _unz_
from .ctx import *
from . import npmodel as NP

IS = z3.IntSort()


def assigned_names(body):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    tgt(t)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                tgt(x.target)
            elif isinstance(x, (ast.For,)):
                tgt(x.target)
            elif isinstance(x, ast.NamedExpr):
                tgt(x.target)
    return out


def mentions(t, decls):
    """does a raw term mention one of the declarations?"""
    if isinstance(t, bool) or isc(t):
        return False
    seen = set()
    st = [t]
    names = set(decls)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x) and x.decl().name() in names:
            return True
        st.extend(x.children())
    return False


def val_mentions(v, decls):
    if isinstance(v, Num):
        return any(mentions(t, decls) for t in (v.v, v.pi, v.ni, v.na))
    if isinstance(v, (bool, z3.BoolRef)):
        return mentions(v, decls)
    if isinstance(v, tuple):
        return any(val_mentions(x, decls) for x in v)
    if isinstance(v, Arr):
        p = v.get(z3.Int("probe"))
        return mentions(v.n, decls) or val_mentions(p, decls)
    if isinstance(v, PyList):
        return any(val_mentions(x, decls) for x in v.xs)
    return False


class Carried:
    def __init__(self, name, sym, init):
        self.name, self.sym, self.init = name, sym, init


class Grown:
    """an array that every iteration extends at its end: x = hstack([x, y])"""

    def __init__(self, I, name, init, i):
        self.I, self.name, self.init = I, name, init
        n = I.ctx.fresh("len_" + name, IS)
        f = I.ctx.fresh_fun("val_" + name, IS, IS if init.dtype == "i" else R)
        self.names = [n.decl().name(), f(z3.IntVal(0)).decl().name()]
        self.sym = Arr(n, lambda k: num(f(zi(k))), init.dtype, "nd")

    def part(self, x):
        """what the iteration adds, as a length and its elements"""
        if x is self.sym:
            return 0, None
        own, k = self.sym, z3.Int("probe")
        parts = getattr(x, "snaps", None)
        if getattr(x, "version", 0) or not parts or not same_term(parts[0][0], own.n) or \
                not same_num(num(parts[0][1](k)), num(own.get(k))):
            raise Unsupported(f"loop changes the array {self.name}")
        rest = [Arr(n, g, x.dtype, "nd") for n, g in parts[1:]]
        a = NP.concat(self.I, rest)
        return a.n, a.get

    def after(self, cases, i, all_syms):
        size, get = None, None
        for c, x in reversed(cases):
            if mentions(c, all_syms):
                raise CarriedUnsupported("append depends on a carried variable")
            n, g = self.part(x)
            if size is None:
                size, get = n, g
            elif get is None or g is None:
                size, get = rite(c, n, size), get or g
            else:
                size, get = rite(c, n, size), (lambda c, g, h: lambda k: merge_val(c, g(k), h(k)))(c, g, get)
        if get is None:
            return lambda m: self.init
        blk = lambda q: subst_val(Arr(size, get, self.sym.dtype, "nd"), [(i, zi(q))])
        if val_mentions(Arr(size, get, self.sym.dtype, "nd"), all_syms):
            raise CarriedUnsupported("loop appends a carried value")

        def after(m):
            r = NP.concat(self.I, [self.init, NP.flatten(self.I, m, blk, "nd", self.sym.dtype)])
            r.kind = "nd"
            return r
        return after


def sub_pairs(v, pairs):
    return subst_val(v, pairs)


class Recurrence:
    """the values X(0), X(1), ... that a carried variable takes at the start of the iterations"""
    def __init__(self, name, at, n, step, next):
        self.name, self.at, self.n, self.step, self.next = name, at, n, step, next


class Retype(Exception):
    """a carried variable needs a wider symbol"""


def auto_for(I, st, env, seq):
    kinds = {}
    rec = False
    for _ in range(12):
        try:
            return auto_for1(I, st, env, seq, kinds, rec)
        except Retype:
            continue
        except CarriedUnsupported:
            if rec:
                raise
            rec = True
    raise Unsupported("loop variables change type")


class CarriedUnsupported(Unsupported):
    pass


def auto_for1(I, st, env, seq, kinds, rec):
    ctx = I.ctx
    i = z3.Int(ctx.fresh_name("it"))
    n = seq.n
    guard = band(rle(0, i), rlt(i, n))
    names = assigned_names(st.body)
    tnames = assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))])
    # carried scalars get a symbol for their value at the start of iteration i
    carried, grown, lost = {}, {}, []
    ctx.scope.append((i, guard))
    saved_vars = {}
    try:
        for nm in names:
            if nm in tnames or nm not in env.vars:
                continue
            v = env.vars[nm]
            kd = kinds.get(nm)
            if isinstance(v, Num) and v.plain and kd not in ("flags", "nan"):
                isint = v.isint and kd != "real"
                s = ctx.fresh("car_" + nm, IS if isint and is_int_raw(v.v) else R)
                carried[nm] = Carried(nm, Num(s, isint=isint), v if isint or not v.isint else v.real())
            elif isinstance(v, Num):
                s = Num(ctx.fresh("car_" + nm, R), ctx.fresh("cpi", B), ctx.fresh("cni", B),
                        ctx.fresh("cna", B) if v.na is not False or kd == "nan" else False, False)
                carried[nm] = Carried(nm, s, v)
            elif isinstance(v, (bool, z3.BoolRef)):
                carried[nm] = Carried(nm, ctx.fresh("car_" + nm, B), v)
            elif isinstance(v, Arr) and v.kind == "nd" and v.dtype in ("f", "i"):
                grown[nm] = Grown(I, nm, v, i)
            elif v is not UNDEF and v is not LOST:
                lost.append(nm)
    finally:
        ctx.scope.pop()
    for nm, c in carried.items():
        saved_vars[nm] = env.vars[nm]
    events = []

    def body():
        tr = []
        old = getattr(I, "track", None)
        I.track = tr
        try:
            for nm, c in carried.items():
                I.set_var(env, nm, c.sym)
            for nm, g in grown.items():
                ctx.assume(g.sym.n >= 0)
                I.set_var(env, nm, g.sym)
            for nm in lost:
                I.set_var(env, nm, LOST)
            I.assign(st.target, seq.get(i), env)
            I.exec_block(st.body, env)
        finally:
            I.track = old
            if old is not None:
                old.extend(tr)
            events.append(tr)
    outs, facts = explore(ctx, body, index=i, guard=guard, max_paths=40)
    if not outs:
        ctx.assume(rle(n, 0))
        I.exec_block(st.orelse, env)
        return
    sym_of = {}
    for nm, c in carried.items():
        if isinstance(c.sym, Num):
            sym_of[nm] = [t.decl().name() for t in (c.sym.v, c.sym.pi, c.sym.ni, c.sym.na)
                          if isinstance(t, z3.ExprRef)]
        else:
            sym_of[nm] = [c.sym.decl().name()]
    for nm, g in grown.items():
        sym_of[nm] = g.names
    all_syms = [s for nm in sym_of for s in sym_of[nm]]
    # which carried variables really are read before they are written?
    ok = [o for o in outs if o.kind == "val"]
    exits = [o for o in outs if o.kind != "val"]
    for f in facts:
        if mentions(zb(f), all_syms) and not rec:
            raise CarriedUnsupported("loop fact depends on a carried variable")
    for f in facts:
        ctx.fact(f)

    # ---- cells changed by a normal iteration
    cells = {}
    for o in ok:
        for ck, c in o.cells.items():
            cells.setdefault(ck, c)

    def final_of(o, ck):
        c = o.cells.get(ck)
        return (True, c[4]) if c is not None else (False, None)

    def merged_scalar(ck, base):
        v = None
        for o in reversed(ok):
            ch, x = final_of(o, ck)
            x = x if ch else base
            v = x if v is None else merge_val(o.cond, x, v)
        return v

    plan = []        # functions m -> effect of the first m normal iterations

    dep_exit = any(mentions(o.cond, all_syms) for o in exits)
    nexts = []            # (value at the end of iteration i, m -> value before iteration m)
    values_after = {}     # carried var -> closure m -> value after m iterations

    for ck, c in sorted(cells.items(), key=lambda kv: kv[1][0] != "env"):
        kind, target, key = c[0], c[1], c[2]
        if kind == "env":
            if target is not env.vars:
                raise Unsupported("loop changes an outer variable")
            nm = key
            if nm in carried:
                cv = carried[nm]
                t = merged_scalar(ck, cv.sym)
                if rec:
                    values_after[nm] = recurrence(I, cv, t, i, n, guard, kinds)
                    nexts.append((t, values_after[nm]))
                else:
                    values_after[nm] = closed_form(I, ok, ck, cv, t, sym_of[nm], all_syms, i, n, final_of, kinds)
            else:
                # a temporary of the body: value of the last iteration
                vals = [final_of(o, ck) for o in ok]
                if nm in grown and any(x is grown[nm].sym or val_mentions(x, sym_of[nm]) for _, x in vals):
                    values_after[nm] = grown[nm].after([(o.cond, x) for o, (_, x) in zip(ok, vals)], i, all_syms)
                    continue
                if nm in lost and all(x is LOST for _, x in vals):
                    v0 = env.vars[nm]
                    values_after[nm] = lambda m, v0=v0: v0
                    continue
                if any(x is LOST for _, x in vals):
                    values_after[nm] = None
                    continue
                if not all(ch for ch, _ in vals):
                    values_after[nm] = None
                    continue
                try:
                    v = vals[-1][1]
                    for o, (ch, x) in zip(reversed(ok[:-1]), reversed(vals[:-1])):
                        v = merge_val(o.cond, x, v)
                    if not rec and (val_mentions(v, all_syms) or any(mentions(o.cond, all_syms) for o in ok)):
                        v = None
                except Unsupported:
                    v = None
                values_after[nm] = ("temp", v)
        elif any(target is g.sym for g in grown.values()):
            raise Unsupported("loop changes an array it also replaces")
        elif kind == "arr":
            plan.append(arr_effect(I, target, ck, ok, final_of, i, n, events, [] if rec else all_syms, nexts))
        elif kind == "list":
            plan.append(list_effect(I, target, ck, c, ok, final_of, i, n, [] if rec else all_syms))
        elif kind == "mat":
            raise Unsupported("loop writes a matrix")
        elif kind in ("dict", "df", "field", "dict1"):
            raise Unsupported(f"loop changes a {kind}")
    # conditions of the normal paths may depend on carried values only where a closed form covers it
    for o in ok:
        if not rec and mentions(o.cond, all_syms):
            # allowed when every changed cell of this loop is a carried scalar with a closed form
            if any(c[0] != "env" for c in cells.values()):
                raise CarriedUnsupported("loop condition depends on a carried variable")
    if rec:
        for nm, cv in carried.items():
            if nm not in values_after:       # never changed
                at = recurrence(I, cv, cv.sym, i, n, guard, kinds)
    reads_carried_elsewhere(events, all_syms)

    def after(m):
        """apply the effect of the first m iterations"""
        for p in plan:
            p(m)
        for nm, f in values_after.items():
            if f is None:
                I.set_var(env, nm, LOST)
            elif isinstance(f, tuple):
                v = f[1]
                if v is None:
                    I.set_var(env, nm, LOST)
                else:
                    try:
                        last = subst_val(v, [(i, zi(rsub(m, 1)))])
                    except Unsupported:
                        last = LOST
                    prev = env.vars.get(nm, UNDEF)
                    I.set_var(env, nm, last if ctx.implied(rlt(0, m)) else
                              (LOST if prev is UNDEF or prev is LOST or last is LOST else merge_val(rlt(0, m), last, prev)))
            else:
                I.set_var(env, nm, f(m))

    def set_target(m):
        for nm in tnames:
            env_has = nm in env.vars
            if ctx.implied(rlt(0, m)):
                I.assign(st.target, seq.get(rsub(m, 1)), env)
                return
        for nm in tnames:
            I.set_var(env, nm, LOST)

    if not exits:
        after(n)
        set_target(n)
        I.exec_block(st.orelse, env)
        return
    if dep_exit and not rec:
        raise CarriedUnsupported("loop exit depends on a carried variable")
    bad = bor(*[o.cond for o in exits])
    k = z3.Int(ctx.fresh_name("k"))
    if ctx.choose(2) == 0:
        ctx.assume(z3.ForAll([k], zb(bimp(subst_raw(guard, [(i, k)]), subst_raw(bnot(bad), [(i, k)])))))
        if not ok:
            ctx.assume(rle(n, 0))
        after(n)
        set_target(n)
        I.exec_block(st.orelse, env)
        return
    p = ctx.fresh("exit_at", IS)
    pairs = [(i, p)]
    ctx.assume(band(p >= 0, rlt(p, n)))
    ctx.assume(subst_raw(bad, pairs))
    ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < p), zb(subst_raw(bnot(bad), [(i, k)])))))
    after(p)
    sel = exits[-1]
    for o in exits[:-1]:
        if ctx.branch(subst_raw(o.cond, pairs)):
            sel = o
            break
    cur = []
    for nm, c in carried.items():
        v = env.vars.get(nm)
        if isinstance(c.sym, Num):
            if isinstance(v, Num):
                cur += [(a, zz(b, a)) for a, b in zip((c.sym.v, c.sym.pi, c.sym.ni, c.sym.na),
                                                     (v.v, v.pi, v.ni, v.na)) if isinstance(a, z3.ExprRef)]
        elif isinstance(v, (bool, z3.BoolRef)):
            cur.append((c.sym, zb(v)))

    def at_p(v):
        if isinstance(v, (Obj, PyDict, FuncV, DF)):
            raise Unsupported("loop leaves with an object")
        return subst_val(subst_val(v, cur) if cur else v, pairs)
    I.assign(st.target, seq.get(p), env)
    for ck, c in sel.cells.items():
        if c[0] == "env":
            I.set_var(env, c[2], c[4] if c[4] is UNDEF or c[4] is LOST else at_p(c[4]))
        elif c[0] == "arr":
            tgt, fin = c[1], c[4]
            wr = [e for tr in events for e in tr if e[1] is tgt]
            if any(e[0] not in ("w", "r") for e in wr):
                raise Unsupported("loop leaves after an array operation")
            ws = [e[2] for e in wr if e[0] == "w"]
            w0 = ws[0]
            old = NP.raw_snap(tgt)
            fg = fin[1]
            wp = subst_raw(w0, pairs) if not isc(w0) else w0
            newv = at_p(fg(w0))
            ctx.log("arr", tgt)
            tgt._get = lambda q: merge_val(req(q, wp), newv, old(q))
            tgt.items = None
            NP.bump(tgt)
        else:
            raise Unsupported("loop leaves after a side effect")
    if sel.kind == "break":
        return
    if sel.kind == "return":
        raise ReturnEx(at_p(sel.val) if sel.val is not None else None)
    raise PyExc(sel.val.etype, sel.val.msg)


def recurrence(I, cv, t, i, n, guard, kinds):
    """X(0) = init and X(i+1) = t(i) define the carried variable; returns m -> X(m)"""
    ctx = I.ctx
    sym, init = cv.sym, cv.init
    at = lambda m: subst_val(sym, [(i, zi(m))])
    if isinstance(sym, Num):
        if not isinstance(t, Num):
            raise Unsupported(f"loop variable {cv.name} changes type")
        if sym.isint and not t.isint:
            kinds[cv.name] = "real"
            raise Retype()
        widen(cv, t, kinds)
        same = T.same
    else:
        if not isinstance(t, (bool, z3.BoolRef)):
            raise Unsupported(f"loop variable {cv.name} changes type")
        same = biff
    step = lambda k: bimp(subst_raw(guard, [(i, zi(k))]) if not isinstance(guard, bool) else guard,
                          same(at(radd(k, 1)), subst_val(t, [(i, zi(k))])))
    ctx.fact(same(at(0), init))
    k = z3.Int(ctx.fresh_name("k"))
    b = step(k)
    if not isinstance(b, bool):
        ctx.fact(z3.ForAll([k], b))

    def next(k, v):
        """the value after iteration k when it starts with v"""
        if isinstance(sym, Num):
            prs = [(a, zz(b, a)) for a, b in zip((sym.v, sym.pi, sym.ni, sym.na), (v.v, v.pi, v.ni, v.na))
                   if isinstance(a, z3.ExprRef)]
        else:
            prs = [(sym, zb(v))]
        return subst_val(subst_val(t, prs), [(i, zi(k))])
    ctx.recs.append(Recurrence(cv.name, at, n, step, next))
    return at


def widen(cv, t, kinds):
    """repeat with a symbol that can take the infinities or nan that the loop may assign"""
    if cv.sym.plain and not t.plain:
        kinds[cv.name] = "flags" if t.na is False else "nan"
        raise Retype()
    if cv.sym.na is False and t.na is not False:
        kinds[cv.name] = "nan"
        raise Retype()


def zz(b, like):
    if like.sort() == B:
        return zb(b)
    if like.sort() == IS:
        return zi(b)
    return zr(b)


def reads_carried_elsewhere(events, all_syms):
    for tr in events:
        for e in tr:
            if e[0] in ("r", "w") and e[2] is not None and not isc(e[2]) and mentions(e[2], all_syms):
                raise Unsupported("loop indexes an array by a carried variable")


def closed_form(I, ok, ck, cv, t, own, all_syms, i, n, final_of, kinds):
    ctx = I.ctx
    others = [s for s in all_syms if s not in own]
    sym, init = cv.sym, cv.init
    if val_mentions(t, others):
        raise CarriedUnsupported(f"loop variable {cv.name} depends on another one")
    if not val_mentions(t, own):
        # overwritten in every iteration
        def f(m):
            last = subst_val(t, [(i, zi(rsub(m, 1)))])
            return last if ctx.implied(rlt(0, m)) else merge_val(rlt(0, m), last, init)
        return f
    if isinstance(sym, z3.BoolRef):
        tt = zb(t)
        # X or b(i), X and b(i)
        b1 = z3.simplify(z3.substitute(tt, (sym, z3.BoolVal(False))))
        b2 = z3.simplify(z3.substitute(tt, (sym, z3.BoolVal(True))))
        if z3.is_true(b2):
            def f(m):
                return bor(init, NP.exists_bool(I, lambda k: z3.substitute(b1, (i, zi(k))), m))
            return f
        if z3.is_false(b1):
            def f(m):
                return band(init, NP.forall_bool(I, lambda k: z3.substitute(b2, (i, zi(k))), m))
            return f
        raise CarriedUnsupported(f"boolean loop variable {cv.name}")
    if not isinstance(t, Num):
        raise Unsupported(f"loop variable {cv.name} changes type")
    if t.plain and sym.plain:
        d = z3.simplify((zr(t.v) if not is_int_raw(t.v) or not is_int_raw(sym.v) else zi(t.v)) -
                        (zr(sym.v) if not is_int_raw(t.v) or not is_int_raw(sym.v) else zi(sym.v)),
                        som=True)
        d = push_sub(t.v, sym.v)
        if d is not None and not mentions(d, own):
            dn = Num(T._unz(d) if not isc(d) else d, isint=t.isint and sym.isint)

            def f(m):
                s = NP.sum_closure(I, m, lambda k: subst_val(dn, [(i, zi(k))]))
                return add(init if t.isint else init.real(), s)
            return f
    widen(cv, t, kinds)
    # conditional updates: max / min / last
    cases = []
    for o in ok:
        ch, x = final_of(o, ck)
        if ch and getattr(x, "choice", None) and any(y is sym for y in x.choice[1:]):
            # max(X, e), e if c else X
            c, a, b = x.choice
            cases += [(band(o.cond, c), a), (band(o.cond, bnot(c)), b)]
        else:
            cases.append((o.cond, x if ch else sym))
    upd = [(c, x) for c, x in cases if x is not sym]
    if len(upd) >= 1 and all(not val_mentions(x, own) for _, x in upd):
        e = upd[-1][1]
        for c, x in reversed(upd[:-1]):
            e = merge_val(c, x, e)
        cond = bor(*[c for c, _ in upd])
        if not val_mentions(e, own) and isinstance(e, Num) and sym.na is False:
            s = z3.Solver()
            s.set("timeout", 2000)
            for x in (sym, e):
                s.add(zb(bnot(band(x.pi, x.ni))))
            for ismax in (True, False):
                want = lt(sym, e) if ismax else lt(e, sym)
                wantle = le(sym, e) if ismax else le(e, sym)
                for w in (want, wantle):
                    s.push()
                    s.add(zb(bnot(biff(cond, w))))
                    r = s.check()
                    s.pop()
                    if r == z3.unsat:
                        def f(m, ismax=ismax):
                            ini = init.real() if not e.isint else init
                            if first_is(e, i, ini):
                                a = Arr(radd(m, 1), lambda k: subst_val(e, [(i, zi(rsub(k, 1)))]), "f", "nd")
                            else:
                                a = Arr(radd(m, 1), lambda k: merge_val(req(k, 0), ini,
                                                                        subst_val(e, [(i, zi(rsub(k, 1)))])),
                                        "f", "nd")
                            return NP.minmax(I, a, ismax)
                        return f
        if not mentions(cond, own) and not mentions(cond, all_syms):
            def f(m):
                p = ctx.fresh("last", IS)
                k = z3.Int(ctx.fresh_name("k"))
                ck_ = lambda q: subst_raw(cond, [(i, zi(q))])
                some = ctx.fresh("some", B)
                ctx.fact(z3.Implies(some, z3.And(p >= 0, zb(rlt(p, m)), zb(ck_(p)), z3.ForAll(
                    [k], z3.Implies(z3.And(k > p, zb(rlt(k, m))), zb(bnot(ck_(k))))))))
                ctx.fact(z3.Implies(z3.Not(some), z3.ForAll(
                    [k], z3.Implies(z3.And(k >= 0, zb(rlt(k, m))), zb(bnot(ck_(k)))))))
                return merge_val(some, subst_val(e, [(i, p)]), init)
            return f
    raise CarriedUnsupported(f"no closed form for loop variable {cv.name}")


def first_is(e, i, init):
    """does the running expression at index -1 coincide with the initial value?"""
    a = subst_val(e, [(i, z3.IntVal(-1))])

    def eq_(p, q):
        p = z3.simplify(p) if isinstance(p, z3.ExprRef) else p
        q = z3.simplify(q) if isinstance(q, z3.ExprRef) else q
        if isinstance(p, z3.ExprRef) and isinstance(q, z3.ExprRef):
            return p.eq(q)
        return p is q or (not isinstance(p, z3.ExprRef) and not isinstance(q, z3.ExprRef) and p == q)
    return all(eq_(x, y) for x, y in ((a.v, init.v), (a.pi, init.pi), (a.ni, init.ni), (a.na, init.na)))


def push_sub(t, x):
    """t - x with the subtraction pushed through if-then-else; None if x stays"""
    if isc(t):
        return None
    if t.eq(x):
        return 0
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        pa, pb = push_sub(a, x), push_sub(b, x)
        if pa is None or pb is None:
            return None
        return rite(c, pa, pb)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL and not isc(x) and x.sort() == R:
        return None
    if z3.is_add(t):
        ch = t.children()
        for q, c in enumerate(ch):
            p = push_sub(c, x)
            if p is not None:
                r = p
                for q2, c2 in enumerate(ch):
                    if q2 != q:
                        r = radd(r, T._unz(c2))
                return r
    if z3.is_sub(t):
        p = push_sub(t.children()[0], x)
        if p is not None:
            r = p
            for c in t.children()[1:]:
                r = rsub(r, T._unz(c))
            return r
    return None


def arr_effect(I, arr, ck, ok, final_of, i, n, events, all_syms, nexts=()):
    ctx = I.ctx
    idxs = []
    for tr in events:
        for e in tr:
            if e[1] is not arr:
                continue
            if e[0] in ("rall", "wall"):
                raise Unsupported("loop uses an array it writes as a whole")
            if e[0] == "append":
                return append_effect(I, arr, ck, ok, final_of, i, n, events, all_syms)
            if e[0] == "w":
                if e[2] is None:
                    raise Unsupported("in-place change in a loop")
                if not any(same_term(e[2], x) for x in idxs):
                    idxs.append(e[2])
    if len(idxs) != 1:
        raise Unsupported("loop writes an array at several positions")
    w = idxs[0]
    if isc(w) or not mentions(w, [i.decl().name()]):
        raise Unsupported("loop writes an array at a fixed position")
    # the written position must be i + const
    off = z3.simplify(w - i) if w.sort() == IS else None
    if off is None or mentions(off, [i.decl().name()]) or mentions(off, all_syms):
        raise Unsupported("loop writes an array at an irregular position")
    for tr in events:
        for e in tr:
            if e[1] is arr and e[0] == "r" and not same_term(e[2], w):
                raise Unsupported("loop reads other elements of an array it writes")
    old = NP.raw_snap(arr)
    base = old(w)
    v = None
    for o in reversed(ok):
        ch, fin = final_of(o, ck)
        x = fin[1](w) if ch else base
        v = x if v is None else merge_val(o.cond, x, v)
    if val_mentions(v, all_syms):
        raise CarriedUnsupported("loop stores a carried value")
    for t, at in nexts:
        if isinstance(t, Num) and isinstance(v, Num) and same_num(t, v):
            v = at(radd(i, 1))
    off = T._unz(off)

    def effect(m):
        ctx.log("arr", arr)
        prev = NP.raw_snap(arr)

        def get(k):
            r = subst_val(v, [(i, zi(rsub(k, off)))])
            return merge_val(band(rle(off, k), rlt(k, radd(off, m))), r, prev(k))
        nn = arr.n
        if isc(off) and off == 0 and (same_term(nn, m)):
            arr._get = lambda k: subst_val(v, [(i, zi(k))])
        else:
            arr._get = get
        arr.items = None
        NP.bump(arr)
    return effect


def same_num(a, b):
    return all(x is y if isinstance(x, bool) or isinstance(y, bool) else same_term(x, y)
               for x, y in zip((a.v, a.pi, a.ni, a.na), (b.v, b.pi, b.ni, b.na)))


def same_term(a, b):
    if isc(a) and isc(b):
        return a == b
    if isc(a) or isc(b):
        return False
    return a.eq(b) or z3.simplify(a).eq(z3.simplify(b))


def append_effect(I, arr, ck, ok, final_of, i, n, events, all_syms):
    raise Unsupported("append to a symbolic list in a loop")


def list_effect(I, lst, ck, c, ok, final_of, i, n, all_syms):
    """appends to a list"""
    ctx = I.ctx
    pre = c[3]
    conds, vals = [], []
    for o in ok:
        ch, fin = final_of(o, ck)
        add_ = fin[len(pre):] if ch else []
        if ch and not all(x is y for x, y in zip(pre, fin)):
            raise Unsupported("loop changes list elements")
        if len(add_) > 1:
            raise Unsupported("loop appends several elements")
        if mentions(o.cond, all_syms):
            raise CarriedUnsupported("append depends on a carried variable")
        conds.append((o.cond, add_))
    ap = [(c_, a[0]) for c_, a in conds if a]
    v = ap[-1][1]
    for c_, x in reversed(ap[:-1]):
        v = merge_val(c_, x, v)
    if val_mentions(v, all_syms):
        raise CarriedUnsupported("loop appends a carried value")
    always = len(ap) == len(conds)
    mask = bor(*[c_ for c_, _ in ap])

    def effect(m):
        if not (same_term(m, n)):
            raise Unsupported("append in a loop that stops early")
        if always:
            r = I.list_arr(m, lambda k: subst_val(v, [(i, zi(k))]))
        else:
            flt = NP.make_filter(I, Arr(m, lambda k: subst_raw(mask, [(i, zi(k))]), "b"))
            r = I.list_arr(flt.m, lambda j: subst_val(v, [(i, zi(flt.idx(j)))]))
        if pre:
            r = NP.concat(I, [const_arr(pre, "list"), r])
            r.kind = "list"
        replace_object(I, lst, r)
    return effect


def replace_object(I, old, new):
    """a python list becomes a list of symbolic length: rebind every reference"""
    seen = set()

    def walk(d):
        if id(d) in seen:
            return
        seen.add(id(d))
        for k, v in list(d.items()):
            if v is old:
                kind = "env"
                I.ctx.log(kind, d, k)
                d[k] = new
            elif isinstance(v, Obj):
                walk(v.fields)
            elif isinstance(v, PyDict):
                walk(v.d)
    for e in I.envs:
        walk(e.vars)
        c = e.closure
        while c is not None:
            walk(c.vars)
            c = c.closure


# ---------------------------------------------------------------- loops with an invariant
def reachable(vals):
    seen = {}
    st = list(vals)
    while st:
        v = st.pop()
        if isinstance(v, (Arr, Mat, PyList, PyDict, Obj, DF)):
            if id(v) in seen:
                continue
            seen[id(v)] = v
            if isinstance(v, PyList):
                st.extend(v.xs)
            elif isinstance(v, PyDict):
                st.extend(v.d.values())
            elif isinstance(v, Obj):
                st.extend(v.fields.values())
            elif isinstance(v, DF):
                st.extend(v.cols.values())
                st.extend(v.attrs.values())
        elif isinstance(v, tuple):
            st.extend(v)
    return seen


def stored_names(body):
    """names of containers stored into, or grown, in the body"""
    out = []
    for s in body:
        for x in ast.walk(s):
            ts = []
            if isinstance(x, ast.Assign):
                ts = x.targets
            elif isinstance(x, ast.AugAssign):
                ts = [x.target]
            for t in ts:
                els = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                for e in els:
                    while isinstance(e, ast.Subscript):
                        e = e.value
                        if isinstance(e, ast.Name) and e.id not in out:
                            out.append(e.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr in ("append", "extend", "pop", "insert", "clear") and \
                    isinstance(x.func.value, ast.Name) and x.func.value.id not in out:
                out.append(x.func.value.id)
    return out


def havoc_array(I, a, name, grow=False):
    ctx = I.ctx
    if isinstance(a, Mat):
        f = ctx.fresh_fun("hv_" + name, IS, IS, R)
        ctx.log("mat", a)
        NP.bump(a)
        a._get = lambda i, j: num(f(zi(i), zi(j)))
        return
    ctx.log("arr", a)
    if a.dtype == "b":
        f = ctx.fresh_fun("hv_" + name, IS, B)
        a._get = lambda i: f(zi(i))
    elif a.dtype == "i":
        f = ctx.fresh_fun("hv_" + name, IS, IS)
        a._get = lambda i: num(f(zi(i)))
    elif a.dtype == "f":
        f = ctx.fresh_fun("hv_" + name, IS, R)
        a._get = lambda i: num(f(zi(i)))
    else:
        raise Unsupported("havoc of an object array")
    a.items = None
    NP.bump(a)
    if grow:
        a.n = ctx.fresh("hn_" + name, IS)
        ctx.assume(a.n >= 0)


def havoc_scalar(I, v, name):
    ctx = I.ctx
    if isinstance(v, Num):
        s = ctx.fresh("hv_" + name, IS if v.isint and is_int_raw(v.v) else R)
        return Num(s, isint=v.isint)
    if isinstance(v, (bool, z3.BoolRef)):
        return ctx.fresh("hv_" + name, B)
    raise Unsupported(f"havoc of {name}: {type(v).__name__}")


def spec_loop(I, st, env, seq, spec):
    ctx = I.ctx
    key = I.loop_key(st, env)
    tag = f"{key[0].split(':')[-1]}#loop{key[1]}"
    gs = {}
    if spec.ghost_init:
        spec.ghost_init(I, env, gs)
    n = seq.n if seq is not None else None
    for nm, g in spec.inv(I, env, 0, gs):
        ctx.obligation(f"{tag}:init:{nm}", g)
    names = assigned_names(st.body)
    tnames = assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))]) \
        if isinstance(st, ast.For) else []
    stores = stored_names(st.body)
    pre = reachable(env.vars.values())
    allowed = set()
    # havoc
    for nm in names:
        if nm in tnames:
            continue
        if nm not in env.vars or env.vars[nm] is UNDEF or env.vars[nm] is LOST:
            I.set_var(env, nm, LOST)
            continue
        v = env.vars[nm]
        if spec.modifies and nm in spec.modifies:
            I.set_var(env, nm, spec.modifies[nm](I, env, gs))
        elif isinstance(v, (Num, bool, z3.BoolRef)):
            I.set_var(env, nm, havoc_scalar(I, v, nm))
        elif nm in stores:
            pass
        else:
            raise Unsupported(f"loop variable {nm} of type {type(v).__name__}")
    for nm in stores:
        v = env.vars.get(nm, UNDEF)
        if v is UNDEF or v is LOST:
            continue
        if spec.modifies and nm in spec.modifies:
            nv = spec.modifies[nm](I, env, gs)
            if nv is not None:
                I.set_var(env, nm, nv)
                allowed.add(id(nv))
            allowed.add(id(v))
            continue
        if isinstance(v, (Arr, Mat)):
            havoc_array(I, v, nm)
            allowed.add(id(v))
        else:
            raise Unsupported(f"loop grows {nm}")
    if spec.ghost_havoc:
        spec.ghost_havoc(I, env, gs)
    k = ctx.fresh("k", IS)
    ctx.assume(k >= 0)
    if n is not None:
        ctx.assume(rle(k, rite(rlt(n, 0), 0, n) if not isc(n) else max(n, 0)))
    for nm, g in spec.inv(I, env, k, gs):
        if g is not True:
            ctx.assume(zb(g))
    if ctx.choose(2) == 0:
        if n is not None:
            if not ctx.feasible(rlt(k, n)):
                raise PathEnd()
            ctx.assume(rlt(k, n))
            I.assign(st.target, seq.get(k), env)
        else:
            if not ctx.branch(I.truth(I.eval(st.test, env))):
                raise PathEnd()
        if spec.pre_body:
            spec.pre_body(I, env, k, gs)
        m0 = spec.measure(I, env, k, gs) if spec.measure else None
        own_journal = ctx.journal is None
        if own_journal:
            ctx.journal = []
        j0 = len(ctx.journal)
        broke = False
        try:
            try:
                I.exec_block(st.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                broke = True
            for kd, tgt, ky, old in ctx.journal[j0:]:
                if kd == "env":
                    if tgt is env.vars and ky not in names and ky not in tnames and ky not in (spec.modifies or {}):
                        raise Unsupported(f"loop changes {ky}")
                elif id(tgt) in pre and id(tgt) not in allowed:
                    raise Unsupported("loop changes an object outside its frame")
                elif kd == "field":
                    for o in pre.values():
                        if isinstance(o, Obj) and o.fields is tgt:
                            raise Unsupported("loop changes a field")
        finally:
            if own_journal:
                ctx.journal = None
        if broke:
            if spec.at_exit:
                spec.at_exit(I, env, k, gs, True)
            return
        if spec.ghost_step:
            spec.ghost_step(I, env, k, gs)
        for nm, g in spec.inv(I, env, radd(k, 1), gs):
            ctx.obligation(f"{tag}:step:{nm}", g)
        if m0 is not None:
            m1 = spec.measure(I, env, radd(k, 1), gs)
            ctx.obligation(f"{tag}:decreases", band(rle(0, m0), rlt(m1, m0)))
        raise PathEnd()
    if n is not None:
        ctx.assume(req(k, n) if not isc(n) else k == max(n, 0))
        if ctx.implied(rlt(0, n)):
            I.assign(st.target, seq.get(rsub(n, 1)), env)
    else:
        if ctx.branch(I.truth(I.eval(st.test, env))):
            raise PathEnd()
    if spec.at_exit:
        spec.at_exit(I, env, k, gs, False)
    I.exec_block(st.orelse, env)
