"""Discharging obligations.

Each obligation (assumptions, goal) is sent to z3 (in a worker process) and,
when z3 gives up, to cvc5 and to the newer z3 with other settings, as SMT-LIB
text.  Only `unsat` of the negated goal counts as discharged.
"""
import math
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
import z3
from fractions import Fraction
from .terms import *
from . import terms as T
from .npmodel import RNDI

NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def subterms(ts):
    seen = set()
    st = list(ts)
    out = []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return out


def has_var(t, cache):
    k = t.get_id()
    if k in cache:
        return cache[k]
    if z3.is_var(t):
        r = True
    elif z3.is_quantifier(t):
        r = True
    else:
        r = any(has_var(c, cache) for c in t.children())
    cache[k] = r
    return r


def axioms(forms):
    """instances of the axioms of EXP, LOG, RNDI, SIN, COS, PI for a set of formulas"""
    ts = subterms(forms)
    cache = {}
    exps, logs, rnds, bound = [], [], [], set()
    has_pi = False
    sins, divs = [], []
    for t in ts:
        if not z3.is_app(t):
            continue
        if t.eq(PI):
            has_pi = True
        d = t.decl()
        n = d.name()
        if d.kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)) and not has_var(t, cache):
            a, b = t.children()
            divs.append(z3.Implies(b > 0, z3.And(a == b * (a / b) + a % b, a % b >= 0, a % b < b)))
        if n == "IPOW" and not has_var(t, cache):
            divs.append(t >= 1)
        if n in ("EXP", "LOG", "RNDI", "SIN", "COS", "ASIN") and t.num_args() == 1:
            if has_var(t, cache):
                bound.add(n)
                continue
            {"EXP": exps, "LOG": logs, "RNDI": rnds, "SIN": sins, "COS": sins, "ASIN": sins}[n].append(t)
    out = divs[:40]
    if has_pi:
        out += [PI > z3.RealVal("3.14159265358979"), PI < z3.RealVal("3.1415926535898")]
    # EXP(LOG(t)) terms
    for t in logs[:40]:
        a = t.arg(0)
        if z3.is_rational_value(a) and a.as_fraction() in T.CONST_LOGS:
            out.append(T.CONST_LOGS[a.as_fraction()])
        out.append(z3.Implies(a > 0, z3.And(z3.Implies(a == 1, t == 0), z3.Implies(a < 1, t < 0),
                                            z3.Implies(a > 1, t > 0))))
    for t in exps[:60]:
        a = t.arg(0)
        out += [t > 0, z3.Implies(a == 0, t == 1), z3.Implies(a > 0, t > 1), z3.Implies(a < 0, t < 1)]
    E = exps[:24]
    ids = {}
    for t in exps[:60]:
        n = z3.simplify(-t.arg(0))
        ids[z3.simplify(t.arg(0)).sexpr()] = t
        o = ids.get(n.sexpr())
        if o is not None and not o.eq(t):
            out.append(t * o == 1)
    for x in range(len(E)):
        for y in range(x):
            a, b = E[x].arg(0), E[y].arg(0)
            out += [z3.Implies(a < b, E[x] < E[y]), z3.Implies(b < a, E[y] < E[x]),
                    z3.Implies(a == b, E[x] == E[y])]
    L = logs[:20]
    for x in range(len(L)):
        for y in range(x):
            a, b = L[x].arg(0), L[y].arg(0)
            out.append(z3.Implies(z3.And(a > 0, b > 0), z3.And(z3.Implies(a < b, L[x] < L[y]),
                                                               z3.Implies(b < a, L[y] < L[x]))))
    for l in L:
        for e in E:
            a, u = l.arg(0), e.arg(0)
            out.append(z3.Implies(a > 0, z3.And((l < u) == (a < e), (l == u) == (a == e))))
    for r in rnds[:40]:
        a = r.arg(0)
        out += [z3.ToReal(r) - a <= z3.RealVal("1/2"), a - z3.ToReal(r) <= z3.RealVal("1/2")]
    for i, r in enumerate(rnds[:8]):
        for q in rnds[:i]:
            a, b = r.arg(0), q.arg(0)
            out += [z3.Implies(a <= b, r <= q), z3.Implies(b <= a, q <= r)]
    x, y = z3.Reals("ax ay")
    if "EXP" in bound:
        out.append(z3.ForAll([x], EXP(x) > 0, patterns=[EXP(x)]))
        out.append(z3.ForAll([x, y], z3.Implies(x < y, EXP(x) < EXP(y)),
                             patterns=[z3.MultiPattern(EXP(x), EXP(y))]))
        out.append(EXP(z3.RealVal(0)) == 1)
    if "LOG" in bound:
        out.append(z3.ForAll([x], z3.Implies(x > 0, EXP(LOG(x)) == x), patterns=[LOG(x)]))
        out.append(z3.ForAll([x, y], z3.Implies(z3.And(x > 0, y > 0, x < y), LOG(x) < LOG(y)),
                             patterns=[z3.MultiPattern(LOG(x), LOG(y))]))
    if "RNDI" in bound:
        out.append(z3.ForAll([x], z3.And(z3.ToReal(RNDI(x)) - x <= z3.RealVal("1/2"),
                                         x - z3.ToReal(RNDI(x)) <= z3.RealVal("1/2")), patterns=[RNDI(x)]))
    return out


_HQ = {}            # term id -> (term, result); the terms are kept so that ids are not used again


def has_quant(t):
    k = t.get_id()
    r = _HQ.get(k)
    if r is None:
        r = _HQ[k] = t, z3.is_quantifier(t) or (z3.is_app(t) and any(has_quant(c) for c in t.children()))
    return r[1]


def formulas(ob):
    fs = [zb(c) for c in ob.pc] + [z3.Not(ob.goal)]
    ax = axioms(fs)
    ax2 = axioms(fs + ax) if ax else []
    return fs, ax2 or ax


def run_external(cmd, text, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        name = f.name
    try:
        p = subprocess.run(cmd + [name], capture_output=True, text=True, timeout=timeout + 2)
        out = p.stdout.strip().split("\n")
        return out[0] if out else "unknown"
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        os.unlink(name)


def relevant(fs, goal, depth=2):
    """assumptions sharing symbols with the goal, transitively up to depth"""
    def syms(t):
        return {x.decl().name() for x in subterms([t]) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}
    S = [syms(f) for f in fs]
    cur = syms(goal)
    keep = set()
    for _ in range(depth):
        new = {i for i, s in enumerate(S) if i not in keep and s & cur}
        if not new:
            break
        keep |= new
        for i in new:
            cur |= S[i]
    return [f for i, f in enumerate(fs) if i in keep]


def index_patterns(body, nv):
    """for each bound variable: the (function, position, offset) places where it is an index"""
    pats = [set() for _ in range(nv)]
    for t in subterms([body]):
        if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED or t.num_args() == 0:
            continue
        for p in range(t.num_args()):
            a = t.arg(p)
            v, off = split_offset(a)
            if v is not None and z3.is_var(v):
                k = z3.get_var_index(v)
                if k < nv:
                    pats[k].add((t.decl().name(), p, off))
    return pats


def split_offset(a):
    """a == v + off with a variable v: (v, off)"""
    if z3.is_var(a):
        return a, 0
    if z3.is_add(a) and a.num_args() == 2:
        x, y = a.children()
        if z3.is_int_value(x) and z3.is_var(y):
            return y, x.as_long()
        if z3.is_int_value(y) and z3.is_var(x):
            return x, y.as_long()
    return None, 0


def ground(fs, rounds=3, cap=2500):
    """quantifier-free consequences of fs (skolemised, universal formulas instantiated at the indices in use)"""
    g = z3.Goal()
    for f in fs:
        g.add(z3.simplify(f, som=False))
    try:
        out = z3.Then("simplify", "nnf")(g)
    except z3.Z3Exception:
        return None
    fl = []
    for f in out[0]:
        fl.append(f)
    if any(z3.is_false(f) for f in fl):
        return [z3.BoolVal(False)]
    qs, flat, seen = [], [], set()

    def add(f):
        f = z3.simplify(f)
        if z3.is_and(f):
            for c in f.children():
                add(c)
            return
        if f.get_id() in seen:
            return
        seen.add(f.get_id())
        keep.append(f)
        if z3.is_quantifier(f):
            qs.append(f)
        elif has_quant(f):
            pull(f)
        else:
            flat.append(f)
    keep = []

    def pull(f):
        """a disjunction with universal disjuncts: name them"""
        def walk(t):
            if z3.is_quantifier(t):
                if not t.is_forall():
                    return None
                b = names.get(t.get_id())
                if b is None:
                    b = z3.Bool(f"q!name!{len(names)}")
                    names[t.get_id()] = b
                    keep.append(t)
                    vs = [z3.Const(f"qv!{len(names)}!{k}", t.var_sort(k)) for k in range(t.num_vars())]
                    body = z3.substitute_vars(t.body(), *reversed(vs))
                    qs.append(z3.ForAll(vs, z3.Or(z3.Not(b), body)))
                    keep.append(qs[-1])
                return b
            if not z3.is_app(t) or not has_quant(t):
                return t
            ch = [walk(c) for c in t.children()]
            if any(c is None for c in ch):
                return None
            if z3.is_or(t):
                return z3.Or(*ch)
            if z3.is_and(t):
                return z3.And(*ch)
            return None
        r = walk(f)
        if r is not None:
            flat.append(r)
            keep.append(r)
    names = {}
    for f in fl:
        add(f)
    first = len(flat)
    done = set()
    for _ in range(rounds):
        uses = {}
        cache = {}
        for t in subterms(flat):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                for p in range(t.num_args()):
                    a = t.arg(p)
                    if a.sort() == T.I:
                        uses.setdefault((t.decl().name(), p), {})[a.get_id()] = a
        new = []
        for f in list(qs):
            nv = f.num_vars()
            if any(f.var_sort(k) != T.I for k in range(nv)):
                continue
            pats = index_patterns(f.body(), nv)
            cand = []
            for k in range(nv):
                c = {}
                for (d, p, off) in pats[k]:
                    for a in uses.get((d, p), {}).values():
                        x = z3.simplify(a - off)
                        c[x.get_id()] = x
                cand.append(list(c.values())[:40])
            tot = 1
            for c in cand:
                tot *= len(c)
            if tot == 0 or tot > 400:
                continue
            import itertools
            for tup in itertools.product(*cand):
                key = (f.get_id(),) + tuple(x.get_id() for x in tup)
                if key in done:
                    continue
                done.add(key)
                keep.extend(tup)
                # variable index 0 is the innermost (last) bound variable
                new.append(z3.substitute_vars(f.body(), *tup))
                if len(new) + len(flat) > cap:
                    break
        if not new:
            break
        for f in new:
            h = z3.Goal()
            h.add(f)
            for x in z3.Then("simplify", "nnf")(h)[0]:
                add(x)
        if len(flat) > cap:
            break
    # instances first: the axioms are instantiated for the terms of the last formulas first
    return flat[first:] + flat[:first]


def lift_cases(fs):
    """conditional factors of products moved outside (the linear solver takes products as atoms)"""
    cache = {}

    def inner(t):
        """a conditional inside the sums of t"""
        if t.sort() != T.R and t.sort() != T.I:
            return None
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ITE:
            return t
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL):
            for c in t.children():
                r = inner(c)
                if r is not None:
                    return r
        return None

    def split(t, depth=0):
        if depth < 4 and any(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in t.children()[1:]):
            for c in t.children():
                r = inner(c)
                if r is not None:
                    g, a, b = r.children()
                    return z3.If(g, split(z3.substitute(t, (r, a)), depth + 1), split(z3.substitute(t, (r, b)), depth + 1))
        return t

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k][0]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        else:
            ch = [go(c) for c in t.children()]
            r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
            if z3.is_mul(r):
                r = split(r)
        cache[k] = (r, t)
        return r
    return [go(f) for f in fs]


MUL_ = z3.Function("MUL", T.R, T.R, T.R)
INV_ = z3.Function("INV", T.R, T.R)


def outline(t):
    """the term without its integer parts (terms that differ in their indices only sort together)"""
    if t.sort() == T.I:
        return "#"
    if not z3.is_app(t) or t.num_args() == 0:
        return t.sexpr()
    return "(" + t.decl().name() + " ".join(outline(c) for c in t.children()) + ")"


def opaque_products(fs):
    """products and quotients of terms as applications of unknown functions (an abstraction: fewer facts)"""
    cache, comm = {}, {}
    real = lambda t: z3.ToReal(t) if t.sort() == T.I else t
    const = lambda t: z3.is_rational_value(t) or z3.is_int_value(t)

    def mul(v):
        v = sorted((real(x) for x in v), key=lambda x: (outline(x), x.sexpr()))
        r = v[0]
        for x in v[1:]:
            if outline(r) == outline(x) and not r.eq(x):
                c = MUL_(r, x) == MUL_(x, r)
                comm[c.get_id()] = c
            r = MUL_(r, x)
        return r

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k][0]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        else:
            ch = [go(c) for c in t.children()]
            r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
            if t.sort() == T.R and z3.is_mul(t):
                c = [x for x in ch if const(x)]
                v = [x for x in ch if not const(x)]
                if len(v) > 1:
                    r = mul(v)
                    for x in c:
                        r = real(x) * r
            elif t.sort() == T.R and z3.is_div(t) and not const(ch[1]):
                r = INV_(real(ch[1]))
                if not (const(ch[0]) and z3.is_rational_value(ch[0]) and ch[0].as_fraction() == 1):
                    r = ch[0] * r if const(ch[0]) else mul([ch[0], r])
        cache[k] = (r, t)
        return r
    out = [go(f) for f in fs]
    return out + list(comm.values())


def abstract_real(fs, secs):
    """refuted as a formula over the reals, uninterpreted terms read as free variables?"""
    fs = [z3.simplify(f) for f in fs]
    if any(has_quant(f) for f in fs):
        return False
    ax = axioms(fs)
    al = fs + axioms(fs + ax)
    sub = []
    for t in subterms(al):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.sort() != T.I:
            sub.append(t)
    sub.sort(key=lambda t: -len(t.sexpr()))
    al = [z3.substitute(f, *[(t, z3.Const(f"abs!{k}", t.sort())) for k, t in enumerate(sub)]) for f in al]
    g = z3.Goal()
    g.add(*al)
    try:
        s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "qfnra-nlsat").solver()
        s.set("timeout", int(secs * 1000))
        s.add(*al)
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


def solve_one(ob, budget, external=True):
    """-> (status, backend, seconds, model or None); status: proved | failed | unknown"""
    t0 = time.time()
    _HQ.clear()
    fs, ax = formulas(ob)
    q = any(has_quant(f) for f in fs + ax)

    def z3run(forms, ms, **opts):
        s = z3.SolverFor("ALL") if False else z3.Solver()
        s.set("timeout", int(ms))
        for k, v in opts.items():
            s.set(k, v)
        s.add(*forms)
        return s.check(), s
    short = min(budget, 4.0)
    # 0 a lemma on its own, over the reals
    if ob.name.startswith("lemma:") and abstract_real(fs[-1:], short):
        return "proved", "z3 (nlsat)", time.time() - t0, None
    # 1 quantifier-free part of the assumptions
    qf = [f for f in fs[:-1] if not has_quant(f)]
    if not has_quant(fs[-1]):
        rel = relevant(qf, fs[-1], 1) + [fs[-1]]
        r, s = z3run(rel + [a for a in axioms(rel) if not has_quant(a)], 500)
        if r == z3.unsat:
            return "proved", "z3", time.time() - t0, None
    # 2 quantifiers instantiated here, by the indices in use; products as unknown functions
    how = "z3 (ground instances)" if q else "z3"
    for rounds in (1, 2, 3) if q else (0,):
        gr = [] if q else fs + ax
        som = None
        if q:
            g = ground(fs, rounds)
            if g is not None:
                if ax:                  # without the axioms first: there can be many
                    r, s = z3run(opaque_products(lift_cases(g)), 500)
                    if r == z3.unsat:
                        return "proved", how, time.time() - t0, None
                gax = axioms(g)
                gr = (axioms(g + gax) if gax else []) + g
        if gr and not any(has_quant(f) for f in gr):
            lifted = lift_cases(gr)
            som = [z3.simplify(x, som=True) for x in lifted]
            for forms in (opaque_products(som), opaque_products(lifted)):
                r, s = z3run(forms, 1000)
                if r == z3.unsat:
                    return "proved", how, time.time() - t0, None
    # 3 the quantifier-free part, and all of it
    if q and not has_quant(fs[-1]):
        noq = qf + [fs[-1]] + [a for a in ax if not has_quant(a)]
        r, s = z3run(noq, 1500)
        if r == z3.unsat:
            return "proved", "z3", time.time() - t0, None
        r, s = z3run(noq, 1500, **{"smt.arith.solver": 2})
        if r == z3.unsat:
            return "proved", "z3 (old arithmetic)", time.time() - t0, None
    if q:
        r, s = z3run(fs + ax, 1000)
        if r == z3.unsat:
            return "proved", "z3", time.time() - t0, None
    if q and som:
        for forms, opts in ((som, {"smt.arith.nl": False}), (gr, {}), (gr, {"smt.arith.solver": 2})):
            r, s = z3run(forms, 1500, **opts)
            if r == z3.unsat:
                return "proved", how, time.time() - t0, None
    r, s = z3run(fs + ax, short * 1000)
    if r == z3.unsat:
        return "proved", "z3", time.time() - t0, None
    if r == z3.sat and not q:
        return "failed", "z3", time.time() - t0, s.model()
    sat_full = r == z3.sat
    if sat_full:
        return "failed", "z3", time.time() - t0, s.model()
    # 4 E-matching only
    if q:
        r, s = z3run(fs + ax, short * 1000, **{"auto_config": False, "smt.mbqi": False, "smt.arith.nl": True})
        if r == z3.unsat:
            return "proved", "z3 (e-matching)", time.time() - t0, None
    if gr:
        r, s = z3run(gr, short * 1500)
        if r == z3.unsat:
            return "proved", "z3 (ground instances)", time.time() - t0, None
    # 5 relevant assumptions only
    rel = relevant(fs[:-1], fs[-1], 2)
    r, s = z3run(rel + [fs[-1]] + axioms(rel + [fs[-1]]), short * 1000)
    if r == z3.unsat:
        return "proved", "z3 (relevant)", time.time() - t0, None
    rel = relevant(fs[:-1], fs[-1], 1)
    r, s = z3run(rel + [fs[-1]] + axioms(rel + [fs[-1]]), short * 1000)
    if r == z3.unsat:
        return "proved", "z3 (relevant)", time.time() - t0, None
    if external and time.time() - t0 < budget:
        sv = z3.Solver()
        sv.add(*(fs + ax))
        text = sv.to_smt2()
        left = max(2.0, budget - (time.time() - t0))
        r = run_external(["cvc5", "--quiet", f"--tlimit={int(left * 500)}"],
                         "(set-logic ALL)\n" + text, left / 2)
        if r == "unsat":
            return "proved", "cvc5", time.time() - t0, None
        left = max(2.0, budget - (time.time() - t0))
        r = run_external(["z3-new", f"-T:{int(left)}", "smt.random_seed=7"], text, left)
        if r == "unsat":
            return "proved", "z3-new", time.time() - t0, None
        if r == "sat":
            return "failed", "z3-new", time.time() - t0, None
    # model of the quantifier-free part: a candidate counterexample only
    cand = None
    r, s = z3run(qf + ([fs[-1]] if not has_quant(fs[-1]) else []) + [a for a in ax if not has_quant(a)], 3000)
    if r == z3.sat:
        cand = s.model()
    return "unknown", "none", time.time() - t0, cand


# ---------------------------------------------------------------- models -> concrete inputs
def mval(m, t):
    """float value of a raw term in a model, reading EXP/LOG as the real functions"""
    if isinstance(t, bool) or isc(t):
        return t if not isinstance(t, Fraction) else float(t)
    names = {x.decl().name() for x in subterms([t]) if z3.is_app(x)}
    if not names & {"EXP", "LOG", "SIN", "COS", "ASIN", "PI", "RNDI"}:
        v = m.eval(t, model_completion=True)
        return zval(v)
    d = t.decl()
    n = d.name()
    if n == "PI":
        return math.pi
    if n in ("EXP", "LOG", "SIN", "COS", "ASIN", "RNDI"):
        a = mval(m, t.arg(0))
        try:
            return {"EXP": math.exp, "LOG": math.log, "SIN": math.sin, "COS": math.cos, "ASIN": math.asin,
                    "RNDI": round}[n](a)
        except (ValueError, OverflowError):
            return math.nan
    if d.kind() == z3.Z3_OP_ITE:
        c = m.eval(t.arg(0), model_completion=True)
        return mval(m, t.arg(1) if z3.is_true(c) else t.arg(2))
    ch = [mval(m, c) for c in t.children()]
    k = d.kind()
    if k == z3.Z3_OP_ADD:
        return sum(ch)
    if k == z3.Z3_OP_SUB:
        return ch[0] - sum(ch[1:])
    if k == z3.Z3_OP_MUL:
        return math.prod(ch)
    if k == z3.Z3_OP_DIV:
        return ch[0] / ch[1] if ch[1] else math.nan
    if k == z3.Z3_OP_UMINUS:
        return -ch[0]
    if k == z3.Z3_OP_TO_REAL:
        return ch[0]
    raise Unsupported("model value")


def zval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return None


def concretise(m, v, cap=40):
    from .values import Arr, PyList, SymStr, Opaque, Mat
    if isinstance(v, Num):
        if v.na is not False and mval(m, v.na) is True:
            return {"f": "nan"}
        if v.pi is not False and mval(m, v.pi) is True:
            return {"f": "inf"}
        if v.ni is not False and mval(m, v.ni) is True:
            return {"f": "-inf"}
        x = mval(m, v.v)
        return int(x) if v.isint and x == int(x) else float(x)
    if isinstance(v, (bool, z3.BoolRef)):
        return bool(mval(m, v))
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, Arr):
        n = v.n if isc(v.n) else mval(m, v.n)
        if n is None or n > cap:
            return {"toolong": n}
        return [concretise(m, v.get(k)) for k in range(int(n))]
    if isinstance(v, (PyList,)):
        return [concretise(m, x) for x in v.xs]
    if isinstance(v, tuple):
        return [concretise(m, x) for x in v]
    if isinstance(v, dict):
        return {k: concretise(m, x) for k, x in v.items()}
    return str(v)


_OBS = None
_BUD = None


def _work(k):
    ob = _OBS[k]
    try:
        st, be, tm, model = solve_one(ob, _BUD)
    except z3.Z3Exception as e:
        return k, "unknown", f"error {e}", 0.0, None, ""
    conc = None
    mt = ""
    if model is not None:
        try:
            conc = concretise(model, getattr(ob, "inputs", None) or {})
        except Exception as e:       # a model that cannot be read is no counterexample
            conc = None
        if st == "failed":
            mt = str(model)[:4000]
    return k, st, be, tm, conc, mt


def discharge(obs, budget=20.0, nproc=None, deadline=None):
    """solve all obligations in parallel; fills in status, backend, time, model"""
    global _OBS, _BUD
    _OBS, _BUD = obs, budget
    if not obs:
        return
    for o in obs:
        if o.status is None:
            o.status, o.backend = "unknown", "not run"
    n = min(nproc or NPROC, len(obs))
    pool = mp.get_context("fork").Pool(n, maxtasksperchild=60)
    try:
        it = pool.imap_unordered(_work, range(len(obs)), chunksize=1)
        for _ in range(len(obs)):
            left = None if deadline is None else max(0.5, deadline - time.time())
            try:
                k, st, be, tm, conc, mt = it.next(timeout=left)
            except mp.TimeoutError:
                break
            o = obs[k]
            o.status, o.backend, o.time, o.model, o.model_text = st, be, tm, conc, mt
    finally:
        pool.terminate()
        pool.join()
