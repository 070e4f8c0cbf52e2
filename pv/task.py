"""Verification tasks: one contract of one function, checked on all paths."""
import time
import z3
from .terms import *
from .values import *
from .ctx import *
from .interp import Interp, Program
from . import npmodel as NP


class Task:
    def __init__(self, prop, name, fn, functions=(), contracts=None, overrides=None, loops=None, target=None,
                 max_paths=400, secs=120, budget=20.0):
        self.prop, self.name, self.fn = prop, name, fn
        self.functions = list(functions)
        self.contracts, self.overrides, self.loops, self.target = contracts, overrides, loops, target
        self.max_paths, self.secs, self.budget = max_paths, secs, budget


class Result:
    def __init__(self, task):
        self.task = task
        self.status = None         # ok | failed | unsupported
        self.reason = ""
        self.obls = []
        self.trivial = 0
        self.paths = 0
        self.ended = 0
        self.called = set()
        self.contracts = set()
        self.ext = set()
        self.time = 0.0
        self.covers = []


def generate(task, root=None):
    """run the task along all paths, collecting obligations"""
    res = Result(task)
    t0 = time.time()
    prog = Program(root)
    pending = [[]]
    deadline = t0 + task.secs
    uid = 0
    try:
        while pending:
            dec = pending.pop()
            res.paths += 1
            if res.paths > task.max_paths:
                raise Budget("too many paths")
            ctx = Ctx(dec, deadline=deadline)
            I = Interp(prog, ctx, task.contracts, task.overrides, task.loops, task.target)
            inputs = {}
            I.inputs = inputs
            try:
                task.fn(I)
                res.ended += 1
                if len(res.covers) < 6:
                    res.covers.append(list(ctx.pc))
            except PathEnd:
                pass
            except PyExc as e:
                ctx.obligation(f"no-exception:{e.etype}@{NP.where(I)}", False)
            extra = NP.sum_lemmas(ctx) + NP.family_lemmas(ctx)
            for o in ctx.obls:
                if isinstance(o, tuple):
                    res.trivial += 1
                    continue
                o.pc = o.pc + extra
                o.inputs = inputs
                o.task = task
                o.path = list(dec)
                res.obls.append(o)
            res.called |= I.called
            res.contracts |= I.used_contracts
            res.ext |= I.ext_used
            pending.extend(ctx.frames[0].alts)
        res.status = "generated"
    except Unsupported as e:
        res.status, res.reason = "unsupported", str(e)
    except RecursionError:
        res.status, res.reason = "unsupported", "recursion limit"
    except z3.Z3Exception as e:
        res.status, res.reason = "unsupported", f"solver interface: {e}"
    res.time = time.time() - t0
    return res


def func(I, key):
    """the function or method of the repository with the given key"""
    mod, q = key.split(":")
    m = I.prog.module(mod)
    if m is None:
        raise Unsupported(f"no module {mod}")
    v = m
    parts = q.split(".")
    v = I.module_name(m, parts[0])
    if v is UNDEF:
        raise Unsupported(f"{key} does not exist")
    for p in parts[1:]:
        if isinstance(v, ClassV):
            a, _ = v.find(p)
            if a is None:
                raise Unsupported(f"{key} does not exist")
            v = a
    return v
