"""Symbolic interpreter of the python source of /repo.

Executes the abstract syntax tree of the real functions on symbolic values.
Calls to functions with a contract are replaced by the contract; other
functions of the repository are interpreted.  Anything outside the supported
subset raises Unsupported (never a verdict).
"""
import ast
import os
import z3
from .terms import *
from .terms import _unz, _pos, _neg, _zero, _norm, _coerce, _is_app
from . import terms as T
from .values import *
from .values import _unz_
from .ctx import *

REPO = os.environ.get("VERIF_REPO", "/repo")


class Env:
    def __init__(self, module, closure=None, fn=None):
        self.vars = Cells()
        self.module = module
        self.closure = closure
        self.fn = fn
        self.globals = set()
        self.nonlocals = set()


class Module:
    def __init__(self, prog, name, path):
        self.prog, self.name, self.path = prog, name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.cache = {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = ("def", st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.defs[a.asname] = ("import", a.name)
                    else:
                        self.defs[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    mod = st.module or ""
                    if st.level:
                        parts = self.name.split(".")
                        if not self.path.endswith("__init__.py"):
                            parts = parts[:-1]
                        parts = parts[: len(parts) - (st.level - 1)]
                        mod = ".".join(parts + ([st.module] if st.module else []))
                    self.defs[a.asname or a.name] = ("from", (mod, a.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.defs[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._collect(h.body)
                self._collect(st.body)


class Program:
    """the modules of the repository, parsed on demand"""

    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}

    def module(self, name):
        if name not in self.modules:
            p = os.path.join(self.root, *name.split("."))
            if os.path.isdir(p):
                p = os.path.join(p, "__init__.py")
            else:
                p += ".py"
            if not os.path.exists(p):
                return None
            self.modules[name] = Module(self, name, p)
        return self.modules[name]


def path_of(e):
    return e.path if isinstance(e, Ext) else None


def own_jumps(body):
    """the break and continue statements that belong to the loop with this body"""
    out = []
    for st in body:
        if isinstance(st, (ast.Break, ast.Continue)):
            out.append(st)
        elif not isinstance(st, (ast.For, ast.While, ast.FunctionDef)):
            for f in ("body", "orelse", "finalbody"):
                out += own_jumps(getattr(st, f, []))
            for h in getattr(st, "handlers", []):
                out += own_jumps(h.body)
    return out


class LoopSpec:
    """Invariant of one loop.

    inv(I, env, k, st)   -> list of (name, Bool); k is the number of finished iterations
    ghost_init(I, env, st), ghost_step(I, env, k, st): ghost state kept in `st`
    modifies[name](I, env, st): overrides the default havoc of one of the loop's variables
    of, kind: how many loops the function has and whether this one is a for loop; a function
    that has been given other loops is out of reach, not wrong
    """

    def __init__(self, inv, modifies=None, ghost_init=None, ghost_havoc=None, ghost_step=None,
                 measure=None, at_exit=None, pre_body=None, of=None, kind=ast.For):
        self.inv, self.modifies = inv, modifies
        self.of, self.kind = of, kind
        self.ghost_init, self.ghost_havoc, self.ghost_step = ghost_init, ghost_havoc, ghost_step
        self.measure = measure
        self.at_exit = at_exit
        self.pre_body = pre_body


class Interp:
    def __init__(self, prog, ctx, contracts=None, overrides=None, loops=None, target=None):
        from . import npmodel
        self.np = npmodel
        self.prog, self.ctx = prog, ctx
        self.contracts = contracts or {}
        self.overrides = overrides or {}
        self.loops = loops or {}
        self.target = target
        self.depth = 0
        self.stack = []
        self.called = set()        # keys of repository functions interpreted
        self.used_contracts = set()
        self.ext_used = set()
        self.njit = [False]
        self.line = 0
        self.ghost = {}
        self.rename = None         # applied to every value assigned to a name
        self.track = None
        self.envs = []

    # ------------------------------------------------------------ names
    def module_name(self, mod, name):
        if name in mod.cache:
            return mod.cache[name]
        key = f"{mod.name}:{name}"
        if key in self.overrides:
            v = self.overrides[key]
            mod.cache[name] = v
            return v
        if name not in mod.defs:
            return UNDEF
        kind, d = mod.defs[name]
        if kind == "def":
            env = Env(mod)
            v = self.make_def(d, env)
        elif kind == "import":
            m = self.prog.module(d) if d.startswith("py_fatigue") else None
            v = m if m is not None else Ext(d)
        elif kind == "from":
            m, n = d
            rm = self.prog.module(m) if m.startswith("py_fatigue") else None
            if rm is not None:
                sub = self.prog.module(m + "." + n)
                v = self.module_name(rm, n)
                if v is UNDEF:
                    if sub is None:
                        raise Unsupported(f"import {m}.{n}")
                    v = sub
            else:
                v = Ext(f"{m}.{n}")
        else:
            env = Env(mod)
            v = self.eval(d, env)
        mod.cache[name] = v
        return v

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars and not (e is env and name in env.globals):
                v = e.vars[name]
                if v is UNDEF:
                    raise PyExc("UnboundLocalError", name)
                if v is LOST:
                    raise Unsupported(f"the value of {name} here")
                return v
            e = e.closure
        v = self.module_name(env.module, name)
        if v is not UNDEF:
            return v
        b = self.np.BUILTINS.get(name)
        if b is not None:
            return b
        if name in EXC_BASE:
            return Ext("builtins." + name)
        raise PyExc("NameError", name)

    def set_var(self, env, name, v):
        e = env
        if name in env.nonlocals:
            e = env.closure
            while e is not None and name not in e.vars:
                e = e.closure
        self.ctx.log("env", e.vars, name)
        e.vars[name] = v

    # ------------------------------------------------------------ definitions
    def make_def(self, node, env, cls=None):
        if isinstance(node, ast.ClassDef):
            return self.make_class(node, env)
        f = FuncV(node, env.module, node.name, closure=env if (env.vars or env.closure) else None, cls=cls)
        v = f
        for d in reversed(node.decorator_list):
            v = self.decorate(d, v, env, node)
        if isinstance(v, FuncV) and v is not f:
            w = FuncV(v.node, v.module, v.name, v.closure, v.cls, v.njit)
            w.alias = f.key
            v = w
        return v

    def decorate(self, d, v, env, node):
        target = d.func if isinstance(d, ast.Call) else d
        if isinstance(target, ast.Attribute) and target.attr in ("setter", "getter", "deleter") \
                and isinstance(target.value, ast.Name):
            base = env.vars.get(target.value.id)
            if isinstance(base, PropV):
                return PropV(base.fget, v if target.attr == "setter" else base.fset)
        dv = self.eval(target, env)
        p = path_of(dv)
        if p is not None:
            last = p.split(".")[-1]
            if p.startswith("numba"):
                v.njit = True
                return v
            if last in ("wraps", "abstractmethod", "register_dataframe_accessor", "overload",
                        "lru_cache", "cache"):
                return v
            if last == "dataclass":
                v.dataclass = True
                return v
            if last in ("validator", "field_validator", "model_validator", "root_validator"):
                g = v.fn if isinstance(v, (ClassMethodV, StaticV)) else v
                g.validator = [self.const_str(a) for a in d.args] if isinstance(d, ast.Call) else []
                g.validator_kind = last
                return v
            raise Unsupported(f"decorator {p}")
        if isinstance(dv, Builtin):
            if dv.name == "property":
                return PropV(v)
            if dv.name == "staticmethod":
                return StaticV(v)
            if dv.name == "classmethod":
                return ClassMethodV(v)
            raise Unsupported(f"decorator {dv.name}")
        if isinstance(d, ast.Call):
            dv = self.eval(d, env)
        return self.call(dv, [v], {})

    def const_str(self, e):
        return e.value if isinstance(e, ast.Constant) else None

    def make_class(self, node, env):
        bases = []
        for b in node.bases:
            try:
                bases.append(self.eval(b, env))
            except (Unsupported, PyExc):
                bases.append(None)
        cenv = Env(env.module, closure=env if (env.vars or env.closure) else None)
        cls = ClassV(node.name, env.module, bases, cenv.vars, [], node=node)
        cls.validators = []
        cls.annots = {}
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = FuncV(st, env.module, st.name, closure=cenv.closure, cls=cls)
                v = f
                try:
                    for d in reversed(st.decorator_list):
                        v = self.decorate(d, v, cenv, st)
                except Unsupported as e:
                    v = Builtin(f"unsupported:{st.name}", _raiser(e))
                if isinstance(v, FuncV) and v is not f:
                    w = FuncV(v.node, v.module, v.name, v.closure, v.cls, v.njit)
                    w.alias = f.key
                    v = w
                inner = v.fn if isinstance(v, (ClassMethodV, StaticV)) else v
                if getattr(inner, "validator", None) is not None:
                    cls.validators.append((inner.validator, inner))
                cenv.vars[st.name] = v
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ann = ast.unparse(st.annotation)
                if "ClassVar" in ann:
                    if st.value is not None:
                        cenv.vars[st.target.id] = self.eval(st.value, cenv)
                    continue
                cls.fields.append((st.target.id, st.value))
                cls.annots[st.target.id] = ann
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        try:
                            cenv.vars[t.id] = self.eval(st.value, cenv)
                        except (Unsupported, PyExc) as e:
                            cenv.vars[t.id] = Opaque(f"{node.name}.{t.id}")
        for d in node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            p = path_of(self.eval(t, env))
            if p and p.split(".")[-1] == "dataclass":
                cls.dataclass = True
                cls.checked = p.startswith("pydantic")
            if p and p.startswith("numba"):
                for v in cenv.vars.values():
                    g = v.fget if isinstance(v, PropV) else v
                    if isinstance(g, FuncV):
                        g.njit = True
        for b in bases:
            if isinstance(b, ClassV) and b.dataclass and cls.dataclass:
                cls.dataclass = True
            if isinstance(b, Ext) and b.path.endswith("NamedTuple"):
                cls.dataclass = True
            if (isinstance(b, Ext) and b.path.endswith("BaseModel")) or getattr(b, "pydantic", False):
                cls.pydantic = True
        return cls

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, StaticV):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, Ext):
            return self.np.call_ext(self, f.path, args, kwargs)
        if isinstance(f, Obj):
            m, _ = f.cls.find("__call__")
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
        if callable(f):
            return f(self, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(names) and a.vararg is None:
            raise PyExc("TypeError", f"{f.name}: too many arguments")
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        for n in names[len(args):]:
            if n in kwargs:
                out[n] = kwargs.pop(n)
        for n in [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                out[n] = kwargs.pop(n)
        for n in names[: len(args)]:
            if n in kwargs:
                raise PyExc("TypeError", f"{f.name}: multiple values for {n}")
        denv = Env(f.module, f.closure)
        if f.cls is not None:
            denv = Env(f.module, f.closure)
            denv.vars.update({k: v for k, v in f.cls.attrs.items()})
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in out:
                out[n] = self.eval(d, denv)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.eval(d, denv)
        if a.kwarg is not None:
            out[a.kwarg.arg] = PyDict({k: v for k, v in kwargs.items()})
        elif kwargs:
            raise PyExc("TypeError", f"{f.name}: unexpected argument {list(kwargs)}")
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                raise PyExc("TypeError", f"{f.name}: missing argument {n}")
        return out

    def call_func(self, f, args, kwargs, force=False):
        key = getattr(f, "alias", None) or f.key
        if not force and key in self.overrides:
            return self.call(self.overrides[key], args, kwargs)
        if not force and key in self.contracts and key != self.target and getattr(f, "alias", None) is None:
            # a decorated function: the wrapper runs, the contract stands for the function inside
            c = self.contracts[key]
            self.used_contracts.add(key)
            b = self.bind(f, args, kwargs) if isinstance(f.node, ast.FunctionDef) else None
            return c.apply(self, f, b, args, kwargs)
        if self.depth > 40:
            raise Unsupported("recursion too deep")
        if isinstance(f.node, ast.Lambda):
            env = Env(f.module, f.closure, f)
            env.vars.update(self.bind(f, args, kwargs))
            return self.eval(f.node.body, env)
        self.called.add(key)
        env = Env(f.module, f.closure, f)
        env.vars.update(self.bind(f, args, kwargs))
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            return self.call_generator(f, env)
        self.depth += 1
        self.envs.append(env)
        self.stack.append(key)
        self.njit.append(self.njit[-1] or f.njit)
        saved = self.line
        try:
            self.exec_block(f.node.body, env)
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.depth -= 1
            self.envs.pop()
            self.stack.pop()
            self.njit.pop()
            self.line = saved
        return r

    def call_generator(self, f, env):
        """generators of the form: for i in <seq>: yield <expr> (a lazy map)"""
        body = [s for s in f.node.body
                if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.For) and len(body[0].body) == 1 \
                and isinstance(body[0].body[0], ast.Expr) and isinstance(body[0].body[0].value, ast.Yield) \
                and not body[0].orelse:
            lp = body[0]
            seq = self.to_seq(self.eval(lp.iter, env))

            def get(i):
                e2 = Env(env.module, env.closure, f)
                e2.vars.update(env.vars)
                self.assign(lp.target, seq.get(i), e2)
                return self.eval(lp.body[0].value.value, e2)
            return SeqV(seq.n, get, "gen")
        raise Unsupported(f"generator {f.name}")

    def instantiate(self, cls, args, kwargs):
        key = f"{cls.module.name}:{cls.name}"
        if key in self.contracts and key != self.target:
            self.used_contracts.add(key)
            return self.contracts[key].apply(self, cls, None, args, kwargs)
        if key in self.overrides:
            return self.call(self.overrides[key], args, kwargs)
        for b in cls.mro():
            for bb in b.bases:
                if isinstance(bb, Ext) and bb.path.split(".")[-1] in EXC_BASE:
                    raise Unsupported("exception class")
        o = Obj(cls)
        init, _ = cls.find("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
            return o
        made = next((b for b in cls.mro() if b.dataclass), None)       # the class whose __init__ was generated
        if made is not None or getattr(cls, "pydantic", False):
            flds = (made or cls).all_fields()
            names = list(flds)
            kwargs = dict(kwargs)
            if len(args) > len(names):
                raise PyExc("TypeError", "too many arguments")
            for n, v in zip(names, args):
                o.fields[n] = v
            for n in names:
                if n in kwargs:
                    o.fields[n] = kwargs.pop(n)
                elif n not in o.fields:
                    d, c = flds[n]
                    if d is None:
                        raise PyExc("TypeError", f"missing field {n}")
                    o.fields[n] = self.field_default(d, Env(c.module))
            if kwargs:
                raise PyExc("TypeError", f"unexpected field {list(kwargs)}")
            if getattr(cls, "pydantic", False):
                raise Unsupported("pydantic model")
            if getattr(made, "checked", False):
                self.validate_fields(cls, o, flds)
            post, _ = cls.find("__post_init__")
            if post is not None:
                self.call(post, [o], {})
            return o
        if args or kwargs:
            raise PyExc("TypeError", f"{cls.name}() takes no arguments")
        return o

    def validate_fields(self, cls, o, flds):
        """a pydantic dataclass: types of the fields, then their validators, in the order of the fields"""
        seen, bad = {}, False
        for n, (_, c) in flds.items():
            v = o.fields[n]
            ann = c.annots.get(n, "")
            if ann == "PositiveFloat":
                if not isinstance(v, Num):
                    raise Unsupported(f"{ann} of {type(v).__name__}")
                if not self.ctx.branch(band(bnot(v.na), bor(v.pi, band(v.fin, rlt(0, v.v))))):
                    bad = True
                    continue
                v = Num(v.v, v.pi, v.ni, v.na, False)
            elif ann == "str":
                if not isinstance(v, (str, SymStr)):
                    raise Unsupported(f"{ann} of {type(v).__name__}")
            else:
                raise Unsupported(f"field of type {ann}")
            try:
                for b in reversed(cls.mro()):
                    for names, f in getattr(b, "validators", []):
                        if n in names:
                            if f.validator_kind != "validator":
                                raise Unsupported(f.validator_kind)
                            na = len(f.node.args.args)
                            v = self.call(f, [cls, v] + ([PyDict(dict(seen))] if na > 2 else []), {})
            except PyExc as e:
                if not (exc_matches(e.etype, "ValueError") or exc_matches(e.etype, "AssertionError")):
                    raise
                bad = True
                continue
            o.fields[n] = seen[n] = v
        if bad:
            raise PyExc("ValidationError", cls.name)

    def field_default(self, d, env):
        if isinstance(d, ast.Call):
            p = path_of(self.eval(d.func, env))
            if p and p.split(".")[-1] in ("field", "Field"):
                for kw in d.keywords:
                    if kw.arg == "default":
                        return self.eval(kw.value, env)
                    if kw.arg == "default_factory":
                        return self.call(self.eval(kw.value, env), [], {})
                raise PyExc("TypeError", "missing field")
        return self.eval(d, env)

    # ------------------------------------------------------------ attributes
    def mangle(self, name, env):
        if name.startswith("__") and not name.endswith("__") and env is not None and env.fn is not None:
            c = env.fn.cls
            if c is not None:
                return f"_{c.name.lstrip('_')}{name}"
        return name

    def getattr(self, o, name, env=None, default=UNDEF):
        name = self.mangle(name, env)
        if isinstance(o, Obj):
            a, owner = o.cls.find(name)
            if isinstance(a, PropV):
                return self.call(a.fget, [o], {})
            if name in o.fields:
                v = o.fields[name]
                if v is LOST:
                    raise Unsupported(f"the value of {name} here")
                if v is not UNDEF:
                    return v
            if a is not None:
                if isinstance(a, FuncV):
                    return BoundV(a, o)
                if isinstance(a, ClassMethodV):
                    return BoundV(a.fn, o.cls)
                if isinstance(a, StaticV):
                    return a.fn
                if isinstance(a, Builtin):
                    return BoundV(a, o)
                return a
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return PyDict(o.fields)
            if default is not UNDEF:
                return default
            raise PyExc("AttributeError", f"{o.cls.name}.{name}")
        if isinstance(o, ClassV):
            a, owner = o.find(name)
            if isinstance(a, ClassMethodV):
                return BoundV(a.fn, o)
            if isinstance(a, StaticV):
                return a.fn
            if a is not None:
                return a
            if name == "__name__":
                return o.name
            if default is not UNDEF:
                return default
            raise PyExc("AttributeError", f"{o.name}.{name}")
        if isinstance(o, Module):
            v = self.module_name(o, name)
            if v is UNDEF:
                sub = self.prog.module(o.name + "." + name)
                if sub is not None:
                    return sub
                raise PyExc("AttributeError", f"{o.name}.{name}")
            return v
        if isinstance(o, Ext):
            return self.np.ext_attr(o.path + "." + name)
        return self.np.value_attr(self, o, name, default)

    def setattr(self, o, name, v, env=None):
        name = self.mangle(name, env)
        if isinstance(o, Obj):
            a, _ = o.cls.find(name)
            if isinstance(a, PropV):
                if a.fset is None:
                    raise PyExc("AttributeError", f"can't set {name}")
                self.call(a.fset, [o, v], {})
                return
            self.ctx.log("field", o.fields, name)
            o.fields[name] = v
            return
        if isinstance(o, Ext):
            return      # e.g. warnings.formatwarning = ...
        if isinstance(o, DF):
            self.ctx.log("df", o)
            if name in o.cols:
                self.set_df_col(o, name, v)
            else:
                o.attrs[name] = v
            return
        raise Unsupported(f"attribute store on {type(o).__name__}")

    def set_df_col(self, o, name, v):
        if isinstance(v, (Num, bool, z3.BoolRef)):
            vv = v
            v = Arr(o.n, lambda i: vv, kind="series")
        if isinstance(v, PyList):
            v = pylist_to_arr(v)
        if not isinstance(v, Arr):
            raise Unsupported("data frame column")
        if not self.same_len(v.n, o.n):
            raise PyExc("ValueError", "length of values does not match length of index")
        c = Arr(v.n, v.get, v.dtype, "series", v.items)
        o.cols[name] = c

    # ------------------------------------------------------------ truth, comparison
    def truth(self, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if v is None:
            return False
        if isinstance(v, Num):
            return bor(v.pi, v.ni, v.na, bnot(req(v.v, 0)))
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, SymStr):
            return bnot(v.t == SymStr.lit("")) if not v.other else True
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PyList):
            return len(v.xs) > 0
        if isinstance(v, PyDict):
            return len(v.d) > 0
        if isinstance(v, PySet):
            return len(v.xs) > 0
        if isinstance(v, Arr):
            if v.kind == "list":
                return rlt(0, v.n)
            if v.n == 1:
                return self.truth(v.get(0))
            if self.ctx.branch(req(v.n, 1)):
                return self.truth(v.get(0))
            if self.ctx.branch(req(v.n, 0)):
                return False
            raise PyExc("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, SeqV):
            raise Unsupported("truth of a lazy sequence")
        if isinstance(v, (Obj, FuncV, ClassV, BoundV, Builtin)):
            return True
        if isinstance(v, Opaque):
            raise Unsupported("truth of an opaque value")
        raise Unsupported(f"truth of {type(v).__name__}")

    def branch_truth(self, v):
        return self.ctx.branch(self.truth(v))

    def same_len(self, a, b):
        """are two lengths equal on this path? forks when it is undecided"""
        return self.ctx.branch(req(a, b))

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.line = getattr(st, "lineno", self.line)
        self.ctx.check_deadline()
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st, env)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Import(self, st, env):
        for a in st.names:
            self.set_var(env, a.asname or a.name.split(".")[0], Ext(a.name if a.asname else a.name.split(".")[0]))

    def st_ImportFrom(self, st, env):
        for a in st.names:
            rm = self.prog.module(st.module) if st.module and st.module.startswith("py_fatigue") else None
            v = self.module_name(rm, a.name) if rm is not None else Ext(f"{st.module}.{a.name}")
            if v is UNDEF:
                raise Unsupported("import")
            self.set_var(env, a.asname or a.name, v)

    def st_Global(self, st, env):
        env.globals.update(st.names)

    def st_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def st_FunctionDef(self, st, env):
        self.set_var(env, st.name, self.make_def(st, env))

    def st_ClassDef(self, st, env):
        self.set_var(env, st.name, self.make_class(st, env))

    def st_Return(self, st, env):
        raise ReturnEx(None if st.value is None else self.eval(st.value, env))

    def st_Break(self, st, env):
        raise BreakEx()

    def st_Continue(self, st, env):
        raise ContinueEx()

    def st_Assert(self, st, env):
        if not self.branch_truth(self.eval(st.test, env)):
            raise PyExc("AssertionError", ast.unparse(st.test))

    def st_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(env, "handling", None)
            raise cur or PyExc("RuntimeError", "no active exception")
        e = st.exc
        if isinstance(e, ast.Call):
            f = self.eval(e.func, env)
        else:
            f = self.eval(e, env)
        if isinstance(f, PyExc):
            raise f
        if isinstance(f, Ext):
            raise PyExc(f.path.split(".")[-1], "")
        if isinstance(f, ClassV):
            for c in f.mro():
                for b in c.bases:
                    if isinstance(b, Ext):
                        raise PyExc(b.path.split(".")[-1], f.name)
            raise PyExc(f.name, "")
        raise Unsupported("raise")

    def st_If(self, st, env):
        t = self.truth(self.eval(st.test, env))
        t = simp(t)
        if not isinstance(t, bool) and self.simple_if(st):
            # a message only: no need to follow both sides
            if self.try_merge_if(t, st, env):
                return
        if self.ctx.branch(t):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def simple_if(self, st):
        """a block that only words and issues a warning"""
        if st.orelse or not all(isinstance(x, (ast.Assign, ast.Expr)) for x in st.body):
            return False
        return any(isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and
                   ast.unparse(x.value.func) in ("warnings.warn", "warn", "print") for x in st.body)

    def try_merge_if(self, t, st, env):
        text = lambda v: v is UNDEF or v is LOST or isinstance(v, (str, Opaque))
        outs, facts = explore(self.ctx, lambda: self.exec_block(st.body, env), guard=zb(t))
        names = set()
        for o in outs:
            if o.kind != "val":
                return False
            for kind, target, key, old, new in o.cells.values():
                if kind == "env" and target is env.vars and text(old) and text(new):
                    names.add(key)
                elif kind != "env" and isinstance(new, FuncV):
                    continue
                else:
                    return False
        for f in facts:
            self.ctx.fact(bimp(t, f))
        for k in names:
            self.set_var(env, k, Opaque(("text", id(st))))
        return True

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.ctx.log("env", env.vars, t.id)
                env.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        if self.rename is not None:
            v = self.rename(v)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            v = self.eval(st.value, env)
            self.assign(st.target, v if self.rename is None else self.rename(v), env)

    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            rhs = self.eval(st.value, env)
            if isinstance(cur, Arr) and cur.kind != "list":
                new = self.binop(type(st.op).__name__, cur, rhs)
                self.inplace(cur, new)
                return
            if isinstance(cur, PyList) and isinstance(st.op, ast.Add):
                self.ctx.log("list", cur)
                cur.xs.extend(self.seq_items(rhs))
                return
            if isinstance(cur, Arr) and cur.kind == "list" and isinstance(st.op, ast.Add):
                new = self.binop("Add", cur, rhs)
                self.inplace(cur, new)
                return
            self.set_var(env, t.id, self.binop(type(st.op).__name__, cur, rhs))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr, env)
            rhs = self.eval(st.value, env)
            new = self.binop(type(st.op).__name__, cur, rhs)
            if isinstance(cur, Arr):
                self.inplace(cur, new)
                new = cur
            self.setattr(o, t.attr, new, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            ix = self.eval_index(t.slice, env)
            rhs = self.eval(st.value, env)
            self.np.aug_store(self, o, ix, type(st.op).__name__, rhs)
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, arr, new):
        """numpy in-place operation: the array object itself changes"""
        if arr.base is not None:
            raise Unsupported("in-place change of a view")
        self.ctx.log("arr", arr)
        if arr.dtype == "i" and new.dtype == "f":
            raise PyExc("TypeError", "cannot cast in place")
        arr.n, arr._get, arr.items = new.n, new._get, new.items
        self.np.bump(arr)
        self.np.note_write(self, arr, None, None)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_var(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts)
            for x, y in zip(t.elts, items):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, y, env)
                else:
                    self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            ix = self.eval_index(t.slice, env)
            self.np.store(self, o, ix, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def unpack(self, v, elts):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        seq = self.to_seq(v)
        if star:
            if not isinstance(seq.n, int):
                raise Unsupported("starred unpacking of a symbolic sequence")
            k = star[0]
            xs = [seq.get(i) for i in range(seq.n)]
            if len(xs) < n - 1:
                raise PyExc("ValueError", "not enough values to unpack")
            rest = len(xs) - (n - 1)
            return xs[:k] + [PyList(xs[k:k + rest])] + xs[k + rest:]
        if not self.ctx.branch(req(seq.n, n)):
            raise PyExc("ValueError", "wrong number of values to unpack")
        return [seq.get(i) for i in range(n)]

    def st_Try(self, st, env):
        try:
            self.exec_block(st.body, env)
        except PyExc as e:
            for h in st.handlers:
                if self.handler_matches(h, e, env):
                    if h.name:
                        self.set_var(env, h.name, Opaque(("exception", e.etype)))
                    env.handling = e
                    try:
                        self.exec_block(h.body, env)
                    finally:
                        env.handling = None
                    break
            else:
                self.exec_block(st.finalbody, env)
                raise
            self.exec_block(st.finalbody, env)
            return
        except (ReturnEx, BreakEx, ContinueEx):
            self.exec_block(st.finalbody, env)
            raise
        self.exec_block(st.orelse, env)
        self.exec_block(st.finalbody, env)

    def handler_matches(self, h, e, env):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            v = self.eval(t, env)
            name = v.path.split(".")[-1] if isinstance(v, Ext) else getattr(v, "name", None)
            if exc_matches(e.etype, name):
                return True
        return False

    def st_With(self, st, env):
        for it in st.items:
            p = None
            if isinstance(it.context_expr, ast.Call):
                p = path_of(self.eval(it.context_expr.func, env))
            if p in ("numpy.errstate", "warnings.catch_warnings"):
                continue
            raise Unsupported("with")
        self.exec_block(st.body, env)

    # ------------------------------------------------------------ loops
    def loop_key(self, st, env):
        fn = env.fn
        loops = [x for x in ast.walk(fn.node) if isinstance(x, (ast.For, ast.While))]
        loops.sort(key=lambda x: (x.lineno, x.col_offset))
        key = getattr(fn, "alias", None) or fn.key
        return (key, loops.index(getattr(st, "written_as", st)))

    def find_spec(self, st, env):
        if env.fn is None:
            return None
        k = self.loop_key(st, env)
        s = self.loops.get(k)
        if s is None:
            g = self.loops.get((k[0], "*"))
            if g is not None:
                s = g(self, st, env, k[1])
        if s is not None and s.of is not None:
            n = sum(isinstance(x, (ast.For, ast.While)) for x in ast.walk(env.fn.node))
            if n != s.of or not isinstance(st, s.kind):
                raise Unsupported(f"the invariants were written for other loops in {k[0].split(':')[-1]}")
        return s

    def st_For(self, st, env):
        it = self.eval(st.iter, env)
        seq = self.to_seq(it)
        spec = self.find_spec(st, env)
        if isinstance(seq.n, int) and (spec is None or seq.n == 0):
            if seq.n > 400:
                raise Unsupported("long concrete loop")
            for i in range(seq.n):
                self.assign(st.target, seq.get(i), env)
                try:
                    self.exec_block(st.body, env)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.exec_block(st.orelse, env)
            return
        if spec is not None:
            return self.loop_with_spec(st, env, seq, spec)
        from . import loops
        return loops.auto_for(self, st, env, seq)

    def st_While(self, st, env):
        counted = self.counted_loop(st, env)
        if counted is not None and isinstance(env.vars.get(counted.target.id), Num) \
                and getattr(self.loops.get(self.loop_key(st, env)), "kind", ast.For) is ast.For:
            return self.run_counted(st, counted, env)
        spec = self.find_spec(st, env)
        if spec is None:
            # unroll while the condition is decided
            for _ in range(200):
                c = simp(self.truth(self.eval(st.test, env)))
                if not isinstance(c, bool):
                    raise Unsupported("while loop without an invariant")
                if not c:
                    self.exec_block(st.orelse, env)
                    return
                try:
                    self.exec_block(st.body, env)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            raise Unsupported("long concrete while loop")
        return self.loop_with_spec(st, env, None, spec)

    def counted_loop(self, st, env):
        """`for i in range(i, e)` when the loop reads `while i < e: ...; i += 1`, or None"""
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE))
                and isinstance(t.left, ast.Name) and len(st.body) > 1 and not st.orelse and env.fn is not None):
            return None
        if hasattr(st, "counted"):
            return st.counted
        st.counted = None
        i, last, body = t.left.id, st.body[-1], st.body[:-1]
        if ast.unparse(last) not in (f"{i} += 1", f"{i} = {i} + 1", f"{i} = 1 + {i}"):
            return None
        from . import loops
        changed = set(loops.assigned_names(body)) | set(loops.stored_names(body))
        if i in changed or any(isinstance(x, ast.Continue) for x in own_jumps(body)):
            return None
        for x in ast.walk(t.comparators[0]):
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len"):
                return None
            if isinstance(x, ast.Name) and x.id in changed | {i}:
                return None
        e = t.comparators[0]
        if isinstance(t.ops[0], ast.LtE):
            e = ast.BinOp(left=e, op=ast.Add(), right=ast.Constant(value=1))
        node = ast.For(target=ast.Name(id=i, ctx=ast.Store()), body=body, orelse=[], iter=ast.Call(
            func=ast.Name(id="range", ctx=ast.Load()), args=[ast.Name(id=i, ctx=ast.Load()), e], keywords=[]))
        ast.fix_missing_locations(ast.copy_location(node, st))
        node.written_as, st.counted = st, node
        return node

    def run_counted(self, st, node, env):
        i = node.target.id
        start, end = self.eval(node.iter.args[0], env), num(self.eval(node.iter.args[1], env))
        if not is_int_raw(num(start).v) or not is_int_raw(end.v):
            raise Unsupported("a loop counter that is not a whole number")
        self.st_For(node, env)
        if any(isinstance(x, ast.Break) for x in own_jumps(node.body)):
            self.set_var(env, i, LOST)
        else:
            self.set_var(env, i, num(rite(rlt(num(start).v, end.v), end.v, num(start).v)))

    def loop_with_spec(self, st, env, seq, spec):
        from . import loops
        return loops.spec_loop(self, st, env, seq, spec)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def ex_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            return num(v)
        if v is Ellipsis:
            return Ellipsis
        raise Unsupported(f"constant {v!r}")

    def ex_Name(self, e, env):
        return self.lookup(e.id, env)

    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr, env)

    def ex_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            # format expressions are not evaluated unless they are plain strings
            if isinstance(v.value, ast.Name) and v.format_spec is None:
                try:
                    x = self.lookup(v.value.id, env)
                except PyExc:
                    x = None
                if isinstance(x, str):
                    parts.append(x)
                    continue
                if isinstance(x, Num) and x.isconst() and x.plain and x.isint:
                    parts.append(str(x.v))
                    continue
            return Opaque(("fstring", id(e)), [w.value for w in e.values if isinstance(w, ast.Constant)])
        return "".join(parts)

    def ex_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.seq_items(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return tuple(out)

    def ex_List(self, e, env):
        return PyList(self.ex_Tuple(e, env))

    def ex_Set(self, e, env):
        return PySet(self.ex_Tuple(e, env))

    def ex_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, env)
                if not isinstance(x, PyDict):
                    raise Unsupported("** of a non-dict")
                d.update(x.d)
            else:
                d[self.hashable(self.eval(k, env))] = self.eval(v, env)
        return PyDict(d)

    def hashable(self, k):
        if isinstance(k, Num) and k.isconst():
            return ("num", k.v)
        if isinstance(k, (str, bool)) or k is None:
            return k
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        if isinstance(k, (Ext,)):
            return ("ext", k.path)
        if isinstance(k, SymStr):
            if k.other:
                return ("symstr", k.t.get_id())
            raise Unsupported("symbolic dictionary key")
        if isinstance(k, ClassV):
            return ("class", k.name)
        raise Unsupported(f"dictionary key {type(k).__name__}")

    def ex_Lambda(self, e, env):
        return FuncV(e, env.module, "<lambda>", closure=env, cls=env.fn.cls if env.fn else None)

    def ex_IfExp(self, e, env):
        c = simp(self.truth(self.eval(e.test, env)))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, env)
        if self.ctx.scope:
            v = self.pure_choice(c, lambda: self.eval(e.body, env), lambda: self.eval(e.orelse, env))
            if v is not None:
                return v[0]
        if self.ctx.branch(c):
            return self.eval(e.body, env)
        return self.eval(e.orelse, env)

    def pure_choice(self, c, fa, fb):
        """evaluate both alternatives and merge them; None if that is not possible"""
        try:
            oa, xa = explore(self.ctx, fa, guard=c)
            ob, xb = explore(self.ctx, fb, guard=bnot(c))
            if any(o.kind != "val" or o.cells for o in oa + ob) or not oa or not ob:
                return None
            v = merge_val(c, merge_outcomes(oa), merge_outcomes(ob))
        except Unsupported:
            return None
        for f in xa:
            self.ctx.fact(bimp(c, f))
        for f in xb:
            self.ctx.fact(bimp(bnot(c), f))
        return (v,)

    def ex_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], env)
        for x in e.values[1:]:
            t = simp(self.truth(v))
            if isinstance(t, bool):
                if t != isand:
                    return v
                v = self.eval(x, env)
                continue
            # symbolic: evaluate the rest under the assumption that it is reached
            if isinstance(v, z3.BoolRef):
                g = t if isand else bnot(t)
                r = None
                try:
                    outs, facts = explore(self.ctx, lambda: self.truth_checked(self.eval(x, env)), guard=g)
                    if outs and all(o.kind == "val" and not o.cells for o in outs):
                        r = merge_outcomes(outs)
                except Unsupported:
                    r = None
                if r is not None:
                    for f in facts:
                        self.ctx.fact(bimp(g, f))
                    v = band(t, r) if isand else bor(t, r)
                    continue
            if self.ctx.branch(t):
                if not isand:
                    return v
            else:
                if isand:
                    return v
            v = self.eval(x, env)
        return v

    def truth_checked(self, v):
        if not isinstance(v, (bool, z3.BoolRef)):
            raise Unsupported("non-boolean operand")
        return v

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.np.elementwise(self, lambda a: neg(num(a)), [v])
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.np.elementwise(self, lambda a: bnot(a) if isinstance(a, (bool, z3.BoolRef)) else
                                       sub(num(-1), a), [v])
        raise Unsupported("unary operator")

    def ex_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.np.binop(self, op, a, b)

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.np.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            res = band(res, c)
            if res is False:
                return False
            left = right
        return res

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ex_Starred(self, e, env):
        raise Unsupported("starred expression")

    def ex_Call(self, e, env):
        # super().method(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) \
                and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            fn = env.fn
            while fn is not None and fn.cls is None:
                raise Unsupported("super outside a class")
            selfv = env.vars[fn.node.args.args[0].arg]
            for c in fn.cls.mro()[1:]:
                if e.func.attr in c.attrs:
                    a = c.attrs[e.func.attr]
                    if isinstance(a, PropV):
                        raise Unsupported("super property")
                    args, kwargs = self.eval_args(e, env)
                    return self.call(a, [selfv] + args, kwargs)
            if e.func.attr == "__init__":
                return None
            raise PyExc("AttributeError", e.func.attr)
        f = self.eval(e.func, env)
        if isinstance(f, Builtin) and f.name == "super":
            raise Unsupported("super")
        if isinstance(f, Ext) and f.path == "itertools.zip_longest" and len(e.args) == 1 and \
                isinstance(e.args[0], ast.Starred):
            v = self.eval(e.args[0].value, env)
            if isinstance(v, Arr) and v.items is None:
                return self.np.zip_longest_rows(self, v, {k.arg: self.eval(k.value, env) for k in e.keywords})
        args, kwargs = self.eval_args(e, env)
        self.line = getattr(e, "lineno", self.line)
        return self.call(f, args, kwargs)

    def eval_args(self, e, env):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.seq_items(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, PyDict):
                    raise Unsupported("**kwargs of a non-dict")
                for kk, vv in d.d.items():
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return args, kwargs

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x, env) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def ex_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(o, (Builtin, Ext, ClassV)) and not (isinstance(o, Ext) and o.path.endswith(".r_")):
            return o           # typing subscripts
        return self.np.load(self, o, self.eval_index(e.slice, env))

    def ex_Slice(self, e, env):
        return self.eval_index(e, env)

    # comprehensions
    def ex_ListComp(self, e, env):
        return self.comprehension(e.elt, e.generators, env)

    def ex_GeneratorExp(self, e, env):
        v = self.comprehension(e.elt, e.generators, env)
        return v

    def ex_SetComp(self, e, env):
        v = self.comprehension(e.elt, e.generators, env)
        if isinstance(v, PyList):
            return PySet([self.hashable(x) for x in v.xs])
        raise Unsupported("set comprehension")

    def ex_DictComp(self, e, env):
        d = {}
        if len(e.generators) != 1:
            raise Unsupported("nested dict comprehension")
        g = e.generators[0]
        seq = self.to_seq(self.eval(g.iter, env))
        if not isinstance(seq.n, int):
            raise Unsupported("symbolic dict comprehension")
        for i in range(seq.n):
            e2 = Env(env.module, env, env.fn)
            self.assign(g.target, seq.get(i), e2)
            if all(self.branch_truth(self.eval(c, e2)) for c in g.ifs):
                d[self.hashable(self.eval(e.key, e2))] = self.eval(e.value, e2)
        return PyDict(d)

    def comprehension(self, elt, gens, env):
        g = gens[0]
        seq = self.to_seq(self.eval(g.iter, env))
        rest = gens[1:]

        def body(i):
            e2 = Env(env.module, env, env.fn)
            self.assign(g.target, self.one_type(seq.get(i)), e2)
            return e2
        if isinstance(seq.n, int):
            out = []
            sym = False
            for i in range(seq.n):
                e2 = body(i)
                if all(self.branch_truth(self.eval(c, e2)) for c in g.ifs):
                    if rest:
                        sub_ = self.comprehension(elt, rest, e2)
                        if isinstance(sub_, PyList):
                            out.extend(sub_.xs)
                        else:
                            out.append(("chunk", sub_))
                            sym = True
                    else:
                        out.append(self.eval(elt, e2))
            if sym:
                arrs = [x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] == "chunk"
                        else const_arr([x], "list") for x in out]
                r = self.np.concat(self, arrs)
                r.kind = "list"
                return r
            return PyList(out)
        if rest:
            return self.flat_comprehension(elt, seq, g, rest, env)
        idx = z3.Int(self.ctx.fresh_name("i"))
        guard = band(rle(0, idx), rlt(idx, seq.n))
        if g.ifs:
            def th():
                e2 = body(idx)
                r = True
                for c in g.ifs:
                    r = band(r, self.truth(self.eval(c, e2)))
                return r
            mask = self.generic(th, idx, guard, seq.n)
            flt = self.np.make_filter(self, Arr(seq.n, mask, "b"))
            f = flt.idx

            def get_src(j):
                return f(j)
            n = flt.m
            idx2 = z3.Int(self.ctx.fresh_name("i"))
            guard2 = band(rle(0, idx2), rlt(idx2, n))
            g2 = self.generic(lambda: self.eval(elt, body(f(idx2))), idx2, guard2, n)
            return self.list_arr(n, g2)
        g2 = self.generic(lambda: self.eval(elt, body(idx)), idx, guard, seq.n)
        return self.list_arr(seq.n, g2)

    def list_arr(self, n, get):
        p = get(z3.Int("probe"))
        dt = "f"
        if isinstance(p, (bool, z3.BoolRef)):
            dt = "b"
        elif isinstance(p, Num) and p.isint:
            dt = "i"
        elif not isinstance(p, Num):
            dt = "o"
        return Arr(n, get, dt, "list")

    def one_type(self, v):
        """decide the type of a number that depends on the case"""
        if isinstance(v, AltNum):
            for c, x in v.alts[:-1]:
                if self.ctx.branch(c):
                    return x
            return v.alts[-1][1]
        if isinstance(v, tuple):
            return tuple(self.one_type(x) for x in v)
        return v

    def flat_comprehension(self, elt, seq, g, rest, env):
        """[elt for x in seq for y in inner(x)]: the blocks inner(x) one after the other"""
        if len(rest) > 1 or g.ifs or rest[0].ifs:
            raise Unsupported("nested comprehension over a symbolic sequence")
        idx = z3.Int(self.ctx.fresh_name("i"))

        def inner():
            e2 = Env(env.module, env, env.fn)
            self.assign(g.target, self.one_type(seq.get(idx)), e2)
            v = self.eval(rest[0].iter, e2)
            if not isinstance(v, (Arr, PyList)):
                raise Unsupported("nested comprehension over " + type(v).__name__)
            return v if isinstance(v, Arr) else const_arr(v.xs, "list")
        blk = self.generic(inner, idx, band(rle(0, idx), rlt(idx, seq.n)), seq.n)
        fl = self.np.flat_of(self, seq.n, lambda k: blk(k).n)
        get = lambda p: blk(fl.owner(p)).get(rsub(zi(p), fl.start(fl.owner(p))))
        p = z3.Int(self.ctx.fresh_name("i"))

        def one():
            e2 = Env(env.module, env, env.fn)
            self.assign(g.target, seq.get(fl.owner(p)), e2)
            self.assign(rest[0].target, get(p), e2)
            return self.eval(elt, e2)
        out = self.list_arr(fl.total, self.generic(one, p, band(rle(0, p), rlt(p, fl.total)), fl.total))
        same_ = isinstance(elt, ast.Name) or (isinstance(elt, ast.Call) and ast.unparse(elt.func) == "float"
                                              and isinstance(elt.args[0], ast.Name))
        if same_:
            out.flat = (fl, blk)
        return out

    def generic(self, thunk, idx, guard, n):
        """value of thunk at every index: closure k -> value"""
        outs, facts = explore(self.ctx, thunk, index=idx, guard=guard)
        if not outs:
            # no feasible element: the sequence is empty
            self.ctx.assume(rle(n, 0))
            return lambda k: num(0)
        exc = [o for o in outs if o.kind == "exc"]
        ok = [o for o in outs if o.kind == "val"]
        if any(o.kind not in ("val", "exc") for o in outs):
            raise Unsupported("control flow inside a comprehension")
        if any(o.cells for o in outs):
            raise Unsupported("side effect inside a comprehension")
        if exc:
            bad = bor(*[o.cond for o in exc])
            w = self.ctx.fresh("raise_at", I)
            if self.ctx.choose(2) == 1:
                # some element raises: the first one decides
                pairs = [(idx, w)]
                self.ctx.assume(band(subst_raw(guard, pairs), subst_raw(bad, pairs)))
                k = z3.Int(self.ctx.fresh_name("k"))
                self.ctx.assume(z3.ForAll([k], z3.Implies(
                    z3.And(k >= 0, k < w), zb(subst_raw(bnot(bad), [(idx, k)])))))
                for f in facts:
                    self.ctx.fact(f)
                for o in exc[:-1]:
                    if self.ctx.branch(subst_raw(o.cond, pairs)):
                        raise PyExc(o.val.etype, o.val.msg)
                raise PyExc(exc[-1].val.etype, exc[-1].val.msg)
            if not ok:
                self.ctx.assume(rle(n, 0))
                return lambda k: num(0)
            k = z3.Int(self.ctx.fresh_name("k"))
            self.ctx.fact(z3.ForAll([k], zb(bimp(subst_raw(guard, [(idx, k)]),
                                                subst_raw(bnot(bad), [(idx, k)])))))
        for f in facts:
            self.ctx.fact(f)
        v = alt_num(ok)
        v = merge_outcomes(ok) if v is None else v

        def get(k):
            kk = z3.IntVal(k) if isinstance(k, int) else k
            return subst_val(v, [(idx, kk)])
        return get

    # ------------------------------------------------------------ sequences
    def to_seq(self, v):
        if isinstance(v, SeqV):
            return v
        if isinstance(v, Arr):
            a = v
            return SeqV(v.n, lambda i: a.get(i))
        if isinstance(v, PyList):
            v = tuple(v.xs)
        if isinstance(v, tuple):
            xs = v

            def get(i):
                if isinstance(i, int):
                    return xs[i]
                return const_arr(xs).get(i)
            return SeqV(len(xs), get)
        if isinstance(v, Stub):
            return v.seq(self)
        if isinstance(v, PyDict):
            return self.to_seq(tuple(self.unhash(k) for k in v.d))
        if isinstance(v, PySet):
            return self.to_seq(tuple(sorted(v.xs, key=str)))
        if isinstance(v, RangeV):
            lo, hi, step = v.lo, v.hi, v.step
            if isc(lo) and isc(hi) and isc(step):
                return self.to_seq(tuple(num(x) for x in range(lo, hi, step)))
            if not isc(step):
                if not self.ctx.implied(rlt(0, step)):
                    if not self.ctx.branch(rlt(0, step)):
                        if self.ctx.branch(req(step, 0)):
                            raise PyExc("ValueError", "range() arg 3 must not be zero")
                        raise Unsupported("negative symbolic step")
                d = rsub(hi, lo)
                n = rite(rlt(0, d), radd(zi(rsub(d, 1)) / step, 1), 0)
            elif step > 0:
                d = rsub(hi, lo)
                if step == 1:
                    n = rite(rlt(0, d), d, 0)
                else:
                    n = rite(rlt(0, d), (zi(d) + (step - 1)) / step, 0)
            else:
                d = rsub(lo, hi)
                n = rite(rlt(0, d), (zi(d) + (-step - 1)) / (-step), 0)
            if not isc(n):
                n = z3.simplify(n)
                if self.ctx.implied(rle(0, d)) and step == 1:
                    n = d
                n = _unz_(n) if not isc(n) else n
            s = SeqV(n, lambda i: num(radd(lo, rmul(step, i))), "range")
            s.lo, s.step = lo, step
            return s
        if isinstance(v, Mat):
            m = v
            return SeqV(v.n, lambda i: self.np.mat_row(self, m, i))
        if isinstance(v, str):
            return self.to_seq(tuple(v))
        if isinstance(v, Obj) and v.cls.dataclass and v.cls.find("__iter__")[0] is None:
            return self.to_seq(tuple(v.fields[n] for n in v.cls.all_fields()))
        raise PyExc("TypeError", f"{type(v).__name__} is not iterable")

    def unhash(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "num":
            return num(k[1])
        return k

    def seq_items(self, v):
        s = self.to_seq(v)
        if not isinstance(s.n, int):
            raise Unsupported("a sequence of symbolic length is needed in full")
        return [s.get(i) for i in range(s.n)]


def _raiser(e):
    def f(I, args, kwargs):
        raise e
    return f
