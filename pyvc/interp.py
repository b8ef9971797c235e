"""Symbolic interpreter for the Python subset (real source ASTs of /repo)."""
import ast
import os
from fractions import Fraction
import builtins as _b
import z3
from .core import *
from .core import _Break, _Continue, _Return, fmt
from . import core


class ExcVal:
    """an exception instance."""

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)


class Ext:
    """trusted external function / bound external."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<ext {self.name}>"


class TypeTag:
    """type object for isinstance/conversion (int, float, dict, np.ndarray ...)."""

    def __init__(self, name, test, conv=None):
        self.name, self.test, self.conv = name, test, conv

    def __repr__(self):
        return f"<type {self.name}>"


class Unmodelled:
    def __init__(self, name):
        self.name = name


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SliceVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class GenVal:
    """generator expression, evaluated eagerly (list of values)."""

    def __init__(self, l):
        self.l = l


def npmodel_SymStr():
    from . import npmodel
    return npmodel.SymStr


class LoopSpec:
    def __init__(self, inv, variant=None, havoc=None, heap=None, name="loop"):
        self.inv, self.variant, self.havoc, self.heap, self.name = inv, variant, havoc or {}, heap, name


class Env:
    __slots__ = ("vars", "parent", "module", "func", "globals_", "nonlocals_")

    def __init__(self, parent, module, func=None):
        self.vars, self.parent, self.module, self.func = {}, parent, module, func
        self.globals_, self.nonlocals_ = set(), {}

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise KeyError(name)


MISSING = object()


class Program:
    """the repository source, loaded from the working tree on every run."""

    def __init__(self, repo=None, package="gw_eccentricity"):
        self.repo = repo or core.REPO
        self.package = package
        self.modules = {}
        self.used_trusted = set()
        self.inlined = set()
        self.sources = {}
        self.overrides = {}

    def path_of(self, modname):
        p = os.path.join(self.repo, *modname.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def is_internal(self, modname):
        return (modname == self.package or modname.startswith(self.package + ".")) and os.path.exists(self.path_of(modname))

    def load(self, modname):
        if modname in self.modules:
            return self.modules[modname]
        path = self.path_of(modname)
        src = open(path).read()
        tree = ast.parse(src, filename=path)
        env = Env(None, modname)
        env.vars["__name__"] = modname
        env.vars["__file__"] = path
        mv = ModuleVal(modname, env)
        self.modules[modname] = mv
        ctx = Ctx(self, [], {})
        it = Interp(self, ctx)
        ctx.interp = it
        if os.path.basename(path) == "__init__.py" and modname == self.package:
            # the package __init__ only re-exports
            pass
        for st in tree.body:
            it.exec_stmt(st, env)
        return mv

    def resolve(self, qual):
        """'module:Class.method' or 'module:function' (module relative to the package)."""
        mod, _, q = qual.partition(":")
        full = self.package + ("." + mod if mod else "")
        env = self.load(full).env
        parts = q.split(".")
        try:
            v = env.lookup(parts[0])
        except KeyError:
            raise Unsupported(f"{qual} not found in the source")
        for p in parts[1:]:
            if not isinstance(v, ClassVal):
                raise Unsupported(f"{qual} not found in the source")
            v, _c = v.lookup(p)
            if v is None:
                raise Unsupported(f"{qual} not found in the source")
        return v


class Interp:
    MAX_DEPTH = 60

    def __init__(self, prog, ctx):
        self.prog, self.ctx = prog, ctx
        self.depth = 0
        self.cur_exc = []

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        ctx = self.ctx
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_obj] + list(args), kw)
        if isinstance(f, FuncVal):
            q = f.qual
            if q in ctx.summaries:
                ctx.used_summaries.add(q)
                return ctx.summaries[q](ctx, list(args), dict(kw))
            return self.call_func(f, args, kw)
        if isinstance(f, Ext):
            self.prog.used_trusted.add(f.name)
            return f.fn(ctx, list(args), dict(kw))
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcVal(f, args)
        if isinstance(f, TypeTag):
            if f.conv is None:
                raise Unsupported(f"calling type {f.name}")
            return f.conv(ctx, list(args), dict(kw))
        if isinstance(f, Opaque):
            if getattr(f, "pure", False):
                self.prog.used_trusted.add("opaque, assumed effect-free: " + f.name.split(".")[0])
                return mk_opaque(f.name + "()")
            raise Unsupported(f"call of unknown value {f.name}")
        if isinstance(f, Unmodelled):
            raise Unsupported(f"unmodelled external {f.name}")
        if isinstance(f, Obj):
            m, _ = f.cls.lookup("__call__") if f.cls else (None, None)
            if m is not None:
                return self.call(BoundMethod(m, f), args, kw)
            raise PyRaise(TypeError, ("object is not callable",))
        if callable(f):      # native model callable (contracts): fn(ctx, args, kw)
            return f(ctx, list(args), dict(kw))
        if f is None or isinstance(f, (int, Fraction, str, tuple, PyDict, PyList, Arr)):
            raise PyRaise(TypeError, ("object is not callable",))
        raise Unsupported(f"call of {f!r}")

    def instantiate(self, cls, args, kw):
        if cls.is_exception():
            e = ExcVal(cls, args)
            return e
        o = Obj(cls)
        init, _ = cls.lookup("__init__")
        if init is not None:
            self.call(BoundMethod(init, o), args, kw)
        else:
            fields = []
            for c in reversed([c for c in cls.mro() if isinstance(c, ClassVal)]):
                for f in (c.dataclass_fields or []):
                    fields.append(f)
            if fields:
                names = [f[0] for f in fields]
                vals = dict(zip(names, args))
                if len(args) > len(names):
                    raise PyRaise(TypeError, ("too many arguments",))
                for k, v in kw.items():
                    if k not in names or k in vals:
                        raise PyRaise(TypeError, (f"unexpected argument {k}",))
                    vals[k] = v
                for n, d in fields:
                    if n not in vals:
                        if d is MISSING:
                            raise PyRaise(TypeError, (f"missing argument {n}",))
                        vals[n] = d
                for n in names:
                    o.attrs[n] = vals[n]
            elif args or kw:
                if any(not isinstance(c, ClassVal) for c in cls.mro()):
                    raise Unsupported("external base class construction")
                raise PyRaise(TypeError, (f"{cls.name}() takes no arguments",))
        return o

    def call_func(self, f, args, kw):
        a = f.node.args
        env = Env(f.env, f.module, f)
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError, (f"{f.name}() takes {len(names)} positional arguments but {len(args)} were given",))
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in vals:
                    raise PyRaise(TypeError, (f"{f.name}() got multiple values for argument '{k}'",))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(TypeError, (f"{f.name}() got an unexpected keyword argument '{k}'",))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PyDict(extra)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    raise PyRaise(TypeError, (f"{f.name}() missing required argument '{n}'",))
        for n, d in zip(konly, f.kw_defaults):
            if n not in vals:
                if d is MISSING:
                    raise PyRaise(TypeError, (f"{f.name}() missing keyword argument '{n}'",))
                vals[n] = d
        env.vars.update(vals)
        self.prog.inlined.add(f.qual)
        self.depth += 1
        if self.depth > self.MAX_DEPTH:
            self.depth = 0
            raise Unsupported("recursion too deep")
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            self.exec_block(f.node.body, env)
        except _Return as r:
            return r.v
        except PyRaise as e:
            if e.where is None:
                e.where = f.qual
            raise
        finally:
            self.depth -= 1
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        ctx = self.ctx
        ctx.steps += 1
        if ctx.steps > ctx.MAX_STEPS:
            raise Unsupported("step limit")
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} (line {st.lineno})")
        return m(st, env)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Break(self, st, env):
        raise _Break()

    def st_Continue(self, st, env):
        raise _Continue()

    def st_Return(self, st, env):
        raise _Return(self.eval(st.value, env) if st.value is not None else None)

    def st_Global(self, st, env):
        env.globals_.update(st.names)

    def st_Nonlocal(self, st, env):
        for nm in st.names:
            e = env.parent
            while e is not None and nm not in e.vars:
                e = e.parent
            if e is None or e.func is None:
                raise Unsupported(f"nonlocal {nm} not bound yet")
            env.nonlocals_[nm] = e

    def st_Import(self, st, env):
        for al in st.names:
            v = self.import_module(al.name, env)
            if al.asname:
                env.vars[al.asname] = v
            else:
                top = al.name.split(".")[0]
                env.vars[top] = self.import_module(top, env)

    def import_module(self, name, env):
        if self.prog.is_internal(name):
            return self.prog.load(name)
        from . import npmodel
        return npmodel.ext_module(name)

    def st_ImportFrom(self, st, env):
        if st.module == "__future__":
            return
        if st.level:
            base = env.module.split(".")
            ispkg = os.path.basename(self.prog.path_of(env.module)) == "__init__.py"
            up = st.level - (1 if ispkg else 0)
            base = base[: len(base) - up] if up else base
            name = ".".join(base + ([st.module] if st.module else []))
        else:
            name = st.module
        for al in st.names:
            if self.prog.is_internal(name):
                sub = name + "." + al.name
                m = self.prog.load(name)
                if al.name in m.env.vars:
                    v = m.env.vars[al.name]
                elif self.prog.is_internal(sub):
                    v = self.prog.load(sub)
                else:
                    raise PyRaise(ImportError, (f"cannot import {al.name} from {name}",))
            else:
                from . import npmodel
                v = self.getattr(npmodel.ext_module(name), al.name)
            env.vars[al.asname or al.name] = v

    def st_FunctionDef(self, st, env):
        env.vars[st.name] = self.make_func(st, env)

    def make_func(self, st, env, cls=None, clsqual=None):
        mod = env.module[len(self.prog.package) + 1:] if env.module.startswith(self.prog.package + ".") else env.module
        q = f"{mod}:{clsqual + '.' if clsqual else ''}{getattr(st, 'name', '<lambda>')}"
        f = FuncVal(st, env, env.module, cls, qual=q)
        for d in st.args.defaults:
            f.defaults.append(self.eval(d, env))
        for d in st.args.kw_defaults:
            f.kw_defaults.append(self.eval(d, env) if d is not None else MISSING)
        for dec in getattr(st, "decorator_list", []):
            nm = dec.id if isinstance(dec, ast.Name) else None
            if nm == "staticmethod":
                f.static = True
            elif nm == "property":
                f.prop = True
            elif nm == "classmethod":
                f.classm = True
            else:
                f.badd = True
        return f

    def st_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        mod = env.module[len(self.prog.package) + 1:]
        cls = ClassVal(st.name, bases, {}, env.module, f"{mod}:{st.name}")
        cenv = Env(env, env.module)
        is_dc = any((isinstance(d, ast.Name) and d.id == "dataclass") or
                    (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "dataclass")
                    for d in st.decorator_list)
        fields = []
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                cls.ns[s.name] = self.make_func(s, env, cls, st.name)
                cls.ns[s.name].cls = cls
            elif isinstance(s, ast.AnnAssign):
                d = self.eval(s.value, cenv) if s.value is not None else MISSING
                fields.append((s.target.id, d))
                if s.value is not None:
                    cls.ns[s.target.id] = d
            elif isinstance(s, ast.Assign):
                v = self.eval(s.value, cenv)
                for t in s.targets:
                    cls.ns[t.id] = v
                    cenv.vars[t.id] = v
            elif isinstance(s, (ast.Expr, ast.Pass)):
                pass
            else:
                raise Unsupported("class body")
        if is_dc:
            cls.dataclass_fields = fields
        env.vars[st.name] = cls

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def st_AugAssign(self, st, env):
        op = BINOPS[type(st.op)]
        if isinstance(st.target, ast.Name):
            cur = self.eval(st.target, env)
            v = self.eval(st.value, env)
            self.assign(st.target, self.inplace(op, cur, v), env)
        elif isinstance(st.target, ast.Subscript):
            obj = self.eval(st.target.value, env)
            idx = self.eval(st.target.slice, env)
            cur = self.getitem(obj, idx)
            v = self.eval(st.value, env)
            r = self.inplace(op, cur, v)
            self.setitem(obj, idx, r)
        elif isinstance(st.target, ast.Attribute):
            obj = self.eval(st.target.value, env)
            cur = self.getattr(obj, st.target.attr)
            v = self.eval(st.value, env)
            self.setattr(obj, st.target.attr, self.inplace(op, cur, v))
        else:
            raise Unsupported("augassign target")

    def inplace(self, op, cur, v):
        from . import npmodel
        if isinstance(cur, Arr):
            npmodel.inplace(self.ctx, op, cur, v)
            return cur
        if isinstance(cur, PyList) and op == "+":
            cur.writes += 1
            cur.l.extend(self.iterate(v))
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals_:
                self.prog.modules[env.module].env.vars[t.id] = v
            elif t.id in env.nonlocals_:
                env.nonlocals_[t.id].vars[t.id] = v
            else:
                env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                k = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)][0]
                items = self.iterate(v)
                after = len(t.elts) - k - 1
                if len(items) < k + after:
                    raise PyRaise(ValueError, ("not enough values to unpack",))
                for x, y in zip(t.elts[:k], items[:k]):
                    self.assign(x, y, env)
                self.assign(t.elts[k].value, PyList(items[k:len(items) - after]), env)
                for x, y in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(x, y, env)
                return
            if isinstance(v, Opaque) and getattr(v, "pure", False):
                for x in t.elts:
                    self.assign(x, mk_opaque(v.name + "[.]"), env)
                return
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, k):
        if isinstance(v, Arr) and not isinstance(v.n, int):
            if not self.ctx.branch(to_z3(v.n) == k):
                raise PyRaise(ValueError, ("unpack",))
            return [self.getitem(v, i) for i in range(k)]
        items = self.iterate(v)
        if len(items) != k:
            raise PyRaise(ValueError, (f"cannot unpack {len(items)} values into {k}",))
        return items

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                i = self.eval(t.slice, env)
                if isinstance(o, PyDict):
                    if i not in o.d:
                        raise PyRaise(KeyError, (i,))
                    o.writes += 1
                    del o.d[i]
                else:
                    raise Unsupported("del item")
            else:
                raise Unsupported("del")

    def st_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def st_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyRaise(AssertionError, (self.eval(st.msg, env) if st.msg else "",))

    def st_Raise(self, st, env):
        if st.exc is None:
            if self.cur_exc:
                raise self.cur_exc[-1]
            raise PyRaise(RuntimeError, ("No active exception",))
        e = self.eval(st.exc, env)
        if st.cause is not None:
            self.eval(st.cause, env)
        if isinstance(e, ExcVal):
            raise PyRaise(e.cls, e.args)
        if (isinstance(e, type) and issubclass(e, BaseException)) or isinstance(e, ClassVal):
            raise PyRaise(e, ())
        raise Unsupported("raise of non-exception")

    def exc_match(self, cls, spec):
        if isinstance(spec, tuple):
            return any(self.exc_match(cls, s) for s in spec)
        if isinstance(spec, (Opaque, Unmodelled)):
            # an external exception class: only matches exceptions of that class
            return cls is spec
        if isinstance(cls, ClassVal):
            return any(c is spec or (isinstance(c, type) and isinstance(spec, type) and issubclass(c, spec)) for c in cls.mro())
        if isinstance(cls, type) and isinstance(spec, type):
            return issubclass(cls, spec)
        return cls is spec

    def st_Try(self, st, env):
        pending = None
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                handled = False
                for h in st.handlers:
                    spec = self.eval(h.type, env) if h.type is not None else BaseException
                    if isinstance(spec, PyList):
                        spec = tuple(spec.l)
                    if self.exc_match(e.cls, spec):
                        handled = True
                        if h.name:
                            env.vars[h.name] = ExcVal(e.cls, e.pargs)
                        self.cur_exc.append(e)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.cur_exc.pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                if not handled:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (PyRaise, _Return, _Break, _Continue) as e:
            pending = e
        if st.finalbody:
            self.exec_block(st.finalbody, env)
        if pending is not None:
            raise pending

    def st_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if not (isinstance(v, Opaque) or v is None or getattr(v, "is_cm", False)):
                raise Unsupported("with on modelled object")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(st.body, env)

    # ------------------------------------------------------------ loops
    def loop_key(self, st, env):
        f = env.func
        if f is None or not isinstance(f.node, ast.FunctionDef):
            return None
        loops = [n for n in ast.walk(f.node) if isinstance(n, (ast.While, ast.For))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        for k, n in enumerate(loops):
            if n is st:
                return (f.qual, k)
        return None

    def st_While(self, st, env):
        ctx = self.ctx
        key = self.loop_key(st, env)
        spec = ctx.loops.get(key)
        if spec is not None:
            return self.cut_loop(st, env, spec, key)
        n = 0
        while True:
            if not self.truth(self.eval(st.test, env)):
                self.exec_block(st.orelse, env)
                return
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                pass
            n += 1
            if n > ctx.unroll:
                raise Unsupported(f"while loop in {key} exceeds {ctx.unroll} iterations and has no invariant")

    def assigned(self, body):
        names = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
        return names

    def havoc(self, st, env, spec):
        ctx = self.ctx
        e = env
        while e is not None and e.func is not None:
            for f in e.vars.values():
                if isinstance(f, FuncVal) and any(isinstance(x, ast.Nonlocal) for x in ast.walk(f.node)):
                    raise Unsupported("loop under an invariant with a local function that assigns outer variables")
            e = e.parent
        for nm in sorted(self.assigned(st.body) | (self.assigned([st.target]) if isinstance(st, ast.For) else set())):
            if nm in spec.havoc:
                continue
            cur = env.vars.get(nm, MISSING)
            if cur is MISSING:
                continue
            env.vars[nm] = havoc_like(ctx, nm, cur)
        for nm in spec.havoc:
            if nm not in env.vars:
                raise Unsupported(f"loop contract mentions unknown variable {nm}")
            env.vars[nm] = spec.havoc[nm](ctx)      # also when only modified in place
        if spec.heap:
            spec.heap(ctx, env.vars)

    def loop_frame(self, spec, before):
        """an iteration writes no list, dictionary or set that existed before it (other than those
        the loop contract forgets on purpose)."""
        if spec.heap:
            return
        for v, contents in before:
            if contents_of(v) != contents:
                raise Unsupported("a loop under an invariant writes a container the invariant does not mention")

    def check_inv(self, spec, env, tag, extra=None):
        L = LoopView(env.vars, extra)
        for nm, g in spec.inv(self.ctx, L):
            self.ctx.prove(f"{spec.name}: invariant '{nm}' {tag}", g)

    def assume_inv(self, spec, env, extra=None):
        L = LoopView(env.vars, extra)
        for nm, g in spec.inv(self.ctx, L):
            self.ctx.assume(g)

    def cut_loop(self, st, env, spec, key):
        ctx = self.ctx
        ctx.cut_loops.add(key)
        self.check_inv(spec, env, "on entry")
        self.havoc(st, env, spec)
        self.assume_inv(spec, env)
        g = self.truth(self.eval(st.test, env))
        if not g:
            self.exec_block(st.orelse, env)
            return
        v0 = spec.variant(ctx, LoopView(env.vars, None)) if spec.variant else None
        if v0 is not None:
            ctx.prove(f"{spec.name}: variant bounded below", num_cmp(">=", v0, 0))
        before = containers(env)
        try:
            self.exec_block(st.body, env)
        except _Continue:
            pass
        except _Break:
            return
        self.loop_frame(spec, before)
        self.check_inv(spec, env, "preserved")
        if v0 is not None:
            ctx.prove(f"{spec.name}: variant decreases", num_cmp("<", spec.variant(ctx, LoopView(env.vars, None)), v0))
        raise PathEnd()

    def st_For(self, st, env):
        ctx = self.ctx
        itv = self.eval(st.iter, env)
        key = self.loop_key(st, env)
        spec = ctx.loops.get(key)
        seq = self.sym_sequence(itv)
        if spec is not None and seq is not None:
            return self.cut_for(st, env, spec, key, seq)
        items = self.iterate(itv, lazy_ok=True)
        for x in items:
            self.assign(st.target, x, env)
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(st.orelse, env)

    def sym_sequence(self, v):
        """(length, at) for symbolic-length sequences, else None."""
        if isinstance(v, Arr) and not isinstance(v.n, int):
            return v.n, lambda k: self.getitem(v, k, checked=True)
        if isinstance(v, RangeVal) and not all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
            if v.step == 1:
                n = ite(num_cmp("<=", v.hi, v.lo), 0, isub(v.hi, v.lo))
                return n, lambda k: iadd(v.lo, k)
        if isinstance(v, SymSeq):
            return v.n, v.at
        return None

    def cut_for(self, st, env, spec, key, seq):
        ctx = self.ctx
        n, at = seq
        ctx.cut_loops.add(key)
        self.check_inv(spec, env, "on entry", {"it": 0, "len": n})
        self.havoc(st, env, spec)
        k = ctx.int("it")
        ctx.assume(k >= 0)
        ctx.assume(num_cmp("<=", k, n))
        self.assume_inv(spec, env, {"it": k, "len": n})
        if not ctx.branch(num_cmp("<", k, n)):
            self.exec_block(st.orelse, env)
            return
        self.assign(st.target, at(k), env)
        before = containers(env)
        try:
            self.exec_block(st.body, env)
        except _Continue:
            pass
        except _Break:
            return
        self.loop_frame(spec, before)
        self.check_inv(spec, env, "preserved", {"it": iadd(k, 1), "len": n})
        raise PathEnd()

    # ------------------------------------------------------------ iteration
    def iterate(self, v, lazy_ok=False):
        from . import npmodel
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, PyList):
            return list(v.l)
        if isinstance(v, GenVal):
            return list(v.l)
        if isinstance(v, PyDict):
            if v.log:
                raise Unsupported("iteration over dict with symbolic keys")
            return list(v.d.keys())
        if isinstance(v, PySet):
            return sorted(v.s, key=repr)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, RangeVal):
            if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)):
                r = range(v.lo, v.hi, v.step)
                if len(r) > 4096:
                    raise Unsupported("range too long to unroll")
                return list(r)
            # bounded symbolic range: case split on the length
            return self.split_len(ite(num_cmp("<=", v.hi, v.lo), 0, isub(v.hi, v.lo)) if v.step == 1 else None,
                                  lambda k: iadd(v.lo, k))
        if isinstance(v, Arr):
            if isinstance(v.n, int):
                return [self.getitem(v, i) for i in range(v.n)]
            return self.split_len(v.n, lambda k: self.getitem(v, k, checked=True))
        if isinstance(v, LazyList):
            raise Unsupported("iteration over a list of unbounded length")
        if isinstance(v, SymSeq):
            return self.split_len(v.n, v.at)
        if isinstance(v, npmodel.Host) and hasattr(v, "items"):
            return list(v.items())
        if isinstance(v, Opaque):
            raise Unsupported(f"iteration over unknown value {v.name}")
        if v is None or is_num(v):
            raise PyRaise(TypeError, ("object is not iterable",))
        raise Unsupported(f"iteration over {v!r}")

    def split_len(self, n, at):
        """bounded unrolling by case split; complete only if the length is bounded by facts."""
        if n is None:
            raise Unsupported("symbolic range step")
        ctx = self.ctx
        out = []
        for k in range(ctx.split_bound + 1):
            if not ctx.branch(num_cmp(">", n, k)):
                return out
            out.append(at(k))
        raise Unsupported("loop over a sequence of unbounded length without invariant")

    # ------------------------------------------------------------ truth
    def truth(self, v):
        ctx = self.ctx
        if v is None:
            return False
        v = conc(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction)):
            return v != 0
        if is_z3(v):
            if z3.is_bool(v):
                return ctx.branch(v)
            return ctx.branch(v != 0)
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PyList):
            return len(v.l) > 0
        if isinstance(v, LazyList):
            return ctx.branch(num_cmp(">", v.n, 0))
        if isinstance(v, PyDict):
            return len(v.d) > 0 or bool(v.log)
        if isinstance(v, PySet):
            return len(v.s) > 0
        if isinstance(v, RangeVal):
            return ctx.branch(num_cmp(">", v.hi, v.lo))
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.truth(v.at())
            if not ctx.branch(num_cmp("==", v.n, 1)):
                if ctx.branch(num_cmp("==", v.n, 0)):
                    return False
                raise PyRaise(ValueError, ("The truth value of an array with more than one element is ambiguous",))
            return self.truth(v.at(0))
        if isinstance(v, Opaque):
            return ctx.choose(2) == 0
        if isinstance(v, npmodel_SymStr()):
            return v.truth(ctx)
        if isinstance(v, Obj):
            m, _ = v.cls.lookup("__len__")
            m2, _ = v.cls.lookup("__bool__")
            if m is None and m2 is None:
                return True
            raise Unsupported("__bool__")
        return True

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} (line {getattr(e, 'lineno', '?')})")
        return m(e, env)

    def ex_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return mk_opaque("inf")
            return Fraction(repr(v))
        if isinstance(v, complex):
            return CV(Fraction(repr(v.real)), Fraction(repr(v.imag)))
        return v

    def ex_Name(self, e, env):
        try:
            return env.lookup(e.id)
        except KeyError:
            pass
        from . import npmodel
        if e.id in npmodel.BUILTINS:
            return npmodel.BUILTINS[e.id]
        t = getattr(_b, e.id, None)
        if isinstance(t, type) and issubclass(t, BaseException):
            return t
        if e.id in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[e.id]
        if hasattr(_b, e.id):
            return Unmodelled("builtins." + e.id)
        raise PyRaise(NameError, (f"name '{e.id}' is not defined",), where=f"line {e.lineno}")

    def ex_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def ex_List(self, e, env):
        return PyList(self.elts(e.elts, env))

    def ex_Set(self, e, env):
        return PySet(set(self.elts(e.elts, env)))

    def ex_Dict(self, e, env):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                if not isinstance(src, PyDict):
                    raise Unsupported("** of non dict")
                d.d.update(src.d)
            else:
                d.d[self.key(self.eval(k, env))] = self.eval(v, env)
        return d

    def key(self, k):
        k = conc(k)
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, (PyList, PyDict, Arr, PySet)):
            raise PyRaise(TypeError, ("unhashable type",))
        if isinstance(k, Opaque):
            raise Unsupported("dict key of unknown value")
        if isinstance(k, Fraction) and k.denominator == 1:
            return k.numerator
        return k

    @staticmethod
    def sym_key(k):
        if isinstance(k, tuple):
            return any(Interp.sym_key(x) for x in k)
        return is_z3(k)

    def ex_JoinedStr(self, e, env):
        parts = []
        vals = []
        ok = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                vals.append(x)
                vals.extend(getattr(x, "vals", ()) if isinstance(x, Opaque) else ())
                spec = ""
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, env)
                if spec and (x is None or isinstance(x, (PyList, PyDict, tuple, Arr))) :
                    raise PyRaise(TypeError, ("unsupported format string",))
                if isinstance(x, str) and isinstance(spec, str) and v.conversion in (-1, 115):
                    try:
                        parts.append(format(x, spec))
                    except ValueError as ex:
                        raise PyRaise(ValueError, (str(ex),))
                elif isinstance(x, (int, bool)) and not is_z3(x) and spec == "":
                    parts.append(str(x))
                elif x is None:
                    parts.append("None")
                elif isinstance(x, Fraction) and spec == "":
                    parts.append(repr(float(x)))
                else:
                    ok = False
                    parts.append("<?>")
        if ok:
            return "".join(parts)
        o = Opaque("str")
        o.is_str = True
        o.pure = True
        o.text = "".join(parts)
        o.vals = vals       # the values shown in the text
        return o

    def ex_FormattedValue(self, e, env):
        return self.eval(e.value, env)

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ex_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def ex_Lambda(self, e, env):
        return self.make_func(e, env)

    def ex_BoolOp(self, e, env):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, env)
            if i == len(e.values) - 1:
                return v
            # keep pure boolean terms symbolic when the rest is simple
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not is_z3(v) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not is_z3(v) else (True if z3.is_bool(v) else v)
        return v

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if is_boolv(conc(v)):
                return b_not(v)
            return not self.truth(v)
        from . import npmodel
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                return npmodel.unary(self.ctx, lambda x: num_binop("*", -1, x, self.ctx) if not is_z3(x) or True else x, v)
            if isinstance(v, Opaque):
                return opaque_op(v)
            if not (is_num(v) or isinstance(v, CV) or is_boolv(v)):
                raise PyRaise(TypeError, ("bad operand for unary -",))
            return num_binop("-", 0, v, self.ctx)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and v.kind == "bool":
                return npmodel.unary(self.ctx, b_not, v, "bool")
            if isinstance(v, int) and not isinstance(v, bool):
                return ~v
        raise Unsupported("unary op")

    def ex_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        from . import npmodel
        ctx = self.ctx
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, (str,)) or isinstance(b, str) or getattr(a, "is_str", False) or getattr(b, "is_str", False):
                o = mk_opaque("str")
                o.is_str = True
                o.text = (a if isinstance(a, str) else getattr(a, "text", "<?>")) + (b if isinstance(b, str) else getattr(b, "text", "<?>")) if op == "+" else "<?>"
                return o
            return opaque_op(a if isinstance(a, Opaque) else b)
        if isinstance(a, str) or isinstance(b, str):
            if op == "+":
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                raise PyRaise(TypeError, ("can only concatenate str to str",))
            if op == "*" and isinstance(a, str) and isinstance(b, int):
                return a * b
            if op == "%":
                o = mk_opaque("str")
                o.is_str = True
                return o
            raise PyRaise(TypeError, ("bad operand for str",))
        if op == "@":
            return npmodel.matmul(ctx, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return npmodel.arr_binop(ctx, op, a, b)
        if isinstance(a, PyList) or isinstance(b, PyList):
            if op == "+" and isinstance(a, PyList) and isinstance(b, PyList):
                return PyList(a.l + b.l)
            if op == "*":
                x, k = (a, b) if isinstance(a, PyList) else (b, a)
                k = conc(k)
                if isinstance(k, int):
                    return PyList(x.l * k)
                if is_z3(k) and len(x.l) == 1:
                    raise Unsupported("list of symbolic length")
            raise PyRaise(TypeError, (f"unsupported operand for {op}: list",))
        if isinstance(a, tuple) or isinstance(b, tuple):
            if op == "+" and isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if op == "*" and isinstance(b, int):
                return a * b
            raise PyRaise(TypeError, ("unsupported operand for tuple",))
        if isinstance(a, PySet) and isinstance(b, PySet):
            if op == "-":
                return PySet(a.s - b.s)
            if op == "|":
                return PySet(a.s | b.s)
            if op == "&":
                return PySet(a.s & b.s)
        if a is None or b is None or isinstance(a, (PyDict, Obj)) or isinstance(b, (PyDict, Obj)):
            raise PyRaise(TypeError, (f"unsupported operand type(s) for {op}",))
        if op in ("&", "|", "^"):
            if is_boolv(conc(a)) and is_boolv(conc(b)):
                if op == "&":
                    return b_and(a, b)
                if op == "|":
                    return b_or(a, b)
                a, b = conc(a), conc(b)
                if isinstance(a, bool) and isinstance(b, bool):
                    return a ^ b
                return z3.Xor(to_z3(a), to_z3(b))
            if isinstance(a, int) and isinstance(b, int):
                return {"&": a & b, "|": a | b, "^": a ^ b}[op]
            raise Unsupported("bit op")
        if not (is_num(a) or isinstance(a, CV) or is_boolv(a)) or not (is_num(b) or isinstance(b, CV) or is_boolv(b)):
            raise Unsupported(f"binop {op} on {a!r}, {b!r}")
        r = num_binop(op, a, b, ctx)
        if op in ("/", "//", "%"):
            bb = conc(b)
            if is_z3(bb) and not ctx.numpy_scalars:
                pass
        return r

    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            res = b_and(res, c) if is_boolv(conc(c)) else c
            if conc(res) is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        from . import npmodel
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            r = self.is_(a, b)
            return r if t is ast.Is else b_not(r)
        if t is ast.In or t is ast.NotIn:
            r = self.contains(a, b)
            return r if t is ast.In else b_not(r)
        o = CMPOPS[t]
        return self.cmp(o, a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            x = b if a is None else a
            if isinstance(x, Opaque) and not getattr(x, "notnone", False):
                return opaque_op(x)
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if is_boolv(a) and isinstance(b, bool) or isinstance(a, bool) and is_boolv(b):
            return num_cmp("==", a, b)
        if isinstance(b, bool) or isinstance(a, bool):
            return False
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return False

    def cmp(self, o, a, b):
        from . import npmodel
        ctx = self.ctx
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if o in ("==", "!=") and (a is None or b is None) and False:
                pass
            if a is b and o in ("==", "!="):
                return o == "=="
            return opaque_op(a if isinstance(a, Opaque) else b)
        if isinstance(a, npmodel.Host) and hasattr(a, "compare"):
            return a.compare(ctx, o, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                raise Unsupported("array compared with non-number")
            return npmodel.arr_cmp(ctx, o, a, b)
        num = lambda x: is_num(x) or is_boolv(x) or isinstance(x, CV)
        if num(a) and num(b):
            return num_cmp(o, a, b)
        if o in ("==", "!="):
            r = self.equal(a, b)
            return r if o == "==" else b_not(r)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
        if isinstance(a, (tuple, PyList)) and type(a) == type(b):
            return self.lex(o, list(a) if isinstance(a, tuple) else a.l, list(b) if isinstance(b, tuple) else b.l)
        raise PyRaise(TypeError, (f"'{o}' not supported between {a!r} and {b!r}",))

    def lex(self, o, a, b):
        if not a or not b:
            return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[o]
        eq = self.equal(a[0], b[0])
        strict = {"<": "<", "<=": "<", ">": ">", ">=": ">"}[o]
        return b_or(self.cmp(strict, a[0], b[0]), b_and(eq, self.lex(o, a[1:], b[1:])))

    def equal(self, a, b):
        num = lambda x: is_num(x) or is_boolv(x) or isinstance(x, CV)
        if a is b:
            return True
        S = npmodel_SymStr()
        if isinstance(a, S):
            return a.equal(self.ctx, b) if isinstance(b, (str, S)) else False
        if isinstance(b, S):
            return b.equal(self.ctx, a) if isinstance(a, str) else False
        if num(a) and num(b):
            return num_cmp("==", a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return opaque_op(a if isinstance(a, Opaque) else b)
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, PyList) and isinstance(b, PyList):
            x = list(a) if isinstance(a, tuple) else a.l
            y = list(b) if isinstance(b, tuple) else b.l
            if len(x) != len(y):
                return False
            return b_and(*[self.equal(p, q) for p, q in zip(x, y)])
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            if set(a.d) != set(b.d):
                return False
            return b_and(*[self.equal(a.d[k], b.d[k]) for k in a.d])
        if isinstance(a, PySet) and isinstance(b, PySet):
            return a.s == b.s
        if isinstance(a, (str, type(None), tuple)) or isinstance(b, (str, type(None), tuple)):
            return a == b if type(a) == type(b) else False
        return False

    def contains(self, x, c):
        from . import npmodel
        if isinstance(c, npmodel.Host) and hasattr(c, "items"):
            c = list(c.items())
        if isinstance(c, PyDict):
            k = self.key(x)
            if self.sym_key(k) or c.log:
                raise Unsupported("membership with symbolic keys")
            return k in c.d
        if isinstance(c, PySet):
            if self.sym_key(x) or isinstance(x, npmodel_SymStr()):
                return b_or(*[self.equal(x, y) for y in c.s])
            return x in c.s
        if isinstance(c, (PyList, tuple, list, GenVal)):
            items = list(c) if isinstance(c, (tuple, list)) else c.l
            return b_or(*[self.equal(x, y) for y in items]) if items else False
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            return opaque_op(Opaque("in"))
        if isinstance(c, npmodel_SymStr()):
            return c.contains(self.ctx, x)
        if isinstance(c, RangeVal):
            return b_and(num_cmp(">=", x, c.lo), num_cmp("<", x, c.hi))
        if isinstance(c, Opaque):
            return opaque_op(c)
        if isinstance(c, Obj):
            m, _ = c.cls.lookup("__contains__")
            if m:
                return self.call(BoundMethod(m, c), [x])
        if c is None:
            raise PyRaise(TypeError, ("argument of type 'NoneType' is not iterable",))
        raise Unsupported(f"in {c!r}")

    # ---------------------------------------------------------- attributes
    def ex_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, a, default=MISSING):
        from . import npmodel
        if isinstance(o, Obj):
            if a in o.attrs:
                return o.attrs[a]
            v, c = o.cls.lookup(a) if o.cls else (None, None)
            if v is None and o.cls is not None and a in npmodel.OBJ_ATTRS.get(o.cls.name, {}):
                v = npmodel.OBJ_ATTRS[o.cls.name][a]
            if v is not None or c is not None:
                if isinstance(v, FuncVal):
                    if getattr(v, "badd", False):
                        raise Unsupported(f"decorated method {a}")
                    if getattr(v, "static", False):
                        return v
                    if getattr(v, "prop", False):
                        return self.call(v, [o])
                    if getattr(v, "classm", False):
                        return BoundMethod(v, o.cls)
                    return BoundMethod(v, o)
                if isinstance(v, Ext):
                    return BoundMethod(v, o)
                return v
            if a == "__dict__":
                return PyDict(o.attrs)
            if a == "__class__":
                return o.cls
            ga, _ = o.cls.lookup("__getattr__") if o.cls else (None, None)
            if ga is not None:
                raise Unsupported("__getattr__")
            if default is not MISSING:
                return default
            if getattr(o, "partial", False):
                raise Unsupported(f"the contract's object has no attribute '{a}'")
            raise PyRaise(AttributeError, (f"object has no attribute '{a}'",))
        if isinstance(o, SuperVal):
            mro = o.obj.cls.mro()
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if isinstance(c, ClassVal) and a in c.ns:
                    return BoundMethod(c.ns[a], o.obj)
            if a == "__init__":
                return Ext("object.__init__", lambda ctx, args, kw: None)
            raise PyRaise(AttributeError, (a,))
        if isinstance(o, ModuleVal):
            if a in o.env.vars:
                return o.env.vars[a]
            sub = o.name + "." + a
            if self.prog.is_internal(sub):
                return self.prog.load(sub)
            raise PyRaise(AttributeError, (a,))
        if isinstance(o, ExtModule):
            if a in o.attrs:
                return o.attrs[a]
            if o.opaque:
                return mk_opaque(f"{o.name}.{a}")
            return Unmodelled(f"{o.name}.{a}")
        if isinstance(o, ClassVal):
            v, _ = o.lookup(a)
            if v is not None:
                return v
            if a == "__name__":
                return o.name
            raise PyRaise(AttributeError, (a,))
        if isinstance(o, ExcVal):
            if a == "args":
                return o.args
            return mk_opaque("exc." + a)
        r = npmodel.value_attr(self, o, a)
        if r is not MISSING:
            return r
        if isinstance(o, Opaque) and getattr(o, "pure", False):
            return mk_opaque(o.name + "." + a)
        if default is not MISSING:
            return default
        if o is None or isinstance(o, (str, int, Fraction, tuple, PyList, PyDict)):
            raise PyRaise(AttributeError, (f"no attribute '{a}'",))
        raise Unsupported(f"attribute {a} of {o!r}")

    def setattr(self, o, a, v):
        if isinstance(o, Obj):
            o.attrs[a] = v
            if o.owner is not None:
                o.writes = getattr(o, "writes", 0) + 1
            return
        if isinstance(o, (Opaque, ExtModule)):
            return
        if isinstance(o, (ClassVal, ModuleVal)):
            raise Unsupported("mutation of class or module attribute")
        if isinstance(o, ExcVal):
            return
        raise Unsupported(f"setattr on {o!r}")

    # ---------------------------------------------------------- subscripts
    def ex_Slice(self, e, env):
        return SliceVal(*[self.eval(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def ex_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.eval(e.slice, env))

    def getitem(self, o, i, checked=False):
        from . import npmodel
        ctx = self.ctx
        if isinstance(o, PyDict):
            k = self.key(i)
            if o.log or self.sym_key(k):
                if not o.log and self.sym_key(k):
                    raise Unsupported("symbolic dict key")
                raise Unsupported("read of dict with symbolic keys")
            if k not in o.d:
                if o.default is not None:
                    o.d[k] = self.call(o.default, [])
                    return o.d[k]
                raise PyRaise(KeyError, (k,))
            return o.d[k]
        if isinstance(o, Arr):
            return npmodel.arr_getitem(ctx, o, i, checked)
        if isinstance(o, (PyList, tuple, str)):
            items = o.l if isinstance(o, PyList) else o
            i = conc(i)
            if isinstance(i, SliceVal):
                lo, hi, st = conc(i.lo), conc(i.hi), conc(i.step)
                if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                    r = items[slice(lo, hi, st)]
                    return PyList(r) if isinstance(o, PyList) else r
                if st is None or st == 1:
                    lo = self.concretize(lo, len(items)) if lo is not None else None
                    hi = self.concretize(hi, len(items)) if hi is not None else None
                    r = items[slice(lo, hi)]
                    return PyList(r) if isinstance(o, PyList) else r
                raise Unsupported("symbolic list slice")
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, int):
                if not -len(items) <= i < len(items):
                    raise PyRaise(IndexError, ("index out of range",))
                return items[i]
            if is_z3(i) and z3.is_int(i):
                for k in range(-len(items), len(items)):
                    pass
                for k in range(len(items)):
                    if ctx.branch(i == k):
                        return items[k]
                for k in range(1, len(items) + 1):
                    if ctx.branch(i == -k):
                        return items[-k]
                raise PyRaise(IndexError, ("index out of range",))
            if isinstance(i, Opaque):
                raise Unsupported("index by unknown value")
            raise PyRaise(TypeError, ("indices must be integers",))
        if isinstance(o, Opaque):
            if getattr(o, "pure", False):
                return mk_opaque(o.name + "[.]")
            raise Unsupported(f"subscript of unknown {o.name}")
        if isinstance(o, LazyList):
            return self.lazy_getitem(o, i)
        if isinstance(o, SymSeq):
            return o.at(i)
        if isinstance(o, npmodel.Host) and hasattr(o, "getitem"):
            return o.getitem(self.ctx, i)
        if isinstance(o, npmodel.StructVal) and "__getitem__" in o.attrs:
            return self.call(o.attrs["__getitem__"], [i])
        if isinstance(o, Obj):
            m, _ = o.cls.lookup("__getitem__")
            if m:
                return self.call(BoundMethod(m, o), [i])
        if isinstance(o, TypeTag) or isinstance(o, type) or isinstance(o, ClassVal):
            return o
        if o is None or is_num(o):
            raise PyRaise(TypeError, ("object is not subscriptable",))
        raise Unsupported(f"subscript of {o!r}")

    def concretize(self, v, n):
        """case split an integer term over 0..n (clipped)."""
        v = conc(v)
        if isinstance(v, int):
            return v
        for k in range(n):
            if self.ctx.branch(to_z3(v) == k):
                return k
        if self.ctx.branch(to_z3(v) >= n):
            return n
        for k in range(1, n + 1):
            if self.ctx.branch(to_z3(v) == -k):
                return -k
        return -n - 1

    def setitem(self, o, i, v):
        from . import npmodel
        if isinstance(o, PyDict):
            o.writes += 1
            k = self.key(i)
            if self.sym_key(k) or o.log:
                o.log.append((k, v))
                return
            o.d[k] = v
            return
        if isinstance(o, PyList):
            o.writes += 1
            i = conc(i)
            if is_z3(i):
                i = self.concretize(i, len(o.l))
            if isinstance(i, int):
                if not -len(o.l) <= i < len(o.l):
                    raise PyRaise(IndexError, ("assignment index out of range",))
                o.l[i] = v
                return
            raise Unsupported("list slice assignment")
        if isinstance(o, Arr):
            return npmodel.arr_setitem(self.ctx, o, i, v)
        if isinstance(o, npmodel.Host) and hasattr(o, "setitem"):
            return o.setitem(self.ctx, i, v)
        if isinstance(o, Opaque) and getattr(o, "pure", False):
            return
        if isinstance(o, tuple):
            raise PyRaise(TypeError, ("tuple does not support item assignment",))
        if isinstance(o, Obj):
            m, _ = o.cls.lookup("__setitem__")
            if m:
                return self.call(BoundMethod(m, o), [i, v])
        raise Unsupported(f"item assignment on {o!r}")

    # ---------------------------------------------------------- calls/comprehensions
    def ex_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = env.func
            e2 = env
            while f is None or f.cls is None:
                e2 = e2.parent
                f = e2.func
            selfname = f.node.args.args[0].arg
            return SuperVal(env.lookup(selfname), f.cls)
        f = self.eval(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if not isinstance(v, PyDict):
                    raise Unsupported("** of unknown value")
                for kk, vv in v.d.items():
                    if kk in kw:
                        raise PyRaise(TypeError, ("multiple values for keyword",))
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    raise PyRaise(TypeError, ("multiple values for keyword",))
                kw[k.arg] = v
        try:
            return self.call(f, args, kw)
        except PyRaise as x:
            if x.where is None:
                x.where = f"line {e.lineno}"
            raise

    def comp(self, gens, env, emit, first=MISSING):
        def rec(k, env):
            if k == len(gens):
                emit(env)
                return
            g = gens[k]
            for x in self.iterate(first if k == 0 and first is not MISSING else self.eval(g.iter, env)):
                self.assign(g.target, x, env)
                if all(self.truth(self.eval(c, env)) for c in g.ifs):
                    rec(k + 1, env)
        rec(0, Env(env, env.module, env.func))

    def lazy_getitem(self, o, i):
        ctx = self.ctx
        if isinstance(i, SliceVal):
            if i.step is not None and conc(i.step) != 1:
                raise Unsupported("stepped slice of a list of unbounded length")
            from . import npmodel
            lo, n, _ = npmodel.slice_bounds(ctx, i, o.n)
            return LazyList(ctx, n, lambda k: o.at(iadd(lo, k)))
        i = conc(i)
        if isinstance(i, bool) or not (isinstance(i, int) or (is_z3(i) and z3.is_int(i))):
            raise Unsupported("index of a list of unbounded length")
        if ctx.branch(num_cmp("<", i, 0)):
            i = iadd(o.n, i)
        if ctx.branch(z3.Or(to_z3(num_cmp("<", i, 0)), to_z3(num_cmp(">=", i, o.n)))):
            raise PyRaise(IndexError, ("list index out of range",))
        return o.at(i)

    def sym_comp(self, e, env):
        """[f(x) for x in symbolic array] without conditions -> array."""
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            try:
                src = self.eval(g.iter, Env(env, env.module, env.func))
            except Exception:
                raise
            seq = self.sym_sequence(src)
            if seq is not None:
                n, at = seq
                def get(k):
                    en = Env(env, env.module, env.func)
                    self.assign(g.target, at(k), en)
                    return self.eval(e.elt, en)
                probe = get(self.ctx.quiet_int("p"))
                if is_num(probe) or is_boolv(probe):
                    return new_arr((n,), get, "bool" if is_boolv(probe) else "real")
            return src
        return None

    def ex_ListComp(self, e, env):
        return self.list_comp(e, env, PyList)

    def ex_GeneratorExp(self, e, env):
        return self.list_comp(e, env, GenVal)

    def list_comp(self, e, env, make):
        g = e.generators[0]
        src = self.eval(g.iter, Env(env, env.module, env.func))
        if len(e.generators) == 1:
            if isinstance(src, LazyList):
                return self.lazy_comp(src, g, e.elt, env)
            if isinstance(src, RangeVal) and not all(isinstance(conc(x), int) for x in (src.lo, src.hi, src.step)) \
                    and not g.ifs and isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id:
                return src                      # the list of the indices of a range
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.eval(e.elt, en)), src)
        return make(out)

    def lazy_comp(self, src, g, elt, env):
        """comprehension over a list of any length: its elements are evaluated on demand. That the
        evaluation raises for no element, and writes nothing reachable from the local variables, is
        established for an arbitrary element."""
        ctx = self.ctx

        def run(x, want):
            en = Env(env, env.module, env.func)
            self.assign(g.target, x, en)
            ok = all(self.truth(self.eval(c, en)) for c in g.ifs)
            return ok, (self.eval(elt, en) if ok and want else None)

        if ctx.choose(2):
            k = ctx.int("any")
            ctx.assume(k >= 0)
            ctx.assume(num_cmp("<", k, src.n))
            x = src.at(k)
            before = snapshot(env)
            run(x, True)
            if snapshot(env) != before:
                raise Unsupported("comprehension with side effects over a list of unbounded length")
            raise PathEnd()
        if g.ifs:
            src = self.lazy_filter(src, lambda x: run(x, False)[0])

        def get(x):
            try:
                ok, v = run(x, True)
            except PyRaise:
                raise PathEnd()                 # excluded: the evaluation raises for no element
            if not ok:
                raise PathEnd()
            return v
        r = LazyList(ctx, src.n, lambda k: get(src.at(k)))
        r.source = src
        return r

    def lazy_filter(self, src, holds):
        """the elements satisfying a condition, in order. Two conditions that agree on every
        element give the same list."""
        ctx = self.ctx
        for old, flt in src.filters:
            if ctx.choose(2):
                k = ctx.int("any")
                ctx.assume(k >= 0)
                ctx.assume(num_cmp("<", k, src.n))
                x = src.at(k)
                if old(x) == holds(x):
                    raise PathEnd()
            else:
                def agree(x):
                    if old(x) != holds(x):
                        raise PathEnd()
                src.bounded_by(agree)
                return flt
        m, total = ctx.int("selected"), to_z3(src.n)
        ctx.assume(m >= 0)
        ctx.assume(num_cmp("<=", m, src.n))
        pos = z3.Function(ctx.fresh_name("position"), z3.IntSort(), z3.IntSort())

        def get(j):
            j = to_z3(j)
            ctx.assume(z3.And(pos(j) >= 0, pos(j) < total))
            for i in seen:
                ctx.assume(z3.And(z3.Implies(i < j, pos(i) < pos(j)), z3.Implies(j < i, pos(j) < pos(i))))
            seen.append(j)
            x = src.at(pos(j))
            if not holds(x):
                raise PathEnd()
            return x
        seen = []
        flt = LazyList(ctx, m, get)

        def locate(k):
            """the place of source element k in the selection (None when not selected)."""
            if not holds(src.at(k)):
                return None
            j = ctx.int("place")
            ctx.assume(z3.And(j >= 0, j < to_z3(m), pos(j) == to_z3(k)))
            return j
        flt.locate, flt.pos = locate, pos
        src.filters.append((holds, flt))
        return flt

    def ex_SetComp(self, e, env):
        out = set()
        self.comp(e.generators, env, lambda en: out.add(self.key(self.eval(e.elt, en))))
        return PySet(out)

    def ex_DictComp(self, e, env):
        d = PyDict()
        def emit(en):
            k = self.key(self.eval(e.key, en))
            d.d[k] = self.eval(e.value, en)
        self.comp(e.generators, env, emit)
        return d

    def ex_Starred(self, e, env):
        raise Unsupported("starred")


class SymSeq:
    """a sequence of symbolic length (model list)."""

    def __init__(self, n, at):
        self.n, self.at = n, at


class LazyList(SymSeq):
    """a list of any length whose elements are evaluated on demand, once per index."""

    def __init__(self, ctx, n, get):
        self.memo, self.facts, self.source = {}, [], None
        self.filters = [(lambda x: True, self)]     # everything is selected
        self.pos, self.locate = (lambda k: k), (lambda k: (self.at(k), k)[1])

        def at(k):
            k = conc(k)
            if is_z3(k):
                k = conc(z3.simplify(k))
            key = k if isinstance(k, int) else k.sexpr()
            if key not in self.memo:
                self.memo[key] = get(k)
                for f in self.facts:
                    f(self.memo[key])
            return self.memo[key]
        super().__init__(n, at)

    def append(self, ctx, x):
        n, at, m = self.n, self.at, to_z3(self.n)
        self.n, self.filters = iadd(n, 1), [(lambda v: True, self)]
        self.at = lambda k: x if ctx.branch(to_z3(k) == m) else at(k)

    def bounded_by(self, fact):
        """a fact about every element, used for each element looked at."""
        self.facts.append(fact)
        for v in list(self.memo.values()):
            fact(v)

    def __repr__(self):
        return "<list of any length>"


def contents_of(v):
    if isinstance(v, PyList):
        return tuple(map(id, v.l))
    if isinstance(v, PySet):
        return frozenset(v.s)
    return tuple((repr(k), id(x)) for k, x in v.d.items())


def containers(env):
    """the lists, dictionaries and sets held by local variables, with their contents."""
    out, e = [], env
    while e is not None and e.func is not None:
        out += [(v, contents_of(v)) for v in e.vars.values() if isinstance(v, (PyList, PyDict, PySet))]
        e = e.parent
    return out


def snapshot(env):
    """identity and contents of the containers reachable from the local variables."""
    seen, out, todo = set(), [], []
    e = env
    while e is not None and e.func is not None:
        todo += list(e.vars.values())
        out.append(tuple((k, id(v)) for k, v in e.vars.items()))
        e = e.parent
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        if isinstance(v, PyList):
            kids = list(v.l)
        elif isinstance(v, (tuple, list)):
            kids = list(v)
        elif isinstance(v, PyDict):
            kids = list(v.d.values())
            out.append((id(v), tuple(map(repr, v.d.keys()))))
        elif isinstance(v, Obj):
            kids = list(v.attrs.values())
            out.append((id(v), tuple(v.attrs.keys())))
        elif isinstance(v, PySet):
            seen.add(id(v))
            out.append((id(v), frozenset(v.s)))
            continue
        elif isinstance(v, Arr):
            seen.add(id(v))
            out.append((id(v), getattr(v, "writes", 0)))
            continue
        elif isinstance(v, LazyList):
            kids = list(v.memo.values())
        else:
            continue
        seen.add(id(v))
        out.append((id(v), tuple(map(id, kids))))
        todo += kids
    return out


class LoopView:
    def __init__(self, vars_, extra=None):
        self._v, self._e = vars_, extra or {}

    def __getitem__(self, k):
        if k not in self._v:
            raise Unsupported(f"loop contract mentions unknown variable {k}")
        return self._v[k]

    def __getattr__(self, k):
        e = object.__getattribute__(self, "_e")
        if k in e:
            return e[k]
        raise Unsupported(f"loop view: {k}")


def mk_opaque(name, pure=True):
    o = Opaque(name)
    o.pure = pure
    return o


def opaque_op(x):
    o = Opaque("expr(" + x.name + ")" if len(x.name) < 60 else x.name)
    o.pure = getattr(x, "pure", False)
    return o


def havoc_like(ctx, nm, cur):
    if isinstance(cur, bool) or (is_z3(cur) and z3.is_bool(cur)):
        return ctx.bool(nm)
    if isinstance(cur, int) or (is_z3(cur) and z3.is_int(cur)):
        return ctx.int(nm)
    if isinstance(cur, Fraction) or (is_z3(cur) and z3.is_real(cur)):
        return ctx.real(nm)
    if isinstance(cur, Arr) and cur.ndim == 1:
        return ctx.arr(nm, cur.n, cur.kind)
    if isinstance(cur, tuple):
        return tuple(havoc_like(ctx, f"{nm}.{k}", x) for k, x in enumerate(cur))
    return Opaque("havoc:" + nm)


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
          ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
