"""pyvc: a small deductive verifier for the Python subset used by /repo.

The real source in /repo is parsed on every run and executed symbolically,
function by function: branches on symbolic conditions fork the path, loops over
symbolic ranges are cut by invariants, calls to repository functions are either
inlined or replaced by their contract, calls to numpy/scipy/... are replaced by
the trusted external contracts of npmodel.py.  Contracts (see contracts/*.py)
set up symbolic arguments satisfying a precondition, call the real function and
state postconditions; every `prove` is an obligation discharged by z3 (or cvc5)
for all inputs on that path.

Floats are mathematical reals (decimal literals are taken exactly, np.pi is the
rational number it is in binary64); ints are mathematical integers.
"""
import ast
import os
import time
import builtins as _bi
from fractions import Fraction
import z3

REPO = os.environ.get("PYVC_REPO", "/repo")


class Unsupported(Exception):
    """The code left the subset: undecided, never a violation."""


class PathEnd(Exception):
    """Path was cut (loop body checked, or assumption false)."""


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, cls, args=(), where=None):
        self.cls, self.pargs, self.where = cls, args, where
        super().__init__(f"{getattr(cls, '__name__', getattr(cls, 'name', cls))}")

    @property
    def clsname(self):
        return getattr(self.cls, "__name__", getattr(self.cls, "name", str(self.cls)))


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------- values
class Opaque:
    """A value nothing is known about (effect-free externals, messages)."""

    def __init__(self, name="?"):
        self.name = name

    def __repr__(self):
        return f"<opaque {self.name}>"


class FuncVal:
    def __init__(self, node, env, module, cls=None, name=None, qual=None):
        self.node, self.env, self.module, self.cls = node, env, module, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.qual = qual or self.name
        self.defaults = []
        self.kw_defaults = []

    def __repr__(self):
        return f"<func {self.qual}>"


class BoundMethod:
    def __init__(self, func, self_obj):
        self.func, self.self_obj = func, self_obj


class ClassVal:
    def __init__(self, name, bases, ns, module, qual):
        self.name, self.bases, self.ns, self.module, self.qual = name, bases, ns, module, qual
        self.dataclass_fields = None

    def lookup(self, attr):
        for c in self.mro():
            if isinstance(c, ClassVal) and attr in c.ns:
                return c.ns[attr], c
        return None, None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            else:
                out.append(b)
        return out

    def is_exception(self):
        return any(isinstance(c, type) and issubclass(c, BaseException) for c in self.mro())

    def __repr__(self):
        return f"<class {self.qual}>"


class Obj:
    def __init__(self, cls, attrs=None, owner=None):
        self.cls, self.attrs, self.owner = cls, dict(attrs or {}), owner

    def __repr__(self):
        return f"<obj {self.cls.name if self.cls else '?'}>"


class SuperVal:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class ModuleVal:
    def __init__(self, name, env):
        self.name, self.env = name, env


class ExtModule:
    """A modelled external module: attribute -> value."""

    def __init__(self, name, attrs=None, opaque=False):
        self.name, self.attrs, self.opaque = name, attrs or {}, opaque


class PyDict:
    """dict with concrete keys; remembers its owner and whether it was written."""

    def __init__(self, d=None, owner=None, name=None):
        self.d = dict(d or {})
        self.owner, self.name, self.writes = owner, name, 0
        self.log = []          # writes under symbolic keys, in order
        self.default = None    # defaultdict factory

    def __repr__(self):
        return f"<dict {list(self.d)}>"


class PyList:
    def __init__(self, l=None, owner=None, name=None):
        self.l = list(l or [])
        self.owner, self.name, self.writes = owner, name, 0

    def __repr__(self):
        return f"<list {self.l}>"


class PySet:
    def __init__(self, s=None):
        self.s = set(s or ())


class Buffer:
    __slots__ = ("get", "ndim", "owner", "writes", "name", "ident", "vals")

    def __init__(self, get, ndim=1, owner=None, name=None):
        self.get, self.ndim, self.owner, self.name, self.writes = get, ndim, owner, name, 0
        self.ident, self.vals = None, None


class Arr:
    """numpy array: a view (affine per dimension) of a buffer.

    dims: for each buffer dimension either ('fix', c) or ('dim', k, off, step)
    shape: lengths (int or z3 Int) of the view dimensions.
    """

    def __init__(self, shape, buf, dims=None, kind="real"):
        self.shape = tuple(shape)
        self.buf = buf
        self.dims = dims if dims is not None else [("dim", k, 0, 1) for k in range(buf.ndim)]
        self.kind = kind
        self.filter_of = None   # (Arr base snapshot, predicate)

    @property
    def n(self):
        return self.shape[0]

    @property
    def ndim(self):
        return len(self.shape)

    def snapshot(self):
        g, dims = self.buf.get, list(self.dims)

        def at(*idx):
            b = []
            for d in dims:
                if d[0] == "fix":
                    b.append(d[1])
                else:
                    _, k, off, step = d
                    b.append(iadd(off, imul(step, idx[k])))
            return g(*b)
        return at

    def at(self, *idx):
        return self.snapshot()(*idx)

    def __repr__(self):
        return f"<arr {self.shape} {self.buf.name}>"


def new_arr(shape, get, kind="real", name=None, owner=None):
    shape = tuple(shape)
    return Arr(shape, Buffer(get, len(shape), owner=owner, name=name), kind=kind)


def const_arr(vals, kind="real"):
    vals = list(vals)

    def get(i, vals=vals):
        if isinstance(i, int):
            return vals[i]
        out = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            out = ite(to_z3(i) == k, vals[k], out)
        return out
    return new_arr((len(vals),), get, kind)


# ---------------------------------------------------------------- arithmetic
def is_z3(x):
    return isinstance(x, z3.ExprRef)


def is_num(x):
    return isinstance(x, (int, Fraction, bool)) or (is_z3(x) and (z3.is_arith(x)))


def is_boolv(x):
    return isinstance(x, bool) or (is_z3(x) and z3.is_bool(x))


def to_z3(x):
    if is_z3(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}") if x.denominator != 1 else z3.RealVal(x.numerator)
    if isinstance(x, float):
        return to_z3(Fraction(repr(x)))
    if isinstance(x, CV):
        raise Unsupported("complex where real expected")
    raise Unsupported(f"not a number: {x!r}")


def b2i(x):
    if isinstance(x, bool):
        return int(x)
    if is_z3(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def conc(x):
    """z3 numeral -> python number."""
    if is_z3(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def coerce(a, b):
    a, b = to_z3(b2i(a)), to_z3(b2i(b))
    if a.sort() != b.sort():
        if z3.is_int(a):
            a = z3.ToReal(a)
        if z3.is_int(b):
            b = z3.ToReal(b)
    return a, b


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return to_z3(a) + to_z3(b)


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return to_z3(a) * to_z3(b)


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return z3.simplify(to_z3(a) - to_z3(b))


def ite(c, a, b):
    c = conc(c)
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if is_boolv(a) and is_boolv(b):
        return z3.If(c, to_z3(a), to_z3(b))
    if isinstance(a, CV) or isinstance(b, CV):
        a, b = CV.lift(a), CV.lift(b)
        return CV(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return z3.If(c, a, b)
    if (is_num(a) or is_boolv(a)) and (is_num(b) or is_boolv(b)):
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and a == b:
            return a
        x, y = coerce(a, b)
        return z3.If(c, x, y)
    raise Unsupported(f"ite of {a!r} and {b!r}")


class CV:
    """complex value re + i im with symbolic parts."""

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def lift(x):
        return x if isinstance(x, CV) else CV(x, 0)


def num_binop(op, a, b, ctx):
    """scalar arithmetic."""
    if isinstance(a, CV) or isinstance(b, CV):
        a, b = CV.lift(a), CV.lift(b)
        nb = lambda o, x, y: num_binop(o, x, y, ctx)
        if op in ("+", "-"):
            return CV(nb(op, a.re, b.re), nb(op, a.im, b.im))
        if op == "*":
            return CV(nb("-", nb("*", a.re, b.re), nb("*", a.im, b.im)),
                      nb("+", nb("*", a.re, b.im), nb("*", a.im, b.re)))
        if op == "/" and not (is_z3(b.im)) and b.im == 0:
            return CV(nb("/", a.re, b.re), nb("/", a.im, b.re))
        raise Unsupported("complex " + op)
    a, b = b2i(conc(a)), b2i(conc(b))
    ca = isinstance(a, (int, Fraction))
    cb = isinstance(b, (int, Fraction))
    if ca and cb:
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if b == 0:
                raise PyRaise(ZeroDivisionError, ("division by zero",))
            return Fraction(a) / Fraction(b)
        if op == "//":
            if b == 0:
                raise PyRaise(ZeroDivisionError, ("division by zero",))
            r = Fraction(a) / Fraction(b)
            r = r.numerator // r.denominator
            return r if isinstance(a, int) and isinstance(b, int) else Fraction(r)
        if op == "%":
            if b == 0:
                raise PyRaise(ZeroDivisionError, ("modulo by zero",))
            return a % b
        if op == "**":
            if isinstance(b, Fraction) and b.denominator == 1:
                b = b.numerator
            if isinstance(b, int):
                if b >= 0:
                    return a ** b
                return Fraction(1) / (Fraction(a) ** (-b))
            return ctx.ufun("pow", a, b)
    # light algebraic simplification keeps terms small
    if op == "+" and ca and a == 0:
        return b
    if op in ("+", "-") and cb and b == 0:
        return a
    if op == "*":
        if (ca and a == 1):
            return b
        if (cb and b == 1):
            return a
        if (ca and a == 0) or (cb and b == 0):
            return 0
    if op == "/" and cb and b == 1:
        return a if not z3.is_int(to_z3(a)) else z3.ToReal(a)
    if op == "/" and ca and a == 0:
        return 0
    if op == "**":
        if isinstance(b, Fraction) and b.denominator == 1:
            b = b.numerator
        if isinstance(b, int) and 0 <= b <= 6:
            r = 1
            for _ in range(b):
                r = num_binop("*", r, a, ctx)
            return r
        if isinstance(b, int) and -6 <= b < 0:
            return num_binop("/", 1, num_binop("**", a, -b, ctx), ctx)
        return ctx.ufun("pow", a, b)
    x, y = coerce(a, b)
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "/":
        if z3.is_int(x):
            x = z3.ToReal(x)
        if z3.is_int(y):
            y = z3.ToReal(y)
        ctx.note_div(y)
        return x / y
    if op == "//":
        if z3.is_int(x):
            ctx.note_div(y)
            return _floordiv_int(x, y)
        return z3.ToReal(z3.ToInt(x / y))
    if op == "%":
        if z3.is_int(x):
            return x - y * _floordiv_int(x, y)
        # python/numpy floor modulo on reals
        yc = conc(y)
        if isinstance(yc, (int, Fraction)) and yc > 0 and not ctx.binding:
            return real_mod(ctx, x, y, Fraction(1) / Fraction(yc))
        q = z3.ToInt(x / y)
        return x - y * z3.ToReal(q)
    raise Unsupported("op " + op)


def real_mod(ctx, x, y, inv):
    """x modulo the positive constant y (floor modulo), inv = 1/y."""
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        c, b, d = x.children()
        return z3.If(c, real_mod(ctx, b, y, inv), real_mod(ctx, d, y, inv))
    s = z3.simplify(to_z3(inv) * x, som=True)
    if z3.is_app_of(s, z3.Z3_OP_ITE) or (z3.is_app_of(s, z3.Z3_OP_MUL) and any(z3.is_app_of(c, z3.Z3_OP_ITE) for c in s.children())):
        pass
    mons = s.children() if z3.is_app_of(s, z3.Z3_OP_ADD) else [s]
    rest = []
    for m in mons:                 # whole multiples of y do not matter
        if z3.is_rational_value(m) and m.as_fraction().denominator == 1:
            continue
        if z3.is_app_of(m, z3.Z3_OP_TO_REAL):
            continue
        if z3.is_app_of(m, z3.Z3_OP_MUL):
            ch = m.children()
            if len(ch) == 2 and z3.is_rational_value(ch[0]) and ch[0].as_fraction().denominator == 1 \
                    and z3.is_app_of(ch[1], z3.Z3_OP_TO_REAL):
                continue
        rest.append(m)
    if not rest:
        return z3.RealVal(0)
    r = z3.simplify(z3.Sum(*rest)) if len(rest) > 1 else rest[0]
    k = ("frac", r.get_id())
    if k not in ctx.cache:
        if ctx.entailed(z3.And(r >= 0, r < 1)):
            ctx.cache[k] = (r, r)
            return y * r
        w, d = z3.Real(ctx.fresh_name("frac_part")), z3.Int(ctx.fresh_name("whole"))
        ctx.cache[k] = (w, r)
        ctx.assume(z3.And(w >= 0, w < 1))
        ctx.assume(w == r - z3.ToReal(d))
    return y * ctx.cache[k][0]


def _scale_ite(x, c):
    """c*x with the constant pushed through if-then-else and normalised."""
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        a, b, d = x.children()
        return z3.If(a, _scale_ite(b, c), _scale_ite(d, c))
    return z3.simplify(to_z3(c) * x, som=True)


def _floordiv_int(x, y):
    yc = conc(y)
    if isinstance(yc, int) and yc > 0:
        return x / y            # z3 div = floor for positive divisor
    return z3.If(y > 0, x / y, (-x) / (-y))


def num_cmp(op, a, b):
    a, b = conc(a), conc(b)
    if isinstance(a, CV) or isinstance(b, CV):
        a, b = CV.lift(a), CV.lift(b)
        eq = b_and(num_cmp("==", a.re, b.re), num_cmp("==", a.im, b.im))
        if op == "==":
            return eq
        if op == "!=":
            return b_not(eq)
        raise Unsupported("complex order")
    if isinstance(a, (int, Fraction, bool)) and isinstance(b, (int, Fraction, bool)):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if is_boolv(a) and is_boolv(b) and op in ("==", "!="):
        r = to_z3(a) == to_z3(b)
        return r if op == "==" else z3.Not(r)
    x, y = coerce(a, b)
    return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
            "==": lambda: x == y, "!=": lambda: x != y}[op]()


def b_and(*xs):
    xs = [conc(x) for x in xs]
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else z3.And(*[to_z3(x) for x in xs])


def b_or(*xs):
    xs = [conc(x) for x in xs]
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else z3.Or(*[to_z3(x) for x in xs])


def b_not(x):
    x = conc(x)
    return (not x) if isinstance(x, bool) else z3.Not(to_z3(x))


def b_implies(a, b):
    return b_or(b_not(a), b)


# ---------------------------------------------------------------- obligations
class Obligation:
    def __init__(self, name, status, backend, secs, detail=None, path=None):
        self.name, self.status, self.backend, self.secs, self.detail, self.path = \
            name, status, backend, secs, detail, path

    def as_dict(self):
        return dict(name=self.name, status=self.status, backend=self.backend,
                    secs=round(self.secs, 3), detail=self.detail, path=self.path)


STATS = {"feasibility_queries": 0, "solver_secs": 0.0}


class Ctx:
    """One path of one contract."""

    FEAS_TIMEOUT = 600
    PROVE_TIMEOUT = 6000
    MAX_STEPS = 60000
    TOUCH_CAP = int(__import__("os").environ.get("TC", "60"))

    def __init__(self, prog, decisions, opts):
        self.prog = prog
        self.decisions = decisions     # list of [choice, n_alternatives(, 'forced', value)]
        self.pos = 0
        self.facts = []                # quantifier-free facts
        self.quants = []               # quantified facts
        self.solver = z3.Solver()
        self.coarse = bool(opts.get("coarse"))
        if opts.get("cap"):
            self.TOUCH_CAP = opts["cap"]
        self.abstract = bool(opts.get("abstract"))
        self.active_rules = set()
        self.instantiated = {}
        self.solver.set("timeout", 40 if self.coarse else self.FEAS_TIMEOUT)
        self.counter = 0
        self.obls = []
        self.opts = opts
        self.steps = 0
        self.events = []               # warnings / prints
        self.summaries = dict(opts.get("summaries", {}))
        self.used_summaries = set()
        self.loops = dict(opts.get("loops", {}))
        self.cut_loops = set()
        self.unroll = opts.get("unroll", 64)
        self.split_bound = opts.get("split_bound", 12)
        self.numpy_scalars = True
        self.lengths = opts.get("lengths")     # concrete mode
        self.ufuns = {}
        self.model_syms = {}
        self.model_arrs = {}
        self.watched = {}
        self.seen_terms = {}
        self.cache = {}
        self.interps = []
        self.binding = 0
        self.bound_reads = None
        self.plain_rules = []
        self.rules = {}
        self.touched = {}
        self.touch_depth = 0
        self.filters = []
        self.trusted_math = set()
        self.extremes = []
        self.interp = None
        self.name = opts.get("name", "")

    # -- names
    def fresh_name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def length(self, name, lo=0):
        """length of a sequence: symbolic, or a small number in refutation mode."""
        if self.lengths is not None:
            v = self.lengths.get(name, self.lengths.get("*", 4))
            if v < lo:
                v = lo
            self.model_syms[name] = z3.IntVal(v)
            return v
        return self.int(name, lo=lo)

    def quiet_int(self, name):
        return z3.Int(self.fresh_name(name))

    def int(self, name, lo=None, hi=None):
        v = z3.Int(self.fresh_name(name))
        if lo is not None:
            self.assume(num_cmp(">=", v, lo))
        if hi is not None:
            self.assume(num_cmp("<=", v, hi))
        self.model_syms[name] = v
        return v

    def real(self, name):
        v = z3.Real(self.fresh_name(name))
        self.model_syms[name] = v
        return v

    def bool(self, name):
        v = z3.Bool(self.fresh_name(name))
        self.model_syms[name] = v
        return v

    def arr(self, name, n, kind="real", owner=None):
        """a fresh array of length n."""
        sort = {"real": z3.RealSort(), "int": z3.IntSort(), "bool": z3.BoolSort()}.get(kind)
        nm = self.fresh_name(name)
        if kind == "cplx":
            fr = z3.Function(nm + ".re", z3.IntSort(), z3.RealSort())
            fi = z3.Function(nm + ".im", z3.IntSort(), z3.RealSort())

            def getc(i):
                i = to_z3(i)
                self.touch(nm, i)
                return CV(fr(i), fi(i))
            a = new_arr((n,), getc, "cplx", name, owner)
            a.buf.ident = nm
            return a
        f = z3.Function(nm, z3.IntSort(), sort)

        def get(i):
            i = to_z3(i)
            self.touch(nm, i)
            return f(i)
        a = new_arr((n,), get, kind, name, owner)
        a.fn = f
        a.buf.ident = nm
        self.model_arrs[name] = (f, n)
        return a

    def func(self, name, sort="real"):
        """fresh function Int -> sort with touch triggers."""
        nm = self.fresh_name(name)
        f = z3.Function(nm, z3.IntSort(), z3.RealSort() if sort == "real" else z3.IntSort())

        def get(i):
            i = to_z3(i)
            self.touch(nm, i)
            return f(i)
        return get

    def strictly_increasing(self, a):
        """fact: a[i] < a[j] for all i<j in range."""
        self.forall2(a.n, lambda i, j: num_cmp("<", a.at(i), a.at(j)))

    # -- facts
    def assume(self, f):
        f = conc(f)
        if isinstance(f, Opaque):
            raise Unsupported("assumption about an unknown value")
        if f is True:
            return
        if f is False:
            raise PathEnd()
        if _has_quantifier(f):
            self.quants.append(f)
            return
        self.facts.append(f)
        self.solver.add(self._s(f))

    def touch(self, dom, i):
        """array `dom` is read at index i: instantiate the quantified facts about it."""
        if self.binding:
            if self.bound_reads is not None:
                for b in self.bound_vars:
                    if z3.eq(i, b):
                        self.bound_reads.add((dom, b.get_id()))
            return
        rules = self.rules.get(dom)
        if not rules:
            d = self.touched.setdefault(dom, {})
            if len(d) < self.TOUCH_CAP:
                s = z3.simplify(i)
                d.setdefault(s.get_id(), s)
            return
        s = z3.simplify(i)
        sid = s.get_id()
        d = self.touched.setdefault(dom, {})
        if sid not in d:
            if len(d) >= self.TOUCH_CAP or (len(d) >= MERGE_FROM and self.known_equal(s, d.values())):
                return
            d[sid] = s
        if self.touch_depth >= TOUCH_DEPTH:
            return
        self.touch_depth += 1
        try:
            for r in list(rules):
                # an instance made while the same rule is being instantiated would only cascade
                if id(r) in self.active_rules or (id(r), sid) in self.instantiated:
                    continue
                self.instantiated[(id(r), sid)] = (r, s)
                self.active_rules.add(id(r))
                try:
                    self._instantiate(r, s, [o for k, o in d.items() if k != sid])
                finally:
                    self.active_rules.discard(id(r))
        finally:
            self.touch_depth -= 1

    def known_equal(self, s, terms):
        """is index s provably one of these (then their instances serve for it as well)?"""
        if self.solver.check() != z3.sat:
            return False
        m = self.solver.model()
        v = m.eval(s, model_completion=True)
        for t in terms:
            if z3.eq(m.eval(t, model_completion=True), v) and self.check(s != t) == z3.unsat:
                return True
        return False

    def _instantiate(self, rule, s, old):
        kind, lo, n, pred = rule
        if kind == 1:
            self.assume(z3.Implies(z3.And(to_z3(lo) <= s, s < to_z3(n)), to_z3(pred(s))))
        else:
            for o in old:
                for a, b in ((s, o), (o, s)):
                    self.assume(z3.Implies(z3.And(to_z3(lo) <= a, a < b, b < to_z3(n)), to_z3(pred(a, b))))

    def _bind(self, vars_, build):
        save = (self.binding, self.bound_reads, getattr(self, "bound_vars", ()))
        self.binding, self.bound_reads, self.bound_vars = self.binding + 1, set(), tuple(vars_)
        try:
            body = build()
            reads = self.bound_reads
        finally:
            self.binding, self.bound_reads, self.bound_vars = save
        return body, reads

    def _add_rule(self, kind, lo, n, pred, doms):
        for d in doms:
            rule = (kind, lo, n, pred)
            self.rules.setdefault(d, []).append(rule)
            prev = list(self.touched.get(d, {}).values())
            self.touch_depth += 1
            try:
                self.active_rules.add(id(rule))
                for k, s in enumerate(prev):
                    self.instantiated[(id(rule), s.get_id())] = (rule, s)
                    self._instantiate(rule, s, prev[:k])
                self.active_rules.discard(id(rule))
            finally:
                self.touch_depth -= 1

    def forall(self, n, pred, lo=0):
        """assume pred(i) for all lo <= i < n."""
        if isinstance(n, int) and isinstance(lo, int) and n - lo <= 12:
            for i in range(lo, n):
                self.assume(pred(i))
            return
        i = z3.Int(self.fresh_name("?i"))
        body, reads = self._bind([i], lambda: pred(i))
        if conc(body) is True:
            return
        self.quants.append(z3.ForAll([i], z3.Implies(z3.And(to_z3(lo) <= i, i < to_z3(n)), to_z3(body))))
        self.plain_rules.append((1, lo, n, pred))
        self._add_rule(1, lo, n, pred, sorted({d for d, _ in reads}))

    def instantiate(self, *terms):
        """the instances of all quantified facts at these indices (a hint to the prover)."""
        for r in list(self.plain_rules):
            for x in terms:
                self._instantiate(r, z3.simplify(to_z3(x)), [])

    def forall2(self, n, pred, lo=0):
        """assume pred(i, j) for all lo <= i < j < n."""
        if isinstance(n, int) and isinstance(lo, int) and n - lo <= 10:
            for i in range(lo, n):
                for j in range(i + 1, n):
                    self.assume(pred(i, j))
            return
        i, j = z3.Int(self.fresh_name("?i")), z3.Int(self.fresh_name("?j"))
        body, reads = self._bind([i, j], lambda: pred(i, j))
        self.quants.append(z3.ForAll([i, j], z3.Implies(z3.And(to_z3(lo) <= i, i < j, j < to_z3(n)), to_z3(body))))
        self._add_rule(2, lo, n, pred, sorted({d for d, _ in reads}))

    def note_div(self, y):
        pass

    # -- branching
    def choose(self, k, tag=None):
        """nondeterministic choice among k alternatives (forks the path)."""
        if k == 1:
            return 0
        if self.binding:
            raise Unsupported("case split under a binder")
        if self.pos < len(self.decisions):
            c = self.decisions[self.pos][0]
        else:
            self.decisions.append([0, k])
            c = 0
        self.pos += 1
        return c

    def _s(self, f):
        """what the path-feasibility solver sees of a fact."""
        return uf_abstract(f) if self.abstract else f

    def check(self, *extra):
        STATS["feasibility_queries"] += 1
        t0 = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(self._s(to_z3(e)))
        r = self.solver.check()
        self.solver.pop()
        STATS["solver_secs"] += time.time() - t0
        return r

    def entailed(self, c, timeout=None):
        c = conc(c)
        if isinstance(c, bool):
            return c
        if isinstance(c, Opaque):
            return False
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c)) == z3.unsat

    def entailed_forall(self, n, pred, lo=0, arity=1):
        """is pred provable for a fresh index (qf reasoning with instantiation)?"""
        ks = [z3.Int(self.fresh_name("e")) for _ in range(arity)]
        self.solver.push()
        mark = len(self.facts)
        try:
            rng = [to_z3(lo) <= ks[0], ks[-1] < to_z3(n)] + [a < b for a, b in zip(ks, ks[1:])]
            for r in rng:
                self.solver.add(self._s(r))
            g = conc(pred(*ks))
            if g is True:
                return True
            if g is False:
                return self.solver.check() == z3.unsat
            return self.entailed(g)
        finally:
            self.solver.pop()
            self.forget(ks, mark)
            for f in self.facts[mark:]:
                self.solver.add(self._s(f))

    def forget(self, ks, mark):
        """drop the facts (from position mark) and touched indices about local index variables that are out of scope."""
        ids = {k.get_id() for k in ks}
        self.facts[mark:] = [f for f in self.facts[mark:] if not mentions(f, ids)]
        for d in self.touched.values():
            for q in [q for q, t in d.items() if mentions(t, ids)]:
                del d[q]

    def branch(self, c):
        """truth of c on this path (forks if both are feasible)."""
        c = conc(c)
        if isinstance(c, bool):
            return c
        if isinstance(c, Opaque):
            return self.choose(2) == 0
        c = z3.simplify(to_z3(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.binding:
            raise Unsupported("branch under a binder")
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            if len(d) > 2:
                return d[3]
            v = d[0] == 0
            self.assume(c if v else z3.Not(c))
            return v
        t = self.check(c)
        if t == z3.unsat:
            self.decisions.append([0, 1, "forced", False])
            self.pos += 1
            return False
        f = self.check(z3.Not(c))
        if f == z3.unsat:
            self.decisions.append([0, 1, "forced", True])
            self.pos += 1
            return True
        self.decisions.append([0, 2])
        self.pos += 1
        self.assume(c)
        return True

    def floor_var(self, x):
        """an integer standing for floor(x) (its bounds are assumed by the caller)."""
        x = z3.simplify(x)
        k = ("floor", x.get_id())
        if k not in self.cache:
            self.cache[k] = (z3.Int(self.fresh_name("floor")), x)
        return self.cache[k][0]

    def lemma(self, name, goal, **kw):
        """prove, then use."""
        self.prove(name, goal, **kw)
        self.assume(goal)

    # -- uninterpreted functions with axioms
    def ufun(self, name, *args):
        zs = []
        for a in args:
            a = to_z3(b2i(a))
            if z3.is_int(a):
                a = z3.ToReal(a)
            zs.append(a)
        key = (name, len(zs))
        if key not in self.ufuns:
            self.ufuns[key] = z3.Function("fn_" + name, *([z3.RealSort()] * (len(zs) + 1)))
        return self.ufuns[key](*zs)

    # -- obligations
    def prove(self, name, goal, timeout=None, detail=None, extra=(), using=None):
        """using: intermediate facts; each is proved first, then the goal is
        proved from them alone."""
        goal = conc(goal)
        if using is not None and not isinstance(goal, (bool, Opaque)):
            for k, u in enumerate(using):
                self.prove(f"{name} [step {k + 1}]", u, timeout)
            t0 = time.time()
            st, be, det = discharge([to_z3(conc(u)) for u in using], [], to_z3(goal), timeout or self.opts.get('timeout') or self.PROVE_TIMEOUT)
            if st == "proved":
                self.obls.append(Obligation(name, "proved", be, time.time() - t0, None, self.path_id()))
                return
        if isinstance(goal, Opaque):
            self.obls.append(Obligation(name, "unknown", "-", 0, "goal mentions an unmodelled value"))
            return
        t0 = time.time()
        if goal is True:
            self.obls.append(Obligation(name, "proved", "eval", 0.0, path=self.path_id()))
            return
        g = to_z3(goal)
        status, backend, det = discharge(self.facts + list(extra), self.quants, g, timeout or self.opts.get('timeout') or self.PROVE_TIMEOUT)
        dt = time.time() - t0
        STATS["solver_secs"] += dt
        if status == "refuted":
            det = self.describe_model(det)
        self.obls.append(Obligation(name, status, backend, dt, detail or det, self.path_id()))

    def prove_all(self, name, n, pred, lo=0, **kw):
        """prove pred(i) for all lo <= i < n."""
        if isinstance(n, int) and isinstance(lo, int) and n - lo <= 10:
            if n <= lo:
                self.obls.append(Obligation(name, "proved", "eval", 0.0, path=self.path_id()))
            for i in range(lo, n):
                self.prove(f"{name}[{i}]", pred(i), **kw)
            return
        i = z3.Int(self.fresh_name("k"))
        rng = z3.And(to_z3(lo) <= i, i < to_z3(n))
        self.scoped(rng, lambda: self.prove(name, pred(i), **kw), [i])

    def scoped(self, hyp, body, local=()):
        """run body under a local hypothesis (about the local variables)."""
        mark = len(self.facts)
        self.solver.push()
        self.facts.append(hyp)
        self.solver.add(self._s(hyp))
        try:
            body()
        finally:
            self.solver.pop()
            del self.facts[mark]
            if local:
                self.forget(local, mark)
            for f in self.facts[mark:]:
                self.solver.add(self._s(f))

    def axiom(self, text, formula):
        """instance of a mathematical theorem that is trusted."""
        self.trusted_math.add(text)
        self.assume(formula)

    def assuming_all(self, n, pred, lo=0):
        """context manager: a local hypothesis pred(i) for all lo<=i<n."""
        ctx = self

        class _A:
            def __enter__(s):
                s.marks = (len(ctx.facts), len(ctx.quants), {k: list(v) for k, v in ctx.rules.items()})
                ctx.solver.push()
                ctx.forall(n, pred, lo)

            def __exit__(s, *a):
                f, q, r = s.marks
                ctx.solver.pop()
                del ctx.facts[f:]
                del ctx.quants[q:]
                ctx.rules = r
                return False
        return _A()

    def unreachable(self, name):
        """obligation: this point is not reachable."""
        self.prove(name, z3.BoolVal(False))

    def fail(self, name, detail, status="refuted"):
        """an obligation that fails outright on this (feasible) path."""
        st, be, det = discharge(self.facts, self.quants, z3.BoolVal(False), 3000)
        if st == "proved":
            self.obls.append(Obligation(name, "proved", be + " (path infeasible)", 0, path=self.path_id()))
        elif st == "refuted":
            self.obls.append(Obligation(name, status, be, 0, f"{detail}; " + (self.describe_model(det) or ""), self.path_id()))
        else:
            self.obls.append(Obligation(name, "unknown", be, 0, detail, self.path_id()))

    def path_id(self):
        return "".join(str(d[0]) for d in self.decisions[: self.pos] if not (len(d) > 2))

    def describe_model(self, m):
        try:
            if m is None:
                return None
            out = {}
            for k, v in self.model_syms.items():
                out[k] = str(m.eval(v, model_completion=True)) if is_z3(v) else str(v)
            for k, (f, n) in self.model_arrs.items():
                nn = conc(m.eval(to_z3(n), model_completion=True))
                if isinstance(nn, int) and 0 <= nn <= 12:
                    out[k] = "[" + ", ".join(str(m.eval(f(z3.IntVal(q)), model_completion=True)) for q in range(nn)) + "]"
            return "counterexample: " + ", ".join(f"{k}={v}" for k, v in list(out.items())[:30])
        except Exception as e:  # pragma: no cover
            return f"model unavailable ({e})"

    # -- convenience for contracts
    def call(self, qual, *args, **kw):
        f = self.prog.resolve(qual) if isinstance(qual, str) else qual
        return self.interp.call(f, list(args), dict(kw))

    def outcome(self, qual, *args, **kw):
        """('return', value) or ('raise', PyRaise)"""
        try:
            return "return", self.call(qual, *args, **kw)
        except PyRaise as e:
            return "raise", e

    def no_raise(self, name, qual, *args, **kw):
        """call; raising on a feasible path is a failed obligation."""
        try:
            v = self.call(qual, *args, **kw)
        except PyRaise as e:
            self.fail(name + ": returns normally", f"raises {e.clsname} at {e.where}: {fmt(e.pargs)}")
            raise PathEnd()
        self.obls.append(Obligation(name + ": returns normally", "proved", "path", 0.0, path=self.path_id()))
        return v

    def obj(self, clsqual, **attrs):
        c = self.prog.resolve(clsqual)
        o = Obj(c, attrs)
        o.partial = True
        return o

    def dict(self, d=None, owner=None, name=None):
        return PyDict(d, owner, name)

    def list(self, l=None, owner=None, name=None):
        return PyList(l, owner, name)

    def frame(self, name, *values):
        """obligation: none of the caller-owned containers reachable from the values was written."""
        seen = set()
        bad = []

        def walk(v, path):
            if id(v) in seen:
                return
            seen.add(id(v))
            if isinstance(v, Arr):
                if v.buf.writes:
                    bad.append(path)
            elif isinstance(v, PyDict):
                if v.writes:
                    bad.append(path + " (keys)")
                for k, x in v.d.items():
                    walk(x, f"{path}[{k!r}]")
            elif isinstance(v, PyList):
                if v.writes:
                    bad.append(path)
                for k, x in enumerate(v.l):
                    walk(x, f"{path}[{k}]")
        for v in values:
            walk(v, getattr(v, "name", None) or getattr(getattr(v, "buf", None), "name", None) or "arg")
        # values reachable at entry may have been removed: use registered snapshot
        for (v, p) in self.watched.values():
            walk(v, p)
        if bad:
            self.fail(name, "written: " + ", ".join(bad))
        else:
            self.obls.append(Obligation(name, "proved", "frame", 0.0, path=self.path_id()))

    def watch(self, v, path="arg"):
        """register everything reachable from v now (entry state) for frame()."""
        if id(v) in self.watched:
            return
        self.watched[id(v)] = (v, path)
        if isinstance(v, PyDict):
            for k, x in v.d.items():
                if isinstance(x, (PyDict, PyList, Arr)):
                    self.watch(x, f"{path}[{k!r}]")
        elif isinstance(v, PyList):
            for k, x in enumerate(v.l):
                if isinstance(x, (PyDict, PyList, Arr)):
                    self.watch(x, f"{path}[{k}]")


def fmt(v):
    try:
        return str(v)[:160]
    except Exception:
        return "?"


import os as _os
MERGE_FROM = int(_os.environ.get("MF", "6"))
TOUCH_DEPTH = int(_os.environ.get("TD", "2"))
_QCACHE = {}


_LIN = {}


def mentions(f, ids):
    """does a variable with one of these ids occur in f?"""
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        todo.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return False


_LIN, _ABS = {}, {}


def clear_caches():
    _LIN.clear()
    _ABS.clear()


def _is_linear(f):
    i = f.get_id()
    if i not in _LIN:
        _LIN[i] = (f, _is_linear_(f))      # keeping f alive keeps its id unique
    return _LIN[i][1]


def _is_linear_(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        k = x.decl().kind() if z3.is_app(x) else None
        ch = x.children()
        if k == z3.Z3_OP_MUL:
            if sum(not _const_term(c) for c in ch) > 1:
                return False
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            if not _const_term(ch[1]):
                return False
        elif k == z3.Z3_OP_POWER:
            return False
        todo.extend(ch)
    return True


def _const_term(x):
    if z3.is_int_value(x) or z3.is_rational_value(x):
        return True
    k = x.decl().kind() if z3.is_app(x) else None
    return k in (z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL) and _const_term(x.children()[0])


def _has_quantifier(f):
    k = f.get_id()
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            if not x.is_lambda():
                return True
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def norm_atoms(f, depth=0):
    """divide the arithmetic comparisons in f by the coefficient of their first
    monomial (z3's integer reasoning degrades with large common factors)."""
    if depth > 6 or not z3.is_app(f):
        return f
    k = f.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        ch = [norm_atoms(c, depth + 1) for c in f.children()]
        return z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch)
    if k == z3.Z3_OP_NOT:
        return z3.Not(norm_atoms(f.children()[0], depth + 1))
    if k == z3.Z3_OP_IMPLIES:
        a, b = f.children()
        return z3.Implies(norm_atoms(a, depth + 1), norm_atoms(b, depth + 1))
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        a, b = f.children()
        if not z3.is_real(a):
            return f
        d = z3.simplify(a - b, som=True)
        mons = d.children() if z3.is_app_of(d, z3.Z3_OP_ADD) else [d]
        c = None
        for m in mons:
            if z3.is_rational_value(m):
                continue
            if z3.is_app_of(m, z3.Z3_OP_MUL) and z3.is_rational_value(m.children()[0]):
                c = m.children()[0].as_fraction()
            break
        if c is None or c == 0:
            return f
        d = z3.simplify(d / to_z3(abs(c)), som=True)
        zero = z3.RealVal(0)
        return {z3.Z3_OP_EQ: d == zero, z3.Z3_OP_LE: d <= zero, z3.Z3_OP_GE: d >= zero,
                z3.Z3_OP_LT: d < zero, z3.Z3_OP_GT: d > zero}[k]
    return f


_RMUL = z3.Function("nl_mul", z3.RealSort(), z3.RealSort(), z3.RealSort())
_RDIV = z3.Function("nl_div", z3.RealSort(), z3.RealSort(), z3.RealSort())


def uf_abstract(f):
    """f with nonlinear products and quotients of reals replaced by uninterpreted
    functions: weaker facts and goals, so whatever is proved of them holds."""
    i0 = f.get_id()
    if i0 in _ABS:
        return _ABS[i0][1]
    if _is_linear(f):
        _ABS[i0] = (f, f)
        return f
    r = _uf_abstract(f)
    _ABS[i0] = (f, r)
    return r


def _uf_abstract(f):
    f = z3.simplify(f)
    memo = {}

    def go(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_quantifier(x) or not z3.is_app(x):
            r = x
        else:
            ch = [go(c) for c in x.children()]
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and z3.is_real(x):
                cs = [c for c in ch if _const_term(c)]
                vs = sorted((c for c in ch if not _const_term(c)), key=str)
                if len(vs) > 1:
                    r = vs[0]
                    for v in vs[1:]:
                        r = _RMUL(r, v)
                    for c in cs:
                        r = c * r
                else:
                    r = x.decl()(*ch)
            elif k == z3.Z3_OP_DIV and not _const_term(ch[1]):
                r = _RDIV(ch[0], ch[1])
            elif not ch:
                r = x
            elif k == z3.Z3_OP_AND:
                r = z3.And(*ch)
            elif k == z3.Z3_OP_OR:
                r = z3.Or(*ch)
            elif k == z3.Z3_OP_ADD:
                r = z3.Sum(*ch)
            elif k == z3.Z3_OP_MUL:
                r = z3.Product(*ch)
            elif k == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*ch)
            else:
                r = x.decl()(*ch)
        memo[i] = (x, r)
        return r
    try:
        return go(f)
    except z3.Z3Exception:
        return f


LAZY_MIN = int(os.environ.get("LZ", "150"))
LAZY_ADD = int(os.environ.get("LA", "150"))


def lazy_unsat(facts, negated, timeout):
    """True if some subset of the facts refutes the negated goal: facts are added
    only when the current model violates them."""
    import time
    end = time.time() + timeout / 1000.0
    s = z3.Solver()
    s.set("random_seed", 1)
    s.add(negated)
    rest = list(facts)
    for rnd in range(80):
        left = end - time.time()
        if left <= 0.05:
            return False
        s.set("timeout", max(50, int(left * 1000)))
        r = s.check()
        if r == z3.unsat:
            return True
        if r != z3.sat:
            return False
        m = s.model()
        bad, keep = [], []
        for f in rest:
            v = m.eval(f, model_completion=True)
            (keep if z3.is_true(v) else bad).append(f)
        if not bad:
            return False
        if len(bad) > LAZY_ADD and rnd < 60:
            keep += bad[LAZY_ADD:]
            bad = bad[:LAZY_ADD]
        rest = keep
        s.add(*bad)
    return False


def discharge(facts, quants, goal, timeout):
    """returns (status, backend, model_or_reason)."""
    goal0 = goal
    goal = norm_atoms(goal)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved", "z3 (simplify)", None
    try:
        gs = z3.simplify(goal, som=True, mul_to_power=False)
        if z3.is_true(gs):
            return "proved", "z3 (polynomial normal form)", None
    except z3.Z3Exception:
        pass
    from . import ratfun
    if ratfun.equal(facts, goal) or ratfun.equal(facts, goal0):
        return "proved", "field normal form + z3", None
    gq = _has_quantifier(goal)
    if len(facts) > LAZY_MIN and not gq:
        try:
            if lazy_unsat([uf_abstract(f) for f in facts], uf_abstract(z3.Not(goal0)), min(4 * timeout, 20000)):
                return "proved", "z3", None
        except z3.Z3Exception:
            pass
    # 0. linear facts only
    lin = [f for f in facts if _is_linear(f)]
    if len(lin) < len(facts):
        if _is_linear(goal):
            s0 = z3.Solver()
            s0.set("timeout", min(timeout, 4000))
            s0.add(*lin)
            s0.add(z3.Not(goal))
            if s0.check() == z3.unsat:
                return "proved", "z3", None
        # nonlinear terms as uninterpreted
        try:
            s0 = z3.Solver()
            s0.set("timeout", min(timeout, 3000))
            s0.add(*[uf_abstract(f) for f in facts])
            s0.add(uf_abstract(z3.Not(goal0)))
            if s0.check() == z3.unsat:
                return "proved", "z3", None
        except z3.Z3Exception:
            pass
    # 1. quantifier-free facts (they include the relevant instances)
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", 1)
    s.add(*facts)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return "proved", "z3", None
    if r == z3.sat and not quants:
        return "refuted", "z3", s.model()
    reason = s.reason_unknown() if r == z3.unknown else "quantified facts"
    if r == z3.unknown and not gq:
        t = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat")
        try:
            s2 = t.solver()
            s2.set("timeout", timeout)
            s2.add(*facts)
            s2.add(z3.Not(goal))
            r2 = s2.check()
            if r2 == z3.unsat:
                return "proved", "z3 (nlsat)", None
            if r2 == z3.sat and not quants:
                return "refuted", "z3 (nlsat)", s2.model()
        except z3.Z3Exception:
            pass
    if quants:
        s3 = z3.Solver()
        s3.set("timeout", timeout)
        s3.set("random_seed", 1)
        s3.add(*facts)
        s3.add(*quants)
        s3.add(z3.Not(goal))
        r3 = s3.check()
        if r3 == z3.unsat:
            return "proved", "z3 (quantifiers)", None
        if r3 == z3.sat:
            return "refuted", "z3 (quantifiers)", s3.model()
        reason = s3.reason_unknown()
    r4 = cvc5_check(list(facts) + list(quants), goal, timeout)
    if r4 == "unsat":
        return "proved", "cvc5", None
    return "unknown", "z3+cvc5", f"{reason}"


def cvc5_check(facts, goal, timeout):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*facts)
        s.add(z3.Not(goal))
        smt = s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm)
            if "unsat" in str(out):
                res = "unsat"
            elif "sat" in str(out).split():
                res = "sat"
        return res
    except Exception:
        return None
