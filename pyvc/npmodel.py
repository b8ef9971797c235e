"""Trusted contracts of numpy / scipy / builtins used by the verified functions.

Every entry is an assumption about a dependency (listed in the evidence when it
is used).  Anything not listed here is Unmodelled: calling it makes the path
undecided, never a pass or a violation.
"""
import math
from fractions import Fraction
import z3
from .core import *
from .core import fmt
from .interp import (Ext, TypeTag, Unmodelled, RangeVal, SliceVal, GenVal, ExcVal, SymSeq, LazyList, MISSING,
                     mk_opaque, opaque_op)

PI = Fraction(math.pi)      # the binary64 number, exactly
MAT = 40                    # arrays of at most this concrete length are materialised

BUILTINS = {}
OBJ_ATTRS = {}


def to_int_sort(x):
    return x


# ------------------------------------------------------------------ arrays
def mk(ctx, shape, get, kind="real", name=None):
    shape = tuple(clen(s) for s in shape)
    if all(isinstance(s, int) for s in shape):
        tot = 1
        for s in shape:
            tot *= s
        if tot <= 400 and all(s <= MAT for s in shape):
            import itertools
            vals = {ix: get(*ix) for ix in itertools.product(*[range(s) for s in shape])}
            return from_vals(shape, vals, kind, name)
    return new_arr(shape, get, kind, name)


def from_vals(shape, vals, kind="real", name=None):
    def get(*ix, vals=vals):
        ix = tuple(conc(i) for i in ix)
        if all(isinstance(i, int) for i in ix):
            if ix in vals:
                return vals[ix]
            raise Unsupported("model array read out of range")
        out = None
        for k, v in vals.items():
            c = b_and(*[True if isinstance(a, int) and a == b else (False if isinstance(a, int) else to_z3(a) == b) for a, b in zip(ix, k)])
            out = v if out is None else ite(c, v, out)
        if out is None:
            return Fraction(0)
        return out
    a = new_arr(shape, get, kind, name)
    a.buf.vals = vals
    return a


def clen(n):
    if is_z3(n):
        n = conc(z3.simplify(n))
    return n


def as_arr(ctx, v, kind=None):
    """np.asarray on lists/tuples/scalars/arrays."""
    if isinstance(v, Arr):
        return v
    if isinstance(v, (PyList, tuple, GenVal, list)):
        items = list(v.l) if isinstance(v, (PyList, GenVal)) else list(v)
        if not items:
            return from_vals((0,), {}, "real")
        if all(is_num(x) or is_boolv(x) or isinstance(x, CV) for x in items):
            return from_vals((len(items),), {(i,): x for i, x in enumerate(items)}, kind_of(items))
        if all(isinstance(x, (PyList, tuple, Arr)) for x in items):
            rows = [as_arr(ctx, x) for x in items]
            if any(r.ndim != 1 for r in rows):
                raise Unsupported("nested array of dim > 2")
            n = rows[0].n
            for r in rows[1:]:
                if not same_len(ctx, n, r.n):
                    raise PyRaise(ValueError, ("inhomogeneous shape",))
            snaps = [r.snapshot() for r in rows]

            def get(i, j):
                i = conc(i)
                if isinstance(i, int):
                    return snaps[i](j)
                out = snaps[-1](j)
                for k in range(len(snaps) - 2, -1, -1):
                    out = ite(to_z3(i) == k, snaps[k](j), out)
                return out
            return mk(ctx, (len(rows), n), get)
        if all(isinstance(x, str) for x in items):
            raise Unsupported("string array")
        raise Unsupported("array of objects")
    if is_num(v) or is_boolv(v) or isinstance(v, CV):
        a = new_arr((), lambda: v, kind_of([v]))
        return a
    if isinstance(v, RangeVal):
        n = clen(ite(num_cmp("<=", v.hi, v.lo), 0, isub(v.hi, v.lo))) if v.step == 1 else None
        if n is None:
            raise Unsupported("range step")
        return mk(ctx, (n,), lambda k: iadd(v.lo, k), "int")
    if isinstance(v, SymSeq):
        return new_arr((v.n,), v.at)
    if isinstance(v, Opaque):
        raise Unsupported(f"array from unknown value {v.name}")
    if v is None:
        raise Unsupported("array from None")
    raise Unsupported(f"array from {v!r}")


def kind_of(items):
    if any(isinstance(x, CV) for x in items):
        return "cplx"
    if all(is_boolv(x) for x in items):
        return "bool"
    if all((isinstance(x, int) and not isinstance(x, bool)) or (is_z3(x) and z3.is_int(x)) for x in items):
        return "int"
    return "real"


def same_len(ctx, a, b):
    a, b = clen(a), clen(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if is_z3(a) and is_z3(b) and z3.eq(a, b):
        return True
    return ctx.branch(num_cmp("==", a, b))


def bshape(ctx, s1, s2):
    """broadcast shape; raises ValueError on mismatch (case split when undecided)."""
    n = max(len(s1), len(s2))
    p1 = (1,) * (n - len(s1)) + tuple(s1)
    p2 = (1,) * (n - len(s2)) + tuple(s2)
    out = []
    m1, m2 = [], []
    for a, b in zip(p1, p2):
        a, b = clen(a), clen(b)
        if isinstance(a, int) and a == 1 and not (isinstance(b, int) and b == 1):
            out.append(b); m1.append(0); m2.append(1)
        elif isinstance(b, int) and b == 1 and not (isinstance(a, int) and a == 1):
            out.append(a); m1.append(1); m2.append(0)
        elif same_len(ctx, a, b):
            out.append(a if isinstance(a, int) or not isinstance(b, int) else b); m1.append(1); m2.append(1)
        else:
            if not isinstance(a, int) and ctx.branch(num_cmp("==", a, 1)):
                out.append(b); m1.append(0); m2.append(1)
            elif not isinstance(b, int) and ctx.branch(num_cmp("==", b, 1)):
                out.append(a); m1.append(1); m2.append(0)
            else:
                raise PyRaise(ValueError, ("operands could not be broadcast together",))
    return tuple(out), m1, m2


def elementwise2(ctx, f, a, b, kind="real"):
    A, B = as_arr(ctx, a), as_arr(ctx, b)
    shape, m1, m2 = bshape(ctx, A.shape, B.shape)
    ga, gb = A.snapshot(), B.snapshot()
    na, nb = A.ndim, B.ndim

    def get(*ix):
        i1 = [k if m else 0 for k, m in zip(ix, m1)][len(ix) - na:]
        i2 = [k if m else 0 for k, m in zip(ix, m2)][len(ix) - nb:]
        return f(ga(*i1), gb(*i2))
    if not shape:
        return get()
    return mk(ctx, shape, get, kind)


def unary(ctx, f, a, kind=None):
    if not isinstance(a, Arr):
        if isinstance(a, (PyList, tuple, GenVal)):
            a = as_arr(ctx, a)
        elif isinstance(a, Opaque):
            return opaque_op(a)
        else:
            if a is None or isinstance(a, str):
                raise PyRaise(TypeError, ("bad operand",))
            return f(a)
    g = a.snapshot()
    if a.ndim == 0:
        return f(g())
    return mk(ctx, a.shape, lambda *ix: f(g(*ix)), kind or a.kind)


def arr_binop(ctx, op, a, b):
    if op in ("&", "|", "^"):
        fn = {"&": b_and, "|": b_or, "^": lambda x, y: b_or(b_and(x, b_not(y)), b_and(y, b_not(x)))}[op]
        return elementwise2(ctx, fn, a, b, "bool")
    if isinstance(a, (PyDict, Obj)) or isinstance(b, (PyDict, Obj)) or a is None or b is None:
        raise PyRaise(TypeError, ("unsupported operand",))
    k = "cplx" if "cplx" in (getattr(a, "kind", None), getattr(b, "kind", None)) or isinstance(a, CV) or isinstance(b, CV) else "real"
    ka = a.kind if isinstance(a, Arr) else kind_of([a]) if (is_num(a) or is_boolv(a)) else "real"
    kb = b.kind if isinstance(b, Arr) else kind_of([b]) if (is_num(b) or is_boolv(b)) else "real"
    if op != "/" and ka == "int" and kb == "int" and k != "cplx":
        k = "int"
    if op == "/":
        def f(x, y):
            cy = conc(y)
            if not is_z3(cy) and not isinstance(cy, CV) and cy == 0:
                # numpy gives nan/inf without raising
                ctx.div_zero = True
                return z3.Real(ctx.fresh_name("nan"))
            return num_binop(op, x, y, ctx)
    else:
        f = lambda x, y: num_binop(op, x, y, ctx)
    return elementwise2(ctx, f, a, b, k)


def arr_cmp(ctx, op, a, b):
    return elementwise2(ctx, lambda x, y: num_cmp(op, x, y), a, b, "bool")


def inplace(ctx, op, cur, v):
    if op in ("&", "|", "^"):
        r = arr_binop(ctx, op, cur, v)
    else:
        if cur.kind == "int" and op == "/":
            raise PyRaise(TypeError, ("Cannot cast ufunc 'divide' output from float to int",))
        r = arr_binop(ctx, op, cur, v)
        if cur.kind == "int" and r.kind in ("real",):
            raise PyRaise(TypeError, ("Cannot cast ufunc output from float to int",))
    if isinstance(r, Arr) and len(r.shape) != len(cur.shape):
        raise PyRaise(ValueError, ("non-broadcastable output operand",))
    if isinstance(r, Arr):
        for x, y in zip(r.shape, cur.shape):
            if not same_len(ctx, x, y):
                raise PyRaise(ValueError, ("non-broadcastable output operand",))
    store(ctx, cur, r)


def store(ctx, dst, src):
    """dst[...] = src over the whole view dst."""
    if dst.ndim == 0 or not isinstance(src, Arr) or src.ndim == 0:
        val = src.at() if isinstance(src, Arr) else src
        gsrc = lambda *ix: val
    else:
        shape, m1, m2 = bshape(ctx, dst.shape, src.shape)
        s = src.snapshot()
        ns = src.ndim
        gsrc = lambda *ix: s(*[k if m else 0 for k, m in zip(ix, m2)][len(ix) - ns:])
    cast = (lambda x: x)
    if dst.kind == "int":
        def cast(x):
            x = conc(x)
            if isinstance(x, Fraction):
                return int(x)
            if is_z3(x) and z3.is_real(x):
                return trunc(x)
            return b2i(x)
    elif dst.kind == "bool":
        def cast(x):
            if is_boolv(conc(x)):
                return x
            return num_cmp("!=", x, 0)
    buf = dst.buf
    buf.writes += 1
    old = buf.get
    dims = list(dst.dims)
    shape = dst.shape
    if buf.vals is not None and all(isinstance(s, int) for s in shape) and \
            all(isinstance(conc(d[1]), int) if d[0] == "fix" else (isinstance(conc(d[2]), int) and isinstance(d[3], int)) for d in dims):
        import itertools
        vals = dict(buf.vals)
        for ix in itertools.product(*[range(s) for s in shape]):
            b = tuple(conc(d[1]) if d[0] == "fix" else conc(d[2]) + d[3] * ix[d[1]] for d in dims)
            vals[b] = cast(gsrc(*ix))
        nb = from_vals(tuple(0 for _ in dims), vals).buf
        buf.get, buf.vals = nb.get, vals
        return
    buf.vals = None

    def get(*b):
        conds, ix = [], [0] * len(shape)
        for d, bi in zip(dims, b):
            if d[0] == "fix":
                conds.append(num_cmp("==", bi, d[1]))
            else:
                _, k, off, st = d
                if st == 1:
                    q = isub(bi, off)
                elif st == -1:
                    q = isub(off, bi)
                else:
                    if isinstance(st, int) and st > 1:
                        df = isub(bi, off)
                        q = num_binop("//", df, st, ctx)
                        conds.append(num_cmp("==", num_binop("%", df, st, ctx), 0))
                    else:
                        raise Unsupported("store through symbolic stride")
                conds.append(num_cmp(">=", q, 0))
                conds.append(num_cmp("<", q, shape[k]))
                ix[k] = q
        c = b_and(*conds)
        if c is False:
            return old(*b)
        v = cast(gsrc(*ix))
        if c is True:
            return v
        return ite(z3.simplify(c), v, old(*b))
    buf.get = get


def trunc(x):
    if not is_z3(x):
        return int(x)
    if z3.is_int(x):
        return x
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


# ------------------------------------------------------------------ indexing
def norm_index(ctx, i, n, checked=False):
    i = conc(i)
    if isinstance(i, bool):
        raise Unsupported("bool index")
    if isinstance(i, Fraction):
        raise PyRaise(IndexError, ("only integers are valid indices",))
    if is_z3(i) and z3.is_real(i):
        raise PyRaise(IndexError, ("only integers are valid indices",))
    if checked or ctx.binding:
        if isinstance(i, int) and i < 0:
            return iadd(n, i)
        return i
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise PyRaise(IndexError, ("index out of bounds",))
        return i + n if i < 0 else i
    if isinstance(i, int):
        if i >= 0:
            if not ctx.branch(num_cmp("<", i, n)):
                raise PyRaise(IndexError, ("index out of bounds",))
            return i
        if not ctx.branch(num_cmp("<=", -i, n)):
            raise PyRaise(IndexError, ("index out of bounds",))
        return z3.simplify(to_z3(n) + i)
    if not ctx.branch(b_and(num_cmp("<=", num_binop("-", 0, n, ctx), i), num_cmp("<", i, n))):
        raise PyRaise(IndexError, ("index out of bounds",))
    if ctx.branch(num_cmp(">=", i, 0)):
        return i
    return z3.simplify(to_z3(i) + to_z3(n))


def slice_bounds(ctx, s, n):
    """(start, length, step) of a[s] for a dimension of length n."""
    step = conc(s.step) if s.step is not None else 1
    lo, hi = conc(s.lo), conc(s.hi)
    for v in (lo, hi, step):
        if isinstance(v, Fraction) or (is_z3(v) and not z3.is_int(v)):
            raise PyRaise(TypeError, ("slice indices must be integers",))
    if all(x is None or isinstance(x, int) for x in (lo, hi, step)) and isinstance(n, int):
        if step == 0:
            raise PyRaise(ValueError, ("slice step cannot be zero",))
        r = range(*slice(lo, hi, step).indices(n))
        return (r.start, len(r), step)
    if isinstance(step, int) and step < 0:
        if lo is None and hi is None and step == -1:
            return (isub(n, 1), n, -1)
        raise Unsupported("negative slice step with bounds")
    if is_z3(step):
        if not ctx.branch(step > 0):
            raise Unsupported("symbolic slice step <= 0")
    if step == 0:
        raise PyRaise(ValueError, ("slice step cannot be zero",))

    def clip(v, default):
        if v is None:
            return default
        if isinstance(v, int) and v < 0 or (is_z3(v) and not ctx.branch(num_cmp(">=", v, 0))):
            v = clen(iadd(n, v))
            if not ctx.branch(num_cmp(">=", v, 0)):
                return 0
            return v
        if isinstance(v, int) and v == 0:
            return 0
        if ctx.branch(num_cmp("<=", v, n)):
            return v
        return n
    a = clip(lo, 0)
    b = clip(hi, n)
    if ctx.branch(num_cmp("<=", a, b)):
        ln = clen(isub(b, a))
    else:
        ln = 0
    if not (isinstance(step, int) and step == 1):
        ln = clen(num_binop("//", iadd(ln, isub(step, 1)), step, ctx))
    return (a, ln, step)


def arr_getitem(ctx, a, i, checked=False):
    i = conc(i)
    if isinstance(i, Opaque):
        raise Unsupported("index by unknown value")
    if isinstance(i, Arr) and i.ndim == 0:
        i = i.at()
    idx = list(i) if isinstance(i, tuple) else [i]
    if a.ndim == 0:
        if idx == [()] or idx == [Ellipsis]:
            return a.at()
        raise PyRaise(IndexError, ("too many indices for array",))
    if any(x is Ellipsis for x in idx):
        k = [j for j, x in enumerate(idx) if x is Ellipsis][0]
        fill = a.ndim - sum(1 for x in idx if x is not None and x is not Ellipsis)
        idx = idx[:k] + [SliceVal(None, None, None)] * fill + idx[k + 1:]
    # newaxis
    if any(x is None for x in idx):
        return newaxis(ctx, a, idx)
    if len(idx) > a.ndim:
        raise PyRaise(IndexError, ("too many indices for array",))
    if any(isinstance(x, (Arr, PyList)) for x in idx):
        if a.ndim != 1 or len(idx) != 1:
            if a.ndim == 2 and len(idx) == 1 and False:
                pass
            raise Unsupported("fancy indexing of 2-d array")
        return fancy(ctx, a, idx[0] if isinstance(idx[0], Arr) else as_arr(ctx, idx[0]))
    # basic indexing
    sel = []
    for x, n in zip(idx + [SliceVal(None, None, None)] * (a.ndim - len(idx)), a.shape):
        if isinstance(x, SliceVal):
            sel.append(("s",) + slice_bounds(ctx, x, n))
        elif isinstance(x, str):
            raise PyRaise(IndexError, ("only integers, slices ... are valid indices",))
        else:
            sel.append(("i", norm_index(ctx, x, n, checked)))
    newdim = {}
    shape = []
    for k, s in enumerate(sel):
        if s[0] == "s":
            newdim[k] = len(shape)
            shape.append(s[2])
    dims = []
    for d in a.dims:
        if d[0] == "fix":
            dims.append(d)
            continue
        _, k, off, st = d
        s = sel[k]
        if s[0] == "i":
            dims.append(("fix", conc(iadd(off, imul(st, s[1])))))
        else:
            st2 = st * s[3] if isinstance(st, int) and isinstance(s[3], int) else imul(st, s[3])
            dims.append(("dim", newdim[k], conc(iadd(off, imul(st, s[1]))), st2))
    if not shape:
        return a.buf.get(*[d[1] for d in dims])
    r = Arr(shape, a.buf, dims, a.kind)
    return r


def newaxis(ctx, a, idx):
    g = a.snapshot()
    if a.ndim == 1 and len(idx) == 2 and idx[1] is None and isinstance(idx[0], SliceVal) and idx[0].lo is None and idx[0].hi is None:
        return mk(ctx, (a.n, 1), lambda i, j: g(i), a.kind)
    if a.ndim == 1 and len(idx) in (1, 2) and idx[0] is None:
        return mk(ctx, (1, a.n), lambda i, j: g(j), a.kind)
    raise Unsupported("newaxis")


def fancy(ctx, a, ix):
    if ix.kind == "bool":
        return mask_select(ctx, a, ix)
    if ix.ndim != 1:
        raise Unsupported("2-d fancy index")
    n, m = a.n, ix.n
    gi = ix.snapshot()
    ga = a.snapshot()
    if isinstance(m, int) and m == 0:
        return from_vals((0,), {}, a.kind)
    if ix.kind != "int":
        raise PyRaise(IndexError, ("arrays used as indices must be of integer (or boolean) type",))
    neg = False
    if isinstance(m, int) and m <= MAT:
        idxs = [norm_index(ctx, gi(k), n) for k in range(m)]
        return mk(ctx, (m,), lambda k: ga(idxs[k]) if isinstance(k, int) else ga(gi(k)), a.kind)
    ok = ctx.entailed_forall(m, lambda k: b_and(num_cmp("<=", 0, gi(k)), num_cmp("<", gi(k), n)))
    if not ok:
        ok2 = ctx.entailed_forall(m, lambda k: b_and(num_cmp("<=", num_binop("-", 0, n, ctx), gi(k)), num_cmp("<", gi(k), n)))
        if not ok2:
            if ctx.choose(2) == 1:
                k = ctx.int("bad")
                ctx.assume(b_and(num_cmp("<=", 0, k), num_cmp("<", k, m)))
                ctx.assume(b_or(num_cmp("<", gi(k), num_binop("-", 0, n, ctx)), num_cmp(">=", gi(k), n)))
                raise PyRaise(IndexError, ("index out of bounds",))
            ctx.forall(m, lambda k: b_and(num_cmp("<=", num_binop("-", 0, n, ctx), gi(k)), num_cmp("<", gi(k), n)))
        neg = True
    if neg:
        def at(k):
            j = gi(k)
            return ga(ite(num_cmp("<", j, 0), num_binop("+", j, n, ctx), j))
    else:
        def at(k):
            return ga(gi(k))
    r = mk(ctx, (m,), at, a.kind)
    r.filter_of = getattr(ix, "where_of", None)
    return r


def mask_info(ctx, n, pred):
    """selection of the indices 0<=i<n with pred(i): ('slice', s, e) | ('map', W, V, m)."""
    if ctx.coarse:
        m = ctx.int("n_sel")
        ctx.assume(b_and(num_cmp("<=", 0, m), num_cmp("<=", m, n)))
        W, V = ctx.func("W", "int"), ctx.func("V", "int")
        ctx.forall(m, lambda k: b_and(num_cmp("<=", 0, W(k)), num_cmp("<", W(k), n)))
        return ("map", W, V, m)
    for (n2, p2, info) in ctx.filters:
        if (n2 is n or (isinstance(n2, int) and isinstance(n, int) and n == n2)
                or (is_z3(n2) and is_z3(n) and z3.eq(n2, n))):
            if ctx.entailed_forall(n, lambda k: num_cmp("==", to_z3(pred(k)), to_z3(p2(k)))):
                return info
    # convex?
    def convex(i, j, k):
        return b_implies(b_and(pred(i), pred(k)), pred(j))
    info = None
    if ctx.entailed_forall(n, convex, arity=3):
        s, e = ctx.int("sel_lo"), ctx.int("sel_hi")
        ctx.assume(b_and(num_cmp("<=", 0, s), num_cmp("<=", s, e), num_cmp("<=", e, n)))
        pre = ctx.entailed_forall(n, lambda i, j: b_implies(pred(j), pred(i)), arity=2)
        suf = ctx.entailed_forall(n, lambda i, j: b_implies(pred(i), pred(j)), arity=2)
        if pre and suf:
            pass
        if pre:
            ctx.assume(s == 0)
            s = 0
        elif suf:
            ctx.assume(num_cmp("==", e, n))
            e = n
        else:
            ctx.assume(b_or(num_cmp("<", s, e), num_cmp("==", s, 0)))
        ctx.forall(n, lambda i: num_cmp("==", to_z3(pred(i)), to_z3(b_and(num_cmp("<=", s, i), num_cmp("<", i, e)))))
        # boundary instances
        for t in (s, iadd(s, -1) if not isinstance(s, int) else None, e if e is not n else None, isub(e, 1)):
            if t is None or (isinstance(t, int) and t < 0):
                continue
            t = to_z3(t)
            ctx.assume(z3.Implies(z3.And(0 <= t, t < to_z3(n)),
                                  to_z3(num_cmp("==", to_z3(pred(t)), to_z3(b_and(num_cmp("<=", s, t), num_cmp("<", t, e)))))))
        info = ("slice", s, e)
    else:
        m = ctx.int("n_sel")
        ctx.assume(b_and(num_cmp("<=", 0, m), num_cmp("<=", m, n)))
        W, V = ctx.func("W", "int"), ctx.func("V", "int")
        ctx.forall(m, lambda k: b_and(num_cmp("<=", 0, W(k)), num_cmp("<", W(k), n), pred(W(k)), num_cmp("==", V(W(k)), k)))
        ctx.forall2(m, lambda j, k: num_cmp("<", W(j), W(k)))
        ctx.forall(n, lambda i: b_implies(pred(i), b_and(num_cmp("<=", 0, V(i)), num_cmp("<", V(i), m), num_cmp("==", W(V(i)), i))))
        info = ("map", W, V, m)
    ctx.filters.append((n, pred, info))
    return info


def mask_indices(ctx, mask):
    """concrete case: list of selected indices; else info."""
    g = mask.snapshot()
    n = clen(mask.n)
    if isinstance(n, int):
        sel = []
        for k in range(n):
            if ctx.branch(g(k)):
                sel.append(k)
        return ("list", sel)
    return mask_info(ctx, n, g)


def sel_tag(n, g):
    return (n, g)


def mask_select(ctx, a, mask):
    if not same_len(ctx, a.n, mask.n):
        raise PyRaise(IndexError, ("boolean index did not match indexed array",))
    g = mask.snapshot()
    info = mask_indices(ctx, mask)
    ga = a.snapshot()
    if info[0] == "list":
        vals = [ga(k) for k in info[1]]
        r = from_vals((len(vals),), {(k,): v for k, v in enumerate(vals)}, a.kind)
        r.filter_of = (a.n, g)
        return r
    if info[0] == "slice":
        _, s, e = info
        n = clen(isub(e, s))
        r = new_arr((n,), lambda k: ga(iadd(s, k)), a.kind)
        r.sel = ("slice", s, e)
    else:
        _, W, V, m = info
        r = new_arr((m,), lambda k: ga(W(k)), a.kind)
        r.sel = info
    r.filter_of = (a.n, g)
    return r


def where1(ctx, mask):
    g = mask.snapshot()
    if mask.ndim != 1:
        raise Unsupported("where on 2-d")
    if mask.kind != "bool":
        g0 = g
        g = lambda k: g0(k) if is_boolv(conc(g0(k))) else num_cmp("!=", g0(k), 0)
        mask = new_arr(mask.shape, g, "bool")
    info = mask_indices(ctx, mask)
    if info[0] == "list":
        r = from_vals((len(info[1]),), {(k,): v for k, v in enumerate(info[1])}, "int")
    elif info[0] == "slice":
        _, s, e = info
        r = new_arr((clen(isub(e, s)),), lambda k: iadd(s, k), "int")
    else:
        _, W, V, m = info
        r = new_arr((m,), lambda k: W(k), "int")
    r.where_of = (mask.n, g)
    r.sel = info
    return r


def arr_setitem(ctx, a, i, v):
    if isinstance(v, (PyList, tuple)):
        v = as_arr(ctx, v)
    if v is None:
        raise Unsupported("store None into array")
    i = conc(i)
    idx = list(i) if isinstance(i, tuple) else [i]
    if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].kind == "bool":
        mask = idx[0]
        if not same_len(ctx, a.n, mask.n):
            raise PyRaise(IndexError, ("boolean index mismatch",))
        gm = mask.snapshot()
        ga = a.snapshot()
        if isinstance(v, Arr) and v.ndim == 1:
            info = mask_indices(ctx, mask)
            gv = v.snapshot()
            m = {"list": lambda: len(info[1]), "slice": lambda: isub(info[2], info[1]), "map": lambda: info[3]}[info[0]]()
            if not same_len(ctx, clen(m), v.n):
                raise PyRaise(ValueError, ("cannot assign values to masked positions",))
            if info[0] == "list":
                pos = {k: q for q, k in enumerate(info[1])}
                src = mk(ctx, a.shape, lambda k: (gv(pos[k]) if k in pos else ga(k)) if isinstance(k, int) else Unsup())
            elif info[0] == "slice":
                src = new_arr(a.shape, lambda k: ite(gm(k), gv(isub(k, info[1])), ga(k)), a.kind)
            else:
                src = new_arr(a.shape, lambda k: ite(gm(k), gv(info[2](k)), ga(k)), a.kind)
        else:
            val = v.at() if isinstance(v, Arr) else v
            src = mk(ctx, a.shape, lambda k: ite(gm(k), val, ga(k)), a.kind)
        store(ctx, a, src)
        return
    if any(isinstance(x, (Arr, PyList)) for x in idx):
        if a.ndim == 1 and len(idx) == 1:
            ix = idx[0] if isinstance(idx[0], Arr) else as_arr(ctx, idx[0])
            if isinstance(ix.n, int) and not (isinstance(v, Arr) and v.ndim and not isinstance(v.n, int)):
                for k in range(ix.n):
                    arr_setitem(ctx, a, ix.at(k), v.at(k) if isinstance(v, Arr) and v.ndim else v)
                return
            gix = ix.snapshot()
            sel = getattr(ix, "sel", None)
            if sel is not None and not (isinstance(v, Arr) and v.ndim):
                tag = ix.where_of
                ga = a.snapshot()
                store(ctx, a, new_arr(a.shape, lambda k: ite(tag[1](k), v, ga(k)), a.kind))
                return
        raise Unsupported("fancy store")
    if a.ndim == 0:
        store(ctx, a, v)
        return
    view = arr_view(ctx, a, i)
    if isinstance(v, Arr) and v.ndim > view.ndim:
        raise PyRaise(ValueError, ("could not broadcast input array",))
    if isinstance(v, Arr) and v.ndim:
        shape, m1, m2 = bshape(ctx, view.shape, v.shape)
        for x, y in zip(shape, view.shape):
            if not same_len(ctx, x, y):
                raise PyRaise(ValueError, ("could not broadcast input array",))
    if not isinstance(v, Arr) and not (is_num(v) or is_boolv(v) or isinstance(v, CV)):
        raise Unsupported(f"store {v!r} into array")
    store(ctx, a if view is a else view, v)


def Unsup():
    raise Unsupported("symbolic index into concrete selection")


def arr_view(ctx, a, i):
    """like basic getitem but returning a (possibly 0-d) view."""
    idx = list(i) if isinstance(i, tuple) else [i]
    if len(idx) > a.ndim:
        raise PyRaise(IndexError, ("too many indices for array",))
    sel = []
    for x, n in zip(idx + [SliceVal(None, None, None)] * (a.ndim - len(idx)), a.shape):
        if isinstance(x, SliceVal):
            sel.append(("s",) + slice_bounds(ctx, x, n))
        elif is_num(x):
            sel.append(("i", norm_index(ctx, x, n)))
        else:
            raise Unsupported("index kind")
    newdim, shape = {}, []
    for k, s in enumerate(sel):
        if s[0] == "s":
            newdim[k] = len(shape)
            shape.append(s[2])
    dims = []
    for d in a.dims:
        if d[0] == "fix":
            dims.append(d)
            continue
        _, k, off, st = d
        s = sel[k]
        if s[0] == "i":
            dims.append(("fix", conc(iadd(off, imul(st, s[1])))))
        else:
            dims.append(("dim", newdim[k], conc(iadd(off, imul(st, s[1]))), conc(imul(st, s[3]))))
    return Arr(shape, a.buf, dims, a.kind)


def sum_list(ctx, items):
    out = 0
    for x in items:
        out = num_binop("+", out, x, ctx)
    return out


def lam(ctx, a, n=None):
    """z3 array of a 1-d array, for uninterpreted functionals; equal contents on
    the syntactic level give equal terms."""
    k = z3.Int("lam_k")
    save = ctx.binding, ctx.bound_reads
    ctx.binding += 1
    ctx.bound_reads = None
    try:
        body = a.at(k)
    finally:
        ctx.binding, ctx.bound_reads = save
    body = to_z3(b2i(body))
    if z3.is_int(body):
        body = z3.ToReal(body)
    return z3.Lambda([k], z3.simplify(body))


AR = z3.ArraySort(z3.IntSort(), z3.RealSort())


def functional(ctx, name, *arrs):
    """uninterpreted functional of whole arrays (contents and lengths)."""
    args = []
    for a in arrs:
        if isinstance(a, Arr):
            args.append(lam(ctx, a))
            args.append(to_z3(a.n))
        else:
            x = to_z3(b2i(a))
            args.append(z3.ToReal(x) if z3.is_int(x) else x)
    f = z3.Function("fl_" + name, *([x.sort() for x in args] + [z3.RealSort()]))
    return f(*args)


def functional_arr(ctx, name, *arrs):
    args = []
    for a in arrs:
        if isinstance(a, Arr):
            args.append(lam(ctx, a))
            args.append(to_z3(a.n))
        else:
            x = to_z3(b2i(a))
            args.append(z3.ToReal(x) if z3.is_int(x) else x)
    f = z3.Function("fa_" + name, *([x.sort() for x in args] + [z3.IntSort(), z3.RealSort()]))
    return lambda i: f(*args, to_z3(i))


def arr_sum(ctx, a):
    if a.ndim == 0:
        return a.at()
    if a.ndim != 1:
        if all(isinstance(s, int) for s in a.shape):
            import itertools
            return sum_list(ctx, [a.at(*ix) for ix in itertools.product(*[range(s) for s in a.shape])])
        raise Unsupported("sum of 2-d array")
    if isinstance(a.n, int):
        return sum_list(ctx, [b2i(a.at(k)) for k in range(a.n)])
    if a.kind == "bool":
        return count_true(ctx, a)
    return functional(ctx, "sum", a)


def count_true(ctx, a):
    info = mask_indices(ctx, a)
    if info[0] == "list":
        return len(info[1])
    return clen(isub(info[2], info[1])) if info[0] == "slice" else info[3]


def matmul(ctx, a, b):
    A, B = as_arr(ctx, a), as_arr(ctx, b)
    if A.ndim == 0 or B.ndim == 0:
        raise PyRaise(ValueError, ("matmul: scalar operand",))
    inner_a, inner_b = A.shape[-1], B.shape[0]
    if not same_len(ctx, inner_a, inner_b):
        raise PyRaise(ValueError, ("matmul: dimension mismatch",))
    n = inner_a if isinstance(inner_a, int) else clen(inner_b)
    ga, gb = A.snapshot(), B.snapshot()
    if isinstance(n, int):
        dotp = lambda fa, fb: sum_list(ctx, [num_binop("*", fa(k), fb(k), ctx) for k in range(n)])
    else:
        def dotp(fa, fb):
            if getattr(ctx, "abstract_dots", False):     # any value (weaker than the sum)
                return ctx.real("dot")
            return functional(ctx, "sum", new_arr((n,), lambda k: num_binop("*", fa(k), fb(k), ctx)))
    small = not isinstance(n, int)
    if A.ndim == 1 and B.ndim == 1:
        return dotp(ga, gb)
    if small and A.ndim == 2 and B.ndim == 1 and isinstance(A.shape[0], int) and A.shape[0] <= 16:
        vals = [dotp(lambda k, i=i: ga(i, k), gb) for i in range(A.shape[0])]
        return from_vals((A.shape[0],), {(i,): v for i, v in enumerate(vals)})
    if A.ndim == 2 and B.ndim == 1:
        return mk(ctx, (A.shape[0],), lambda i: dotp(lambda k: ga(i, k), gb))
    if A.ndim == 1 and B.ndim == 2:
        return mk(ctx, (B.shape[1],), lambda j: dotp(ga, lambda k: gb(k, j)))
    return mk(ctx, (A.shape[0], B.shape[1]), lambda i, j: dotp(lambda k: ga(i, k), lambda k: gb(k, j)))


# ------------------------------------------------------------------ registry
def ext(name):
    def deco(fn):
        MODELS[name] = Ext(name, fn)
        return fn
    return deco


MODELS = {}
CONSTS = {}


def argn(args, kw, k, name, default=MISSING):
    if len(args) > k:
        return args[k]
    if name in kw:
        return kw[name]
    if default is MISSING:
        raise PyRaise(TypeError, (f"missing argument {name}",))
    return default


def nokw(kw, *allowed):
    for k in kw:
        if k not in allowed:
            raise Unsupported(f"keyword {k}")


def scalar_or_arr(v):
    return v


@ext("numpy.array")
def _(ctx, args, kw):
    nokw(kw, "dtype", "copy")
    a = as_arr(ctx, args[0])
    g = a.snapshot()
    r = mk(ctx, a.shape, g, a.kind) if a.ndim else new_arr((), g, a.kind)
    dt = kw.get("dtype")
    if dt is not None:
        return astype(ctx, r, dt)
    return r


@ext("numpy.asarray")
def _(ctx, args, kw):
    if isinstance(args[0], Arr) and kw.get("dtype") is None and len(args) == 1:
        return args[0]
    r = as_arr(ctx, args[0])
    dt = argn(args, kw, 1, "dtype", None)
    return astype(ctx, r, dt) if dt is not None else r


@ext("numpy.copy")
def _(ctx, args, kw):
    return copy_arr(ctx, as_arr(ctx, args[0]))


def copy_arr(ctx, a):
    g = a.snapshot()
    r = mk(ctx, a.shape, g, a.kind) if a.ndim else new_arr((), g, a.kind)
    r.filter_of = a.filter_of
    for t in ("where_of", "sel"):
        if hasattr(a, t):
            setattr(r, t, getattr(a, t))
    return r


@ext("numpy.atleast_1d")
def _(ctx, args, kw):
    a = as_arr(ctx, args[0])
    if a.ndim == 0:
        v = a.at()
        return from_vals((1,), {(0,): v}, a.kind)
    return a


@ext("numpy.ndim")
def _(ctx, args, kw):
    v = args[0]
    if is_num(v) or is_boolv(v) or isinstance(v, CV):
        return 0
    return as_arr(ctx, v).ndim


def dtype_kind(dt):
    if isinstance(dt, TypeTag):
        return {"int": "int", "float": "real", "bool": "bool", "complex": "cplx", "numpy.float64": "real",
                "numpy.int64": "int"}.get(dt.name)
    if isinstance(dt, DType):
        return dt.kind
    if isinstance(dt, str):
        return {"int": "int", "float": "real", "bool": "bool", "complex": "cplx", "float64": "real", "int64": "int"}.get(dt)
    return None


class DType:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        return isinstance(o, DType) and o.kind == self.kind

    def __hash__(self):
        return hash(self.kind)


def astype(ctx, a, dt):
    k = dtype_kind(dt)
    if k is None:
        raise Unsupported("dtype")
    if k == a.kind:
        return copy_arr(ctx, a)
    if k == "int":
        if a.kind == "bool":
            return unary(ctx, b2i, a, "int")
        return unary(ctx, lambda x: trunc(conc(x)), a, "int")
    if k == "real":
        if a.kind == "cplx":
            return unary(ctx, lambda x: CV.lift(x).re, a, "real")
        def tor(x):
            x = conc(b2i(x))
            if isinstance(x, int):
                return Fraction(x)
            return z3.ToReal(x) if is_z3(x) and z3.is_int(x) else x
        return unary(ctx, tor, a, "real")
    if k == "bool":
        return unary(ctx, lambda x: num_cmp("!=", b2i(x), 0), a, "bool")
    if k == "cplx":
        return unary(ctx, CV.lift, a, "cplx")
    raise Unsupported("astype")


def lift1(name, f):
    @ext(name)
    def _(ctx, args, kw):
        nokw(kw)
        v = args[0]
        return unary(ctx, lambda x: f(ctx, x), v, "real")


def f_abs(ctx, x):
    x = conc(x)
    if isinstance(x, CV):
        r = ctx.ufun("cabs", x.re, x.im)
        if not ctx.binding:
            key = ("cabs", r.get_id())
            if key not in ctx.seen_terms:
                ctx.seen_terms[key] = r
                ctx.assume(r >= 0)
                ctx.assume(to_z3(num_cmp("==", r * r, num_binop("+", num_binop("*", x.re, x.re, ctx), num_binop("*", x.im, x.im, ctx), ctx))))
        return r
    x = b2i(x)
    if isinstance(x, (int, Fraction)):
        return abs(x)
    return z3.If(x >= 0, x, -x)


def f_sqrt(ctx, x):
    x = conc(x)
    if isinstance(x, (int, Fraction)) and x >= 0:
        fr = Fraction(x)
        p, q = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
        if p * p == fr.numerator and q * q == fr.denominator:
            return Fraction(p, q)
    xz = to_z3(x)
    if z3.is_int(xz):
        xz = z3.ToReal(xz)
    r = ctx.ufun("sqrt", z3.simplify(xz) if not ctx.binding else xz)
    key = ("sqrt", r.get_id())
    if not ctx.binding and key not in ctx.seen_terms:
        ctx.seen_terms[key] = r
        ctx.trusted_math.add("sqrt: for x >= 0, sqrt(x) >= 0 and sqrt(x)^2 = x")
        ctx.assume(z3.Implies(xz >= 0, z3.And(r >= 0, r * r == xz)))
    return r


def f_trig(name):
    def f(ctx, x):
        x = conc(x)
        if isinstance(x, (int, Fraction)) and x == 0:
            return 1 if name == "cos" else 0
        xz = to_z3(x)
        if z3.is_int(xz):
            xz = z3.ToReal(xz)
        if not ctx.binding:
            xz = z3.simplify(xz)
        r = ctx.ufun(name, xz)
        key = ("trig", r.get_id())
        if not ctx.binding and key not in ctx.seen_terms:
            ctx.seen_terms[key] = r
            ctx.trusted_math.add("cos^2 + sin^2 = 1")
            o = ctx.ufun("sin" if name == "cos" else "cos", xz)
            ctx.assume(r * r + o * o == 1)
            ctx.assume(z3.And(r <= 1, r >= -1))
        return r
    return f


def f_exp(ctx, x):
    x = conc(x)
    if isinstance(x, CV):
        c = f_trig("cos")(ctx, x.im)
        s = f_trig("sin")(ctx, x.im)
        if not is_z3(x.re) and x.re == 0:
            return CV(c, s)
        e = f_exp(ctx, x.re)
        return CV(num_binop("*", e, c, ctx), num_binop("*", e, s, ctx))
    if not is_z3(x) and x == 0:
        return 1
    r = ctx.ufun("exp", x)
    if not ctx.binding:
        ctx.assume(r > 0)
    return r


lift1("numpy.abs", f_abs)
lift1("numpy.absolute", f_abs)
lift1("numpy.sqrt", f_sqrt)
lift1("numpy.cos", f_trig("cos"))
lift1("numpy.sin", f_trig("sin"))
lift1("numpy.log", lambda ctx, x: ctx.ufun("log", x))
lift1("numpy.log10", lambda ctx, x: ctx.ufun("log10", x))


@ext("numpy.exp")
def _(ctx, args, kw):
    v = args[0]
    k = "cplx" if (isinstance(v, Arr) and v.kind == "cplx") or isinstance(v, CV) else "real"
    return unary(ctx, lambda x: f_exp(ctx, x), v, k)


def f_sign(ctx, x):
    x = conc(x)
    if not is_z3(x):
        return (x > 0) - (x < 0)
    return z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0)))


@ext("numpy.sign")
def _(ctx, args, kw):
    return unary(ctx, lambda x: f_sign(ctx, x), args[0], "real")


def f_ceil(ctx, x):
    x = conc(x)
    if isinstance(x, (int, Fraction)):
        return Fraction(math.ceil(x))
    if z3.is_int(x):
        return z3.ToReal(x)
    return z3.ToReal(-z3.ToInt(-x))


lift1("numpy.ceil", f_ceil)
lift1("numpy.floor", lambda ctx, x: Fraction(math.floor(x)) if not is_z3(x) else (z3.ToReal(x) if z3.is_int(x) else z3.ToReal(z3.ToInt(x))))
lift1("numpy.isnan", lambda ctx, x: False)


@ext("numpy.square")
def _(ctx, args, kw):
    return unary(ctx, lambda x: num_binop("*", x, x, ctx), args[0])


@ext("numpy.real")
def _(ctx, args, kw):
    return unary(ctx, lambda x: CV.lift(x).re, args[0], "real")


@ext("numpy.imag")
def _(ctx, args, kw):
    return unary(ctx, lambda x: CV.lift(x).im, args[0], "real")


@ext("numpy.conj")
def _(ctx, args, kw):
    return unary(ctx, lambda x: CV(CV.lift(x).re, num_binop("-", 0, CV.lift(x).im, ctx)), args[0], "cplx")


@ext("numpy.angle")
def _(ctx, args, kw):
    nokw(kw)
    def f(x):
        x = CV.lift(x)
        return f_arctan2(ctx, x.im, x.re)
    return unary(ctx, f, args[0], "real")


def f_arctan2(ctx, y, x):
    r = ctx.ufun("arctan2", y, x)
    key = ("at2", r.get_id())
    if not ctx.binding and key not in ctx.seen_terms:
        ctx.seen_terms[key] = r
        ctx.trusted_math.add("arctan2(y,x)=p: hypot(x,y) cos p = x, hypot(x,y) sin p = y")
        xz, yz = coerce(x, y)
        if z3.is_int(xz):
            xz, yz = z3.ToReal(xz), z3.ToReal(yz)
        h = f_sqrt(ctx, xz * xz + yz * yz)
        ctx.assume(to_z3(h) * to_z3(f_trig("cos")(ctx, r)) == xz)
        ctx.assume(to_z3(h) * to_z3(f_trig("sin")(ctx, r)) == yz)
    return r


@ext("numpy.arctan2")
def _(ctx, args, kw):
    nokw(kw)
    if not isinstance(args[0], Arr) and not isinstance(args[1], Arr):
        return f_arctan2(ctx, args[0], args[1])
    return elementwise2(ctx, lambda y, x: f_arctan2(ctx, y, x), args[0], args[1])


@ext("numpy.unwrap")
def _(ctx, args, kw):
    nokw(kw)
    a = as_arr(ctx, args[0])
    if a.ndim != 1:
        raise Unsupported("unwrap 2-d")
    f = functional_arr(ctx, "unwrap", a)
    kf = z3.Function(ctx.fresh_name("unwrap_k"), z3.IntSort(), z3.IntSort())
    g = a.snapshot()
    ctx.trusted_math.add("np.unwrap(a)[i] = a[i] + 2 pi k_i with integer k_i")
    r = new_arr((a.n,), f, "real")
    r.unwrap_of = (a, kf)
    ctx.__dict__.setdefault("unwraps", []).append((f, g, kf))
    return r


# logical
for _nm, _f in (("logical_and", b_and), ("logical_or", b_or)):
    def _mkl(fn):
        def m(ctx, args, kw):
            nokw(kw)
            tb = lambda x: x if is_boolv(conc(x)) else num_cmp("!=", x, 0)
            return elementwise2(ctx, lambda x, y: fn(tb(x), tb(y)), args[0], args[1], "bool")
        return m
    MODELS["numpy." + _nm] = Ext("numpy." + _nm, _mkl(_f))


@ext("numpy.logical_not")
def _(ctx, args, kw):
    return unary(ctx, lambda x: b_not(x), args[0], "bool")


for _nm, _o in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("power", "**"),
                ("mod", "%"), ("remainder", "%")):
    def _mkb(o):
        def m(ctx, args, kw):
            nokw(kw)
            return arr_binop(ctx, o, args[0], args[1]) if isinstance(args[0], Arr) or isinstance(args[1], Arr) else num_binop(o, args[0], args[1], ctx)
        return m
    MODELS["numpy." + _nm] = Ext("numpy." + _nm, _mkb(_o))

for _nm, _o in (("greater", ">"), ("greater_equal", ">="), ("less", "<"), ("less_equal", "<="), ("equal", "=="), ("not_equal", "!=")):
    def _mkc(o):
        def m(ctx, args, kw):
            nokw(kw)
            return arr_cmp(ctx, o, args[0], args[1]) if isinstance(args[0], Arr) or isinstance(args[1], Arr) else num_cmp(o, args[0], args[1])
        return m
    MODELS["numpy." + _nm] = Ext("numpy." + _nm, _mkc(_o))


@ext("numpy.negative")
def _(ctx, args, kw):
    return unary(ctx, lambda x: num_binop("-", 0, x, ctx), args[0])


@ext("numpy.maximum")
def _(ctx, args, kw):
    return elementwise2(ctx, lambda x, y: ite(num_cmp(">=", x, y), x, y), args[0], args[1])


@ext("numpy.minimum")
def _(ctx, args, kw):
    return elementwise2(ctx, lambda x, y: ite(num_cmp("<=", x, y), x, y), args[0], args[1])


@ext("numpy.clip")
def _(ctx, args, kw):
    nokw(kw, "a_min", "a_max", "min", "max")
    lo = argn(args, kw, 1, "a_min", kw.get("min"))
    hi = argn(args, kw, 2, "a_max", kw.get("max"))
    r = args[0]
    if lo is not None:
        r = elementwise2(ctx, lambda x, y: ite(num_cmp(">=", x, y), x, y), r, lo)
    if hi is not None:
        r = elementwise2(ctx, lambda x, y: ite(num_cmp("<=", x, y), x, y), r, hi)
    return r


@ext("numpy.diff")
def _(ctx, args, kw):
    nokw(kw, "n")
    a = as_arr(ctx, args[0])
    if a.ndim != 1 or argn(args, kw, 1, "n", 1) != 1:
        raise Unsupported("diff")
    g = a.snapshot()
    n = a.n
    if ctx.branch(num_cmp(">=", n, 1)):
        ln = clen(isub(n, 1))
    else:
        ln = 0
    if a.kind == "bool":
        return mk(ctx, (ln,), lambda k: b_not(num_cmp("==", g(iadd(k, 1)), g(k))), "bool")
    return mk(ctx, (ln,), lambda k: num_binop("-", g(iadd(k, 1)), g(k), ctx), a.kind)


@ext("numpy.gradient")
def _(ctx, args, kw):
    nokw(kw)
    a = as_arr(ctx, args[0])
    h = args[1] if len(args) > 1 else 1
    if isinstance(h, Arr):
        raise Unsupported("gradient with coordinates")
    n = a.n
    if not ctx.branch(num_cmp(">=", n, 2)):
        raise PyRaise(ValueError, ("Shape of array too small to calculate a numerical gradient",))
    g = a.snapshot()
    nb = lambda o, x, y: num_binop(o, x, y, ctx)

    def at(k):
        mid = lambda: nb("/", nb("-", g(iadd(k, 1)), g(iadd(k, -1))), nb("*", 2, h))
        first = nb("/", nb("-", g(1), g(0)), h)
        last = nb("/", nb("-", g(isub(n, 1)), g(isub(n, 2))), h)
        k = conc(k)
        if isinstance(k, int) and isinstance(n, int):
            return first if k == 0 else last if k == n - 1 else mid()
        return ite(num_cmp("==", k, 0), first, ite(num_cmp("==", k, isub(n, 1)), last, mid()))
    return mk(ctx, (n,), at)


@ext("numpy.where")
def _(ctx, args, kw):
    nokw(kw)
    if len(args) == 1:
        return (where1(ctx, as_arr(ctx, args[0])),)
    c = as_arr(ctx, args[0])
    if c.ndim == 0:
        return args[1] if ctx.interp.truth(c.at()) else args[2]
    x = elementwise2(ctx, lambda p, q: (p, q), c, args[1]) if False else None
    A, B = as_arr(ctx, args[1]), as_arr(ctx, args[2])
    for s in (A, B):
        if s.ndim == 1 and not same_len(ctx, s.n, c.n):
            raise PyRaise(ValueError, ("operands could not be broadcast",))
    gc, ga, gb = c.snapshot(), A.snapshot(), B.snapshot()
    fa = (lambda *ix: ga(*ix)) if A.ndim else (lambda *ix: ga())
    fb = (lambda *ix: gb(*ix)) if B.ndim else (lambda *ix: gb())

    def at(*ix):
        cv = conc(gc(*ix))
        if isinstance(cv, bool):
            return fa(*ix) if cv else fb(*ix)
        return ite(cv, fa(*ix), fb(*ix))
    return mk(ctx, c.shape, at)


@ext("numpy.nonzero")
def _(ctx, args, kw):
    return (where1(ctx, as_arr(ctx, args[0])),)


@ext("numpy.flatnonzero")
def _(ctx, args, kw):
    return where1(ctx, as_arr(ctx, args[0]))


@ext("numpy.count_nonzero")
def _(ctx, args, kw):
    a = as_arr(ctx, args[0])
    if a.kind != "bool":
        a = unary(ctx, lambda x: num_cmp("!=", x, 0), a, "bool")
    return count_true(ctx, a)


def any_of(ctx, a):
    """truth of: some element is true."""
    if a.ndim == 0:
        return a.at()
    g0 = a.snapshot()
    g = lambda *k: (lambda v: v if is_boolv(conc(v)) else num_cmp("!=", v, 0))(g0(*k))
    if a.ndim == 2:
        if all(isinstance(s, int) for s in a.shape):
            return b_or(*[g(i, j) for i in range(a.shape[0]) for j in range(a.shape[1])])
        raise Unsupported("any of 2-d")
    n = clen(a.n)
    if isinstance(n, int):
        return b_or(*[g(k) for k in range(n)])
    if ctx.binding:
        raise Unsupported("any under binder")
    if ctx.entailed_forall(n, lambda k: b_not(g(k))):
        return False
    b = z3.Bool(ctx.fresh_name("any"))
    w = z3.Int(ctx.fresh_name("witness"))
    ctx.assume(z3.Implies(b, to_z3(b_and(num_cmp("<=", 0, w), num_cmp("<", w, n), g(w)))))
    ctx.forall(n, lambda k: b_implies(g(k), b))
    return b


def all_of(ctx, a):
    g0 = a.snapshot()
    if a.ndim == 0:
        return a.at()
    return b_not(any_of(ctx, mk(ctx, a.shape, lambda *k: b_not(g0(*k) if is_boolv(conc(g0(*k))) else num_cmp("!=", g0(*k), 0)), "bool")))


@ext("numpy.any")
def _(ctx, args, kw):
    nokw(kw)
    return any_of(ctx, as_arr(ctx, args[0]))


@ext("numpy.all")
def _(ctx, args, kw):
    nokw(kw)
    return all_of(ctx, as_arr(ctx, args[0]))


def extreme_idx(ctx, a, op):
    """index of the first minimum (op '<') / maximum (op '>')."""
    if a.ndim != 1:
        raise Unsupported("argmin of non 1-d")
    n = clen(a.n)
    if not ctx.branch(num_cmp(">=", n, 1)):
        raise PyRaise(ValueError, ("attempt to get argmin/argmax of an empty sequence",))
    g = a.snapshot()
    if isinstance(n, int) and n == 1:
        return 0
    cache = getattr(ctx, "ext_cache", None)
    if cache is None:
        cache = ctx.ext_cache = []
    for (n2, g2, op2, j2) in cache:
        if op2 == op and (n2 is n or n2 == n if isinstance(n, int) or isinstance(n2, int) else z3.eq(n2, n)):
            if ctx.entailed_forall(n, lambda k: num_cmp("==", g(k), g2(k))):
                return j2
    vals = [conc(g(k)) for k in range(n)] if isinstance(n, int) else None
    if vals is not None and not any(is_z3(v) for v in vals):
        best = 0
        for k in range(1, n):
            if num_cmp(op, vals[k], vals[best]) is True:
                best = k
        return best
    j = ctx.int("argext")
    ctx.assume(b_and(num_cmp("<=", 0, j), num_cmp("<", j, n)))
    gj = g(j)
    le = {"<": "<=", ">": ">="}[op]
    ctx.forall(n, lambda k: num_cmp(le, gj, g(k)))
    ctx.forall(j, lambda k: num_cmp(op, gj, g(k)))
    cache.append((n, g, op, j))
    return j


@ext("numpy.argmin")
def _(ctx, args, kw):
    nokw(kw)
    return extreme_idx(ctx, as_arr(ctx, args[0]), "<")


@ext("numpy.argmax")
def _(ctx, args, kw):
    nokw(kw)
    return extreme_idx(ctx, as_arr(ctx, args[0]), ">")


def extreme(ctx, a, op):
    if a.ndim == 0:
        return a.at()
    j = extreme_idx(ctx, a, op)
    return a.at(j)


def monotone_hint(ctx, a, op):
    pass


for _nm, _o in (("min", "<"), ("max", ">"), ("amin", "<"), ("amax", ">"), ("nanmin", "<"), ("nanmax", ">")):
    def _mkm(o):
        def m(ctx, args, kw):
            nokw(kw)
            return extreme(ctx, as_arr(ctx, args[0]), o)
        return m
    MODELS["numpy." + _nm] = Ext("numpy." + _nm, _mkm(_o))


@ext("numpy.sum")
def _(ctx, args, kw):
    nokw(kw)
    v = args[0]
    if isinstance(v, (PyList, tuple, GenVal)):
        items = v.l if not isinstance(v, tuple) else list(v)
        if items and all(isinstance(x, Arr) for x in items):
            raise Unsupported("sum of list of arrays")
    return arr_sum(ctx, as_arr(ctx, v))


@ext("numpy.mean")
def _(ctx, args, kw):
    nokw(kw)
    a = as_arr(ctx, args[0])
    return num_binop("/", arr_sum(ctx, a), a.n, ctx)


@ext("numpy.median")
def _(ctx, args, kw):
    return functional(ctx, "median", as_arr(ctx, args[0]))


@ext("numpy.cumsum")
def _(ctx, args, kw):
    nokw(kw)
    a = as_arr(ctx, args[0])
    g = a.snapshot()
    if isinstance(a.n, int):
        vals, acc = {}, 0
        for k in range(a.n):
            acc = num_binop("+", acc, g(k), ctx)
            vals[(k,)] = acc
        return from_vals((a.n,), vals)
    nm = ctx.func("cumsum")
    r = new_arr((a.n,), nm, "real")
    ctx.trusted_math.add("np.cumsum: c[0]=a[0], c[i]=c[i-1]+a[i]")
    ctx.assume(z3.Implies(to_z3(num_cmp(">", a.n, 0)), to_z3(num_cmp("==", nm(0), g(0)))))
    ctx.forall(a.n, lambda k: num_cmp("==", nm(k), num_binop("+", nm(iadd(k, -1)), g(k), ctx)), lo=1)
    return r


def concat(ctx, parts):
    parts = [p if p.ndim else from_vals((1,), {(0,): p.at()}, p.kind) for p in parts]
    total = 0
    offs = []
    for p in parts:
        offs.append(total)
        total = clen(iadd(total, p.n))
    gs = [p.snapshot() for p in parts]
    kinds = {p.kind for p in parts if not (isinstance(p.n, int) and p.n == 0)} or {"real"}
    kind = "int" if kinds == {"int"} else "bool" if kinds == {"bool"} else "cplx" if "cplx" in kinds else "real"
    if all(isinstance(p.n, int) for p in parts):
        vals, q = {}, 0
        for p, g in zip(parts, gs):
            for k in range(p.n):
                vals[(q,)] = g(k)
                q += 1
        return from_vals((q,), vals, kind)

    def at(k):
        out = gs[-1](isub(k, offs[-1]))
        for m in range(len(parts) - 2, -1, -1):
            end = offs[m + 1]
            out = ite(num_cmp("<", k, end), gs[m](isub(k, offs[m])), out)
        return out
    return mk(ctx, (total,), at, kind)


@ext("numpy.append")
def _(ctx, args, kw):
    nokw(kw)
    return concat(ctx, [as_arr(ctx, args[0]), as_arr(ctx, args[1])])


@ext("numpy.concatenate")
def _(ctx, args, kw):
    nokw(kw)
    l = args[0].l if isinstance(args[0], PyList) else list(args[0])
    return concat(ctx, [as_arr(ctx, x) for x in l])


MODELS["numpy.hstack"] = Ext("numpy.hstack", MODELS["numpy.concatenate"].fn)


def sort_perm(ctx, a):
    """permutation P with a[P] non-decreasing."""
    n = clen(a.n)
    g = a.snapshot()
    if isinstance(n, int) and n <= 1:
        return from_vals((n,), {(k,): k for k in range(n)}, "int")
    P, Q = ctx.func("P", "int"), ctx.func("Pinv", "int")
    ctx.forall(n, lambda k: b_and(num_cmp("<=", 0, P(k)), num_cmp("<", P(k), n), num_cmp("==", Q(P(k)), k)))
    ctx.forall(n, lambda k: b_and(num_cmp("<=", 0, Q(k)), num_cmp("<", Q(k), n), num_cmp("==", P(Q(k)), k)))
    ctx.forall2(n, lambda j, k: num_cmp("<=", g(P(j)), g(P(k))))
    r = new_arr((n,), P, "int")
    r.perm = (P, Q)
    return r


@ext("numpy.argsort")
def _(ctx, args, kw):
    nokw(kw, "kind")
    return sort_perm(ctx, as_arr(ctx, args[0]))


@ext("numpy.sort")
def _(ctx, args, kw):
    nokw(kw)
    a = as_arr(ctx, args[0])
    p = sort_perm(ctx, a)
    g, gp = a.snapshot(), p.snapshot()
    r = mk(ctx, (a.n,), lambda k: g(gp(k)), a.kind)
    r.sort_of = (a, p)
    return r


@ext("numpy.arange")
def _(ctx, args, kw):
    nokw(kw, "dtype")
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], 1
    else:
        lo, hi, st = args[:3]
    lo, hi, st = conc(lo), conc(hi), conc(st)
    ints = all((isinstance(x, int)) or (is_z3(x) and z3.is_int(x)) for x in (lo, hi, st))
    if ints and isinstance(st, int) and st == 1:
        n = clen(isub(hi, lo))
        if not ctx.branch(num_cmp(">=", n, 0)):
            n = 0
        return mk(ctx, (n,), lambda k: iadd(lo, k), "int")
    if all(isinstance(x, (int, Fraction)) for x in (lo, hi, st)) and st != 0:
        n = max(0, math.ceil((Fraction(hi) - Fraction(lo)) / Fraction(st)))
        return mk(ctx, (n,), lambda k: num_binop("+", lo, num_binop("*", st, k, ctx), ctx), "int" if ints else "real")
    # ceil((hi-lo)/st)
    q = num_binop("/", num_binop("-", hi, lo, ctx), st, ctx)
    n = -z3.ToInt(-to_z3(q)) if z3.is_real(to_z3(q)) else to_z3(q)
    if not ctx.branch(num_cmp(">=", n, 0)):
        n = 0
    return mk(ctx, (clen(n),), lambda k: num_binop("+", lo, num_binop("*", st, k, ctx), ctx))


@ext("numpy.linspace")
def _(ctx, args, kw):
    nokw(kw, "num")
    lo, hi = args[0], args[1]
    n = argn(args, kw, 2, "num", 50)
    return mk(ctx, (n,), lambda k: num_binop("+", lo, num_binop("/", num_binop("*", num_binop("-", hi, lo, ctx), k, ctx), isub(n, 1), ctx), ctx))


def shape_of(ctx, s):
    if isinstance(s, (tuple, PyList)):
        return tuple(conc(x) for x in (s if isinstance(s, tuple) else s.l))
    return (conc(s),)


def filled(ctx, shape, v, kind):
    for s in shape:
        if not ctx.branch(num_cmp(">=", s, 0)):
            raise PyRaise(ValueError, ("negative dimensions are not allowed",))
    return mk(ctx, shape, lambda *ix: v, kind)


@ext("numpy.zeros")
def _(ctx, args, kw):
    dt = argn(args, kw, 1, "dtype", None)
    k = dtype_kind(dt) if dt is not None else "real"
    return filled(ctx, shape_of(ctx, args[0]), 0 if k != "bool" else False, k)


@ext("numpy.ones")
def _(ctx, args, kw):
    dt = argn(args, kw, 1, "dtype", None)
    k = dtype_kind(dt) if dt is not None else "real"
    return filled(ctx, shape_of(ctx, args[0]), 1 if k != "bool" else True, k)


@ext("numpy.full")
def _(ctx, args, kw):
    nokw(kw)
    return filled(ctx, shape_of(ctx, args[0]), args[1], kind_of([args[1]]))


@ext("numpy.zeros_like")
def _(ctx, args, kw):
    a = as_arr(ctx, args[0])
    dt = kw.get("dtype")
    return filled(ctx, a.shape, 0, dtype_kind(dt) if dt is not None else a.kind)


@ext("numpy.ones_like")
def _(ctx, args, kw):
    a = as_arr(ctx, args[0])
    return filled(ctx, a.shape, 1, a.kind)


@ext("numpy.interp")
def _(ctx, args, kw):
    nokw(kw)
    x, xp, fp = args[0], as_arr(ctx, args[1]), as_arr(ctx, args[2])
    n = clen(xp.n)
    if not same_len(ctx, xp.n, fp.n):
        raise PyRaise(ValueError, ("fp and xp are not of the same length.",))
    if not ctx.branch(num_cmp(">=", n, 1)):
        raise PyRaise(ValueError, ("array of sample points is empty",))
    gx, gf = xp.snapshot(), fp.snapshot()
    ctx.trusted_math.add("np.interp: piecewise linear between consecutive nodes, constant outside (increasing nodes)")
    nb = lambda o, a, b: num_binop(o, a, b, ctx)
    seg = z3.Function(ctx.fresh_name("seg"), z3.RealSort(), z3.IntSort())
    frac = z3.Function(ctx.fresh_name("frac"), z3.RealSort(), z3.RealSort())

    def at(v):
        v = to_z3(v)
        if z3.is_int(v):
            v = z3.ToReal(v)
        last = isub(n, 1)
        k = seg(v)
        if not ctx.binding:
            inside = b_and(num_cmp(">=", v, gx(0)), num_cmp("<", v, gx(last)))
            ctx.assume(b_implies(inside, b_and(num_cmp("<=", 0, k), num_cmp("<", k, last),
                                               num_cmp("<=", gx(k), v), num_cmp("<", v, gx(iadd(k, 1))))))
        x0, x1, y0, y1 = gx(k), gx(iadd(k, 1)), gf(k), gf(iadd(k, 1))
        if ctx.binding:
            lin = nb("+", y0, nb("/", nb("*", nb("-", y1, y0), nb("-", v, x0)), nb("-", x1, x0)))
        else:
            fr = frac(v)
            ctx.interps.append((v, k, fr, x0, x1))
            ctx.assume(b_implies(inside, b_and(num_cmp("==", nb("*", fr, nb("-", x1, x0)), nb("-", v, x0)),
                                               num_cmp("<=", 0, fr), num_cmp("<", fr, 1))))
            d = z3.simplify(to_z3(nb("-", y1, y0)), som=True)
            lin = nb("+", y0, nb("*", d, fr))
        below, above = num_cmp("<", v, gx(0)), num_cmp(">=", v, gx(last))
        if not ctx.binding:
            if ctx.entailed(b_not(below)):
                below = False
            if ctx.entailed(b_not(above)):
                above = False
            elif ctx.entailed(above):
                above = True
        return ite(below, gf(0), ite(above, gf(last), lin))
    return unary(ctx, at, x, "real")


@ext("numpy.allclose")
def _(ctx, args, kw):
    nokw(kw, "rtol", "atol")
    rtol = conc(argn(args, kw, 2, "rtol", Fraction(1, 10 ** 5)))
    atol = conc(argn(args, kw, 3, "atol", Fraction(1, 10 ** 8)))
    m = elementwise2(ctx, lambda x, y: num_cmp("<=", f_abs(ctx, num_binop("-", x, y, ctx)),
                                               num_binop("+", atol, num_binop("*", rtol, f_abs(ctx, y), ctx), ctx)),
                     args[0], args[1], "bool")
    return all_of(ctx, m) if isinstance(m, Arr) else m


MODELS["numpy.isclose"] = Ext("numpy.isclose", lambda ctx, args, kw: elementwise2(
    ctx, lambda x, y: num_cmp("<=", f_abs(ctx, num_binop("-", x, y, ctx)),
                              num_binop("+", conc(argn(args, kw, 3, "atol", Fraction(1, 10 ** 8))),
                                        num_binop("*", conc(argn(args, kw, 2, "rtol", Fraction(1, 10 ** 5))), f_abs(ctx, y), ctx), ctx)),
    args[0], args[1], "bool"))


@ext("numpy.testing.assert_allclose")
def _(ctx, args, kw):
    nokw(kw, "rtol", "atol")
    A, B = as_arr(ctx, args[0]), as_arr(ctx, args[1])
    if A.ndim and B.ndim and not same_len(ctx, A.n, B.n):
        raise PyRaise(AssertionError, ("Not equal to tolerance: shape mismatch",))
    rtol = conc(kw.get("rtol", Fraction(1, 10 ** 7)))
    atol = conc(kw.get("atol", 0))
    m = elementwise2(ctx, lambda x, y: num_cmp("<=", f_abs(ctx, num_binop("-", x, y, ctx)),
                                               num_binop("+", atol, num_binop("*", rtol, f_abs(ctx, y), ctx), ctx)), A, B, "bool")
    ok = all_of(ctx, m) if isinstance(m, Arr) else m
    if not ctx.branch(ok):
        raise PyRaise(AssertionError, ("Not equal to tolerance",))


@ext("numpy.searchsorted")
def _(ctx, args, kw):
    nokw(kw, "side")
    a = as_arr(ctx, args[0])
    v = args[1]
    side = argn(args, kw, 2, "side", "left")
    if isinstance(v, Arr) and v.ndim:
        raise Unsupported("searchsorted of array")
    n = a.n
    g = a.snapshot()
    j = ctx.int("ss")
    ctx.assume(b_and(num_cmp("<=", 0, j), num_cmp("<=", j, n)))
    lt = "<" if side == "left" else "<="
    ge = ">=" if side == "left" else ">"
    # bisection returns a position consistent with its neighbours; for sorted
    # input this is the unique insertion point
    sorted_ = ctx.entailed_forall(n, lambda p, q: num_cmp("<=", g(p), g(q)), arity=2)
    ctx.assume(z3.Implies(to_z3(num_cmp("<", j, n)), to_z3(num_cmp(ge, g(j), v))))
    ctx.assume(z3.Implies(to_z3(num_cmp(">", j, 0)), to_z3(num_cmp(lt, g(isub(j, 1)), v))))
    if sorted_:
        ctx.forall(n, lambda p: b_implies(num_cmp(">=", p, j), num_cmp(ge, g(p), v)))
        ctx.forall(n, lambda p: b_implies(num_cmp("<", p, j), num_cmp(lt, g(p), v)))
    return j


@ext("numpy.dot")
def _(ctx, args, kw):
    a, b = args
    if not isinstance(a, (Arr, PyList, tuple)) or not isinstance(b, (Arr, PyList, tuple)):
        return ctx.interp.binop("*", a, b)
    return matmul(ctx, a, b)


@ext("numpy.linalg.inv")
def _(ctx, args, kw):
    a = as_arr(ctx, args[0])
    if a.ndim != 2 or not all(isinstance(s, int) for s in a.shape) or a.shape[0] != a.shape[1]:
        raise Unsupported("inv")
    n = a.shape[0]
    M = [[a.at(i, j) for j in range(n)] for i in range(n)]
    nb = lambda o, x, y: num_binop(o, x, y, ctx)

    def det(m):
        if len(m) == 1:
            return m[0][0]
        out = 0
        for j in range(len(m)):
            minor = [r[:j] + r[j + 1:] for r in m[1:]]
            t = nb("*", m[0][j], det(minor))
            out = nb("+", out, t) if j % 2 == 0 else nb("-", out, t)
        return out
    D = det(M)
    if not is_z3(conc(D)):
        if conc(D) == 0:
            raise PyRaise(LinAlgError, ("Singular matrix",))
    ctx.trusted_math.add("np.linalg.inv(M) = adj(M)/det(M)")
    ctx.last_inv_det = D

    def cof(i, j):
        minor = [r[:i] + r[i + 1:] for k, r in enumerate(M) if k != j]
        d = det(minor) if minor else 1
        d = d if (i + j) % 2 == 0 else nb("-", 0, d)
        return nb("/", d, D)
    return mk(ctx, (n, n), cof)


class LinAlgErrorT(ValueError):
    pass


LinAlgError = LinAlgErrorT
LinAlgErrorT.__name__ = "LinAlgError"


@ext("numpy.linalg.norm")
def _(ctx, args, kw):
    nokw(kw)
    a = as_arr(ctx, args[0])
    if isinstance(a.n, int) and a.ndim == 1:
        return f_sqrt(ctx, sum_list(ctx, [num_binop("*", a.at(k), a.at(k), ctx) for k in range(a.n)]))
    g = a.snapshot()
    if getattr(ctx, "abstract_dots", False):
        r = ctx.real("norm")
        ctx.trusted_math.add("np.linalg.norm(v) >= |v[k]| for every k, and is 0 only if v is 0")
        ctx.assume(r >= 0)
        ctx.forall(a.n, lambda k: b_and(num_cmp("<=", g(k), r), num_cmp("<=", num_binop("*", -1, r, ctx), g(k))))
        return r
    return f_sqrt(ctx, functional(ctx, "sum", new_arr((a.n,), lambda k: num_binop("*", g(k), g(k), ctx))))


@ext("numpy.hanning")
def _(ctx, args, kw):
    n = args[0]
    ctx.trusted_math.add("np.hanning(n): weights in [0,1], zero at both ends, positive inside")
    f = z3.Function("hanning", z3.IntSort(), z3.IntSort(), z3.RealSort())
    if not ctx.branch(num_cmp(">=", n, 0)):
        n = 0
    if isinstance(n, int):
        if n == 1:
            return from_vals((1,), {(0,): 1})
        return mk(ctx, (n,), lambda k: 0 if k in (0, n - 1) else Fraction(repr(0.5 - 0.5 * math.cos(2 * math.pi * k / (n - 1)))))
    def w(k):      # any non-negative value inside, zero at both ends
        v = f(to_z3(n), to_z3(k))
        return z3.If(z3.And(to_z3(k) > 0, to_z3(k) < to_z3(n) - 1, v > 0), v, z3.If(z3.And(to_z3(n) == 1), z3.RealVal(1), z3.RealVal(0)))
    return new_arr((n,), w)


@ext("numpy.fft.rfft")
def _(ctx, args, kw):
    nokw(kw)
    a = as_arr(ctx, args[0])
    ctx.trusted_math.add("np.fft.rfft: arbitrary spectrum of n//2+1 values")
    n = clen(iadd(ctx.interp.binop("//", a.n, 2), 1))
    r = ctx.arr(ctx.fresh_name("rfft"), n, "cplx")
    ctx.__dict__.setdefault("rffts", []).append((copy_arr(ctx, a), copy_arr(ctx, r)))
    return r


@ext("numpy.fft.rfftfreq")
def _(ctx, args, kw):
    nokw(kw, "d")
    n, d = args[0], argn(args, kw, 1, "d", 1)
    ctx.trusted_math.add("np.fft.rfftfreq: k/(n d), k = 0..n//2")
    m = clen(iadd(ctx.interp.binop("//", n, 2), 1))
    return mk(ctx, (m,), lambda k: num_binop("/", k, num_binop("*", n, d, ctx), ctx))


@ext("numpy.fft.irfft")
def _(ctx, args, kw):
    nokw(kw, "n")
    a = as_arr(ctx, args[0])
    ctx.trusted_math.add("np.fft.irfft: arbitrary values, n of them")
    n = argn(args, kw, 1, "n", None)
    if n is None:
        raise Unsupported("irfft without length")
    r = ctx.arr(ctx.fresh_name("irfft"), n)
    r.irfft_of = a
    ctx.events.append(("irfft", a, n, r))
    return r


MODELS["numpy.hamming"] = Ext("numpy.hamming", lambda ctx, args, kw: (lambda n: new_arr(
    (n,), lambda k: z3.Function("hamming", z3.IntSort(), z3.IntSort(), z3.RealSort())(to_z3(n), to_z3(k))))(args[0]))


@ext("numpy.pad")
def _(ctx, args, kw):
    a = as_arr(ctx, args[0])
    w = args[1]
    if kw.get("mode", "constant") != "constant" or conc(kw.get("constant_values", 0)) != 0 or a.ndim != 1:
        raise Unsupported("pad")
    l, r = (w, w) if not isinstance(w, tuple) else w
    g = a.snapshot()
    n = a.n
    return mk(ctx, (iadd(iadd(n, l), r),), lambda k: ite(b_and(num_cmp(">=", k, l), num_cmp("<", k, iadd(n, l))), g(isub(k, l)), 0))


@ext("numpy.errstate")
def _(ctx, args, kw):
    return mk_opaque("errstate")


# ---------------------------------------------------------------- scipy
class Spline:
    """scipy InterpolatedUnivariateSpline / PchipInterpolator (trusted contract)."""

    def __init__(self, ctx, x, y, kw, kind):
        self.x, self.y, self.kw, self.kind = x, y, kw, kind
        self.xs, self.ys = x.snapshot(), y.snapshot()
        self.n = x.n
        self.fn = z3.Function(ctx.fresh_name("spline"), z3.RealSort(), z3.RealSort())
        self.deriv_of = None

    def __call__(self, ctx, args, kw):
        q = args[0]
        ext = conc(self.kw.get("ext", 0))
        def at(v):
            z = to_z3(v)
            if z3.is_int(z):
                z = z3.ToReal(z)
            return self.fn(z)
        if ext == 2:
            A = as_arr(ctx, q)
            lo, hi = self.xs(0), self.xs(isub(self.n, 1))
            outside = unary(ctx, lambda v: b_or(num_cmp("<", v, lo), num_cmp(">", v, hi)), A, "bool")
            o = any_of(ctx, outside) if isinstance(outside, Arr) else outside
            if ctx.branch(o):
                raise PyRaise(ValueError, ("out of range in spline evaluation",))
        ctx.events.append(("spline_eval", self, q))
        return unary(ctx, at, q, "real")

    def passes(self, ctx, k):
        """s(x_k) = y_k."""
        return self.fn(to_z3(num_binop("*", 1, self.xs(k), ctx)) if not z3.is_int(to_z3(self.xs(k))) else z3.ToReal(to_z3(self.xs(k)))) == to_z3(self.ys(k))


@ext("scipy.interpolate.InterpolatedUnivariateSpline")
def _(ctx, args, kw):
    x, y = as_arr(ctx, args[0]), as_arr(ctx, args[1])
    nokw(kw, "w", "bbox", "k", "ext", "check_finite")
    k = conc(kw.get("k", 3))
    if not same_len(ctx, x.n, y.n):
        raise PyRaise(ValueError, ("x and y should have a same length",))
    if not ctx.branch(num_cmp(">=", k, 1)) or not ctx.branch(num_cmp("<=", k, 5)):
        raise PyRaise(ValueError, ("k should be 1 <= k <= 5",))
    if not ctx.branch(num_cmp(">", x.n, k)):
        raise PyRaise(ValueError, ("x and y should have at least k+1 elements",))
    if not ctx.branch(all_of(ctx, _diffpos(ctx, x))):
        raise PyRaise(ValueError, ("x must be strictly increasing",))
    s = Spline(ctx, x, y, dict(kw), "spline")
    ctx.events.append(("spline", s))
    return s


def _diffpos(ctx, x):
    g = x.snapshot()
    return mk(ctx, (clen(isub(x.n, 1)),), lambda k: num_cmp(">", g(iadd(k, 1)), g(k)), "bool")


@ext("scipy.interpolate.PchipInterpolator")
def _(ctx, args, kw):
    x, y = as_arr(ctx, args[0]), as_arr(ctx, args[1])
    nokw(kw, "extrapolate")
    if not same_len(ctx, x.n, y.n):
        raise PyRaise(ValueError, ("x and y must have the same length",))
    if not ctx.branch(num_cmp(">=", x.n, 2)):
        raise PyRaise(ValueError, ("at least two points",))
    s = Spline(ctx, x, y, dict(kw), "pchip")
    ctx.events.append(("spline", s))
    return s


@ext("scipy.signal.find_peaks")
def _(ctx, args, kw):
    a = as_arr(ctx, args[0])
    if isinstance(a.n, int):
        a2 = a
    n = a.n
    g = a.snapshot()
    m = ctx.length("n_peaks", 0) if ctx.lengths is None else ctx.int("n_peaks")
    ctx.assume(num_cmp(">=", m, 0))
    P = ctx.arr("peaks", m, "int")
    ctx.trusted_math.add("find_peaks: strictly increasing interior indices of local maxima")
    ctx.forall(m, lambda k: b_and(num_cmp("<", 0, P.at(k)), num_cmp("<", P.at(k), isub(n, 1))))
    ctx.forall2(m, lambda i, j: num_cmp("<", P.at(i), P.at(j)))
    ctx.events.append(("find_peaks", a, g, dict(kw), P))
    return (P, mk_opaque("peak_properties"))


@ext("scipy.optimize.least_squares")
def _(ctx, args, kw):
    p0 = args[1] if len(args) > 1 else kw.get("x0")
    k = len(p0.l) if isinstance(p0, PyList) else len(p0) if isinstance(p0, tuple) else as_arr(ctx, p0).n
    x = ctx.arr("lsq_x", k)
    ctx.events.append(("least_squares", args, kw))
    r = mk_opaque("lsq")
    return StructVal("OptimizeResult", {"x": x, "cost": ctx.real("lsq_cost"), "success": ctx.bool("lsq_success")})


class StructVal:
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


class Host(StructVal):
    """a model object with Python-side behaviour: method m_x is attribute call x, p_x property x."""
    name = "host"

    def __init__(self):
        self.attrs = {}

    def host_attr(self, a):
        m = getattr(self, "m_" + a, None)
        if m is not None:
            return Ext(f"{self.name}.{a}", lambda c, args, kw: m(c, *args, **kw))
        p = getattr(self, "p_" + a, None)
        return p() if p is not None else MISSING


# ---------------------------------------------------------------- other libs
@ext("copy.deepcopy")
def deepcopy(ctx, args, kw):
    memo = {}

    def cp(v):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, Arr):
            r = copy_arr(ctx, v)
        elif isinstance(v, PyDict):
            r = PyDict()
            memo[id(v)] = r
            r.d = {k: cp(x) for k, x in v.d.items()}
            r.log = list(v.log)
        elif isinstance(v, PyList):
            r = PyList()
            memo[id(v)] = r
            r.l = [cp(x) for x in v.l]
        elif isinstance(v, tuple):
            r = tuple(cp(x) for x in v)
        elif isinstance(v, Obj):
            r = Obj(v.cls)
            memo[id(v)] = r
            r.attrs = {k: cp(x) for k, x in v.attrs.items()}
        elif isinstance(v, PySet):
            r = PySet(set(v.s))
        elif isinstance(v, Host) and hasattr(v, "deepcopied"):
            r = v.deepcopied(cp)
        else:
            r = v
        memo[id(v)] = r
        return r
    return cp(args[0])


@ext("copy.copy")
def _(ctx, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        return copy_arr(ctx, v)
    if isinstance(v, PyDict):
        return PyDict(v.d)
    if isinstance(v, PyList):
        return PyList(v.l)
    if isinstance(v, Obj):
        return Obj(v.cls, v.attrs)
    return v


@ext("warnings.warn")
def _(ctx, args, kw):
    ctx.events.append(("warn", args[0]))


@ext("json.loads")
def _(ctx, args, kw):
    import json
    v = args[0]
    if isinstance(v, str):
        try:
            return from_py(json.loads(v))
        except json.JSONDecodeError as e:
            raise PyRaise(json.JSONDecodeError, (str(e),))
    if isinstance(v, SymStr):
        return v.json_loads(ctx)
    if v is None:
        raise PyRaise(TypeError, ("the JSON object must be str",))
    raise Unsupported("json of unknown value")


class SymStr:
    """a string known only through the questions asked about it (contracts)."""


class JsonStr(SymStr):
    """any nonempty string given to json.loads: the contract chooses what it denotes."""

    def __init__(self, value):
        self.value = value      # callable(ctx) -> value, or raises

    def truth(self, ctx):
        return True

    def equal(self, ctx, s):
        if s == "":
            return False
        raise Unsupported("comparison of an unknown string")

    def json_loads(self, ctx):
        return self.value(ctx)

    def attr(self, ctx, a):
        raise Unsupported(f"str.{a} of an unknown string")


class TokStr(SymStr):
    """a string of known characters and decimal integers whose values are symbolic:
    pieces are single characters or z3 Ints (rendered as -?[0-9]+)."""

    def __init__(self, pieces):
        self.p = [c for q in pieces for c in (q if isinstance(q, str) else [q])]

    @staticmethod
    def make(p):
        p = list(p)
        return "".join(p) if all(isinstance(c, str) for c in p) else TokStr(p)

    def truth(self, ctx):
        return True

    def __repr__(self):
        return "<str " + "".join(c if isinstance(c, str) else "{int}" for c in self.p) + ">"

    @staticmethod
    def plain(s):
        """characters that no rendered integer contains."""
        return isinstance(s, str) and s != "" and not any(c.isdigit() or c == "-" for c in s)

    def equal(self, ctx, s):
        if s is self:
            return True
        if isinstance(s, str) and (s == "" or not any(c.isdigit() for c in s)):
            return False
        if isinstance(s, str) and any(isinstance(c, str) and c not in s for c in self.p):
            return False
        raise Unsupported("comparison of strings with symbolic integers")

    def contains(self, ctx, s):
        if self.plain(s) and len(s) == 1:
            return s in [c for c in self.p if isinstance(c, str)]
        if self.plain(s):
            return any(self.p[k:k + len(s)] == list(s) for k in range(len(self.p)))
        raise Unsupported("substring of a string with symbolic integers")

    def to_int(self, ctx):
        p = self.strip_().p if isinstance(self.strip_(), TokStr) else None
        if p is not None and len(p) == 1:
            return p[0]
        if p is not None and any(isinstance(c, str) and not (c.isdigit() or c in "_+-") for c in p):
            raise PyRaise(ValueError, ("invalid literal for int()",))
        raise Unsupported("int() of a string with symbolic integers")

    def strip_(self, left=True, right=True):
        p = list(self.p)
        while left and p and isinstance(p[0], str) and p[0].isspace():
            p.pop(0)
        while right and p and isinstance(p[-1], str) and p[-1].isspace():
            p.pop()
        return TokStr.make(p)

    def split_(self, sep, maxsplit=-1):
        if not self.plain(sep) or len(sep) != 1:
            raise Unsupported("split of a string with symbolic integers")
        out = [[]]
        for c in self.p:
            if isinstance(c, str) and c == sep and (maxsplit < 0 or len(out) <= maxsplit):
                out.append([])
            else:
                out[-1].append(c)
        return PyList([TokStr.make(q) for q in out])

    def attr(self, ctx, a):
        m = lambda f: TokStr.make([f(c) if isinstance(c, str) else c for c in self.p])
        tbl = {"strip": lambda c, x, k: self.strip_(), "lstrip": lambda c, x, k: self.strip_(True, False),
               "rstrip": lambda c, x, k: self.strip_(False, True), "lower": lambda c, x, k: m(str.lower), "upper": lambda c, x, k: m(str.upper),
               "casefold": lambda c, x, k: m(str.casefold), "split": lambda c, x, k: self.split_(*x, **k)}
        if a == "strip":
            def strip(c, x, k):
                if x:
                    raise Unsupported("strip of characters")
                return self.strip_()
            return Ext("str.strip", strip)
        if a == "count":
            return Ext("str.count", lambda c, x, k: [q for q in self.p if isinstance(q, str)].count(x[0]) if self.plain(x[0]) and len(x[0]) == 1 else Unsup())
        if a in tbl:
            return Ext("str." + a, tbl[a])
        raise Unsupported(f"str.{a} of a string with symbolic integers")


class JoinedInts(SymStr):
    """two or more decimal integers (any values) joined by a separator around one comma or the like."""

    def __init__(self, ctx, n, value, sep, before="", after=""):
        self.ctx, self.n, self.value, self.sep, self.before, self.after = ctx, n, value, sep, before, after

    def truth(self, ctx):
        return True

    def __repr__(self):
        return "<str {int}" + self.before + self.sep + self.after + "{int}...>"

    def equal(self, ctx, s):
        if s is self:
            return True
        if isinstance(s, str) and self.sep not in s:
            return False
        raise Unsupported("comparison of strings with symbolic integers")

    def contains(self, ctx, s):
        if TokStr.plain(s) and len(s) == 1:
            return s in self.before + self.sep + self.after
        raise Unsupported("substring of a string with symbolic integers")

    def to_int(self, ctx):
        raise PyRaise(ValueError, ("invalid literal for int()",))

    def split_(self, sep, maxsplit=-1):
        if sep == self.sep and maxsplit < 0:
            def item(k):
                p = [self.value(k)]
                if self.after and self.ctx.branch(num_cmp(">", k, 0)):
                    p = list(self.after) + p
                if self.before and self.ctx.branch(num_cmp("<", k, isub(self.n, 1))):
                    p = p + list(self.before)
                return TokStr(p)
            return LazyList(self.ctx, self.n, item)
        if TokStr.plain(sep) and len(sep) == 1 and sep not in self.before + self.sep + self.after:
            return PyList([self])
        raise Unsupported("split of a string with symbolic integers")

    def attr(self, ctx, a):
        if a in ("strip", "lstrip", "rstrip", "lower", "upper", "casefold"):
            def same(c, x, k):
                if x:
                    raise Unsupported("strip of characters")
                return self
            return Ext("str." + a, same)
        if a == "split":
            return Ext("str.split", lambda c, x, k: self.split_(*x, **k))
        raise Unsupported(f"str.{a} of a string with symbolic integers")


def from_py(v):
    if isinstance(v, dict):
        return PyDict({k: from_py(x) for k, x in v.items()})
    if isinstance(v, list):
        return PyList([from_py(x) for x in v])
    if isinstance(v, float):
        return Fraction(repr(v)) if v == v and abs(v) != float("inf") else mk_opaque("inf")
    return v


@ext("joblib.delayed")
def _(ctx, args, kw):
    f = args[0]
    return Ext("delayed", lambda c, a, k: ("@delayed", f, a, k))


@ext("joblib.Parallel")
def _(ctx, args, kw):
    ctx.trusted_math.add("joblib.Parallel()(tasks) returns [f(*a, **k) for each task] in order")

    def run(c, a, k):
        if isinstance(a[0], LazyList):
            return lazy_map(c, a[0], lambda t: c.interp.call(t[1], t[2], t[3]))
        out = []
        for t in c.interp.iterate(a[0]):
            out.append(c.interp.call(t[1], t[2], t[3]))
        return PyList(out)
    return Ext("joblib.Parallel", run)


def lazy_map(ctx, src, f):
    """[f(x) for x in src] over a list of any length (see Interp.lazy_comp)."""
    if ctx.choose(2):
        k = ctx.int("any")
        ctx.assume(k >= 0)
        ctx.assume(num_cmp("<", k, src.n))
        f(src.at(k))
        raise PathEnd()

    def get(k):
        try:
            return f(src.at(k))
        except PyRaise:
            raise PathEnd()
    return LazyList(ctx, src.n, get)


@ext("dataclasses.fields")
def _(ctx, args, kw):
    c = args[0].cls if isinstance(args[0], Obj) else args[0]
    return tuple(StructVal("Field", {"name": n}) for k in reversed([k for k in c.mro() if getattr(k, "dataclass_fields", None)]) for n, _ in k.dataclass_fields)


@ext("importlib.import_module")
def _(ctx, args, kw):
    f = getattr(ctx, "import_module", None)
    return f(args[0]) if f else mk_opaque("module")


@ext("tqdm.tqdm")
def _(ctx, args, kw):
    return args[0]


@ext("time.monotonic")
def _(ctx, args, kw):
    return ctx.real("clock")


# ---------------------------------------------------------------- modules
def np_float_type():
    return TypeTag("numpy.float64", lambda v: is_num(v) and not isinstance(v, int) or (is_z3(v) and z3.is_real(v)),
                   lambda ctx, args, kw: MODELS["builtins.float"].fn(ctx, args, kw))


NDARRAY = TypeTag("numpy.ndarray", lambda v: isinstance(v, Arr))

_MODS = {}


def ext_module(name):
    if name in _MODS:
        return _MODS[name]
    m = ExtModule(name)
    _MODS[name] = m
    opaque = name.split(".")[0] not in ("numpy", "scipy", "copy", "json", "joblib", "tqdm", "warnings", "math", "lal")
    m.opaque = opaque
    pre = name + "."
    for k, v in list(MODELS.items()):
        if k.startswith(pre):
            rest = k[len(pre):]
            if "." not in rest:
                m.attrs[rest] = v
            else:
                sub = rest.split(".")[0]
                m.attrs.setdefault(sub, None)
    for k, v in CONSTS.items():
        if k.startswith(pre) and "." not in k[len(pre):]:
            m.attrs[k[len(pre):]] = v
    for k in [k for k, v in m.attrs.items() if v is None]:
        m.attrs[k] = ext_module(pre + k)
    if name == "numpy":
        m.attrs.update(ndarray=NDARRAY, float64=np_float_type(), newaxis=None, inf=mk_opaque("inf"),
                       bool_=BUILTINS["bool"], nan=mk_opaque("nan"))
        m.attrs["linalg"].attrs["LinAlgError"] = LinAlgError
    if name == "json":
        import json
        m.attrs["JSONDecodeError"] = json.JSONDecodeError
    return m


CONSTS["numpy.pi"] = PI
CONSTS["math.pi"] = PI
# constants of lal 7 (IAU/CODATA values); MTSUN_SI = G Msun / c^3
for _k, _v in (("G_SI", 6.6743e-11), ("C_SI", 299792458.0), ("MSUN_SI", 1.9884098706980507e+30), ("MTSUN_SI", 4.925490947641267e-06),
               ("PC_SI", 3.085677581491367e+16)):
    CONSTS["lal." + _k] = Fraction(_v)


# ---------------------------------------------------------------- builtins
def bi(name):
    def deco(fn):
        e = Ext("builtins." + name, fn)
        MODELS["builtins." + name] = e
        BUILTINS[name] = e
        return fn
    return deco


@bi("len")
def b_len(ctx, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyRaise(TypeError, ("len() of unsized object",))
        return v.n
    if isinstance(v, (PyList, GenVal)):
        return len(v.l)
    if isinstance(v, PyDict):
        if v.log:
            raise Unsupported("len of symbolic dict")
        return len(v.d)
    if isinstance(v, PySet):
        return len(v.s)
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, RangeVal):
        if v.step == 1:
            return clen(ite(num_cmp("<=", v.hi, v.lo), 0, isub(v.hi, v.lo)))
    if isinstance(v, SymSeq):
        return v.n
    if v is None or is_num(v):
        raise PyRaise(TypeError, ("object has no len()",))
    if isinstance(v, Host) and hasattr(v, "items"):
        return len(list(v.items()))
    if isinstance(v, Obj):
        m, _ = v.cls.lookup("__len__")
        if m:
            return ctx.call(BoundMethod(m, v))
    raise Unsupported(f"len of {v!r}")


@bi("range")
def _(ctx, args, kw):
    a = [conc(x) for x in args]
    for x in a:
        if isinstance(x, Fraction) or x is None or isinstance(x, str) or (is_z3(x) and not z3.is_int(x)):
            raise PyRaise(TypeError, ("object cannot be interpreted as an integer",))
    if len(a) == 1:
        return RangeVal(0, a[0], 1)
    if len(a) == 2:
        return RangeVal(a[0], a[1], 1)
    if isinstance(a[2], int) and a[2] == 0:
        raise PyRaise(ValueError, ("range() arg 3 must not be zero",))
    st = a[2]
    if (st == 0 if isinstance(st, int) else ctx.branch(to_z3(st) == 0)):
        raise PyRaise(ValueError, ("range() arg 3 must not be zero",))
    return RangeVal(*a)


@bi("slice")
def _(ctx, args, kw):
    a = list(args)
    if kw or not 1 <= len(a) <= 3:
        raise PyRaise(TypeError, ("slice expected 1 to 3 arguments",))
    if len(a) == 1:
        a = [None, a[0], None]
    return SliceVal(*(a + [None] * (3 - len(a))))


@bi("zip")
def _(ctx, args, kw):
    seqs = [ctx.interp.sym_sequence(a) for a in args]
    if any(s is not None for s in seqs):
        ns, ats = [], []
        for a, s in zip(args, seqs):
            if s is None:
                items = ctx.interp.iterate(a)
                ns.append(len(items))
                ats.append(lambda k, items=items: ctx.interp.getitem(PyList(items), k))
            else:
                ns.append(s[0])
                ats.append(s[1])
        n = ns[0]
        for x in ns[1:]:
            n = clen(ite(num_cmp("<=", n, x), n, x)) if not same_len(ctx, n, x) else n
        if any(isinstance(a, LazyList) for a in args):
            return LazyList(ctx, n, lambda k: tuple(at(k) for at in ats))
        return SymSeq(n, lambda k: tuple(at(k) for at in ats))
    ls = [ctx.interp.iterate(a) for a in args]
    return GenVal([tuple(t) for t in zip(*ls)])


@bi("enumerate")
def _(ctx, args, kw):
    st = argn(args, kw, 1, "start", 0)
    s = ctx.interp.sym_sequence(args[0])
    if s is not None:
        return (LazyList if isinstance(args[0], LazyList) else lambda c, n, f: SymSeq(n, f))(ctx, s[0], lambda k: (iadd(st, k), s[1](k)))
    return GenVal([(st + k, x) for k, x in enumerate(ctx.interp.iterate(args[0]))])


@bi("sorted")
def _(ctx, args, kw):
    items = ctx.interp.iterate(args[0])
    if kw.get("key") is None and all(isinstance(x, (str, int, tuple)) for x in items):
        try:
            return PyList(sorted(items, reverse=bool(kw.get("reverse", False))))
        except TypeError as e:
            raise PyRaise(TypeError, (str(e),))
    if kw.get("key") is not None and not is_z3(kw.get("reverse", False)):
        ks = [ctx.interp.call(kw["key"], [x]) for x in items]
        if all(isinstance(k, (str, int, Fraction, tuple)) for k in ks):
            o = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(kw.get("reverse", False)))
            return PyList([items[i] for i in o])
    raise Unsupported("sorted of symbolic values")


@bi("reversed")
def _(ctx, args, kw):
    return GenVal(list(reversed(ctx.interp.iterate(args[0]))))


@bi("any")
def _(ctx, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        return any_of(ctx, v)
    for x in ctx.interp.iterate(v):
        if ctx.interp.truth(x):
            return True
    return False


@bi("all")
def _(ctx, args, kw):
    v = args[0]
    if isinstance(v, Arr):
        return all_of(ctx, v)
    for x in ctx.interp.iterate(v):
        if not ctx.interp.truth(x):
            return False
    return True


def minmax(op):
    def f(ctx, args, kw):
        it = ctx.interp
        if "default" in kw:
            raise Unsupported("min default")
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Arr):
                if v.ndim == 0:
                    raise PyRaise(TypeError, ("iteration over a 0-d array",))
                if isinstance(v.n, int) and v.n == 0:
                    raise PyRaise(ValueError, ("arg is an empty sequence",))
                if kw.get("key") is None:
                    return extreme(ctx, v, op)
            if isinstance(v, LazyList) and kw.get("key") is None:
                if ctx.branch(num_cmp("==", v.n, 0)):
                    raise PyRaise(ValueError, ("arg is an empty sequence",))
                w = ctx.int("extreme")
                ctx.assume(w >= 0)
                ctx.assume(num_cmp("<", w, v.n))
                r = v.at(w)
                if not is_num(r):
                    raise Unsupported("extreme of a list of unbounded length")
                ctx.extremes.append((v, r))
                v.bounded_by(lambda x: ctx.assume(num_cmp("<=" if op == "<" else ">=", r, x)))
                return r
            items = it.iterate(v)
        else:
            items = list(args)
        if not items:
            raise PyRaise(ValueError, ("arg is an empty sequence",))
        key = kw.get("key")
        ks = [it.call(key, [x]) for x in items] if key is not None else items
        for k in ks:
            if isinstance(k, Opaque):
                return opaque_op(k)
        best, kb = items[0], ks[0]
        for x, k in zip(items[1:], ks[1:]):
            c = it.cmp(op, k, kb)
            if key is not None or not (is_num(x) and is_num(best)):
                if ctx.branch(c):
                    best, kb = x, k
            else:
                if is_z3(conc(c)):
                    if ctx.entailed(c, 400):
                        c = True
                    elif ctx.entailed(z3.Not(to_z3(c)), 400):
                        c = False
                best = kb = ite(c, x, best)
        return best
    return f


bi("min")(minmax("<"))
bi("max")(minmax(">"))


@bi("sum")
def _(ctx, args, kw):
    out = argn(args, kw, 1, "start", 0)
    v = args[0]
    if isinstance(v, Arr):
        return num_binop("+", out, arr_sum(ctx, v), ctx)
    if isinstance(v, LazyList):
        if ctx.choose(2):            # how often something holds: sum(1 for ...)
            k = ctx.int("any")
            ctx.assume(z3.And(k >= 0, k < to_z3(v.n)))
            x = conc(v.at(k))
            if not isinstance(x, int) or x != 1:
                raise Unsupported("sum over a list of unbounded length")
            raise PathEnd()
        return iadd(out, v.n)
    for x in ctx.interp.iterate(v):
        out = ctx.interp.binop("+", out, x)
    return out


@bi("abs")
def _(ctx, args, kw):
    return unary(ctx, lambda x: f_abs(ctx, x), args[0], "real")


@bi("round")
def _(ctx, args, kw):
    v = conc(args[0])
    if isinstance(v, (int, Fraction)) and len(args) == 1:
        return round(v)
    raise Unsupported("round")


@bi("print")
def _(ctx, args, kw):
    ctx.events.append(("print", args))


@bi("isinstance")
def b_isinstance(ctx, args, kw):
    v, t = args
    if isinstance(t, (tuple, PyList)):
        ts = t if isinstance(t, tuple) else t.l
        return b_or(*[b_isinstance(ctx, [v, x], {}) for x in ts])
    if isinstance(t, TypeTag):
        if isinstance(v, SymVal):
            return v.isinstance(ctx, t)
        if isinstance(v, Opaque):
            if getattr(v, "is_str", False):
                return t.name == "str"
            return opaque_op(v)
        return bool(t.test(v))
    if isinstance(t, ClassVal):
        return isinstance(v, Obj) and t in v.cls.mro() or isinstance(v, ExcVal) and isinstance(v.cls, ClassVal) and t in v.cls.mro()
    if isinstance(t, type) and isinstance(v, ExcVal) and isinstance(v.cls, type):
        return issubclass(v.cls, t)
    if isinstance(t, Opaque):
        if isinstance(v, Obj) and getattr(v, "ext_type", None) is not None:
            return v.ext_type == t.name
        return opaque_op(t)
    raise Unsupported(f"isinstance {t!r}")


class SymVal:
    """a value whose type is part of the contract (contracts subclass it)."""

    def isinstance(self, ctx, t):
        raise Unsupported("isinstance of symbolic value")


@bi("type")
def _(ctx, args, kw):
    v = args[0]
    for nm in ("str", "bool", "int", "float", "tuple", "list", "dict"):
        if not isinstance(v, Opaque) and BUILTINS[nm].test(v):
            return BUILTINS[nm]
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Arr):
        return NDARRAY
    return mk_opaque("type")


@bi("hasattr")
def _(ctx, args, kw):
    o, a = args
    if isinstance(o, Obj):
        if a in o.attrs:
            return True
        v, c = o.cls.lookup(a)
        return c is not None
    r = ctx.interp.getattr(o, a, default=None)
    return r is not None


@bi("getattr")
def _(ctx, args, kw):
    return ctx.interp.getattr(args[0], args[1], *( [args[2]] if len(args) > 2 else []))


@bi("setattr")
def _(ctx, args, kw):
    ctx.interp.setattr(args[0], args[1], args[2])


@bi("callable")
def _(ctx, args, kw):
    v = args[0]
    if isinstance(v, SymVal) or isinstance(v, Opaque):
        return getattr(v, "callable_", opaque_op(Opaque("callable")))
    return isinstance(v, (FuncVal, BoundMethod, ClassVal, Ext, Spline, TypeTag)) or (isinstance(v, Obj) and v.cls.lookup("__call__")[0] is not None) or (callable(v) and not isinstance(v, Opaque))


@bi("repr")
def _(ctx, args, kw):
    o = mk_opaque("str")
    o.is_str = True
    return o


@bi("id")
def _(ctx, args, kw):
    return id(args[0])


@bi("map")
def _(ctx, args, kw):
    return GenVal([ctx.interp.call(args[0], list(t)) for t in zip(*[ctx.interp.iterate(a) for a in args[1:]])])


@bi("filter")
def _(ctx, args, kw):
    return GenVal([x for x in ctx.interp.iterate(args[1]) if ctx.interp.truth(ctx.interp.call(args[0], [x]) if args[0] is not None else x)])


@bi("float")
def b_float(ctx, args, kw):
    v = conc(args[0]) if args else Fraction(0)
    if isinstance(v, Arr):
        v = scalar_of(ctx, v)
    if isinstance(v, bool) or isinstance(v, int):
        return Fraction(int(v))
    if isinstance(v, Fraction):
        return v
    if is_z3(v):
        v = b2i(v)
        return z3.ToReal(v) if z3.is_int(v) else v
    if isinstance(v, str):
        if v in ("inf", "-inf", "nan"):
            return mk_opaque("inf")
        try:
            return Fraction(repr(float(v)))
        except ValueError:
            raise PyRaise(ValueError, ("could not convert string to float",))
    if isinstance(v, Opaque):
        return opaque_op(v)
    raise PyRaise(TypeError, ("float() argument",))


def scalar_of(ctx, v):
    if v.ndim == 0:
        return v.at()
    if not ctx.branch(num_cmp("==", v.n, 1)):
        raise PyRaise(TypeError, ("only length-1 arrays can be converted",))
    return v.at(0)


def b_int(ctx, args, kw):
    v = conc(args[0]) if args else 0
    if isinstance(v, Arr):
        v = scalar_of(ctx, v)
    if isinstance(v, (bool, int, Fraction)):
        return int(v)
    if is_z3(v):
        return trunc(b2i(v))
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise(ValueError, ("invalid literal for int()",))
    if isinstance(v, SymStr):
        return v.to_int(ctx)
    if isinstance(v, Opaque):
        return opaque_op(v)
    raise PyRaise(TypeError, ("int() argument must be a string or a number",))


def b_str(ctx, args, kw):
    v = args[0] if args else ""
    if isinstance(v, str) or isinstance(v, SymStr):
        return v
    if isinstance(v, int) and not isinstance(v, bool):
        return str(v)
    if v is None:
        return "None"
    if isinstance(v, bool):
        return str(v)
    o = mk_opaque("str")
    o.is_str = True
    if isinstance(v, ExcVal):
        o.exc = v
        if len(v.args) == 1 and isinstance(v.args[0], str) and v.cls is not KeyError:
            return v.args[0]
        if len(v.args) == 1 and isinstance(v.args[0], str):
            return repr(v.args[0])
    return o


def b_bool(ctx, args, kw):
    v = args[0] if args else False
    if is_boolv(conc(v)):
        return v
    return ctx.interp.truth(v)


def b_list(ctx, args, kw):
    if args and isinstance(args[0], LazyList):
        o = args[0]
        r = LazyList(ctx, o.n, o.at)
        r.filters, r.source = o.filters, o
        return r
    if args and isinstance(args[0], RangeVal) and not all(isinstance(conc(x), int) for x in (args[0].lo, args[0].hi, args[0].step)):
        return args[0]      # read-only use of list(range(..))
    return PyList(ctx.interp.iterate(args[0])) if args else PyList()


def b_tuple(ctx, args, kw):
    return tuple(ctx.interp.iterate(args[0])) if args else ()


def b_dict(ctx, args, kw):
    d = PyDict()
    if args:
        v = args[0]
        if isinstance(v, PyDict):
            d.d.update(v.d)
            d.log = list(v.log)
        elif isinstance(v, (PyList, GenVal, tuple)):
            for p in ctx.interp.iterate(v):
                k, x = ctx.interp.unpack(p, 2)
                d.d[ctx.interp.key(k)] = x
        elif v is None:
            raise PyRaise(TypeError, ("'NoneType' object is not iterable",))
        else:
            raise Unsupported("dict()")
    d.d.update(kw)
    return d


def b_set(ctx, args, kw):
    if not args:
        return PySet()
    items = ctx.interp.iterate(args[0])
    return PySet(set(ctx.interp.key(x) for x in items))


BUILTINS.update(
    int=TypeTag("int", lambda v: (isinstance(v, int)) or (is_z3(v) and z3.is_int(v)), b_int),
    float=TypeTag("float", lambda v: isinstance(v, Fraction) or (is_z3(v) and z3.is_real(v)), b_float),
    bool=TypeTag("bool", lambda v: is_boolv(v), b_bool),
    str=TypeTag("str", lambda v: isinstance(v, (str, SymStr)), b_str),
    list=TypeTag("list", lambda v: isinstance(v, (PyList, LazyList)), b_list),
    tuple=TypeTag("tuple", lambda v: isinstance(v, tuple), b_tuple),
    dict=TypeTag("dict", lambda v: isinstance(v, PyDict), b_dict),
    set=TypeTag("set", lambda v: isinstance(v, PySet), b_set),
    complex=TypeTag("complex", lambda v: isinstance(v, CV)),
    object=TypeTag("object", lambda v: True),
)
BUILTINS["Ellipsis"] = Ellipsis
MODELS["builtins.float"] = Ext("builtins.float", b_float)


# ---------------------------------------------------------------- methods of values
def value_attr(it, o, a):
    ctx = it.ctx
    if isinstance(o, Arr):
        return arr_attr(it, o, a)
    if isinstance(o, PyDict):
        return dict_attr(it, o, a)
    if isinstance(o, PyList):
        return list_attr(it, o, a)
    if isinstance(o, str):
        return str_attr(it, o, a)
    if isinstance(o, SymStr):
        return o.attr(ctx, a)
    if isinstance(o, PySet):
        def m_add(c, args, kw):
            o.s.add(it.key(args[0]))
        tbl = {"add": m_add,
               "difference": lambda c, args, kw: PySet(o.s - set(it.iterate(args[0]))),
               "union": lambda c, args, kw: PySet(o.s | set(it.iterate(args[0]))),
               "issubset": lambda c, args, kw: o.s <= set(it.iterate(args[0]))}
        return Ext("set." + a, tbl[a]) if a in tbl else MISSING
    if isinstance(o, Host):
        return o.host_attr(a)
    if isinstance(o, StructVal):
        return o.attrs.get(a, MISSING)
    if isinstance(o, Spline):
        if a == "derivative":
            def der(c, args, kw):
                n = argn(args, kw, 0, "n", 1)
                s = Spline(c, o.x, o.y, o.kw, o.kind)
                s.deriv_of = (o, n)
                return s
            return Ext("spline.derivative", der)
        return MISSING
    if isinstance(o, LazyList):
        if a == "append":
            return Ext("list.append", lambda c, x, k: o.append(c, x[0]))
        raise Unsupported(f"list.{a} on a list of unbounded length")
    if isinstance(o, SliceVal):
        return {"start": o.lo, "stop": o.hi, "step": o.step}.get(a, MISSING)
    if isinstance(o, (TypeTag,)):
        if a == "__name__":
            return o.name
        return MISSING
    if isinstance(o, FuncVal):
        if a == "__name__":
            return o.name
        return MISSING
    if isinstance(o, tuple) and a == "index":
        return MISSING
    if isinstance(o, tuple) and a == "count":
        return MISSING
    if is_num(o) or isinstance(o, CV) or is_boolv(o):
        if a in ("real",):
            return CV.lift(o).re
        if a == "imag":
            return CV.lift(o).im
        if a == "ndim":
            return 0
        if a == "shape":
            return ()
        if a == "size":
            return 1
        if a in ("copy", "item"):
            return Ext("scalar." + a, lambda c, args, kw: o)
        if a in ("sum", "max", "min", "mean"):
            return Ext("scalar." + a, lambda c, args, kw: o)
        if a == "astype":
            return Ext("scalar.astype", lambda c, args, kw: trunc(o) if dtype_kind(args[0]) == "int" else o)
        if a == "dtype":
            return DType(kind_of([o]))
        return MISSING
    if isinstance(o, Obj):
        return MISSING
    if callable(getattr(o, "attr", None)) and isinstance(o, SymVal):
        return o.attr(ctx, a)
    return MISSING


def arr_attr(it, o, a):
    ctx = it.ctx
    if a == "shape":
        return tuple(o.shape)
    if a == "ndim":
        return o.ndim
    if a == "size":
        r = 1
        for s in o.shape:
            r = imul(r, s)
        return r
    if a == "dtype":
        return DType(o.kind)
    if a == "T":
        if o.ndim < 2:
            return o
        dims = [d if d[0] == "fix" else ("dim", 1 - d[1], d[2], d[3]) for d in o.dims]
        return Arr((o.shape[1], o.shape[0]), o.buf, dims, o.kind)
    if a == "real":
        return unary(ctx, lambda x: CV.lift(x).re, o, "real")
    if a == "imag":
        return unary(ctx, lambda x: CV.lift(x).im, o, "real")
    np_same = {"sum": "numpy.sum", "mean": "numpy.mean", "min": "numpy.min", "max": "numpy.max", "argmin": "numpy.argmin",
               "argmax": "numpy.argmax", "any": "numpy.any", "all": "numpy.all", "cumsum": "numpy.cumsum", "dot": "numpy.dot",
               "argsort": "numpy.argsort", "conj": "numpy.conj", "searchsorted": "numpy.searchsorted", "nonzero": "numpy.nonzero"}
    if a in np_same:
        return Ext(np_same[a], lambda c, args, kw: MODELS[np_same[a]].fn(c, [o] + args, kw))
    tbl = {
        "copy": lambda c, args, kw: copy_arr(c, o),
        "astype": lambda c, args, kw: astype(c, o, args[0]),
        "ravel": lambda c, args, kw: o if o.ndim == 1 else Unsup(),
        "flatten": lambda c, args, kw: copy_arr(c, o) if o.ndim == 1 else Unsup(),
        "item": lambda c, args, kw: scalar_of(c, o),
        "tolist": lambda c, args, kw: PyList(it.iterate(o)),
        "fill": lambda c, args, kw: store(c, o, args[0]),
        "squeeze": lambda c, args, kw: Unsup(),
    }
    if a in tbl:
        return Ext("ndarray." + a, tbl[a])
    return MISSING


def dict_attr(it, o, a):
    ctx = it.ctx

    def guard():
        if o.log:
            raise Unsupported("dict with symbolic keys")

    def get(c, args, kw):
        guard()
        k = it.key(args[0])
        if it.sym_key(k):
            raise Unsupported("symbolic dict key")
        return o.d.get(k, args[1] if len(args) > 1 else None)

    def update(c, args, kw):
        guard()
        o.writes += 1
        if args:
            src = args[0]
            if isinstance(src, PyDict):
                if src.log:
                    raise Unsupported("symbolic keys")
                o.d.update(src.d)
            else:
                for p in it.iterate(src):
                    k, v = it.unpack(p, 2)
                    o.d[it.key(k)] = v
        o.d.update(kw)

    def pop(c, args, kw):
        guard()
        o.writes += 1
        k = it.key(args[0])
        if k in o.d:
            return o.d.pop(k)
        if len(args) > 1:
            return args[1]
        raise PyRaise(KeyError, (k,))

    def setdefault(c, args, kw):
        guard()
        k = it.key(args[0])
        if k not in o.d:
            o.writes += 1
            o.d[k] = args[1] if len(args) > 1 else None
        return o.d[k]

    def clear(c, args, kw):
        o.writes += 1
        o.d.clear()

    def keys(c, args, kw):
        guard()
        return PyList(list(o.d.keys()))

    def values(c, args, kw):
        guard()
        return PyList(list(o.d.values()))

    def items(c, args, kw):
        guard()
        return PyList([(k, v) for k, v in o.d.items()])

    def copy(c, args, kw):
        guard()
        return PyDict(o.d)
    tbl = dict(get=get, update=update, pop=pop, setdefault=setdefault, clear=clear, keys=keys, values=values, items=items, copy=copy)
    return Ext("dict." + a, tbl[a]) if a in tbl else MISSING


def list_attr(it, o, a):
    def w(f):
        def g(c, args, kw):
            o.writes += 1
            return f(*args)
        return g

    def remove(x):
        for k, y in enumerate(o.l):
            if it.ctx.branch(it.equal(x, y)):
                del o.l[k]
                return
        raise PyRaise(ValueError, ("not in list",))

    def pop(i=-1):
        if not o.l:
            raise PyRaise(IndexError, ("pop from empty list",))
        return o.l.pop(i)

    def index(c, args, kw):
        for k, y in enumerate(o.l):
            if it.ctx.branch(it.equal(args[0], y)):
                return k
        raise PyRaise(ValueError, ("not in list",))
    tbl = {"append": w(lambda x: o.l.append(x)), "extend": w(lambda x: o.l.extend(it.iterate(x))),
           "insert": w(lambda i, x: o.l.insert(i, x)), "remove": w(remove), "pop": w(pop), "clear": w(lambda: o.l.clear()),
           "reverse": w(lambda: o.l.reverse()),
           "copy": lambda c, args, kw: PyList(o.l), "index": index,
           "count": lambda c, args, kw: sum_list(it.ctx, [b2i(it.equal(args[0], y)) for y in o.l])}
    return Ext("list." + a, tbl[a]) if a in tbl else MISSING


STR_OK = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "rsplit", "replace", "join", "format",
          "splitlines", "isdigit", "title", "capitalize", "count", "find", "zfill", "ljust", "rjust", "partition", "rpartition"}


def str_attr(it, o, a):
    if a not in STR_OK:
        return MISSING

    def m(c, args, kw):
        if a == "join":
            items = it.iterate(args[0])
            if all(isinstance(x, str) for x in items):
                return o.join(items)
            r = mk_opaque("str")
            r.is_str = True
            return r
        if a == "format":
            r = mk_opaque("str")
            r.is_str = True
            return r
        pa = []
        for x in args:
            if isinstance(x, PyList):
                x = list(x.l)
            if isinstance(x, Opaque):
                r = mk_opaque("str")
                r.is_str = True
                return r
            pa.append(x)
        r = getattr(o, a)(*pa)
        return PyList(r) if isinstance(r, list) else r
    return Ext("str." + a, m)
