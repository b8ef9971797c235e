"""C18 interpolation."""
from .common import *
from . import contract

IP = UT + "interpolate"
GI = UT + "get_interpolant"
TOL = Fraction(1, 10 ** 10)


def setup(ctx):
    n = ctx.length("n", 0)
    X = ctx.arr("oldX", n)
    m = ctx.length("m", 0)
    Y = ctx.arr("oldY", m)
    return n, X, m, Y


def splines(ctx):
    return [e[1] for e in ctx.events if e[0] == "spline"]


def check_interpolant(ctx, s, X, Y, n, kind, extrapolate, korder):
    """s is the trusted interpolant through exactly (X, Y), with the caller's extrapolation flag and order."""
    ctx.prove("one interpolant built", isinstance(s, Spline))
    if not isinstance(s, Spline):
        return
    ctx.prove("kind of interpolant", s.kind == {"monotonic_spline": "pchip"}.get(kind, kind))
    ctx.prove("number of nodes", num_cmp("==", s.n, n))
    i = ctx.int("node", 0)
    ctx.assume(num_cmp("<", i, n))
    ctx.prove("node abscissae", num_cmp("==", s.xs(i), X.at(i)))
    ctx.prove("node ordinates", num_cmp("==", s.ys(i), Y.at(i)))
    if kind == "spline":
        ext = conc(s.kw.get("ext", 0))
        ctx.prove("extrapolation only as the caller asked", (ext == 2) == (not extrapolate) if not is_z3(ext) else False)
        k = s.kw.get("k", 3)
        want = ite(num_cmp("<=", n, korder), isub(n, 1), korder)
        ctx.prove("spline order", num_cmp("==", k, want))
        ctx.prove("all points weigh the same", s.kw.get("w") is None)
    else:
        ctx.prove("extrapolation only as the caller asked", s.kw.get("extrapolate") is extrapolate)


@contract(on=[GI, UT + "check_kwargs_and_set_defaults", UT + "get_default_spline_kwargs"], paths=1500)
def get_interpolant_contract(ctx):
    """get_interpolant raises iff the abscissae are not strictly increasing, there are fewer than two points or the interpolator is unknown (given equal lengths); else it is the interpolant through exactly the given points, of order min(k, n-1), extrapolating iff allowed by the caller's flag whatever `ext` says."""
    n = ctx.length("n", 0)
    X, Y = ctx.arr("oldX", n), ctx.arr("oldY", n)
    kind = ["spline", "monotonic_spline", "other"][ctx.choose(3)]
    extrap = ctx.choose(2) == 1
    kk = [None, 1, 2, 4, 5][ctx.choose(5)] if kind == "spline" else None
    ext = [None, 0, 1, 2, 3][ctx.choose(5)] if kind == "spline" else None
    given = {}
    if kk is not None:
        given["k"] = kk
    if ext is not None:
        given["ext"] = ext
    kw = None if not given else ctx.dict(given, name="spline_kwargs")
    out = ctx.outcome(GI, X, Y, extrap, kind, kw)
    if raised(out):
        if kind == "other":
            ctx.prove("unknown interpolator raises", True)
            return
        with ctx.assuming_all(isub(n, 1) if not isinstance(n, int) else max(n - 1, 0), lambda i: X.at(i) < X.at(iadd(i, 1))):
            if kind == "spline":
                ctx.prove("raises only for unordered or too few points", num_cmp("<", n, 2))
            else:
                ctx.prove("raises only for unordered or too few points", num_cmp("<", n, 2))
        return
    ctx.prove("unknown interpolator is refused", kind != "other")
    ctx.prove("at least two points", num_cmp(">=", n, 2))
    ctx.prove_all("accepted abscissae increase", isub(n, 1), lambda i: X.at(i) < X.at(iadd(i, 1)))
    e = 2 if ext is None else ext
    s = splines(ctx)
    ctx.prove("returns the interpolant that was built", len(s) == 1 and out[1] is s[0])
    if extrap and ext in (1, 3):
        # the caller's own out-of-range policy (zeros / boundary value) is kept
        ctx.prove("caller's ext kept", conc(s[0].kw.get("ext")) == ext)
        return
    check_interpolant(ctx, s[-1], X, Y, n, kind, extrap, 3 if kk is None else kk)


@contract(on=[IP, GI], paths=1500)
def interpolate_contract(ctx):
    """interpolate raises for unequal lengths and, unless extrapolation is allowed, when a requested point is outside the data range by more than 1e-10; otherwise it evaluates the interpolant through exactly the given points at exactly the requested points."""
    n, X, m, Y = setup(ctx)
    q = ctx.length("q", 1)
    new = ctx.arr("newX", q)
    kind = ["spline", "monotonic_spline"][ctx.choose(2)]
    extrap = ctx.choose(2) == 1
    out = ctx.outcome(IP, new, X, Y, extrap, kind)
    lo = lambda: num_binop("-", X.at(0), TOL, ctx)
    hi = lambda: num_binop("+", X.at(isub(n, 1)), TOL, ctx)
    if raised(out):
        # everything valid -> contradiction
        ctx.strictly_increasing(X)
        ctx.assume(num_cmp("==", n, m))
        ctx.assume(num_cmp(">=", n, 2))
        if not extrap:
            with ctx.assuming_all(q, lambda i: z3.And(new.at(i) >= X.at(0), new.at(i) <= X.at(isub(n, 1)))):
                ctx.unreachable("valid in-range requests are accepted")
        else:
            ctx.unreachable("valid requests are accepted when extrapolation is allowed")
        return
    ctx.prove("equal lengths", num_cmp("==", n, m))
    ctx.prove("at least two points", num_cmp(">=", n, 2))
    ctx.prove_all("accepted abscissae increase", isub(n, 1), lambda i: X.at(i) < X.at(iadd(i, 1)))
    r = out[1]
    ctx.prove("result length", num_cmp("==", r.n, q))
    s = splines(ctx)
    ctx.prove("one interpolant", len(s) == 1)
    check_interpolant(ctx, s[-1], X, Y, n, kind, extrap, 3)
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, q))
    if not extrap:
        ctx.prove("no silent extrapolation", z3.And(to_z3(new.at(i)) >= to_z3(lo()), to_z3(new.at(i)) <= to_z3(hi())))
    ctx.prove("value of the interpolant at the requested point", r.at(i) == s[-1].fn(new.at(i)))


@contract(on=[GI])
def caller_kwargs_ext(ctx):
    """The number of nodes, order and out-of-range policy of one interpolant do not depend on an earlier call with the default options."""
    n = ctx.length("n", 5)
    X, Y = ctx.arr("oldX", n), ctx.arr("oldY", n)
    ctx.strictly_increasing(X)
    ctx.no_raise("extrapolating call", GI, X, Y, True)
    ctx.no_raise("plain call", GI, X, Y)
    s = splines(ctx)
    ctx.prove("two interpolants", len(s) == 2)
    ctx.prove("the second does not extrapolate", conc(s[1].kw.get("ext")) == 2)
    ctx.prove("same order", conc(s[1].kw.get("k")) == 3)
