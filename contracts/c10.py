"""C10 peak time by a parabola; total amplitude; merger."""
from .common import *
from . import contract

PK = UT + "peak_time_via_quadratic_fit"
AM = UT + "amplitude_using_all_modes"


def rl(i):
    i = to_z3(i)
    return z3.ToReal(i) if z3.is_int(i) else i


def setup(ctx, shift=None):
    n = ctx.length("n", 5)
    dt, t0 = ctx.real("dt"), ctx.real("t0")
    ctx.assume(dt > 0)
    t = new_arr((n,), lambda i: t0 + rl(i) * dt, "real", "t")
    f = ctx.arr("f", n)
    return n, dt, t0, t, f


def centre(ctx, n, f):
    """the documented centre: the first largest sample, moved inwards so that five samples exist."""
    from pyvc.npmodel import extreme_idx
    k = extreme_idx(ctx, f, ">")
    if ctx.branch(num_cmp("<=", k, 2)) or ctx.branch(num_cmp("<=", n, 5)):
        return 2
    if ctx.branch(num_cmp(">=", k, isub(n, 3))):
        return isub(n, 3)
    return k


@contract(on=[PK], lengths=(5, 6, 7), timeout=8000)
def least_squares_parabola(ctx):
    """For arbitrary samples on a uniform grid: time and value are those of the vertex of the least-squares parabola through the five samples centred at the largest one (moved inwards only as far as needed)."""
    n, dt, t0, t, f = setup(ctx)
    c = centre(ctx, n, f)
    y = [f.at(iadd(c, j)) for j in (-2, -1, 0, 1, 2)]
    # normal equations of the uniform five-point window
    b1 = (-2 * y[0] - y[1] + y[3] + 2 * y[4]) / (10 * dt)
    b2 = (2 * y[0] - y[1] - 2 * y[2] - y[3] + 2 * y[4]) / (14 * dt * dt)
    b0 = (-3 * y[0] + 12 * y[1] + 17 * y[2] + 12 * y[3] - 3 * y[4]) / 35
    ctx.assume(2 * y[0] - y[1] - 2 * y[2] - y[3] + 2 * y[4] != 0)
    ctx.watch(f)
    r = ctx.no_raise("call", PK, t, f)
    tm, val = scalar(r[0]), scalar(r[1])
    ctx.frame("data not modified", f)
    ctx.prove("peak time", tm == t.at(c) - b1 / (2 * b2))
    ctx.prove("peak value", val == b0 - b1 * b1 / (4 * b2))


@contract(on=[PK], lengths=(5, 6, 7), timeout=8000)
def exact_on_parabola(ctx):
    """If the five samples lie on c0 + c1 t + c2 t^2 (c2 != 0): time = -c1/(2 c2), value = c0 - c1^2/(4 c2)."""
    # the contract least_squares_parabola, as the callee's contract
    c0, c1, c2, tc, dt = [ctx.real(v) for v in ("c0", "c1", "c2", "tc", "dt")]
    ctx.assume(z3.And(c2 != 0, dt > 0))
    y = [c0 + c1 * (tc + j * dt) + c2 * (tc + j * dt) * (tc + j * dt) for j in (-2, -1, 0, 1, 2)]
    B0, B1, B2, T, V = [ctx.real(v) for v in ("b0", "b1", "b2", "T", "V")]
    ctx.assume(z3.And(10 * dt * B1 == -2 * y[0] - y[1] + y[3] + 2 * y[4],
                      14 * dt * dt * B2 == 2 * y[0] - y[1] - 2 * y[2] - y[3] + 2 * y[4],
                      35 * B0 == -3 * y[0] + 12 * y[1] + 17 * y[2] + 12 * y[3] - 3 * y[4],
                      T == tc - B1 / (2 * B2), V == B0 - B1 * B1 / (4 * B2)))
    ctx.lemma("curvature", B2 == c2, using=[14 * dt * dt * B2 == 2 * y[0] - y[1] - 2 * y[2] - y[3] + 2 * y[4], dt > 0])
    ctx.lemma("slope", B1 == c1 + 2 * c2 * tc, using=[10 * dt * B1 == -2 * y[0] - y[1] + y[3] + 2 * y[4], dt > 0])
    ctx.lemma("constant", B0 == c0 + c1 * tc + c2 * tc * tc, using=[35 * B0 == -3 * y[0] + 12 * y[1] + 17 * y[2] + 12 * y[3] - 3 * y[4]])
    rel = [B2 == c2, B1 == c1 + 2 * c2 * tc, c2 != 0]
    ctx.prove("time is -c1/(2 c2)", T * (2 * c2) == -c1, using=rel + [T == tc - B1 / (2 * B2)])
    ctx.prove("value is c0 - c1^2/(4 c2)", V * (4 * c2) == 4 * c2 * c0 - c1 * c1,
              using=rel + [B0 == c0 + c1 * tc + c2 * tc * tc, V == B0 - B1 * B1 / (4 * B2)])


@contract(on=[PK], lengths=(5, 6, 7), timeout=8000)
def shift_covariant(ctx):
    """Shifting all times by s shifts the peak time by s and leaves the peak value unchanged, for arbitrary times and data."""
    n = ctx.length("n", 5)
    t, f = ctx.arr("t", n), ctx.arr("f", n)
    s = ctx.real("s")
    ts = new_arr((n,), lambda i: t.at(i) + s, "real", "t_shifted")
    a = ctx.outcome(PK, t, f)
    b = ctx.outcome(PK, ts, f)
    if raised(a) or raised(b):
        return
    ctx.prove("time", scalar(b[1][0]) == scalar(a[1][0]) + s)
    ctx.prove("value", scalar(b[1][1]) == scalar(a[1][1]))


@contract(on=[AM])
def quadrature_sum(ctx):
    """The total amplitude squared is the sum over all modes of |h|^2 (or A^2), for any number of modes up to 3 and any length; other data types raise; the modes are not modified."""
    n = ctx.length("n", 1)
    m = 1 + ctx.choose(3)
    modes = [(2, 2), (2, -2), (3, 3)][:m]
    dt = ["hlm", "amplm", "other"][ctx.choose(3)]
    d = ctx.dict({k: ctx.arr(f"a{i}", n, "cplx" if dt == "hlm" else "real") for i, k in enumerate(modes)}, name="modes")
    ctx.watch(d)
    out = ctx.outcome(AM, d, dt)
    if dt == "other":
        expect_raise(ctx, "unknown data type raises", out)
        return
    r = expect_return(ctx, "returns", out)
    ctx.prove("length", num_cmp("==", r.n, n))
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))
    tot = 0
    for k in modes:
        v = d.d[k].at(i)
        sq = num_binop("+", num_binop("*", v.re, v.re, ctx), num_binop("*", v.im, v.im, ctx), ctx) if dt == "hlm" else v * v
        tot = num_binop("+", tot, sq, ctx)
    v = r.at(i)
    R = ctx.real("R")
    ctx.assume(R == v)
    ctx.prove("non-negative", R >= 0)
    ctx.prove("squares add up", R * R == tot)
    ctx.frame("modes not modified", d)
