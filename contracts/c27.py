"""C27 errors between two methods are compared at identical times only."""
from .common import *
from . import contract
from .c03 import select

CE = "compare_methods:compute_errors_between_methods"
NOTE = "numpy.testing.assert_allclose has its default relative tolerance 1e-7; np.unwrap is a deterministic function of its argument"


def two(ctx, same_ref=True):
    n = ctx.length("n_ref", 1)
    m1, m2 = ctx.length("m1", 1), ctx.length("m2", 1)
    ref = ctx.arr("tref_in", n)
    os_ = []
    for k, m in ((1, m1), (2, m2)):
        a = {x: ctx.arr(f"{x}{k}", m) for x in ("tref_out", "eccentricity", "mean_anomaly")}
        lo, hi = ctx.real(f"tmin{k}"), ctx.real(f"tmax{k}")
        os_.append(ctx.obj(ED, tref_in=ref, tmin=lo, tmax=hi, **a))
    return os_[0], os_[1], m1, m2


def limits(ctx, a, b, given):
    lo = ite(a.attrs["tmin"] >= b.attrs["tmin"], a.attrs["tmin"], b.attrs["tmin"])
    hi = ite(a.attrs["tmax"] <= b.attrs["tmax"], a.attrs["tmax"], b.attrs["tmax"])
    l, u = given
    L = lo if l is None else ite(lo >= l, lo, l)
    U = hi if u is None else ite(hi <= u, hi, u)
    return lo, hi, L, U


def given(ctx):
    return (ctx.real("lower") if ctx.choose(2) else None, ctx.real("upper") if ctx.choose(2) else None)


@contract(on=[CE])
def comparison(ctx):
    """For all results of two methods and all optional limits: each side contributes exactly its reference times t with t_start <= t < t_end; raises unless they agree; eccentricity errors are absolute differences and mean anomaly errors absolute differences of the unwrapped mean anomalies at these, in order, all of one length; limits beyond the common range raise; nothing is modified."""
    a, b, m1, m2 = two(ctx)
    g = given(ctx)
    kw = {k: v for k, v in zip(("tmin", "tmax"), g) if v is not None}
    lo, hi, L, U = limits(ctx, a, b, g)
    arrs = [o.attrs[k] for o in (a, b) for k in ("tref_out", "eccentricity", "mean_anomaly")]
    for x in arrs:
        ctx.watch(x)
    out = ctx.outcome(CE, a, b, **kw)
    ctx.frame("measurements not modified", *arrs)
    beyond = [g[0] > hi] if g[0] is not None else []
    beyond += [g[1] < L] if g[1] is not None else []
    inside = lambda o: (lambda i: z3.And(o.attrs["tref_out"].at(i) >= L, o.attrs["tref_out"].at(i) < U))
    sel = [select(ctx, o.attrs["tref_out"], inside(o)) for o in (a, b)]
    if raised(out):
        # refused: limits beyond the range, or the times do not coincide
        if ctx.branch(z3.Or(*beyond) if beyond else z3.BoolVal(False)):
            ctx.prove("limits beyond the common range", True)
            return
        ctx.assume(to_z3(num_cmp("==", sel[0].n, sel[1].n)))
        ctx.forall(sel[0].n, lambda i: sel[0].at(i) == sel[1].at(i))
        ctx.unreachable("identical times inside the range are accepted")
        return
    if beyond:
        ctx.prove("limits beyond the common range are refused", z3.Not(z3.Or(*beyond)))
    r = out[1]
    ctx.prove("seven results", isinstance(r, tuple) and len(r) == 7)
    n = sel[0].n
    ctx.prove("same number of times", num_cmp("==", sel[1].n, n))
    same_array(ctx, "times are those inside the range", r[0], sel[0], n)
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))
    d = sel[0].at(i) - sel[1].at(i)
    tol = Fraction(1, 10 ** 7) * z3.If(sel[1].at(i) >= 0, sel[1].at(i), -sel[1].at(i))
    ctx.prove("times of the two coincide", z3.And(d <= tol, -d <= tol))
    by = lambda o, k: select_same(ctx, o, k, inside(o))
    exp = {}
    for nm, o, ke, km in (("1", a, 3, 5), ("2", b, 4, 6)):
        for key, q in (("eccentricity", ke), ("mean_anomaly", km)):
            exp[key + nm] = by(o, key)
            same_array(ctx, f"{key} of method {nm}", r[q], exp[key + nm], n)
    e1, e2 = r[3].at(i), r[4].at(i)
    ctx.prove("eccentricity errors: length", num_cmp("==", r[1].n, n))
    ctx.prove("eccentricity errors", r[1].at(i) == z3.If(e1 >= e2, e1 - e2, e2 - e1))
    ctx.prove("mean anomaly errors: length", num_cmp("==", r[2].n, n))
    from pyvc.npmodel import MODELS
    u1, u2 = (MODELS["numpy.unwrap"].fn(ctx, [exp["mean_anomaly" + q]], {}).at(i) for q in "12")
    ctx.prove("mean anomaly errors", r[2].at(i) == z3.If(u1 >= u2, u1 - u2, u2 - u1))


def select_same(ctx, o, key, pred):
    from pyvc.npmodel import mask_select
    base = o.attrs["tref_out"]
    mask = new_arr((base.n,), pred, "bool")
    return mask_select(ctx, o.attrs[key], mask)


@contract(on=[CE])
def different_references_refused(ctx):
    """Measurements made at different reference times are refused."""
    a, b, m1, m2 = two(ctx)
    n = a.attrs["tref_in"].n
    other = ctx.arr("other_tref_in", n)
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, n))
    d = a.attrs["tref_in"].at(k) - other.at(k)
    y = other.at(k)
    tol = Fraction(1, 10 ** 7) * z3.If(y >= 0, y, -y)
    ctx.assume(z3.Or(d > tol, -d > tol))
    b.attrs["tref_in"] = other
    expect_raise(ctx, "different reference times", ctx.outcome(CE, a, b))
