"""C08 reference frequency to time."""
from .common import *
from . import contract
from pyvc.npmodel import unary
from .c03 import select

CT = ED + ".compute_tref_in_and_fref_out_from_fref_in"
GA = ED + ".get_omega_gw_average"
GB = ED + ".get_fref_bounds"
GT = ED + ".get_t_average_for_orbit_averaged_omega_gw"
CM = ED + ".check_monotonicity_of_omega_gw_average"
METHODS = ["mean_of_extrema_interpolants", "orbit_averaged_omega_gw", "omega_gw_zeroecc"]


@contract(on=[GB])
def bounds(ctx):
    """The frequency bounds are the minimum and the maximum of the average frequency over its range of times, divided by 2 pi."""
    m = ctx.length("n_avg", 1)
    w, tw = ctx.arr("omega_average", m), ctx.arr("t_average", m)
    have = ctx.choose(2)
    o = ctx.obj(ED, extra_kwargs=ctx.dict({"use_only_these_many_orbits": [None, 5][ctx.choose(2)], "omega_gw_averaging_method": METHODS[0]}),
                debug_level=0, omega_gw_average=w if have else None, t_for_omega_gw_average=tw if have else None)
    method = METHODS[ctx.choose(3)]
    got = []

    def avg(c, a, k):
        got.append(a[1] if len(a) > 1 else k.get("method"))
        return (tw, w)
    ctx.summaries[GA] = avg
    r = ctx.no_raise("call", GB, o, method)
    lo, hi = (r.l if isinstance(r, PyList) else r)
    ctx.prove("average of the requested method", have == 1 or got == [method])
    ctx.prove_all("lower bound is below every average", m, lambda k: to_z3(lo) * 2 * PI <= w.at(k))
    ctx.prove_all("upper bound is above every average", m, lambda k: to_z3(hi) * 2 * PI >= w.at(k))
    for nm, b in (("lower", lo), ("upper", hi)):
        with ctx.assuming_all(m, lambda k: to_z3(b) * 2 * PI != w.at(k)):
            ctx.unreachable(f"{nm} bound is attained")


@contract(on=[GA])
def range_of_the_average(ctx):
    """The average is evaluated by the chosen method at exactly the sample times inside its range, in order; that range never exceeds [tmin, tmax], nor, for the orbit average, the range of the midpoints."""
    n = ctx.length("n_t", 2)
    t = ctx.arr("t", n)
    ctx.strictly_increasing(t)
    m = ctx.length("n_mid", 1)
    T, I = ctx.arr("t_mid", m), ctx.arr("order", m, "int")
    ctx.strictly_increasing(T)
    tmin, tmax = ctx.real("tmin"), ctx.real("tmax")
    method = METHODS[ctx.choose(3)]
    given = ctx.choose(2)
    ctx.summaries[GT] = lambda c, a, k: PyList([T, I])
    at = []

    def fn(nm):
        def g(c, a, k):
            at.append((nm, a[0]))
            return unary(c, lambda v: c.ufun("avg_" + nm, v), a[0], "real")
        return g
    o = ctx.obj(ED, t=t, tmin=tmin, tmax=tmax, extra_kwargs=ctx.dict({"omega_gw_averaging_method": method}),
                available_averaging_methods=ctx.dict({x: fn(x) for x in METHODS}), debug_level=0)
    r = ctx.no_raise("call", GA, o, *([method] if given else []))
    ctx.prove("evaluated once by the chosen method", len(at) == 1 and at[0][0] == method)
    lo, hi = tmin, tmax
    if method == "orbit_averaged_omega_gw":
        lo = ite(T.at(0) > tmin, T.at(0), tmin)
        e = T.at(isub(m, 1))
        hi = ite(e < tmax, e, tmax)
    exp = select(ctx, t, lambda i: z3.And(t.at(i) >= lo, t.at(i) <= hi))
    same_array(ctx, "times of the average", r[0], exp, exp.n)
    same_array(ctx, "average at these times", r[1], lambda k: ctx.ufun("avg_" + method, exp.at(k)), exp.n)
    ctx.prove_all("never beyond the measurable range", exp.n, lambda k: z3.And(r[0].at(k) >= tmin, r[0].at(k) <= tmax))


@contract(on=[CT])
def frequency_to_time(ctx):
    """Each accepted frequency f is mapped, element by element, to the value at f of the interpolant of time against (average frequency)/(2 pi), kept within the range of the average; an unknown method raises KeyError, a non-monotonic average raises, an increasing one does not."""
    m = ctx.length("n_avg", 2)
    w, tw = ctx.arr("omega_average", m), ctx.arr("t_average", m)
    ctx.strictly_increasing(tw)
    q = ctx.length("n_ref", 1)
    fin = ctx.arr("fref_in", q)
    na = ctx.length("n_acc", 1)
    fout = ctx.arr("fref_out", na)
    known = ctx.choose(4)
    method = (METHODS + ["nosuch"])[known]
    o = ctx.obj(ED, extra_kwargs=ctx.dict({"omega_gw_averaging_method": method}), debug_level=0, domain="frequency", method="Amplitude",
                available_averaging_methods=ctx.dict({x: None for x in METHODS}), general_interp_kwargs=ctx.dict({"k": 3}),
                debug_plots=False, omega_gw_average=None)
    got, ip, asked = [], [], []

    def acc(c, a, k):
        got.append(a[1:])
        return fout

    def avg(c, a, k):
        asked.append(a[1] if len(a) > 1 else k.get("method"))
        return (tw, w)
    ctx.summaries[ED + ".get_fref_out"] = acc
    ctx.summaries[GA] = avg

    def interp(c, a, k):
        arg = dict(zip(("new_x", "old_x", "old_y", "spline_kwargs"), a))
        arg.update(k)
        ip.append(arg)
        return unary(c, lambda v: c.ufun("inverse", v), arg["new_x"], "real")
    ctx.summaries[UT + "interpolate"] = interp
    ctx.watch(fin)
    inc = lambda k: w.at(k) < w.at(k + 1)
    out = ctx.outcome(CT, o, fin)
    ctx.frame("reference frequencies not modified", fin)
    if known == 3:
        expect_raise(ctx, "unknown method", out)
        return
    if raised(out):
        with ctx.assuming_all(isub(m, 1), inc):
            ctx.unreachable("raises only for a non-monotonic average")
        return
    ctx.prove_all("the average is strictly increasing", isub(m, 1), inc)
    T, F = out[1]
    ctx.prove("the requested frequencies are filtered by the same method", len(got) == 1 and got[0][0] is fin and got[0][1] == method)
    ctx.prove("the average of the same method is used", asked == [method])
    ctx.prove("the accepted frequencies are returned", F is fout)
    ctx.prove("interpolated once, at the accepted frequencies", len(ip) == 1 and ip[0]["new_x"] is fout)
    same_array(ctx, "abscissae: average/(2 pi)", ip[0]["old_x"], lambda k: w.at(k) / (2 * PI), m)
    same_array(ctx, "ordinates: times of the average", ip[0]["old_y"], tw, m)
    ctx.prove("no extrapolation requested", ip[0].get("allow_extrapolation", False) is False)
    t0, t1 = tw.at(0), tw.at(isub(m, 1))
    g = lambda k: ctx.ufun("inverse", fout.at(k))
    ctx.prove("one time per frequency", num_cmp("==", T.n, na))
    ctx.prove_all("time of each frequency", na, lambda k: z3.Implies(z3.And(g(k) >= t0, g(k) <= t1), T.at(k) == g(k)))
    ctx.prove_all("within the range of the average", na, lambda k: z3.And(T.at(k) >= t0, T.at(k) <= t1))
