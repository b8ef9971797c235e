"""C07 orbit-averaged frequency and the other averages."""
from .common import *
from . import contract
from .c03 import increasing_indices
from pyvc.npmodel import unary

A_ = ED + ".compute_orbit_averaged_omega_gw_between_extrema"
GT = ED + ".get_t_average_for_orbit_averaged_omega_gw"
CM = ED + ".check_monotonicity_of_omega_gw_average"


def setup(ctx, lo=2):
    n = ctx.length("n_t", 2)
    t, ph = ctx.arr("t", n), ctx.arr("phase_gw", n)
    ctx.strictly_increasing(t)
    P = increasing_indices(ctx, "pericenters", n, lo)
    A = increasing_indices(ctx, "apocenters", n, lo)
    kw = ctx.dict({"k": 3})
    o = ctx.obj(ED, t=t, phase_gw=ph, omega_gw=ctx.arr("omega_gw", n), pericenters_location=P, apocenters_location=A,
                general_interp_kwargs=kw, debug_plots=False, debug_level=0, method="Amplitude",
                extra_kwargs=ctx.dict({"omega_gw_averaging_method": "orbit_averaged_omega_gw"}))
    return o, n, t, ph, P, A, kw


def avg(t, ph, X):
    return lambda k: (ph.at(X.at(k + 1)) - ph.at(X.at(k))) / (t.at(X.at(k + 1)) - t.at(X.at(k)))


def mid(t, X):
    return lambda k: (t.at(X.at(k)) + t.at(X.at(k + 1))) / 2


@contract(on=[ED + ".get_orbit_averaged_omega_gw_between_pericenters", ED + ".get_orbit_averaged_omega_gw_between_apocenters"], abstract=True)
def averages(ctx):
    """Between consecutive extrema of one kind the average is (phase difference)/(time difference), one value per pair."""
    o, n, t, ph, P, A, kw = setup(ctx, 1)
    for nm, X in (("pericenters", P), ("apocenters", A)):
        r = ctx.no_raise(nm, f"{ED}.get_orbit_averaged_omega_gw_between_{nm}", o)
        same_array(ctx, f"average between {nm}", r, avg(t, ph, X), isub(X.n, 1))


@contract(on=[GT], abstract=True)
def midpoints(ctx):
    """The times are the midpoints of consecutive extrema of the same kind, returned in increasing order together with the order that sorts (apocenters, pericenters)."""
    o, n, t, ph, P, A, kw = setup(ctx)
    r = ctx.no_raise("call", GT, o)
    T, I = (r.l if isinstance(r, PyList) else r)
    na, np_ = isub(A.n, 1), isub(P.n, 1)
    N = iadd(na, np_)
    cat = lambda q: z3.If(q < to_z3(na), mid(t, A)(q), mid(t, P)(q - to_z3(na)))
    ctx.prove("number of midpoints", z3.And(to_z3(num_cmp("==", T.n, N)), to_z3(num_cmp("==", I.n, N))))
    ctx.prove_all("each time is the midpoint its index points to", N, lambda k: z3.And(
        I.at(k) >= 0, I.at(k) < to_z3(N), T.at(k) == cat(I.at(k))))
    j, k = ctx.int("j", 0), ctx.int("k", 0)
    ctx.assume(z3.And(j < k, k < to_z3(N)))
    ctx.prove("times increasing", T.at(j) <= T.at(k))
    ctx.prove("no midpoint used twice", I.at(j) != I.at(k))
    for nm, X in (("pericenters", P), ("apocenters", A)):
        m = o.attrs.get("t_average_" + nm)
        if m is not None:
            same_array(ctx, f"midpoints of {nm}", m, mid(t, X), isub(X.n, 1))


@contract(on=[CM])
def monotonicity_check(ctx):
    """Raises iff some value is not larger than the one before it; the argument is not modified."""
    m = ctx.length("n_avg", 0)
    w = ctx.arr("average", m)
    o = ctx.obj(ED, debug_plots=False, debug_level=0, method="Amplitude", extra_kwargs=ctx.dict({"omega_gw_averaging_method": "orbit_averaged_omega_gw"}))
    ctx.watch(w)
    out = ctx.outcome(CM, o, w, "average")
    if raised(out):
        with ctx.assuming_all(isub(m, 1), lambda k: w.at(k) < w.at(k + 1)):
            ctx.unreachable("raises only if not strictly increasing")
    else:
        ctx.prove_all("accepts only strictly increasing values", isub(m, 1), lambda k: w.at(k) < w.at(k + 1))
    ctx.frame("argument not modified", w)


@contract(on=[A_], abstract=True)
def orbit_average(ctx):
    """The averages of both kinds are interpolated at the requested times through exactly (midpoint time, value) pairs in increasing order of midpoint, each value with its own midpoint; raises iff one of the three sequences (pericenters, apocenters, merged) is not strictly increasing."""
    o, n, t, ph, P, A, kw = setup(ctx)
    na, np_ = isub(A.n, 1), isub(P.n, 1)
    N = iadd(na, np_)
    # sorted midpoints and their order (contract `midpoints`)
    T, I = ctx.arr("t_mid", N), ctx.arr("order", N, "int")
    cat = lambda q, f: z3.If(q < to_z3(na), f(A)(q), f(P)(q - to_z3(na)))
    ctx.forall(N, lambda k: z3.And(I.at(k) >= 0, I.at(k) < to_z3(N)))
    ctx.forall(N, lambda k: T.at(k) == cat(I.at(k), lambda X: mid(t, X)))
    cached = ctx.choose(2)
    if cached:
        o.attrs["t_for_orbit_averaged_omega_gw"], o.attrs["sorted_idx_for_orbit_averaged_omega_gw"] = T, I
    ctx.summaries[GT] = lambda c, a, k: PyList([T, I])
    val = {id(X): ctx.arr("avg_" + nm, isub(X.n, 1)) for nm, X in (("p", P), ("a", A))}
    ctx.summaries[ED + ".get_orbit_averaged_omega_gw_between_pericenters"] = lambda c, a, k: val[id(P)]
    ctx.summaries[ED + ".get_orbit_averaged_omega_gw_between_apocenters"] = lambda c, a, k: val[id(A)]
    checked, refused = [], []

    def mono(c, a, k):
        w = a[1]
        checked.append(w)
        if c.choose(2):
            refused.append(w)
            raise PyRaise(Exception, ("not monotonic",))
        c.forall(isub(w.n, 1), lambda q: w.at(q) < w.at(q + 1))
    ctx.summaries[CM] = mono
    q = ctx.length("n_eval", 0)
    te = ctx.arr("t_eval", q)
    got = []

    def interp(c, a, k):
        got.append((a, k))
        return unary(c, lambda v: c.ufun("through_the_averages", v), a[0], "real")
    ctx.summaries[UT + "interpolate"] = interp
    out = ctx.outcome(A_, o, te)
    if raised(out):
        ctx.prove("raises only if a monotonicity check refuses", len(refused) > 0)
        return
    vp, va = val[id(P)], val[id(A)]
    for nm, X in (("pericenters", vp), ("apocenters", va)):
        ctx.prove_all(f"averages between {nm} strictly increasing", isub(X.n, 1), lambda k: X.at(k) < X.at(k + 1))
    ctx.prove("interpolated once", len(got) == 1)
    a, k = got[0]
    names = ("new_x", "old_x", "old_y", "spline_kwargs")
    arg = dict(zip(names, a))
    arg.update({x: y for x, y in k.items()})
    X, Y = arg["old_x"], arg["old_y"]
    ctx.prove("evaluated at the requested times", arg["new_x"] is te)
    same_array(ctx, "abscissae are the midpoints", X, T, N)
    ctx.prove("number of values", num_cmp("==", Y.n, N))
    ctx.prove_all("each value stays with its own midpoint", N, lambda k: Y.at(k) == z3.If(I.at(k) < to_z3(na), va.at(I.at(k)), vp.at(I.at(k) - to_z3(na))))
    ctx.prove_all("merged averages strictly increasing", isub(N, 1), lambda k: Y.at(k) < Y.at(k + 1))
    ctx.prove("no extrapolation requested", "allow_extrapolation" not in arg or arg["allow_extrapolation"] is False)
    same_array(ctx, "result", out[1], lambda i: ctx.ufun("through_the_averages", te.at(i)), q)


@contract(on=[ED + ".compute_mean_of_extrema_interpolants", ED + ".compute_omega_gw_zeroecc", ED + ".get_available_omega_gw_averaging_methods"])
def other_averages(ctx):
    """The mean of extrema is half the sum of the two envelopes at the same time; the quasicircular average interpolates the quasicircular frequency on the shifted quasicircular times; each method name selects its own function."""
    q = ctx.length("n_eval", 1)
    te = ctx.arr("t_eval", q)
    nz = ctx.length("n_zeroecc", 2)
    tz, wz = ctx.arr("t_zeroecc_shifted", nz), ctx.arr("omega_gw_zeroecc", nz)
    env = lambda nm: (lambda c, a, k: unary(c, lambda v: c.ufun(nm, v), a[0], "real"))
    o = ctx.obj(ED, omega_gw_pericenters_interp=env("peri"), omega_gw_apocenters_interp=env("apo"), t_zeroecc_shifted=tz,
                omega_gw_zeroecc=wz, general_interp_kwargs=ctx.dict({"k": 3}))
    got = []

    def interp(c, a, k):
        got.append((a, k))
        return unary(c, lambda v: c.ufun("zeroecc", v), a[0], "real")
    ctx.summaries[UT + "interpolate"] = interp
    r = ctx.no_raise("mean", ED + ".compute_mean_of_extrema_interpolants", o, te)
    same_array(ctx, "mean of the envelopes", r, lambda i: (ctx.ufun("peri", te.at(i)) + ctx.ufun("apo", te.at(i))) / 2, q)
    r = ctx.no_raise("zeroecc", ED + ".compute_omega_gw_zeroecc", o, te)
    a, k = got[0]
    arg = dict(zip(("new_x", "old_x", "old_y", "spline_kwargs"), a))
    arg.update(k)
    ctx.prove("quasicircular frequency at shifted times", arg["new_x"] is te and arg["old_x"] is tz and arg["old_y"] is wz)
    ctx.prove("no extrapolation requested", "allow_extrapolation" not in arg or arg["allow_extrapolation"] is False)
    same_array(ctx, "quasicircular average", r, lambda i: ctx.ufun("zeroecc", te.at(i)), q)
    m = ctx.no_raise("table", ED + ".get_available_omega_gw_averaging_methods", o)
    ctx.prove("method names", isinstance(m, PyDict) and set(m.d) == {"mean_of_extrema_interpolants", "orbit_averaged_omega_gw", "omega_gw_zeroecc"})
    for key, fn in (("mean_of_extrema_interpolants", "compute_mean_of_extrema_interpolants"), ("omega_gw_zeroecc", "compute_omega_gw_zeroecc")):
        one = ctx.arr("te", 1)
        r1 = ctx.no_raise(f"{key} by name", m.d[key], one)
        e = (ctx.ufun("peri", one.at(0)) + ctx.ufun("apo", one.at(0))) / 2 if key.startswith("mean") else ctx.ufun("zeroecc", one.at(0))
        ctx.prove(f"{key} selects its own function", r1.at(0) == e)
