"""C03 outputs cover exactly the reference points inside the measurable range."""
from .common import *
from . import contract
from pyvc.npmodel import mask_select, unary

ME = ED + ".measure_ecc"


def select(ctx, base, pred):
    """oracle: the subsequence of base satisfying pred, in order."""
    mask = new_arr((base.n,), pred, "bool")
    return mask_select(ctx, base, mask)


def increasing_indices(ctx, name, n, lo):
    m = ctx.length(name, lo)
    a = ctx.arr(name, m, "int")
    ctx.forall(m, lambda k: z3.And(a.at(k) >= 0, to_z3(num_cmp("<", a.at(k), n))))
    ctx.strictly_increasing(a)
    return a


def measuring_object(ctx, domain, ndim, found=2, **attrs):
    """an object in the state reached by __init__, callees replaced by their contracts."""
    n = ctx.length("n_t", 2)
    t = ctx.arr("t", n)
    ctx.strictly_increasing(t)
    phase, om = ctx.arr("phase_gw", n), ctx.arr("omega_gw", n)
    q = 1 if ndim == 0 else ctx.length("n_ref", 1)
    ref = ctx.arr("ref", q)
    ek = ctx.dict({"treat_mid_points_between_pericenters_as_apocenters": False, "debug_plots": False,
                   "use_only_these_many_orbits": None, "omega_gw_averaging_method": "orbit_averaged_omega_gw",
                   "return_zero_if_small_ecc_failure": attrs.get("return_zero_if_small_ecc_failure", False)})
    base = dict(domain=domain, ref_ndim=ndim, t=t, phase_gw=phase, omega_gw=om, dataDict=ctx.dict({"t": t}),
                extra_kwargs=ek, precessing=False, debug_level=0, debug_plots=False, method="Amplitude",
                return_zero_if_small_ecc_failure=False, omega_gw_filtered=None)
    base["tref_in" if domain == "time" else "fref_in"] = ref
    base.update(attrs)
    o = ctx.obj(ED, **base)
    return o, n, t, ref, q


def stub(ctx, names):
    for nm in names:
        ctx.summaries[ED + "." + nm] = lambda c, a, k: None


def measuring_summaries(ctx, n, lo_found=2, lo_good=1):
    f = {}

    def find(c, a, k):
        et = a[1] if len(a) > 1 else k.get("extrema_type", "pericenters")
        if et not in f:
            f[et] = increasing_indices(c, "found_" + et, n, lo_found)
        return f[et]

    gp = increasing_indices(ctx, "pericenters", n, lo_good)
    ga = increasing_indices(ctx, "apocenters", n, lo_good)
    f["made"] = (gp, ga)

    def good(c, a, k):
        f["good_p"], f["good_a"] = gp, ga
        return (gp, ga)
    ctx.summaries[ED + ".find_extrema"] = find
    ctx.summaries[ED + ".get_good_extrema"] = good
    ctx.summaries[ED + ".get_omega_gw_extrema_interpolant"] = lambda c, a, k: (lambda c2, a2, k2: unary(c2, lambda v: c2.ufun("env", v), a2[0], "real"))
    # pointwise (contract C01 / C02), arguments recorded
    f["calls"] = []

    def pw(nm):
        def g(c, a, k):
            f["calls"].append((nm, a[1]))
            return unary(c, lambda v: c.ufun(nm, v), a[1], "real")
        return g
    ctx.summaries[ED + ".compute_eccentricity"] = pw("ecc")
    ctx.summaries[ED + ".compute_mean_anomaly"] = pw("mean_anomaly")
    ctx.summaries[ED + ".check_extrema_separation"] = lambda c, a, k: (None, None)
    stub(ctx, ["check_monotonicity_and_convexity", "check_pericenters_and_apocenters_appear_alternately",
               "check_if_dropped_too_many_extrema"])
    return f


def mx(ctx, a, b):
    return ite(num_cmp(">=", a, b), a, b)


def mn(ctx, a, b):
    return ite(num_cmp("<=", a, b), a, b)


def bounds(ctx, t, f):
    P, A = f["made"]
    tp0, ta0 = t.at(P.at(0)), t.at(A.at(0))
    tpl, tal = t.at(P.at(isub(P.n, 1))), t.at(A.at(isub(A.n, 1)))
    return mx(ctx, tp0, ta0), mn(ctx, tpl, tal)


@contract(on=[ME, ED + ".make_return_dict_for_eccentricity_and_mean_anomaly", ED + ".check_num_extrema"], budget=200)
def reference_times(ctx):
    """Array of reference times: tref_out is exactly the subsequence inside [max(first peri, first apo), min(last peri, last apo)], both ends included; eccentricity and mean anomaly have its length and are evaluated there element by element; raises iff none is inside."""
    o, n, t, ref, q = measuring_object(ctx, "time", 1)
    f = measuring_summaries(ctx, n)
    ctx.watch(ref)
    out = ctx.outcome(ME, o)
    if "good_p" not in f:
        expect_return(ctx, "enough extrema are accepted", out)
        return
    tmin, tmax = bounds(ctx, t, f)
    inside = lambda i: z3.And(ref.at(i) >= tmin, ref.at(i) <= tmax)
    ctx.frame("reference array not modified", ref)
    if raised(out):
        i = ctx.int("some_inside", 0)
        ctx.assume(num_cmp("<", i, q))
        ctx.assume(inside(i))
        ctx.unreachable("raises only if no requested time is inside")
        return
    exp = select(ctx, ref, inside)
    r = out[1]
    ctx.prove("names of the results", isinstance(r, PyDict) and set(r.d) == {"eccentricity", "mean_anomaly", "tref_out"})
    same_array(ctx, "returned times", r.d["tref_out"], exp, exp.n)
    ctx.prove("at least one", num_cmp(">=", exp.n, 1))
    for nm, key in (("ecc", "eccentricity"), ("mean_anomaly", "mean_anomaly")):
        same_array(ctx, key, r.d[key], lambda k, nm=nm: ctx.ufun(nm, exp.at(k)), exp.n)


@contract(on=[ME, ED + ".make_return_dict_for_eccentricity_and_mean_anomaly"], budget=200)
def scalar_reference_time(ctx):
    """Scalar reference time: scalars are returned iff it is inside the range, otherwise an exception is raised."""
    o, n, t, ref, q = measuring_object(ctx, "time", 0)
    f = measuring_summaries(ctx, n)
    out = ctx.outcome(ME, o)
    if "good_p" not in f:
        expect_return(ctx, "enough extrema are accepted", out)
        return
    tmin, tmax = bounds(ctx, t, f)
    inside = z3.And(ref.at(0) >= tmin, ref.at(0) <= tmax)
    if raised(out):
        ctx.prove("raises only outside", z3.Not(inside))
        return
    ctx.prove("returns only inside", inside)
    r = out[1]
    ctx.prove("names of the results", set(r.d) == {"eccentricity", "mean_anomaly", "tref_out"})
    for k, v in r.d.items():
        ctx.prove(f"{k} is a scalar", not isinstance(v, Arr) or len(v.shape) == 0)
    ctx.prove("time", scalar(r.d["tref_out"]) == ref.at(0))
    ctx.prove("eccentricity", scalar(r.d["eccentricity"]) == ctx.ufun("ecc", ref.at(0)))
    ctx.prove("mean anomaly", scalar(r.d["mean_anomaly"]) == ctx.ufun("mean_anomaly", ref.at(0)))


@contract(on=[ME, ED + ".make_return_dict_for_eccentricity_and_mean_anomaly"], budget=200)
def reference_frequencies(ctx):
    """Reference frequencies: the results correspond element by element to the accepted frequencies (from compute_tref_in_and_fref_out_from_fref_in, contract C08), and are named for frequency input."""
    nd = ctx.choose(2)
    o, n, t, ref, q = measuring_object(ctx, "frequency", nd)
    f = measuring_summaries(ctx, n)
    m = ctx.length("n_acc", 1)
    T, F = ctx.arr("tref", m), ctx.arr("fref_out", m)
    if nd == 0:
        ctx.assume(num_cmp("==", m, 1))
    got = []

    def comp(c, a, k):
        got.append(a[1])
        return (T, F)
    ctx.summaries[ED + ".compute_tref_in_and_fref_out_from_fref_in"] = comp
    tmin, tmax = bounds(ctx, t, f)
    all_inside = ctx.choose(2) == 0
    if all_inside:
        ctx.forall(m, lambda i: z3.And(T.at(i) >= tmin, T.at(i) <= tmax))
    out = ctx.outcome(ME, o)
    if "good_p" not in f or not got:
        expect_return(ctx, "enough extrema are accepted", out)
        return
    ctx.prove("the requested frequencies are mapped", got[0] is ref)
    if all_inside:
        expect_return(ctx, "raises only if a mapped time is outside the measurable range", out)
    elif raised(out):
        return
    r = out[1]
    ctx.prove("names of the results", isinstance(r, PyDict) and set(r.d) == {"eccentricity", "mean_anomaly", "fref_out"})
    if nd == 0:
        for k, v in r.d.items():
            ctx.prove(f"{k} is a scalar", not isinstance(v, Arr) or len(v.shape) == 0)
        ctx.prove("frequency", scalar(r.d["fref_out"]) == F.at(0))
        ctx.prove("eccentricity", scalar(r.d["eccentricity"]) == ctx.ufun("ecc", T.at(0)))
        return
    for k, v in r.d.items():
        ctx.prove(f"{k}: length", num_cmp("==", v.n, r.d["fref_out"].n))
    # an accepted result has every frequency's own time inside the range
    ctx.prove_all("frequencies", m, lambda i: r.d["fref_out"].at(i) == F.at(i))
    exp = select(ctx, T, lambda i: z3.And(T.at(i) >= tmin, T.at(i) <= tmax))
    ctx.prove("as many as the accepted frequencies", num_cmp("==", exp.n, m))
    same_array(ctx, "eccentricity", r.d["eccentricity"], lambda k: ctx.ufun("ecc", exp.at(k)), m)
    same_array(ctx, "mean anomaly", r.d["mean_anomaly"], lambda k: ctx.ufun("mean_anomaly", exp.at(k)), m)


@contract(on=[ED + ".get_fref_out"])
def accepted_frequencies(ctx):
    """fref_out is exactly the subsequence f_min <= f < f_max of the requested frequencies, in order; raises iff empty."""
    q = ctx.length("n_ref", 1)
    ref = ctx.arr("fref", q)
    fmin, fmax = ctx.real("fmin"), ctx.real("fmax")
    o = ctx.obj(ED, domain="frequency", setting_ecc_to_zero=False)
    ctx.summaries[ED + ".get_fref_bounds"] = lambda c, a, k: [PyList([fmin, fmax]), (fmin, fmax)][0]
    ctx.watch(ref)
    out = ctx.outcome(ED + ".get_fref_out", o, ref, "orbit_averaged_omega_gw")
    inside = lambda i: z3.And(ref.at(i) >= fmin, ref.at(i) < fmax)
    ctx.frame("reference array not modified", ref)
    if raised(out):
        i = ctx.int("some_inside", 0)
        ctx.assume(num_cmp("<", i, q))
        ctx.assume(inside(i))
        ctx.unreachable("raises only if no requested frequency is inside")
        return
    exp = select(ctx, ref, inside)
    same_array(ctx, "accepted frequencies", out[1], exp, exp.n)
    ctx.prove("at least one", num_cmp(">=", exp.n, 1))


@contract(on=[ED + ".check_input_limits"])
def limits_refuse(ctx):
    """check_input_limits raises iff some value lies strictly outside the closed interval."""
    q = ctx.length("n", 1)
    v = ctx.arr("vals", q)
    lo, hi = ctx.real("lo"), ctx.real("hi")
    o = ctx.obj(ED, domain=["time", "frequency"][ctx.choose(2)], setting_ecc_to_zero=ctx.choose(2) == 1)
    out = ctx.outcome(ED + ".check_input_limits", o, v, lo, hi)
    inside = lambda i: z3.And(v.at(i) >= lo, v.at(i) <= hi)
    if raised(out):
        with ctx.assuming_all(q, inside):
            ctx.unreachable("raises only if some value is outside")
    else:
        ctx.prove_all("accepts only values inside", q, inside)


@contract(on=[ED + ".__init__"], budget=200, paths=800)
def requested_points_are_kept(ctx):
    """The reference points measure_ecc starts from are exactly the requested ones: an array of any length in the requested order with repetitions, a list, a scalar as one point; times as times and frequencies as frequencies, and whether the request was a scalar is recorded."""
    from .c04 import init_world
    init_world(ctx)
    kind = ["array", "scalar", "list"][ctx.choose(3)]
    dom = ["time", "frequency"][ctx.choose(2)]
    q = 1 if kind == "scalar" else 3 if kind == "list" else ctx.length("n_ref", 1)
    ref = ctx.arr("ref", q)
    arg = ref.at(0) if kind == "scalar" else ctx.list([ref.at(k) for k in range(3)]) if kind == "list" else ref
    o = ctx.obj(ED)
    out = ctx.outcome(ED + ".__init__", o, ctx.dict({"t": 1, "hlm": 1}), **{"tref_in" if dom == "time" else "fref_in": arg})
    expect_return(ctx, "valid request", out)
    ctx.prove("domain", o.attrs["domain"] == dom)
    ctx.prove("scalar request remembered", num_cmp("==", o.attrs["ref_ndim"], 0 if kind == "scalar" else 1))
    same_array(ctx, "requested points", o.attrs["tref_in" if dom == "time" else "fref_in"], lambda k: ref.at(k), q)
    ctx.prove("only one kind", ("fref_in" if dom == "time" else "tref_in") not in o.attrs)
