"""C14 results do not depend on the time origin or on the units: relational
contracts, the same real function run on the original and on the transformed data."""
from .common import *
from . import contract
from .c03 import ME, measuring_object, measuring_summaries, bounds, increasing_indices
from .c26 import RES, IP, PK, AMP, interp_args
from .c26 import setup as res_setup
from .c13 import AT, fit_summaries, phase, ghost_differences
from pyvc.npmodel import unary

MA = ED + ".compute_mean_anomaly"
GT = ED + ".get_t_average_for_orbit_averaged_omega_gw"
CT = ED + ".compute_tref_in_and_fref_out_from_fref_in"
GA = ED + ".get_omega_gw_average"
FFE = "eccDefinitionUsingFrequencyFits:eccDefinitionUsingFrequencyFits"
AF = "eccDefinitionUsingAmplitudeFits:eccDefinitionUsingAmplitudeFits"
TD = UT + "time_deriv_4thOrder"
NOTE = ("interpolation assumed equivariant under shifts of its abscissae and affine in its ordinates, least-squares fits deterministic functions of their data; "
        "rescaling of the unit of time of the nonlinear fits is decided by the runtime contracts only; scale-invariance of the eccentricity formula is C01")


def shifted(a, s, name="shifted"):
    return new_arr((a.n,), lambda i: a.at(i) + s, "real", name)


def scaled(a, c, name="scaled"):
    return new_arr((a.n,), lambda i: c * a.at(i), "real", name)


@contract(on=[MA], abstract=True)
def mean_anomaly_shift(ctx):
    """Shifting pericenters, range and reference time together leaves the mean anomaly unchanged."""
    n = ctx.length("n", 2)
    tp = ctx.arr("t_pericenters", n)
    ctx.strictly_increasing(tp)
    tmin, tmax, s = ctx.real("tmin"), ctx.real("tmax"), ctx.real("s")
    ctx.assume(z3.And(tmin >= tp.at(0), tmax <= tp.at(isub(n, 1))))
    t = ctx.arr("t", 1)
    mk = lambda T, lo, hi: ctx.obj(ED, tmin=lo, tmax=hi, t_pericenters=T, domain="time", setting_ecc_to_zero=False)
    r1 = ctx.outcome(MA, mk(tp, tmin, tmax), t)
    r2 = ctx.outcome(MA, mk(shifted(tp, s), tmin + s, tmax + s), shifted(t, s))
    ctx.prove("same outcome", raised(r1) == raised(r2))
    if raised(r1) or raised(r2):
        return
    # contract C02 (formula), applied to both
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, isub(n, 1)))
    ctx.assume(z3.And(tp.at(k) <= t.at(0), t.at(0) < tp.at(k + 1)))
    F = lambda x, a, b: 2 * to_z3(PI) * (x - a) / (b - a)
    v1, v2 = F(t.at(0), tp.at(k), tp.at(k + 1)), F(t.at(0) + s, tp.at(k) + s, tp.at(k + 1) + s)
    ctx.prove("mean anomaly", v1 == v2)


@contract(on=[RES])
def residual_shift(ctx):
    """Shifting the eccentric data by s and the quasicircular data by another constant leaves the residuals, and whether they are refused, unchanged."""
    o, n, nz, t, tz, q, z, az, tm = res_setup(ctx)
    s, s2, tmz = ctx.real("s"), ctx.real("s_zeroecc"), ctx.real("t_merger_zeroecc")
    calls = []

    def interp(c, a, k):
        arg = interp_args(a, k)
        X, x, y = arg["new_x"], arg["old_x"], arg["old_y"]
        for (X0, x0, y0, r) in calls:
            if y0 is y and c.entailed_forall(x.n, lambda i: x.at(i) - X.at(0) == x0.at(i) - X0.at(0)) and c.entailed_forall(X.n, lambda i: X.at(i) - X.at(0) == X0.at(i) - X0.at(0)):
                return r
        r = c.arr("interpolated", X.n)
        calls.append((X, x, y, r))
        return r
    ctx.summaries[IP] = interp
    ctx.summaries[AMP] = lambda c, a, k: (z["amp_z"], z["phase_z"], z["omega_z"])
    # contract C10: the merger time shifts with the times
    ctx.summaries[PK] = lambda c, a, k: (tmz + (a[0].at(0) - tz.at(0)), c.real("peak"))
    r1 = ctx.outcome(RES, o)
    t2, tz2 = shifted(t, s), shifted(tz, s2)
    o2 = ctx.obj(ED, t=t2, t_merger=tm + s, dataDict=ctx.dict({"t": t2, "t_zeroecc": tz2, "amplm_zeroecc": ctx.dict(dict(az))}),
                 general_interp_kwargs=ctx.dict({"k": 3}), debug_level=0, precessing=False, **q)
    r2 = ctx.outcome(RES, o2)
    ctx.prove("same outcome", raised(r1) == raised(r2))
    if raised(r1) or raised(r2):
        return
    for k in ("res_amp_gw", "res_omega_gw"):
        same_array(ctx, k, o2.attrs[k], o.attrs[k], n)


@contract(on=[ME], budget=200)
def measurement_shift(ctx):
    """With times, references and merger shifted together, the same reference points are accepted and the returned times are shifted; eccentricity and mean anomaly (functions of the time since the same origin, by the other contracts) are the same; same refusals."""
    nd = ctx.choose(2)
    o, n, t, ref, q = measuring_object(ctx, "time", nd)
    f = measuring_summaries(ctx, n)
    s, org = ctx.real("s"), [ctx.real("origin")]

    def pw(nm):
        return lambda c, a, k, r=None: (lambda origin: unary(c, lambda v: c.ufun(nm, v - origin), a[1], "real"))(org[0])
    ctx.summaries[ED + ".compute_eccentricity"] = pw("ecc")
    ctx.summaries[ED + ".compute_mean_anomaly"] = pw("mean_anomaly")
    r1 = ctx.outcome(ME, o)
    a2 = {k: v for k, v in o.attrs.items() if k in ("domain", "ref_ndim", "phase_gw", "omega_gw", "extra_kwargs", "precessing", "debug_level",
                                                    "debug_plots", "method", "return_zero_if_small_ecc_failure", "omega_gw_filtered")}
    t2, ref2 = shifted(t, s), shifted(ref, s)
    o2 = ctx.obj(ED, t=t2, dataDict=ctx.dict({"t": t2}), tref_in=ref2, **a2)
    org[0] = org[0] + s
    r2 = ctx.outcome(ME, o2)
    ctx.prove("same outcome", raised(r1) == raised(r2))
    if raised(r1) or raised(r2):
        return
    A, B = r1[1].d, r2[1].d
    if nd == 0:
        ctx.prove("returned time", scalar(B["tref_out"]) == scalar(A["tref_out"]) + s)
        for k in ("eccentricity", "mean_anomaly"):
            ctx.prove(k, scalar(B[k]) == scalar(A[k]))
        return
    m = A["tref_out"].n
    same_array(ctx, "returned times", B["tref_out"], lambda i: A["tref_out"].at(i) + s, m)
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, m))
    ctx.lemma("returned time", B["tref_out"].at(i) == A["tref_out"].at(i) + s)
    for k in ("eccentricity", "mean_anomaly"):
        ctx.prove(k + ": length", num_cmp("==", B[k].n, A[k].n))
        ctx.prove(k, B[k].at(i) == A[k].at(i))


@contract(on=[ED + ".get_orbit_averaged_omega_gw_between_pericenters", ED + ".get_orbit_averaged_omega_gw_between_apocenters"], abstract=True)
def orbit_average_units(ctx):
    """Orbit averages do not change under a shift of time and scale inversely with the unit of time."""
    n = ctx.length("n_t", 2)
    t, ph = ctx.arr("t", n), ctx.arr("phase_gw", n)
    ctx.strictly_increasing(t)
    s, c = ctx.real("s"), ctx.real("c")
    ctx.assume(c > 0)
    X = increasing_indices(ctx, "extrema", n, 1)
    T2 = new_arr((n,), lambda i: c * t.at(i) + s, "real", "t2")
    mk = lambda T: ctx.obj(ED, t=T, phase_gw=ph, pericenters_location=X, apocenters_location=X, debug_level=0)
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, isub(X.n, 1)))
    for nm in ("pericenters", "apocenters"):
        fn = f"{ED}.get_orbit_averaged_omega_gw_between_{nm}"
        a, b = ctx.no_raise(nm, fn, mk(t)), ctx.no_raise(nm, fn, mk(T2))
        d = ctx.real("dt")
        ctx.assume(d == t.at(X.at(k + 1)) - t.at(X.at(k)))
        dp = ph.at(X.at(k + 1)) - ph.at(X.at(k))
        ctx.lemma("time difference is positive", d > 0)
        ctx.lemma(nm + " average", a.at(k) == dp / d)
        ctx.lemma(nm + " average in the new units", b.at(k) == dp / (c * d))
        ctx.prove(nm, dp / (c * d) * c == dp / d, using=[d > 0, c > 0])


@contract(on=[GT], abstract=True)
def midpoint_times_shift(ctx):
    """The times of the orbit averages shift with the data (before sorting: the midpoints; the sorting is by these times only)."""
    n = ctx.length("n_t", 2)
    t, s = ctx.arr("t", n), ctx.real("s")
    ctx.strictly_increasing(t)
    P, A = increasing_indices(ctx, "pericenters", n, 2), increasing_indices(ctx, "apocenters", n, 2)
    mk = lambda T: ctx.obj(ED, t=T, pericenters_location=P, apocenters_location=A, debug_level=0)
    o1, o2 = mk(t), mk(shifted(t, s))
    ctx.no_raise("call", GT, o1)
    ctx.no_raise("shifted", GT, o2)
    for nm, X in (("pericenters", P), ("apocenters", A)):
        same_array(ctx, nm, o2.attrs["t_average_" + nm], lambda i: o1.attrs["t_average_" + nm].at(i) + s, isub(X.n, 1))


@contract(on=[CT], abstract=True)
def frequency_to_time_shift(ctx):
    """When the times of the average shift by s (frequencies unchanged), the same frequencies are accepted and each is mapped to a time shifted by s."""
    m = ctx.length("n_avg", 2)
    w, tw, s = ctx.arr("omega_average", m), ctx.arr("t_average", m), ctx.real("s")
    ctx.strictly_increasing(tw)
    fin, fout = ctx.arr("fref_in", ctx.length("n_ref", 1)), ctx.arr("fref_out", ctx.length("n_acc", 1))
    meth = ["mean_of_extrema_interpolants", "orbit_averaged_omega_gw"][ctx.choose(2)]
    off = [z3.RealVal(0)]
    ctx.summaries[ED + ".get_fref_out"] = lambda c, a, k: fout
    ctx.summaries[GA] = lambda c, a, k: (shifted(tw, off[0]), w)
    first = []

    def interp(c, a, k):
        arg = interp_args(a, k)
        y = arg["old_y"]
        if not first:
            first.append((arg, c.arr("inverse", arg["new_x"].n)))
            return first[0][1]
        b, r = first[0]
        c.prove("interpolated at the same frequencies", arg["new_x"] is b["new_x"])
        same_array(c, "same abscissae", arg["old_x"], b["old_x"], m)
        same_array(c, "ordinates shifted by s", y, lambda i: b["old_y"].at(i) + s, m)
        return shifted(r, s)          # affine in the ordinates
    ctx.summaries[IP] = interp
    mk = lambda: ctx.obj(ED, extra_kwargs=ctx.dict({"omega_gw_averaging_method": meth}), debug_level=0, domain="frequency", method="Amplitude",
                         available_averaging_methods=ctx.dict({"mean_of_extrema_interpolants": None, "orbit_averaged_omega_gw": None, "omega_gw_zeroecc": None}),
                         general_interp_kwargs=ctx.dict({"k": 3}), debug_plots=False, omega_gw_average=None)
    r1 = ctx.outcome(CT, mk(), fin)
    off[0] = s
    r2 = ctx.outcome(CT, mk(), fin)
    ctx.prove("same outcome", raised(r1) == raised(r2))
    if raised(r1) or raised(r2):
        return
    ctx.prove("same frequencies", r1[1][1] is fout and r2[1][1] is fout)
    same_array(ctx, "times", r2[1][0], lambda i: r1[1][0].at(i) + s, fout.n)


@contract(on=[AT], budget=300, cap=1)
def short_segment_shift(ctx):
    """Short-segment option with reference frequencies: the time the window is centred on shifts with the data."""
    from .c13 import trend_time_origin
    trend_time_origin(ctx)


@contract(on=[ED + "._get_phase_bounds"])
def window_shift(ctx):
    """The window of samples depends on the shifted times through the phases at the reference bounds only, which do not change."""
    n = ctx.length("n", 1)
    t, P = ctx.arr("t", n), ctx.arr("phase_gw", n)
    tl, tr, s = ctx.real("t_left"), ctx.real("t_right"), ctx.real("s")
    q = ED + "._get_phase_bounds"
    a = ctx.no_raise("call", q, ctx.obj(ED, t=t, phase_gw=P), tl, tr)
    b = ctx.no_raise("shifted", q, ctx.obj(ED, t=shifted(t, s), phase_gw=P), tl + s, tr + s)
    ctx.prove("same phases", z3.And(a[0] == b[0], a[1] == b[1]))


@contract(on=[FFE + ".find_extrema"])
def fits_search_shift(ctx):
    """The fit-based search sees the time from merger, the data and the phase only: the same whatever the time origin."""
    n = ctx.length("n", 3)
    t, tm, s = ctx.arr("t", n), ctx.real("t_merger"), ctx.real("s")
    D, P = ctx.arr("data", n), ctx.arr("phase_gw", n)
    seen = []
    ctx.summaries[FFE + "._find_extrema_with_merger_at_zero"] = lambda c, a, k: seen.append(a[0].attrs["t"]) or c.arr("ext", 2, "int")
    for T, m in ((t, tm), (shifted(t, s), tm + s)):
        ctx.no_raise("call", FFE + ".find_extrema", ctx.obj(FFE, t=T, t_merger=m, phase_gw=P, data_for_finding_extrema=D), "pericenters")
    ctx.prove("two searches", len(seen) == 2)
    same_array(ctx, "times seen by the search", seen[1], seen[0], n)


@contract(on=[AF + ".__init__"], abstract=True)
def amplitude_units(ctx):
    """The data searched by AmplitudeFits do not change when all amplitudes are multiplied by a constant; the peak-based amplitude methods search data multiplied by it."""
    n = ctx.length("n", 3)
    A, W, am, c = ctx.arr("amp_gw", n), ctx.arr("omega_gw", n), ctx.real("amp_gw_merger"), ctx.real("c")
    ctx.assume(z3.And(am > 0, c > 0))
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, n))
    ctx.summaries[ED + ".get_label_for_plots"] = lambda cc, a, kk: "label"
    cur = {}
    ctx.summaries[ED + ".__init__"] = lambda cc, a, kk: a[0].attrs.update(cur)
    ek = lambda: {"extra_kwargs": ctx.dict({"kwargs_for_fits_methods": ctx.dict({})}), "debug_level": 0, "t": A, "phase_gw": W, "omega_gw": W}
    out = []
    for x, m in ((A, am), (scaled(A, c), c * am)):
        cur.clear()
        cur.update(ek(), amp_gw=x, amp_gw_merger=m)
        o = ctx.obj(AF)
        ctx.no_raise("init", AF + ".__init__", o, ctx.dict({}))
        out.append(o.attrs["data_for_finding_extrema"])
    r = ctx.real("ratio")
    ctx.assume(r * am == A.at(k))
    ctx.lemma("original", out[0].at(k) == A.at(k) / am)
    ctx.lemma("rescaled", out[1].at(k) == (c * A.at(k)) / (c * am))
    ctx.prove("same data", (c * A.at(k)) / (c * am) == A.at(k) / am, using=[c > 0, am > 0])


@contract(on=[TD], abstract=True)
def frequency_units(ctx):
    """The derivative of the phase does not depend on the time origin (only on the step) and scales inversely with the unit of time."""
    n = ctx.length("n", 5)
    dt, c = ctx.real("dt"), ctx.real("c")
    ctx.assume(z3.And(dt > 0, c > 0))
    y = ctx.arr("phase", n)
    a = ctx.no_raise("call", TD, y, dt)
    b = ctx.no_raise("other unit", TD, y, c * dt)
    from .c09 import cases
    i = cases(ctx, n)
    x, v = ctx.real("x"), ctx.real("v")
    ctx.assume(z3.And(x * dt == 1))
    ctx.prove("scales inversely", b.at(i) * c == a.at(i))
