"""C04 invalid requests and malformed data raise."""
from .common import *
from . import contract

INIT = ED + ".__init__"
PDD = ED + ".process_data_dict"


def uniform_grid(ctx, n, name="t"):
    t0, dt = ctx.real(name + "0"), ctx.real("d" + name)
    ctx.assume(dt > 0)
    return new_arr((n,), lambda i: t0 + (z3.ToReal(to_z3(i)) if z3.is_int(to_z3(i)) else to_z3(i)) * dt, "real", name), t0, dt


def init_world(ctx, uniform=True, extra=None):
    """callees of __init__ replaced by their contracts."""
    n = ctx.length("n_t", 4)
    if uniform:
        t, _, _ = uniform_grid(ctx, n)
    else:
        t = ctx.arr("t", n)
        ctx.strictly_increasing(t)
        k = ctx.int("bad_step", 0)
        ctx.assume(num_cmp("<", k, isub(n, 1)))
        d = lambda i: t.at(iadd(i, 1)) - t.at(i)
        dev = d(k) - d(0)
        tol = Fraction(1, 10 ** 8) + Fraction(1, 10 ** 5) * d(0)
        ctx.assume(z3.Or(dev > tol, -dev > tol))
    dd = ctx.dict({"t": t, "amplm": ctx.dict({}), "phaselm": ctx.dict({}), "omegalm": ctx.dict({})})
    tm, am, w = ctx.real("t_merger"), ctx.real("amp_merger"), ctx.int("width", 1)
    ctx.summaries[PDD] = lambda c, a, k: (dd, tm, am, w)
    A, P, W = ctx.arr("amp", n), ctx.arr("phase", n), ctx.arr("omega", n)
    ctx.summaries[ED + ".get_amp_phase_omega_gw"] = lambda c, a, k: (A, P, W)
    return n, t


REFS = {"none": {}, "tref": {"tref_in": 1}, "fref": {"fref_in": 1}, "both": {"tref_in": 1, "fref_in": 1}}


@contract(on=[INIT], budget=200, paths=800)
def request_validation(ctx):
    """__init__ raises iff not exactly one of reference time/frequency is given (zero included as a value), or the frame is unknown, or the interpolation method is unknown; every valid combination is accepted."""
    refs = list(REFS)[ctx.choose(4)]
    frame = ["inertial", "coprecessing", "Inertial", "other", None][ctx.choose(5)]
    interp = [None, "spline", "rational_fit", "cubic"][ctx.choose(4)]
    zero = ctx.choose(2) == 1
    init_world(ctx)
    kw = {k: (0 if zero else ctx.real(k)) for k in REFS[refs]}
    ek = None if interp is None else ctx.dict({"omega_gw_extrema_interpolation_method": interp})
    o = ctx.obj(ED)
    out = ctx.outcome(INIT, o, ctx.dict({"t": 1, "hlm": 1}), frame=frame, extra_kwargs=ek, **kw)
    valid = refs in ("tref", "fref") and frame in ("inertial", "coprecessing") and interp != "cubic"
    if valid:
        expect_return(ctx, f"valid request accepted", out)
        ctx.prove("domain", o.attrs.get("domain") == ("time" if refs == "tref" else "frequency"))
    else:
        expect_raise(ctx, f"invalid request refused (refs={refs}, frame={frame}, interpolation={interp})", out)


@contract(on=[INIT], budget=200)
def uniform_times(ctx):
    """A non-uniform time array (beyond rounding) raises; a uniform one of any length is accepted."""
    uni = ctx.choose(2) == 0
    init_world(ctx, uniform=uni)
    out = ctx.outcome(INIT, ctx.obj(ED), ctx.dict({"t": 1, "hlm": 1}), tref_in=ctx.real("tref"))
    if uni:
        expect_return(ctx, "uniform times accepted", out)
    else:
        expect_raise(ctx, "non-uniform times refused", out)


OPTS = ["general_interp_kwargs", "extrema_finding_kwargs", "special_interp_kwargs_for_omega_gw_extrema"]


@contract(on=[INIT, UT + "check_kwargs_and_set_defaults"], budget=200)
def unknown_options(ctx):
    """An unknown option name, at the top level or in any nested option dictionary, raises; known ones are accepted."""
    init_world(ctx)
    where = ["top", "general_interp_kwargs", "extrema_finding_kwargs", "special_interp_kwargs_for_omega_gw_extrema", "filter_kwargs", "none"][ctx.choose(6)]
    meth = ["spline", "rational_fit"][ctx.choose(2)]
    prec = where == "filter_kwargs"
    d = {"omega_gw_extrema_interpolation_method": meth}
    if where == "top":
        d["no_such_option"] = 1
    elif where != "none":
        d[where] = ctx.dict({"no_such_option": 1})
    else:
        d["general_interp_kwargs"] = ctx.dict({"k": 2})
        d["extrema_finding_kwargs"] = ctx.dict({"width": 10})
        d["special_interp_kwargs_for_omega_gw_extrema"] = ctx.dict({"k": 2} if meth == "spline" else {"degrees": None})
    ctx.summaries["spin_filter:check_and_filter_spin_induced_oscillations"] = lambda c, a, k: PyDict({})
    out = ctx.outcome(INIT, ctx.obj(ED), ctx.dict({"t": 1, "hlm": 1}), tref_in=ctx.real("tref"), precessing=prec, extra_kwargs=ctx.dict(d))
    if where == "none":
        expect_return(ctx, "known options accepted", out)
    else:
        expect_raise(ctx, f"unknown option in {where} refused", out)


@contract(on=[ED + ".compute_tref_in_and_fref_out_from_fref_in"])
def unknown_averaging(ctx):
    """An unknown frequency-averaging method raises."""
    o = ctx.obj(ED, extra_kwargs=ctx.dict({"omega_gw_averaging_method": "other", "use_only_these_many_orbits": None}),
                available_averaging_methods=ctx.dict({"orbit_averaged_omega_gw": 1, "mean_of_extrema_interpolants": 1}),
                debug_level=0, omega_gw_average=None)
    out = ctx.outcome(ED + ".compute_tref_in_and_fref_out_from_fref_in", o, ctx.arr("f", ctx.length("m", 1)))
    expect_raise(ctx, "unknown averaging method refused", out)


@contract(on=["gw_eccentricity:measure_eccentricity", "gw_eccentricity:get_available_methods"])
def unknown_method(ctx):
    """An unknown method name raises; every documented one constructs its class with the caller's arguments in their own positions."""
    names = ["Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency", "AmplitudeFits", "FrequencyFits"]
    nm = (names + ["amplitude", "Phase", ""])[ctx.choose(9)]
    seen = []
    for m in names:
        cls = f"eccDefinitionUsing{m}:eccDefinitionUsing{m}"

        def init(c, a, k, m=m):
            seen.append((m, a[1:], k))
        ctx.summaries[cls + ".__init__"] = init
    ctx.summaries[ED + ".measure_ecc"] = lambda c, a, k: PyDict({"eccentricity": 1, "mean_anomaly": 2, "tref_out": 3})
    dd = ctx.dict({})
    args = dict(tref_in=ctx.real("t"), fref_in=None, method=nm, dataDict=dd, num_orbits_to_exclude_before_merger=ctx.real("N"),
                precessing=False, frame="coprecessing", debug_level=ctx.int("lev"), extra_kwargs=ctx.dict({}))
    out = ctx.outcome("gw_eccentricity:measure_eccentricity", **args)
    if nm not in names:
        expect_raise(ctx, "unknown method refused", out)
        return
    r = expect_return(ctx, "known method accepted", out)
    ctx.prove("one object of the right class", len(seen) == 1 and seen[0][0] == nm)
    order = ["dataDict", "tref_in", "fref_in", "num_orbits_to_exclude_before_merger", "precessing", "frame", "debug_level", "extra_kwargs"]
    got = dict(zip(order, seen[0][1]))
    got.update(seen[0][2])
    for k in order:
        ctx.prove(f"argument {k} passed on", got.get(k) is args[k])
    ctx.prove("the object is returned with the results", set(r.d) == {"eccentricity", "mean_anomaly", "tref_out", "gwecc_object"})


def data_world(ctx, n):
    """callees of process_data_dict by their contracts."""
    t, t0, dt = uniform_grid(ctx, n)
    A, P, W = ctx.arr("A", n), ctx.arr("P", n), ctx.arr("W", n)
    tm = ctx.real("t_merger")
    ctx.assume(z3.And(tm >= t.at(0), tm <= t.at(isub(n, 1))))
    ctx.summaries[UT + "peak_time_via_quadratic_fit"] = lambda c, a, k: (tm, c.real("peak"))
    ctx.summaries[UT + "amplitude_using_all_modes"] = lambda c, a, k: A
    return t, A, P, W, tm


@contract(on=[PDD, ED + ".get_amplm_from_dataDict", ED + ".get_phaselm_from_dataDict"], budget=200)
def which_data(ctx):
    """Exactly one of {complex modes} and {amplitude and phase} must be given (for the quasicircular data: not both), and the times; every other combination raises."""
    n = ctx.length("n", 5)
    t, A, P, W, tm = data_world(ctx, n)
    ctx.summaries[ED + ".get_width_for_peak_finder_from_phase_gw"] = lambda c, a, k: 10
    ctx.summaries[UT + "time_deriv_4thOrder"] = lambda c, a, k: W
    has = {k: ctx.choose(2) == 1 for k in ("t", "hlm", "amplm", "phaselm")}
    z = ctx.choose(4)       # quasicircular: none, hlm, amp+phase, hlm+amp
    ctx.forall(n, lambda i: z3.And(W.at(i) > 0, P.at(i) >= P.at(0)))
    d = {}
    if has["t"]:
        d["t"] = t
    H = ctx.arr("h", n, "cplx")
    if has["hlm"]:
        d["hlm"] = ctx.dict({(2, 2): H})
        ctx.summaries["numpy.unwrap"] = None
    if has["amplm"]:
        d["amplm"] = ctx.dict({(2, 2): A})
    if has["phaselm"]:
        d["phaselm"] = ctx.dict({(2, 2): P})
    if has["hlm"] and not (has["amplm"] or has["phaselm"]):
        ctx.summaries[ED + ".get_amp_phase_omega_data"] = lambda c, a, k: PyDict({"amplm": PyDict({(2, 2): A}), "phaselm": PyDict({(2, 2): P}), "omegalm": PyDict({(2, 2): W})})
    if z in (1, 3):
        d["hlm_zeroecc"] = ctx.dict({(2, 2): H})
    if z in (2, 3):
        d["amplm_zeroecc"] = ctx.dict({(2, 2): A})
        d["phaselm_zeroecc"] = ctx.dict({(2, 2): P})
    out = ctx.outcome(PDD, ctx.obj(ED, precessing=False, frame="inertial", debug_level=0), ctx.dict(d), None, None)
    one = has["hlm"] != (has["amplm"] and has["phaselm"]) and not (has["hlm"] and (has["amplm"] or has["phaselm"]))
    valid = has["t"] and one and z != 3
    if valid:
        expect_return(ctx, "valid data accepted", out)
    else:
        expect_raise(ctx, f"refused: given {[k for k in has if has[k]]}, quasicircular {['none', 'hlm', 'amp+phase', 'both'][z]}", out)


@contract(on=[PDD, ED + ".get_index_at_num_orbits_earlier_than_merger", ED + ".get_width_for_peak_finder_from_phase_gw"], budget=200, lengths=(6,))
def physical_data(ctx):
    """For arbitrary phases and frequencies: raises iff the phase at merger is below the initial phase, the frequency at merger is negative, N is negative, or fewer than N (or 2) orbits precede the merger."""
    n = ctx.length("n", 5)
    t, A, P, W, tm = data_world(ctx, n)
    ctx.summaries[ED + ".get_amp_phase_omega_data"] = lambda c, a, k: PyDict({"amplm": PyDict({(2, 2): A}), "phaselm": PyDict({(2, 2): P}), "omegalm": PyDict({(2, 2): W})})
    given = ctx.choose(2) == 1
    N = ctx.real("N") if given else None
    from pyvc.npmodel import extreme_idx, unary
    out = ctx.outcome(PDD, ctx.obj(ED, precessing=False, frame="inertial", debug_level=0), ctx.dict({"t": t, "hlm": ctx.dict({(2, 2): ctx.arr("h", n, "cplx")})}), N, None)
    # the sample closest to the merger time
    m = extreme_idx(ctx, unary(ctx, lambda v: to_z3(f_abs(ctx, v - tm)), t, "real"), "<")
    pm, wm = P.at(m), W.at(m)
    four_pi = 4 * to_z3(PI)
    bad = z3.Or(pm < P.at(0), wm < 0, pm - 2 * four_pi < P.at(0))
    if given:
        bad = z3.Or(bad, N < 0, pm - N * four_pi < P.at(0))
    if raised(out):
        ctx.prove("raises only for malformed data", bad)
    else:
        ctx.prove("malformed data is refused", z3.Not(bad))


@contract(on=["eccDefinitionUsingResidualAmplitude:eccDefinitionUsingResidualAmplitude.get_data_for_finding_extrema",
              "eccDefinitionUsingResidualFrequency:eccDefinitionUsingResidualFrequency.get_data_for_finding_extrema",
              "eccDefinitionUsingResidualAmplitude:eccDefinitionUsingResidualAmplitude.check_and_raise_zeroecc_data_not_found"])
def residual_needs_quasicircular(ctx):
    """Residual methods raise iff any of the quasicircular times, amplitudes and frequencies is missing."""
    m = ["Amplitude", "Frequency"][ctx.choose(2)]
    cls = f"eccDefinitionUsingResidual{m}:eccDefinitionUsingResidual{m}"
    keys = ["t_zeroecc", "amplm_zeroecc", "omegalm_zeroecc"]
    has = [ctx.choose(2) == 1 for _ in keys]
    n = ctx.length("n", 1)
    ra, ro = ctx.arr("res_amp", n), ctx.arr("res_omega", n)
    o = ctx.obj(cls, dataDict=ctx.dict({k: 1 for k, h in zip(keys, has) if h}), res_amp_gw=ra, res_omega_gw=ro)
    out = ctx.outcome(cls + ".get_data_for_finding_extrema", o)
    if all(has):
        r = expect_return(ctx, "complete data accepted", out)
        ctx.prove("the residual of the right quantity", r is (ra if m == "Amplitude" else ro))
    else:
        expect_raise(ctx, "missing quasicircular data refused", out)
