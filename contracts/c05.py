"""C05 a measurement never modifies the caller's data, options or reference arrays."""
from .common import *
from . import contract
from .c03 import measuring_summaries, stub, increasing_indices
from .c04 import uniform_grid
from pyvc.npmodel import unary

PDD = ED + ".process_data_dict"
METHODS = ["Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency", "AmplitudeFits", "FrequencyFits"]


def cls(m):
    return f"eccDefinitionUsing{m}:eccDefinitionUsing{m}"


def user_data(ctx, n, kind, z, modes=((2, 2),)):
    """the caller's waveform dictionary: every array is owned by the caller."""
    t, _, _ = uniform_grid(ctx, n)
    t.buf.name = "t"
    d = {"t": t}
    mk = lambda nm, kd="real", m=n: ctx.dict({k: ctx.arr(f"{nm}{k}", m, kd) for k in modes}, name=nm)
    if kind == "hlm":
        d["hlm"] = mk("hlm", "cplx")
    else:
        d["amplm"], d["phaselm"] = mk("amplm"), mk("phaselm")
        if kind == "ampomega":
            d["omegalm"] = mk("omegalm")
    nz = None
    if z:
        nz = ctx.length("nz", 5)
        tz, _, _ = uniform_grid(ctx, nz, "tz")
        d["t_zeroecc"] = tz
        if kind == "hlm":
            d["hlm_zeroecc"] = mk("hlm_zeroecc", "cplx", nz)
        else:
            d["amplm_zeroecc"], d["phaselm_zeroecc"] = mk("amplm_zeroecc", m=nz), mk("phaselm_zeroecc", m=nz)
            if kind == "ampomega":
                d["omegalm_zeroecc"] = mk("omegalm_zeroecc", m=nz)
    d["user_key"] = 1
    return ctx.dict(d, name="dataDict")


def user_options(ctx, rich):
    if not rich:
        return None
    return ctx.dict({"general_interp_kwargs": ctx.dict({"k": 2}), "extrema_finding_kwargs": ctx.dict({"distance": 5}),
                     "special_interp_kwargs_for_omega_gw_extrema": ctx.dict({}), "kwargs_for_fits_methods": ctx.dict({}),
                     "filter_kwargs": ctx.dict({})}, name="extra_kwargs")


@contract(on=[PDD, ED + ".get_amp_phase_omega_data", ED + ".get_amplm_from_dataDict", ED + ".get_phaselm_from_dataDict",
              ED + ".get_omegalm_from_phaselm", ED + ".get_amp_phase_omega_gw", ED + ".get_index_at_num_orbits_earlier_than_merger",
              ED + ".get_width_for_peak_finder_from_phase_gw", UT + "peak_time_via_quadratic_fit",
              UT + "amplitude_using_all_modes", UT + "time_deriv_4thOrder"], budget=300, paths=900, coarse=True)
def preprocessing_frame(ctx):
    """process_data_dict and everything it calls write to nothing the caller owns, for every kind of data (complex modes, amplitude+phase, with frequencies; with and without quasicircular data; one mode or two), with any exclusion, whether it returns or raises."""
    n = ctx.length("n", 5)
    kind = ["hlm", "amp", "ampomega"][ctx.choose(3)]
    z = ctx.choose(2)
    modes = [((2, 2),), ((2, 2), (2, -2))][ctx.choose(2)]
    prec = len(modes) == 2
    d = user_data(ctx, n, kind, z, modes)
    ctx.watch(d)
    tm = ctx.real("t_merger")
    ctx.summaries[UT + "peak_time_via_quadratic_fit"] = lambda c, a, k: (tm, c.real("peak"))     # frame: contract peak_frame
    N = [None, ctx.real("N")][ctx.choose(2)]
    out = ctx.outcome(PDD, ctx.obj(ED, precessing=prec, frame="coprecessing", debug_level=0), d, N, None)
    ctx.frame("the caller's data is untouched", d)


@contract(on=[UT + "peak_time_via_quadratic_fit", UT + "amplitude_using_all_modes"], lengths=(5, 6))
def peak_frame(ctx):
    """Peak finding and the total amplitude write to none of their arguments."""
    n = ctx.length("n", 5)
    t, f = ctx.arr("t", n), ctx.arr("f", n)
    ctx.watch(t)
    ctx.watch(f)
    ctx.outcome(UT + "peak_time_via_quadratic_fit", t, f)
    d = ctx.dict({(2, 2): t, (3, 3): f})
    ctx.watch(d)
    ctx.outcome(UT + "amplitude_using_all_modes", d, "amplm")
    ctx.frame("arguments untouched", t, f, d)


@contract(on=[ED + ".__init__", ED + ".compute_res_amp_gw_and_res_omega_gw", ED + ".get_amp_phase_omega_gw_segments",
              ED + "._get_segment_indices", ED + "._update_waveform_data_segment"] + [cls(m) + ".__init__" for m in METHODS], budget=400, paths=900, coarse=True)
def construction_frame(ctx):
    """Constructing the object of any of the six methods (process_data_dict by its contract: it may alias the caller's arrays) writes neither to the caller's data, nor to the nested options, nor to the reference array."""
    n = ctx.length("n", 5)
    m = METHODS[ctx.choose(6)]
    z = 1 if m.startswith("Residual") else ctx.choose(2)
    d = user_data(ctx, n, "ampomega", z)
    ek = user_options(ctx, ctx.choose(2) == 1)
    seg = ctx.choose(2) == 1
    if seg:
        if ek is None:
            return
        ek.d["use_only_these_many_orbits"] = 10
    ref = ctx.arr("tref", ctx.length("n_ref", 1))
    ctx.watch(d)
    ctx.watch(ref)
    if ek is not None:
        ctx.watch(ek)

    def pdd(c, a, k):
        # shares the arrays with the caller, in fresh dictionaries
        u = a[1]
        nd = {"t": u.d["t"]}
        for q in ("amplm", "phaselm", "omegalm"):
            nd[q] = PyDict(dict(u.d[q].d))
        if z:
            nd["t_zeroecc"] = u.d["t_zeroecc"]
            for q in ("amplm", "phaselm", "omegalm"):
                nd[q + "_zeroecc"] = PyDict(dict(u.d[q + "_zeroecc"].d))
        return (PyDict(nd), c.real("t_merger"), c.real("amp_merger"), c.int("width", 1))
    ctx.summaries[PDD] = pdd
    ctx.summaries[UT + "peak_time_via_quadratic_fit"] = lambda c, a, k: (c.real("tz_merger"), c.real("peak"))
    ctx.outcome(ctx.prog.resolve(cls(m)), d, ref, None, None, False, "inertial", 0, ek)
    ctx.frame("data, options and reference array untouched", d, ref)


@contract(on=[ED + ".measure_ecc", ED + ".get_good_extrema", ED + ".drop_extrema_if_extrema_jumps", ED + ".drop_extrema_if_too_close",
              ED + ".drop_extra_extrema_at_ends", ED + ".check_extrema_separation", ED + ".make_return_dict_for_eccentricity_and_mean_anomaly",
              ED + ".set_eccentricity_and_mean_anomaly_to_zero"], budget=400, paths=600, coarse=True)
def measuring_frame(ctx):
    """measure_ecc writes neither to the reference array nor to the waveform arrays the object shares with the caller, including when zeros are returned."""
    n = ctx.length("n_t", 5)
    t = ctx.arr("t", n)
    ctx.strictly_increasing(t)
    phase, om = ctx.arr("phase_gw", n), ctx.arr("omega_gw", n)
    ref = ctx.arr("tref", ctx.length("n_ref", 1))
    dd = ctx.dict({"t": t, "amplm": ctx.dict({(2, 2): ctx.arr("amp", n)})})
    zero = ctx.choose(2) == 1
    ek = ctx.dict({"treat_mid_points_between_pericenters_as_apocenters": ctx.choose(2) == 1, "debug_plots": False,
                   "use_only_these_many_orbits": None, "omega_gw_averaging_method": "orbit_averaged_omega_gw",
                   "return_zero_if_small_ecc_failure": zero})
    o = ctx.obj(ED, domain="time", ref_ndim=1, t=t, phase_gw=phase, omega_gw=om, dataDict=dd, extra_kwargs=ek, precessing=False,
                debug_level=0, debug_plots=False, method="Amplitude", return_zero_if_small_ecc_failure=zero, tref_in=ref)
    for v in (dd, t, phase, om, ref):
        ctx.watch(v)
    measuring_summaries(ctx, n, lo_found=0)
    ctx.outcome(ED + ".measure_ecc", o)
    ctx.frame("waveform and reference arrays untouched", dd, ref)


@contract(on=[ED + ".get_good_extrema", ED + ".drop_extrema_if_extrema_jumps", ED + ".drop_extrema_if_too_close",
              ED + ".drop_extra_extrema_at_ends", ED + ".check_extrema_separation", ED + ".check_if_first_derivative_is_not_strictly_monotonic",
              ED + ".get_apocenters_from_pericenters"], budget=300, paths=1500, coarse=True)
def cleaning_frame(ctx):
    """Cleaning and checking of extrema write to no argument and to no waveform array."""
    n = ctx.length("n_t", 5)
    t, phase = ctx.arr("t", n), ctx.arr("phase_gw", n)
    P = increasing_indices(ctx, "peri", n, 3)
    A = increasing_indices(ctx, "apo", n, 3)
    o = ctx.obj(ED, t=t, phase_gw=phase, debug_level=0)
    for v in (t, phase, P, A):
        ctx.watch(v)
    which = ctx.choose(5)
    if which == 0:
        ctx.outcome(ED + ".drop_extrema_if_extrema_jumps", o, P)
    elif which == 1:
        ctx.outcome(ED + ".drop_extrema_if_too_close", o, P)
    elif which == 2:
        ctx.outcome(ED + ".drop_extra_extrema_at_ends", o, P, A)
    elif which == 3:
        o.attrs["debug_level"] = 1
        ctx.outcome(ED + ".check_extrema_separation", o, P)
    else:
        ctx.outcome(ED + ".get_apocenters_from_pericenters", o, P)
        ctx.outcome(ED + ".check_if_first_derivative_is_not_strictly_monotonic", o, t, phase)
    ctx.frame("arguments and waveform untouched", t, phase, P, A)


def mapping(ctx, meth):
    n = ctx.length("n_t", 5)
    t, phase, om = ctx.arr("t", n), ctx.arr("phase_gw", n), ctx.arr("omega_gw", n)
    ctx.strictly_increasing(t)
    P = increasing_indices(ctx, "peri", n, 2)
    A = increasing_indices(ctx, "apo", n, 2)
    ref = ctx.arr("fref", ctx.length("n_ref", 1))
    nz = ctx.length("nz", 5)
    tz, oz = ctx.arr("tz", nz), ctx.arr("oz", nz)
    ek = ctx.dict({"omega_gw_averaging_method": meth, "use_only_these_many_orbits": None})
    env = lambda nm: (lambda c, a, k: unary(c, lambda v: c.ufun(nm, v), a[0], "real"))
    o = ctx.obj(ED, t=t, phase_gw=phase, omega_gw=om, pericenters_location=P, apocenters_location=A, extra_kwargs=ek, domain="frequency",
                debug_level=0, debug_plots=False, omega_gw_average=None, tmin=ctx.real("tmin"), tmax=ctx.real("tmax"), method="Amplitude",
                general_interp_kwargs=ctx.dict({}), t_zeroecc_shifted=tz, omega_gw_zeroecc=oz, setting_ecc_to_zero=False,
                omega_gw_pericenters_interp=env("p"), omega_gw_apocenters_interp=env("a"))
    o.attrs["available_averaging_methods"] = ctx.call(ED + ".get_available_omega_gw_averaging_methods", o)
    ctx.summaries[UT + "interpolate"] = lambda c, a, k: c.arr("interp", a[0].n)     # frame: contract C18
    for v in (t, phase, om, ref, P, A, tz, oz):
        ctx.watch(v)
    ctx.outcome(ED + ".compute_tref_in_and_fref_out_from_fref_in", o, ref)
    ctx.frame("arrays untouched", t, phase, om, ref, P, A, tz, oz)


FF = [ED + "." + x for x in ("compute_tref_in_and_fref_out_from_fref_in", "get_fref_out", "get_fref_bounds", "get_omega_gw_average")]


@contract(on=FF + [ED + ".compute_orbit_averaged_omega_gw_between_extrema", ED + ".get_t_average_for_orbit_averaged_omega_gw"], budget=300, paths=600, coarse=True)
def frequency_frame_orbit_average(ctx):
    """Mapping reference frequencies to times writes neither to the caller's frequencies nor to the waveform arrays (orbit average)."""
    ctx.summaries[ED + ".check_monotonicity_of_omega_gw_average"] = lambda c, a, k: None     # frame: contract monotonicity_frame
    mapping(ctx, "orbit_averaged_omega_gw")


@contract(on=FF + [ED + ".compute_mean_of_extrema_interpolants"], budget=300, paths=600, coarse=True)
def frequency_frame_mean(ctx):
    """The same for the mean of the envelopes."""
    mapping(ctx, "mean_of_extrema_interpolants")


@contract(on=FF + [ED + ".compute_omega_gw_zeroecc"], budget=300, paths=600, coarse=True)
def frequency_frame_zeroecc(ctx):
    """The same for the quasicircular frequency."""
    mapping(ctx, "omega_gw_zeroecc")


@contract(on=[ED + ".check_monotonicity_of_omega_gw_average"], coarse=True)
def monotonicity_frame(ctx):
    """The monotonicity check of the average frequency writes to none of its arguments."""
    n = ctx.length("n", 2)
    w = ctx.arr("omega_average", n)
    ctx.watch(w)
    o = ctx.obj(ED, debug_level=0, debug_plots=False, method="Amplitude", extra_kwargs=ctx.dict({"omega_gw_averaging_method": "orbit_averaged_omega_gw"}))
    ctx.outcome(ED + ".check_monotonicity_of_omega_gw_average", o, w, "averages")
    ctx.frame("averages untouched", w)


@contract(on=[cls(m) + ".find_extrema" for m in ("Amplitude", "AmplitudeFits", "FrequencyFits")], coarse=True)
def find_extrema_frame(ctx):
    """find_extrema leaves the waveform arrays untouched and restores the time axis, also when it raises."""
    m = METHODS[ctx.choose(6)]
    n = ctx.length("n_t", 5)
    t, a = ctx.arr("t", n), ctx.arr("data", n)
    o = ctx.obj(cls(m), t=t, amp_gw=a, omega_gw=a, phase_gw=ctx.arr("phase", n), data_for_finding_extrema=a, t_merger=ctx.real("tm"),
                extrema_finding_kwargs=ctx.dict({"width": 3, "height": None}))
    boom = ctx.choose(2) == 1

    def inner(c, args, k):
        # the fit-based search sees a shifted axis of its own
        tt = args[0].attrs["t"]
        c.prove_all("the search sees times measured from the merger", n, lambda i: tt.at(i) == t.at(i) - o.attrs["t_merger"])
        if boom:
            raise PyRaise(ctx.prog.builtin_exc("ValueError") if hasattr(ctx.prog, "builtin_exc") else ValueError, ("fit failed",))
        return increasing_indices(c, "ext", n, 0)
    ctx.summaries[cls("FrequencyFits") + "._find_extrema_with_merger_at_zero"] = inner
    ctx.watch(t)
    ctx.watch(a)
    ctx.outcome(cls(m) + ".find_extrema", o, ["pericenters", "apocenters", "other"][ctx.choose(3)])
    ctx.frame("waveform arrays untouched", t, a)
    ctx.prove("the time axis is the original one", o.attrs["t"] is t)


@contract(on=[UT + "interpolate", UT + "get_interpolant"])
def interpolation_frame(ctx):
    """Interpolation writes to none of the arrays given to it."""
    n = ctx.length("n", 2)
    X, Y, Q = ctx.arr("X", n), ctx.arr("Y", n), ctx.arr("Q", ctx.length("m", 1))
    for v in (X, Y, Q):
        ctx.watch(v)
    ctx.outcome(UT + "interpolate", Q, X, Y, ctx.choose(2) == 1, ["spline", "monotonic_spline"][ctx.choose(2)])
    ctx.frame("arrays untouched", X, Y, Q)


@contract(on=[ED + ".transform_inertial_to_coprecessing", ED + ".get_hlm_from_amplm_phaselm"])
def frame_rotation_frame(ctx):
    """Rotating to the coprecessing frame adds, removes or replaces nothing in the caller's dictionary."""
    n = ctx.length("n", 5)
    kind = ["hlm", "amp", "ampomega"][ctx.choose(3)]
    z = ctx.choose(2)
    d = user_data(ctx, n, kind, z)
    ctx.watch(d)

    def copr(c, a, k):
        # deepcopy of its argument with the modes replaced (assumed: scri)
        from pyvc.npmodel import MODELS
        tag = k.get("tag", "")
        r = MODELS["copy.deepcopy"].fn(c, [a[0]], {})
        r.d["hlm" + tag] = PyDict({(2, 2): c.arr("copr", a[0].d["t" + tag].n, "cplx")})
        return r
    ctx.summaries["load_data:get_coprecessing_data_dict"] = copr
    o = ctx.obj(ED, precessing=True, frame="inertial", debug_level=0)
    tag = ["", "_zeroecc"][ctx.choose(2)] if z else ""
    r = ctx.no_raise("call", ED + ".transform_inertial_to_coprecessing", o, d, tag)
    ctx.frame("the caller's dictionary is untouched", d)
    ctx.prove("only complex modes remain for this waveform", "hlm" + tag in r.d and "amplm" + tag not in r.d
              and "phaselm" + tag not in r.d and "omegalm" + tag not in r.d)
    ctx.prove("the times are kept", "t" + tag in r.d)
