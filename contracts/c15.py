"""C15 extrema are located in the right data, pericenters as maxima."""
from .common import *
from . import contract
from .c04 import init_world

INIT = ED + ".__init__"
Q = lambda m: f"eccDefinitionUsing{m}:eccDefinitionUsing{m}"
PEAKS = ["Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency"]
FITS = ["AmplitudeFits", "FrequencyFits"]
GAP = ED + ".get_apocenters_from_pericenters"
NOTE = ("scipy.signal.find_peaks assumed to return the strictly increasing interior local maxima of its argument under its options; the iteration of the "
        "fit-based methods (FindExtremaNearIdxRef) is decided by the runtime contracts only")


def base(ctx, extra):
    """eccDefinition.__init__ by its contract: the measured data are attributes of the object."""
    n = ctx.length("n", 3)
    d = {k: ctx.arr(k, n) for k in ("amp_gw", "omega_gw", "res_amp_gw", "res_omega_gw", "phase_gw", "t")}

    def init(c, a, k):
        a[0].attrs.update({x: v for x, v in d.items()})
        a[0].attrs.update(extra)
    ctx.summaries[INIT] = init
    ctx.summaries[ED + ".get_label_for_plots"] = lambda c, a, k: "label"
    return n, d


DATA = {"Amplitude": "amp_gw", "Frequency": "omega_gw", "ResidualAmplitude": "res_amp_gw", "ResidualFrequency": "res_omega_gw"}


@contract(on=[Q(m) + ".__init__" for m in PEAKS] + [Q("Amplitude") + ".find_extrema"] + [Q(m) + ".get_data_for_finding_extrema" for m in PEAKS])
def peak_methods(ctx):
    """Each method looks for pericenters as the peaks of its own quantity and for apocenters as the peaks of its negative, with exactly the peak-finding options of the object, and returns these peaks; anything else raises."""
    m = PEAKS[ctx.choose(4)]
    full = {"t": 1, "t_zeroecc": 1, "amplm_zeroecc": 1, "omegalm_zeroecc": 1}
    opts = ctx.dict({"height": None, "width": ctx.int("width", 1), "distance": ctx.real("distance")})
    n, d = base(ctx, {"dataDict": ctx.dict(full), "extrema_finding_kwargs": opts})
    o = ctx.obj(Q(m))
    ctx.no_raise("init", Q(m) + ".__init__", o, ctx.dict({}))
    ctx.prove("name of the method", o.attrs["method"] == m)
    kind = ["pericenters", "apocenters", "extrema", None, "default"][ctx.choose(5)]
    for a in d.values():
        ctx.watch(a)
    out = ctx.outcome(Q(m) + ".find_extrema", o, *([] if kind == "default" else [kind]))
    if kind in ("extrema", None):
        expect_raise(ctx, "any other kind of extremum is refused", out)
        return
    r = expect_return(ctx, "accepted", out)
    ev = [e for e in ctx.events if e[0] == "find_peaks"]
    ctx.prove("peaks searched once, and returned", len(ev) == 1 and r is ev[0][4])
    _, a, g, kw, P = ev[0]
    s = -1 if kind == "apocenters" else 1
    src = d[DATA[m]]
    ctx.prove("length", num_cmp("==", a.n, n))
    ctx.prove_all("searched data", n, lambda i: to_z3(g(i)) == s * src.at(i))
    ctx.prove("options", set(kw) == set(opts.d) and all(kw[k] is opts.d[k] for k in kw))
    for k, a in d.items():
        ctx.frame(k + " not modified", a)


@contract(on=[Q("ResidualAmplitude") + ".check_and_raise_zeroecc_data_not_found"])
def residual_needs_data(ctx):
    """The residual methods raise iff quasicircular times, amplitudes or frequencies are missing."""
    m = PEAKS[2 + ctx.choose(2)]
    keys = ["t_zeroecc", "amplm_zeroecc", "omegalm_zeroecc"]
    have = [k for k in keys if ctx.choose(2)]
    n, d = base(ctx, {"dataDict": ctx.dict({k: 1 for k in have + ["t", "hlm_zeroecc"]})})
    out = ctx.outcome(Q(m) + ".__init__", ctx.obj(Q(m)), ctx.dict({}))
    if len(have) == 3:
        expect_return(ctx, "complete data accepted", out)
    else:
        expect_raise(ctx, "missing data refused", out)


@contract(on=[Q(m) + ".__init__" for m in FITS])
def fit_methods_data(ctx):
    """FrequencyFits looks at the frequency, AmplitudeFits at the amplitude divided by its value at merger, on copies; their trends have PN exponents of the right sign."""
    m = FITS[ctx.choose(2)]
    am = ctx.real("amp_gw_merger")
    ctx.assume(am > 0)
    n, d = base(ctx, {"extra_kwargs": ctx.dict({"kwargs_for_fits_methods": ctx.dict({})}), "amp_gw_merger": am, "debug_level": 0})
    for a in d.values():
        ctx.watch(a)
    o = ctx.obj(Q(m))
    ctx.no_raise("init", Q(m) + ".__init__", o, ctx.dict({}))
    ctx.prove("name of the method", o.attrs["method"] == m)
    w = o.attrs["data_for_finding_extrema"]
    if m == "FrequencyFits":
        same_array(ctx, "searched data", w, d["omega_gw"], n)
    else:
        same_array(ctx, "searched data", w, lambda i: d["amp_gw"].at(i) / am, n)
    for k, a in d.items():
        ctx.frame(k + " not modified", a)
    ctx.prove("growing trend", to_z3(o.attrs["nPN"]) < 0)


@contract(on=[Q("FrequencyFits") + ".find_extrema"])
def fit_methods_kind(ctx):
    """The search runs with the merger at time zero; times are restored afterwards whether or not it raises; any other kind of extremum raises."""
    n = ctx.length("n", 3)
    t, tm = ctx.arr("t", n), ctx.real("t_merger")
    kind = ["pericenters", "apocenters", "extrema", None][ctx.choose(4)]
    m = FITS[ctx.choose(2)]
    o = ctx.obj(Q(m), t=t, t_merger=tm, phase_gw=ctx.arr("phase_gw", n))
    ctx.watch(t)
    if kind in ("pericenters", "apocenters"):
        inner = Q("FrequencyFits") + "._find_extrema_with_merger_at_zero"
        if True:
            seen, ret, fails = [], ctx.arr("extrema", ctx.length("n_ext", 0), "int"), ctx.choose(2) == 1

            def f(c, a, k):
                seen.append(a[0].attrs["t"])
                if fails:
                    raise PyRaise(Exception, ("data set too short.",))
                return ret
            ctx.summaries[inner] = f
            out = ctx.outcome(Q(m) + ".find_extrema", o, kind)
            ctx.prove("raises iff the search raises", raised(out) == fails)
            ctx.prove("one search", len(seen) == 1)
            same_array(ctx, "times from merger", seen[0], lambda i: t.at(i) - tm, n)
            same_array(ctx, "times restored", o.attrs["t"], t, n)
            if not fails:
                ctx.prove("result returned", out[1] is ret)
    else:
        expect_raise(ctx, "any other kind of extremum is refused", ctx.outcome(Q(m) + ".find_extrema", o, kind))
    ctx.frame("times not modified", t)


@contract(on=[INIT])
def peak_options(ctx):
    """The peak-finding options of the object are the user's ones where given and the defaults otherwise, the default minimum width being the one derived from the phase."""
    n, t = init_world(ctx)
    u = {k: ctx.real(k) for k in ("distance", "height") if ctx.choose(2)}
    if ctx.choose(2):
        u["width"] = [None, ctx.int("user_width", 0)][ctx.choose(2)]
    o = ctx.obj(ED)
    ctx.no_raise("call", INIT, o, ctx.dict({"t": 1, "hlm": 1}), tref_in=ctx.real("tref"), debug_level=0,
                 extra_kwargs=ctx.dict({"extrema_finding_kwargs": ctx.dict(dict(u))}))
    k = o.attrs["extrema_finding_kwargs"]
    names = {"height", "threshold", "distance", "prominence", "width", "wlen", "rel_height", "plateau_size"}
    ctx.prove("options of find_peaks", set(k.d) == names)
    for a, v in u.items():
        ctx.prove(f"user's {a}", k.d[a] is v or (is_z3(v) and z3.eq(to_z3(k.d[a]), to_z3(v))))
    w = ctx.summaries[ED + ".process_data_dict"](ctx, [], {})[3]
    if "width" not in u:
        ctx.prove("default width", k.d["width"] is w or to_z3(k.d["width"]) == w)
    for a in names - {"width", "rel_height"} - set(u):
        ctx.prove(f"default {a}", k.d[a] is None)


@contract(on=[GAP])
def midpoints(ctx):
    """For any pericenters (at least one): exactly one apocenter between each consecutive pair, at the integer part of the midpoint."""
    m = ctx.length("m", 1)
    p = ctx.arr("pericenters", m, "int")
    ctx.forall(m, lambda i: p.at(i) >= 0)
    ctx.forall(isub(m, 1), lambda i: p.at(i) + 1 < p.at(iadd(i, 1)))
    ctx.watch(p)
    r = ctx.no_raise("call", GAP, ctx.obj(ED), p)
    ctx.prove("number", num_cmp("==", r.n, isub(m, 1)))
    a = lambda i: to_z3(r.at(i))
    ctx.prove_all("integer part of the midpoint", r.n, lambda i: z3.And(2 * a(i) <= p.at(i) + p.at(iadd(i, 1)), p.at(i) + p.at(iadd(i, 1)) < 2 * a(i) + 2))
    ctx.prove_all("between the pericenters", r.n, lambda i: z3.And(p.at(i) < a(i), a(i) < p.at(iadd(i, 1))))
    ctx.prove("integer locations", r.kind == "int")
    ctx.frame("pericenters not modified", p)
