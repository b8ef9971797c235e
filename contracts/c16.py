"""C16 zero eccentricity only under the small-eccentricity policy."""
from .common import *
from . import contract
from .c03 import ME, measuring_object, measuring_summaries, bounds

CN = ED + ".check_num_extrema"
SZ = ED + ".set_eccentricity_and_mean_anomaly_to_zero"
RD = ED + ".make_return_dict_for_eccentricity_and_mean_anomaly"
INIT = ED + ".__init__"


def orbits(P):
    return (P.at(isub(P.n, 1)) - P.at(0)) / (4 * to_z3(PI))


@contract(on=[CN])
def one_kind(ctx):
    """For any number of extrema, any phase, policy on or off, any method: with two or more extrema nothing happens; with fewer it returns (truth) iff the policy is on and the waveform is longer than five orbits, and raises otherwise."""
    n = ctx.length("n", 1)
    P = ctx.arr("phase_gw", n)
    m = ctx.length("m", 0)
    X = ctx.arr("extrema", m, "int")
    flag = ctx.choose(2) == 1
    meth = ["Amplitude", "ResidualAmplitude", "AmplitudeFits", "FrequencyFits"][ctx.choose(4)]
    o = ctx.obj(ED, phase_gw=P, method=meth, return_zero_if_small_ecc_failure=flag, debug_level=0,
                extra_kwargs=ctx.dict({"return_zero_if_small_ecc_failure": flag}))
    out = ctx.outcome(CN, o, X, ["pericenters", "apocenters"][ctx.choose(2)])
    few = to_z3(num_cmp("<", m, 2))
    ok = z3.And(z3.BoolVal(flag), orbits(P) > 5)
    if raised(out):
        ctx.prove("raises only for fewer than two extrema outside the policy", z3.And(few, z3.Not(ok)))
    else:
        ctx.prove("accepted only with two extrema or under the policy", z3.Or(z3.Not(few), ok))
        v = out[1]
        ctx.prove("truth iff fewer than two", few if v is True else z3.Not(few) if v in (None, False) else to_z3(v) == few)


def policy(ctx, domain, nd, lo=0):
    flag = ctx.choose(2) == 1
    o, n, t, ref, q = measuring_object(ctx, domain, nd, return_zero_if_small_ecc_failure=flag)
    mid = ctx.choose(2) == 1
    o.attrs["extra_kwargs"].d["treat_mid_points_between_pericenters_as_apocenters"] = mid
    f = measuring_summaries(ctx, n, lo_found=lo)
    return o, n, t, ref, q, mid, flag, f


def few_extrema(ctx, domain):
    nd = ctx.choose(2)
    o, n, t, ref, q, mid, flag, f = policy(ctx, domain, nd)
    if domain == "frequency":
        m = ctx.length("n_acc", 1)
        T, F = ctx.arr("tref", m), ctx.arr("fref_out", m)
        ctx.summaries[ED + ".compute_tref_in_and_fref_out_from_fref_in"] = lambda c, a, k: (T, F)
    ctx.watch(ref)
    out = ctx.outcome(ME, o)
    if "good_p" in f:
        ctx.prove("measured only with at least two pericenters", num_cmp(">=", f["pericenters"].n, 2))
        if mid:
            ctx.prove("... and at least two midpoints", num_cmp(">=", f["pericenters"].n, 3))
        else:
            ctx.prove("... and at least two apocenters", num_cmp(">=", f["apocenters"].n, 2))
        return
    np_ = f["pericenters"].n
    few = to_z3(num_cmp("<", np_, 3 if mid else 2))
    if not mid and "apocenters" in f:
        few = z3.Or(few, to_z3(num_cmp("<", f["apocenters"].n, 2)))
    ok = z3.And(z3.BoolVal(flag), orbits(o.attrs["phase_gw"]) > 5)
    if raised(out):
        ctx.prove("raises only outside the policy", z3.And(few, z3.Not(ok)))
        return
    ctx.prove("zeros only under the policy", z3.And(few, ok))
    r = out[1]
    key = "tref_out" if domain == "time" else "fref_out"
    ctx.prove("names of the results", isinstance(r, PyDict) and set(r.d) == {"eccentricity", "mean_anomaly", key})
    if nd == 0:
        for k, v in r.d.items():
            ctx.prove(f"{k} is a scalar", not isinstance(v, Arr) or len(v.shape) == 0)
            ctx.prove(f"{k}", scalar(v) == (ref.at(0) if k == key else 0))
    else:
        same_array(ctx, "all requested points are returned", r.d[key], ref, q)
        for k in ("eccentricity", "mean_anomaly"):
            same_array(ctx, k, r.d[k], lambda i: z3.RealVal(0), q)
    ctx.frame("reference points not modified", ref)


@contract(on=[ME, CN, SZ, RD], budget=200)
def few_extrema_times(ctx):
    """Reference times: with fewer than two extrema of either kind (midpoints included), zeros for all requested times, shaped as requested, iff the policy is on and the waveform is longer than five orbits; an exception otherwise; measured only with two of both kinds."""
    few_extrema(ctx, "time")


@contract(on=[ME, CN, SZ, RD], budget=200)
def few_extrema_frequencies(ctx):
    """The same for reference frequencies."""
    few_extrema(ctx, "frequency")


@contract(on=[ME, CN], budget=200)
def no_effect_otherwise(ctx):
    """With at least two extrema of both kinds the measurement returns or raises the same with and without the option."""
    o, n, t, ref, q = measuring_object(ctx, "time", 1, return_zero_if_small_ecc_failure=False)
    f = measuring_summaries(ctx, n)
    a = dict(o.attrs)
    a["extra_kwargs"] = PyDict(dict(o.attrs["extra_kwargs"].d))
    a["extra_kwargs"].d["return_zero_if_small_ecc_failure"] = True
    a["return_zero_if_small_ecc_failure"] = True
    o2 = ctx.obj(ED, **a)
    r1 = ctx.outcome(ME, o)
    r2 = ctx.outcome(ME, o2)
    ctx.prove("same outcome", raised(r1) == raised(r2))
    if raised(r1) or raised(r2):
        return
    for k in ("eccentricity", "mean_anomaly", "tref_out"):
        same_array(ctx, k, r2[1].d[k], r1[1].d[k], r1[1].d[k].n)


@contract(on=[INIT], budget=200)
def policy_is_off_by_default(ctx):
    """The policy is the user's option, off by default."""
    from .c04 import init_world
    init_world(ctx)
    v = [None, False, True][ctx.choose(3)]
    o = ctx.obj(ED)
    ctx.no_raise("call", INIT, o, ctx.dict({"t": 1, "hlm": 1}), tref_in=ctx.real("tref"), debug_level=0,
                 extra_kwargs=None if v is None else ctx.dict({"return_zero_if_small_ecc_failure": v}))
    ctx.prove("policy", o.attrs["return_zero_if_small_ecc_failure"] is bool(v))
