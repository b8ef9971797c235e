"""C04 on the real code: malformed requests raise, valid ones do not."""
import copy
import numpy as np
from rac.base import *
from rac import meas

RULE = "one malformed aspect (listed in FAULTS) injected in an otherwise valid random request; and the valid request itself; non-trivial: all"

FAULTS = ["both", "neither", "method", "frame", "interp", "avg", "option", "suboption", "notime", "nonuniform", "nonuniform1", "noamp", "nophase",
          "nohlm", "hlmamp", "hlmphase", "negexcl", "nozero", "negphase", "negomega", "short", "zerolate", "hlmamp_zeroecc", "valid", "valid", "valid",
          "extrema_option", "fit_option", "nozero_t", "precessing_no_minus2", "scalar_tiny_excl", "zeroecc_only_amp", "filter_option", "nonuniform_end"]


def cases(rng, tier):
    while True:
        for f in FAULTS:
            c = meas.rand_cfg(rng, methods=(["ResidualAmplitude", "ResidualFrequency"] if f.startswith("nozero") or f.startswith("zero") else meas.METHODS),
                              domain=("frequency" if f == "avg" else None), order="sorted", interp="rational_fit", dt=1.0)
            c.update(e0=float(np.round(rng.uniform(0.06, 0.2), 3)), n_orb=int(rng.integers(18, 30)), excl=2, lo=0.9, hi=0.3, n_ref=20, scalar=False,
                     avg=meas.AVG[0], amp_scale=1.0, t_shift=float(rng.choice([0.0, 1000.0])))
            yield dict(fault=f, cfg=c, x=float(rng.random()))


def run(case):
    from gw_eccentricity import measure_eccentricity
    c, f, x = case["cfg"], case["fault"], case["x"]
    if f in ("hlmamp", "hlmphase", "nohlm", "hlmamp_zeroecc"):
        c = dict(c, kind="hlm")
    if f in ("noamp", "nophase", "negphase", "negomega"):
        c = dict(c, kind="amp")
    if f == "hlmamp_zeroecc":
        c = dict(c, zeroecc=True)
    d = meas.build(c)
    ref = meas.refs(c, d)
    kw = dict(method=c["method"], dataDict=d, num_orbits_to_exclude_before_merger=2, debug_level=-1, extra_kwargs=meas.extra(c))
    kw["tref_in" if c["domain"] == "time" else "fref_in"] = ref
    t = d["t"]
    if f == "valid":
        try:
            r = measure_eccentricity(**kw)
        except Exception as e:
            fail(f"a valid request is rejected: {type(e).__name__}: {str(e)[:300]}")
        check(len(r["eccentricity"]) > 0 and np.all(np.isfinite(r["eccentricity"])), "no finite result for a valid request")
        return
    if f == "both":
        kw["tref_in"] = kw["fref_in"] = ref
    elif f == "neither":
        kw.pop("tref_in", None), kw.pop("fref_in", None)
    elif f == "method":
        kw["method"] = ["amplitude", "NoSuch", "Amplitude ", ""][int(4 * x)]
    elif f == "frame":
        kw["frame"] = ["Inertial", "copr", "", "coprecessing "][int(4 * x)]
    elif f == "interp":
        kw["extra_kwargs"]["omega_gw_extrema_interpolation_method"] = ["nosuch", "Spline", "rational"][int(3 * x)]
    elif f == "avg":
        kw["extra_kwargs"]["omega_gw_averaging_method"] = ["nosuch", "mean", "orbit_averaged_omega22"][int(3 * x)]
    elif f == "option":
        kw["extra_kwargs"][["nosuch", "debug_plot", "Spline_kwargs"][int(3 * x)]] = 1
    elif f == "suboption":
        kw["extra_kwargs"][["special_interp_kwargs_for_omega_gw_extrema", "general_interp_kwargs"][int(2 * x)]] = {"nosuch": 1}
    elif f == "extrema_option":
        kw["extra_kwargs"]["extrema_finding_kwargs"] = {"nosuch": 3}
    elif f == "fit_option":
        kw["method"] = ["AmplitudeFits", "FrequencyFits"][int(2 * x)]
        kw["extra_kwargs"]["kwargs_for_fits_methods"] = {"nosuch": 3}
    elif f == "filter_option":
        kw["precessing"], kw["frame"] = True, "coprecessing"
        kw["method"] = "Amplitude"
        for k in ("hlm", "amplm", "phaselm", "omegalm"):
            if k in d:
                d[k][(2, -2)] = np.conj(d[k][(2, 2)]) if k == "hlm" else (d[k][(2, 2)] if k == "amplm" else -d[k][(2, 2)])
        kw["extra_kwargs"]["filter_kwargs"] = {"nosuch": 1}
    elif f == "notime":
        d.pop("t")
    elif f in ("nonuniform", "nonuniform1", "nonuniform_end"):
        # keep omegalm given, so that nothing else can fail first
        tt = d["t"].copy()
        i = {"nonuniform": int(len(tt) * (0.2 + 0.3 * x)), "nonuniform1": 1, "nonuniform_end": int(len(tt) * 0.6)}[f]
        tt[i] += 0.3 * c["dt"] * (1 if x < 0.5 else -1)
        d["t"] = tt
    elif f == "noamp":
        d.pop("amplm")
    elif f == "nophase":
        d.pop("phaselm")
    elif f == "nohlm":
        d.pop("hlm")
    elif f == "hlmamp":
        d["amplm"] = {(2, 2): np.abs(d["hlm"][(2, 2)])}
        if x < 0.5:
            d["phaselm"] = {(2, 2): -np.unwrap(np.angle(d["hlm"][(2, 2)]))}
    elif f == "hlmphase":
        d["phaselm"] = {(2, 2): -np.unwrap(np.angle(d["hlm"][(2, 2)]))}
    elif f == "hlmamp_zeroecc":
        d["amplm_zeroecc"] = {(2, 2): np.abs(d["hlm_zeroecc"][(2, 2)])}
    elif f == "negexcl":
        kw["num_orbits_to_exclude_before_merger"] = [-1, -0.5, -1e-3, -2][int(4 * x)]
    elif f == "nozero":
        for k in list(d):
            if k.endswith("_zeroecc"):
                d.pop(k)
    elif f == "nozero_t":
        d.pop("t_zeroecc")
    elif f == "zeroecc_only_amp":
        c2 = dict(c, kind="amp")
        d = kw["dataDict"] = meas.build(c2)
        d.pop("phaselm_zeroecc")
    elif f == "negphase":
        d["phaselm"] = {k: -v for k, v in d["phaselm"].items()}
    elif f == "negomega":
        d["omegalm"] = {k: -np.gradient(v, t) for k, v in d["phaselm"].items()}
    elif f == "short":
        kw["num_orbits_to_exclude_before_merger"] = [c["n_orb"] * 1.3, 1000, c["n_orb"] * 3][int(3 * x)]
    elif f == "zerolate":
        cut = int(len(d["t_zeroecc"]) * 0.3)
        for k in list(d):
            if k == "t_zeroecc":
                d[k] = d[k][cut:]
            elif k.endswith("_zeroecc"):
                d[k] = {m: v[cut:] for m, v in d[k].items()}
    elif f == "precessing_no_minus2":
        kw["precessing"], kw["frame"] = True, "coprecessing"
    elif f == "scalar_tiny_excl":
        kw["num_orbits_to_exclude_before_merger"] = -1e-12
    expect_raise(lambda: measure_eccentricity(**kw), f"malformed request ({f}, {x:.2f})")
