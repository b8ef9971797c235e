"""C15 on the real code: where the extrema are looked for and found."""
import numpy as np
from rac.base import *
from rac import meas

RULE = ("objects of the six methods on random waveforms with random peak-finding options; the peaks recomputed from the object's amplitude/frequency (minus the "
        "quasicircular one); fit-based extrema compared with the times the synthetic model puts them; unknown kinds of extrema; random midpoints; non-trivial: "
        "objects with at least two extrema of each kind")


def cases(rng, tier):
    while True:
        for m in meas.METHODS:
            c = meas.rand_cfg(rng, methods=[m], domain="time", averages=meas.AVG[:2])
            if "Fits" in m:
                c["n_orb"] = min(c["n_orb"], 20)
                c["e0"] = max(c["e0"], 0.05)
            opts = {}
            if "Fits" not in m:
                if rng.random() < 0.5:
                    opts["distance"] = int(rng.integers(1, 400))
                if rng.random() < 0.4:
                    opts["width"] = [None, int(rng.integers(1, 120))][int(rng.integers(2))]
                if rng.random() < 0.3:
                    opts["plateau_size"] = 1
                if rng.random() < 0.3:
                    opts["prominence"] = float(rng.choice([1e-9, 1e-6, 1e-4]))
            yield dict(kind="find", cfg=c, opts=opts, bad=str(rng.choice(["Pericenters", "maxima", "", "periastron"])))
        for _ in range(10):
            yield dict(kind="mid", seed=int(rng.integers(1 << 30)), m=int(rng.integers(1, 30)))


def residual(d, o, which):
    """eccentric minus aligned quasicircular data, from the caller's data."""
    from scipy.interpolate import InterpolatedUnivariateSpline as S
    z = need(o, "dataDict")
    tz, mz = z["t_zeroecc"], z[{"amp": "amplm", "omega": "omegalm"}[which] + "_zeroecc"][2, 2]
    az = z["amplm_zeroecc"][2, 2]
    j = max(2, min(len(tz) - 3, int(np.argmax(az))))
    x = tz[j - 2:j + 3] - tz[j]
    c = np.polyfit(x, az[j - 2:j + 3], 2)
    tmz = tz[j] - c[1] / 2 / c[0]
    return {"amp": o.amp_gw, "omega": o.omega_gw}[which] - S(tz - tmz + o.t_merger, mz)(o.t)


def run(case):
    from gw_eccentricity.gw_eccentricity import get_available_methods
    from scipy.signal import find_peaks
    if case["kind"] == "mid":
        from gw_eccentricity.eccDefinition import eccDefinition
        rng = np.random.default_rng(case["seed"])
        p = np.cumsum(rng.integers(2, 400, size=case["m"]))
        a = need(object.__new__(eccDefinition), "get_apocenters_from_pericenters")(p)
        e = [(int(x) + int(y)) // 2 for x, y in zip(p[:-1], p[1:])]
        check(list(np.asarray(a)) == e and np.issubdtype(np.asarray(a).dtype, np.integer), lambda: f"apocenters {list(a)} from pericenters {list(p)}")
        return
    c = case["cfg"]
    m = c["method"]
    d = meas.build(c)
    ek = dict(meas.extra(c), extrema_finding_kwargs=dict(case["opts"]))
    try:
        o = get_available_methods(return_dict=True)[m](d, tref_in=float(d["t"][len(d["t"]) // 2]), num_orbits_to_exclude_before_merger=c["excl"], debug_level=-1, extra_kwargs=ek)
    except Exception as e:
        raise Skip("refused " + str(e)[:80])
    f = need(o, "find_extrema")
    expect_raise(lambda: f(case["bad"]), f"extrema of kind {case['bad']!r}")
    got = {}
    for k in ("pericenters", "apocenters"):
        try:
            got[k] = np.asarray(f(k))
        except Exception as e:
            if "Fits" in m:
                raise Skip("search failed " + str(e)[:60])
            raise
        check(np.all(np.diff(got[k]) > 0), lambda: f"{k} locations not increasing: {got[k]}")
        check(len(got[k]) == 0 or (got[k][0] >= 0 and got[k][-1] < len(o.t)), "location outside the data")
    if "Fits" not in m:
        which = "amp" if "Amplitude" in m else "omega"
        x = getattr(o, which + "_gw") if "Residual" not in m else residual(d, o, which)
        if "width" in case["opts"]:
            w = case["opts"]["width"]
        else:
            w = None
            kw = getattr(o, "extrema_finding_kwargs", {})
            w = kw.get("width", None)
        opts = dict(case["opts"], width=w)
        for k, s in (("pericenters", 1), ("apocenters", -1)):
            e = find_peaks(s * x, **opts)[0]
            if not np.array_equal(e, got[k]):
                if "Residual" in m:
                    # rounding in the alignment may add or drop marginal peaks
                    pert = find_peaks(s * x * (1 + 1e-9 * np.sin(np.arange(len(x)))), **opts)[0]
                    if not np.array_equal(pert, e) or len(e) > 60:
                        raise Skip("marginal peaks")
                fail(f"{m} {k} at {list(got[k][:6])}.. ({len(got[k])}), local {'maxima' if s > 0 else 'minima'} of the data at {list(e[:6])}.. ({len(e)}) with {opts}")
        return
    # fit-based: near the phases of the synthetic model (l = 0 at pericenters)
    if min(len(got["pericenters"]), len(got["apocenters"])) < 2:
        raise Skip("few extrema")
    tau = -(o.t - c["t_shift"]) + 60.0
    ph = -0.35 * 8 / 5 * (np.abs(tau) ** (5 / 8.) - 60.0 ** (5 / 8.))
    l = ph / c["k"] - c["l0"]
    keep = tau > 400
    for k, off in (("pericenters", 0.0), ("apocenters", np.pi)):
        i = got[k][keep[got[k]]]
        dev = np.abs((l[i] - off + np.pi) % (2 * np.pi) - np.pi)
        check(np.all(dev < 1.3), lambda: f"{m}: {k} found at mean anomalies {np.round((l[i]) % (2 * np.pi), 2)}")
    x = o.data_for_finding_extrema if hasattr(o, "data_for_finding_extrema") else None
    if m == "AmplitudeFits" and x is not None:
        A = np.abs(d["hlm"][2, 2]) if "hlm" in d else d["amplm"][2, 2]
        am = A[int(np.argmin(np.abs(d["t"] - o.t_merger)))]
        check(close(x, o.amp_gw / am, 1e-10), "amplitude not scaled by its merger value")
