"""Random measurement configurations on synthetic waveforms (the public entry
point measure_eccentricity), shared by the runtime contract checks."""
import copy
import numpy as np
from rac.base import Skip, Violation, need, check, close, fail
from rac.wave import data_dict

METHODS = ["Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency", "AmplitudeFits", "FrequencyFits"]
AVG = ["orbit_averaged_omega_gw", "mean_of_extrema_interpolants", "omega_gw_zeroecc"]


def rand_cfg(rng, methods=METHODS, domain=None, zeroecc=None, precessing=False, seg=0.0, averages=None, **fix):
    m = str(rng.choice(methods))
    z = ("Residual" in m) or (bool(rng.random() < 0.3) if zeroecc is None else zeroecc)
    dom = domain or str(rng.choice(["time", "frequency"]))
    avg = str(rng.choice(averages or (AVG if z else AVG[:2])))
    if avg == "omega_gw_zeroecc":
        z = True
    c = dict(e0=float(np.round(rng.uniform(0.03, 0.35), 4)), n_orb=int(rng.integers(14, 34)),
             dt=float(rng.choice([0.5, 1.0, 1.0, 0.8])), k=float(np.round(rng.uniform(1.02, 1.1), 3)),
             l0=float(np.round(rng.uniform(0, 6.28), 3)), t_shift=float(rng.choice([0.0, 0.0, 1500.5, -3.25])),
             amp_scale=float(rng.choice([1.0, 1.0, 0.37, 250.0])), kind=str(rng.choice(["hlm", "amp", "ampomega"])),
             zeroecc=z, t_shift_zeroecc=float(rng.choice([0.0, 40.0, -1000.25])), method=m, domain=dom,
             avg=avg, excl=[2, 2, 1, 3, 1.5][int(rng.integers(5))], interp=str(rng.choice(["rational_fit", "spline"])),
             n_ref=int(rng.integers(1, 80)), lo=float(np.round(rng.uniform(0.5, 1.02), 3)),
             hi=float(np.round(rng.uniform(-0.02, 0.4), 3)), scalar=bool(rng.random() < 0.25),
             order=str(rng.choice(["sorted", "sorted", "sorted", "dup"])),
             seg=(int(rng.integers(8, 16)) if rng.random() < seg else None), modes22=True, precessing=precessing)
    c.update(fix)
    return c


def wave_kwargs(c):
    kw = {k: c[k] for k in ("e0", "n_orb", "dt", "k", "l0", "t_shift", "amp_scale")}
    kw["t_shift_zeroecc"] = c["t_shift_zeroecc"]
    return kw


def build(c):
    modes = ((2, 2),)
    if c.get("modes"):
        modes = tuple(tuple(m) for m in c["modes"])
    return data_dict(kind=c["kind"], zeroecc=c["zeroecc"], modes=modes, **wave_kwargs(c))


def extra(c):
    e = {"omega_gw_averaging_method": c["avg"], "omega_gw_extrema_interpolation_method": c["interp"]}
    if c.get("seg"):
        e["use_only_these_many_orbits"] = c["seg"]
    if c.get("mid"):
        e["treat_mid_points_between_pericenters_as_apocenters"] = True
    e.update(c.get("extra") or {})
    return e


def refs(c, d):
    """reference times or frequencies in (and around) the measurable range."""
    t = d["t"]
    m = c["t_shift"]
    span = m - t[0]
    if c["domain"] == "time":
        r = np.linspace(m - c["lo"] * span, m - c["hi"] * span - 1.0, c["n_ref"])
    else:
        # averaged frequency of the synthetic model: 2 Omega / (2 pi)
        tau0, cc = 60.0, 0.35
        f = lambda x: 2 * cc * (x + tau0) ** (-3.0 / 8) / (2 * np.pi)
        r = np.linspace(f(c["lo"] * span), f(max(c["hi"] * span, 0) + 1.0), c["n_ref"])
    if c["order"] == "dup" and len(r) > 3:
        r = np.sort(np.append(r, r[1:3]))
    if c["scalar"]:
        r = float(r[len(r) // 2])
    return r


def call(c, d, ref=None, **over):
    from gw_eccentricity import measure_eccentricity
    import inspect
    ref = refs(c, d) if ref is None else ref
    kw = dict(method=c["method"], dataDict=d, num_orbits_to_exclude_before_merger=c["excl"],
              precessing=c["precessing"], debug_level=c.get("debug_level", -1), extra_kwargs=extra(c))
    if c["precessing"]:
        kw["frame"] = c.get("frame", "coprecessing")
    kw["tref_in" if c["domain"] == "time" else "fref_in"] = ref
    kw.update(over)
    return measure_eccentricity(**kw)


def outkey(c):
    return "tref_out" if c["domain"] == "time" else "fref_out"


def measure(c, d=None, **over):
    """(result, object) or Skip when this configuration is refused (short data, nonmonotonic average ...)."""
    d = build(c) if d is None else d
    try:
        r = call(c, d, **over)
    except Exception as e:
        raise Skip("configuration refused: " + type(e).__name__ + " " + str(e).split("\n")[0][:90])
    return r, r["gwecc_object"]


def attempt(c, d, **over):
    """('ok', result) or ('raise', exception)."""
    try:
        return "ok", call(c, d, **over)
    except Exception as e:
        return "raise", e


def ecc_formula(wp, wa):
    x = (np.sqrt(wp) - np.sqrt(wa)) / (np.sqrt(wp) + np.sqrt(wa))
    psi = np.arctan2(1 - x * x, 2 * x)
    return np.cos(psi / 3) - np.sqrt(3) * np.sin(psi / 3)


def mean_anomaly(t, tp):
    t = np.atleast_1d(t)
    k = np.clip(np.searchsorted(tp, t, side="right") - 1, 0, len(tp) - 2)
    x = (t - tp[k]) / (tp[k + 1] - tp[k])
    return np.where(x >= 1, 0.0, 2 * np.pi * x)


def angdiff(a, b):
    d = np.abs(np.asarray(a) - np.asarray(b)) % (2 * np.pi)
    return np.minimum(d, 2 * np.pi - d)


def ref_times(c, r, o):
    """the times at which the returned values hold."""
    if c["domain"] == "time":
        return np.atleast_1d(r["tref_out"])
    return np.atleast_1d(need(o, "tref_out"))
