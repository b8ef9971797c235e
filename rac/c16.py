"""C16 on the real code: the small-eccentricity policy."""
import numpy as np
from rac.base import *
from rac import meas

RULE = ("measurements with eccentricities from 0 to 0.2 on waveforms of 4 to 16 orbits (so that none, one or many extrema are found), the option on, off or not given, "
        "scalar and array references, times and frequencies, midpoints as apocenters; the number of extrema found recorded from the search; non-trivial: cases with fewer than two")


def cases(rng, tier):
    while True:
        c = meas.rand_cfg(rng, methods=["Amplitude", "Frequency", "ResidualAmplitude"], averages=meas.AVG[:2])
        c["e0"] = float(rng.choice([0.0, 1e-6, 1e-4, 1e-3, 0.01, 0.1, 0.2]))
        c["n_orb"] = int(rng.integers(4, 17))
        c["excl"] = [1, 2, 2, 3][int(rng.integers(4))]
        c["interp"] = "spline"
        c["mid"] = bool(rng.random() < 0.3)
        c["extra"] = [{}, {"return_zero_if_small_ecc_failure": False}, {"return_zero_if_small_ecc_failure": True}, {"return_zero_if_small_ecc_failure": True}][int(rng.integers(4))]
        c["extra"]["extrema_finding_kwargs"] = [{}, {"width": 1}, {"distance": 100000}][int(rng.choice([0, 0, 1, 2]))]
        yield dict(cfg=c)


def run(case):
    from gw_eccentricity.gw_eccentricity import get_available_methods
    c = case["cfg"]
    d = meas.build(c)
    ref = meas.refs(c, d)
    cls = get_available_methods(return_dict=True)[c["method"]]
    kw = {"tref_in" if c["domain"] == "time" else "fref_in": ref}
    try:
        o = cls(d, num_orbits_to_exclude_before_merger=c["excl"], debug_level=-1, extra_kwargs=meas.extra(c), **kw)
    except Exception as e:
        raise Skip("refused " + str(e)[:60])
    p = need(o, "find_extrema")("pericenters")
    a = o.find_extrema("apocenters")
    npn, nap = len(p), (max(len(p) - 1, 0) if c["mid"] else len(a))
    orb = (o.phase_gw[-1] - o.phase_gw[0]) / 4 / np.pi
    if abs(orb - 5) < 1e-6:
        raise Skip("boundary")
    flag = bool(c["extra"].get("return_zero_if_small_ecc_failure"))
    st, r = meas.attempt(c, d)
    few = min(npn, nap) < 2
    info = f"{npn} pericenters, {nap} apocenters, {orb:.2f} orbits, option {flag}"
    if few and not (flag and orb > 5):
        check(st == "raise", lambda: f"no exception with {info}: {r if st == 'raise' else r['eccentricity']}")
        return
    if few:
        check(st == "ok", lambda: f"{type(r).__name__} {r} with {info}")
        k = meas.outkey(c)
        check(np.array_equal(np.asarray(r[k]), np.asarray(ref)), lambda: f"returned {k} are not the requested ones: {info}")
        for q in ("eccentricity", "mean_anomaly"):
            check(np.ndim(r[q]) == np.ndim(ref) and np.shape(r[q]) == np.shape(ref) and np.all(np.asarray(r[q]) == 0), lambda: f"{q} {np.shape(r[q])} for a request of shape {np.shape(ref)}: {r[q]}")
        return
    c2 = dict(c, extra=dict(c["extra"], return_zero_if_small_ecc_failure=not flag))
    st2, r2 = meas.attempt(c2, d)
    check(st == st2, lambda: f"the option changes the outcome with {info}: {r if st == 'raise' else 'ok'} / {r2 if st2 == 'raise' else 'ok'}")
    if st == "ok":
        for q in ("eccentricity", "mean_anomaly", meas.outkey(c)):
            check(np.array_equal(r[q], r2[q]), lambda: f"the option changes {q} with {info}")
