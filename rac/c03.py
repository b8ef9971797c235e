"""C03 on the real code: which reference points are returned."""
import numpy as np
from rac.base import *
from rac import meas

RULE = ("random measurements repeated with reference arrays built from the range found in a first run: end points exactly, "
        "points just outside, single points, all points outside, unsorted times; non-trivial: first run accepted")


def cases(rng, tier):
    while True:
        c = meas.rand_cfg(rng, seg=0.1, scalar=False, zeroecc=False, methods=["Amplitude", "Frequency", "AmplitudeFits", "FrequencyFits"], averages=meas.AVG[:2])
        yield dict(cfg=c, seed=int(rng.integers(1 << 30)))


def run(case):
    c = case["cfg"]
    rng = np.random.default_rng(case["seed"])
    d = meas.build(c)
    r0, o0 = meas.measure(c, d)
    key = meas.outkey(c)
    check(set(r0) == {"eccentricity", "mean_anomaly", key, "gwecc_object"}, lambda: f"result names {sorted(r0)} for {c['domain']} input")
    lo0 = max(o0.t[o0.pericenters_location[0]], o0.t[o0.apocenters_location[0]])
    hi0 = min(o0.t[o0.pericenters_location[-1]], o0.t[o0.apocenters_location[-1]])
    if c["domain"] == "time":
        lo, hi = lo0, hi0
    else:
        w = np.asarray(o0.omega_gw_average)
        lo, hi = w.min() / 2 / np.pi, w.max() / 2 / np.pi

    def inside(x):
        return (x >= lo) & (x <= hi) if c["domain"] == "time" else (x >= lo) & (x < hi)
    if c.get("seg"):
        # the window, hence the range, depends on the reference points
        x = np.atleast_1d(meas.refs(c, d))
        rr = np.atleast_1d(r0[key])
        check(np.array_equal(rr, x[inside(x)]), "returned reference points are not the requested ones inside the range")
        check(len(rr) == len(r0["eccentricity"]) == len(r0["mean_anomaly"]), "lengths differ")
        return
    w = hi - lo
    arrays = [np.array([lo, lo + w / 3, hi]), np.array([lo - w / 10, lo, np.nextafter(hi, -np.inf), hi, np.nextafter(hi, np.inf), hi + w / 10]),
              np.array([np.nextafter(lo, -np.inf), lo, np.nextafter(lo, np.inf)]),
              np.sort(rng.uniform(lo - 0.3 * w, hi + 0.3 * w, 17)), rng.uniform(lo - 0.3 * w, hi + 0.3 * w, 9), np.array([lo + w / 2, lo - w, lo + w / 5, lo + w / 2, lo + w / 3]), np.array([lo + w / 2]), [float(lo + 0.25 * w), float(lo + 0.7 * w)]]
    base = {}
    if c["domain"] == "frequency":
        arrays = arrays[1:]
    for x in arrays:
        xa = np.atleast_1d(x)
        exp = xa[inside(xa)]
        if c["domain"] == "time" and len(exp) and (exp[0] < o0.t[o0.pericenters_location[0]]):
            continue
        st, r = meas.attempt(c, d, ref=x)
        if st == "raise":
            if len(exp) == 0:
                continue
            fail(f"raises {type(r).__name__}: {str(r)[:160]} for reference points {xa[:4]} some of which are in [{lo},{hi}]")
        got = r[key]
        check(np.array_equal(got, exp), lambda: f"returned {c['domain']} points {got[:6]}.. expected {exp[:6]}.. (range [{lo!r}, {hi!r}])")
        check(len(r["eccentricity"]) == len(exp) == len(r["mean_anomaly"]), "number of eccentricities differs from the number of reference points")
        # element by element: measuring one of them alone gives the same values
        j = int(rng.integers(len(exp)))
        st1, r1 = meas.attempt(c, d, ref=exp[j:j + 1])
        if st1 == "ok":
            check(len(r1[key]) == 1 and r1[key][0] == exp[j] and close(r1["eccentricity"][0], r["eccentricity"][j], rtol=1e-8, atol=1e-10)
                  and meas.angdiff(r1["mean_anomaly"][0], r["mean_anomaly"][j]) < 1e-7, "values do not belong to their reference point")
        else:
            fail(f"single reference point {exp[j]} in range is refused: {str(r1)[:150]}")
        s = float(exp[j])
        st2, r2 = meas.attempt(c, d, ref=s)
        check(st2 == "ok", lambda: f"scalar reference {s} in range is refused: {str(r2)[:150]}")
        check(np.ndim(r2["eccentricity"]) == 0 and np.ndim(r2["mean_anomaly"]) == 0 and np.ndim(r2[key]) == 0 and r2[key] == s, "scalar in does not give scalar out")
    expect_raise(lambda: meas.call(c, d, ref=np.array([hi + w, hi + 1.2 * w])), "no requested point in the range")
    expect_raise(lambda: meas.call(c, d, ref=np.array([lo - w, lo - 0.9 * w])), "no requested point in the range")
    expect_raise(lambda: meas.call(c, d, ref=float(hi + w)), "scalar reference outside the range")
