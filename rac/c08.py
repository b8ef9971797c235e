"""C08 on the real code: reference frequency to time."""
import numpy as np
from rac.base import *
from rac import meas

RULE = ("measurements at reference frequencies (methods, averages, nonuniform and repeated frequencies); the average at the reported time equals "
        "2 pi f, larger f gives later t, measuring at those times reproduces the values, bounds recomputed; non-trivial: accepted cases")


def cases(rng, tier):
    while True:
        c = meas.rand_cfg(rng, methods=["Amplitude", "Frequency", "ResidualAmplitude", "ResidualFrequency"], domain="frequency")
        c["n_orb"] = int(rng.integers(14, 24))
        yield dict(cfg=c)


def run(case):
    c = case["cfg"]
    d = meas.build(c)
    r, o = meas.measure(c, d)
    if need(o, "setting_ecc_to_zero"):
        raise Skip("zero eccentricity")
    f = np.atleast_1d(r["fref_out"])
    t = np.atleast_1d(o.tref_out)
    check(len(f) == len(t), "one time per frequency")
    g = need(o, "get_omega_gw_average")
    tt, w = g(c["avg"])
    lo, hi = w.min() / 2 / np.pi, w.max() / 2 / np.pi
    b = need(o, "get_fref_bounds")()
    check(close(b, [lo, hi], 1e-10), lambda: f"bounds {b}, expected {[lo, hi]}")
    check(np.all((tt >= o.tmin) & (tt <= o.tmax)), "range of the average exceeds the measurable range")
    if c["avg"] == "orbit_averaged_omega_gw":
        for X in (o.t[o.pericenters_location], o.t[o.apocenters_location]):
            pass
        P, A = o.t[o.pericenters_location], o.t[o.apocenters_location]
        m = np.sort(np.concatenate(((P[1:] + P[:-1]) / 2, (A[1:] + A[:-1]) / 2)))
        ref = np.where((o.t >= max(o.tmin, m[0])) & (o.t <= min(o.tmax, m[-1])))[0]
    else:
        ref = np.where((o.t >= o.tmin) & (o.t <= o.tmax))[0]
    check(np.array_equal(tt, o.t[ref]), "the average is not taken over all samples of its range")
    check(np.all((f >= lo) & (f < hi)), "an accepted frequency lies outside the bounds")
    req = np.atleast_1d(meas.refs(c, d))
    sel = req[(req >= lo) & (req < hi)]
    check(np.array_equal(sel, f), "accepted frequencies are not those within the bounds")
    j = np.searchsorted(w, 2 * np.pi * f)
    dt = o.t[1] - o.t[0]
    lo_, hi_ = tt[np.maximum(j - 1, 0)] - 0.2 * dt, tt[np.minimum(j, len(tt) - 1)] + 0.2 * dt
    bad = np.where((t < lo_) | (t > hi_))[0]
    check(len(bad) == 0, lambda: f"f={f[bad[0]]} is mapped to t={t[bad[0]]}, but the average reaches 2 pi f between {lo_[bad[0]]} and {hi_[bad[0]]}")
    k = np.argsort(f, kind="stable")
    df = np.diff(f[k])
    check(np.all(np.diff(t[k])[df > 1e-9 * f[0]] > 0), "larger frequency does not give a later time")
    c2 = dict(c, domain="time", scalar=False)
    ok = (t > o.tmin) & (t < o.tmax)
    if np.any(ok) and not c.get("seg"):
        r2 = meas.call(c2, d, ref=t[ok].copy())
        e, e2 = np.atleast_1d(r["eccentricity"])[ok], r2["eccentricity"]
        check(close(e, e2, 1e-9, 1e-12), lambda: f"measuring at the mapped times gives {e2}, not {e}")
        l, l2 = np.atleast_1d(r["mean_anomaly"])[ok], r2["mean_anomaly"]
        check(np.all(meas.angdiff(l, l2) < 1e-9), lambda: f"measuring at the mapped times gives mean anomaly {l2}, not {l}")
