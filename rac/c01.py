"""C01 on the real code: eccentricity recomputed from the two envelopes."""
import numpy as np
from rac.base import *
from rac import meas

RULE = ("random measurements (method, domain, averaging, interpolation, waveform) with eccentricity recomputed from the "
        "two envelope interpolants; and the relation on random envelope pairs (w_p, w_a) incl. equal and extreme ratios "
        "through compute_eccentricity of a bare object; non-trivial: the measurement was accepted")
PARTIAL = True


def cases(rng, tier):
    edge = [[1.0, 1.0], [2.0, 1.0], [1e-6, 1e-6], [1e6, 1.0], [1.0000001, 1.0], [0.03, 0.02999], [5e-5, 2e-5]]
    yield dict(kind="env", pairs=edge)
    while True:
        for _ in range(3):
            wa = 10 ** rng.uniform(-5, 1, 12)
            r = 1 + 10 ** rng.uniform(-8, 2.5, 12)
            yield dict(kind="env", pairs=[[float(a * b), float(a)] for a, b in zip(wa, r)])
        yield dict(kind="meas", cfg=meas.rand_cfg(rng, seg=0.15))


def bare(o_tmin=-10.0, o_tmax=10.0):
    from gw_eccentricity.eccDefinitionUsingAmplitude import eccDefinitionUsingAmplitude as E
    o = E.__new__(E)
    o.tmin, o.tmax, o.domain, o.setting_ecc_to_zero = o_tmin, o_tmax, "time", False
    return o


def run(case):
    if case["kind"] == "env":
        p = np.array(case["pairs"])
        n = len(p)
        t = np.linspace(-10, 10, n)
        o = bare()
        o.omega_gw_pericenters_interp = lambda x: np.interp(x, t, p[:, 0])
        o.omega_gw_apocenters_interp = lambda x: np.interp(x, t, p[:, 1])
        e = need(o, "compute_eccentricity")(t)
        check(close(e, meas.ecc_formula(p[:, 0], p[:, 1]), atol=1e-12), lambda: f"eccentricity {e} for (w_p, w_a) {case['pairs']} is not the documented function")
        check(np.all(e > -1e-9) and np.all(e < 1 + 1e-12), lambda: f"eccentricity {e} outside [0,1]")
        o.omega_gw_pericenters_interp = lambda x: 7.25 * np.interp(x, t, p[:, 0])
        o.omega_gw_apocenters_interp = lambda x: 7.25 * np.interp(x, t, p[:, 1])
        check(close(o.compute_eccentricity(t), e, atol=1e-12), "eccentricity depends on the unit of frequency")
        ratio = p[:, 0] / p[:, 1]
        s = np.argsort(ratio)
        check(np.all(np.diff(e[s]) >= -1e-12), "eccentricity does not grow with w_p/w_a")
        one = o.compute_eccentricity(t[n // 2:n // 2 + 1])
        check(close(one, e[n // 2:n // 2 + 1]), "element depends on the other reference times")
        expect_raise(lambda: o.compute_eccentricity(np.array([0.0, 10.0 + 1e-6])), "time above the measurable range")
        expect_raise(lambda: o.compute_eccentricity(np.array([-10.0 - 1e-6, 0.0])), "time below the measurable range")
        return
    c = case["cfg"]
    r, o = meas.measure(c)
    t = meas.ref_times(c, r, o)
    wp, wa = o.omega_gw_pericenters_interp(t), o.omega_gw_apocenters_interp(t)
    e = np.atleast_1d(r["eccentricity"])
    check(close(e, meas.ecc_formula(wp, wa), rtol=1e-9, atol=1e-11), lambda: f"eccentricity {e[:3]} differs from the documented function of the envelopes {meas.ecc_formula(wp, wa)[:3]}")
    # the envelopes go through the extrema they are built from
    for loc, f in ((o.pericenters_location, o.omega_gw_pericenters_interp), (o.apocenters_location, o.omega_gw_apocenters_interp)):
        if c["interp"] == "spline":
            check(np.all(np.abs(f(o.t[loc]) / o.omega_gw[loc] - 1) < 1e-9), "envelope does not follow its own extrema")
    for bad in (o.tmax + 1e-3, o.tmin - 1e-3):
        expect_raise(lambda: o.compute_eccentricity(np.array([0.5 * (o.tmin + o.tmax), bad])), "eccentricity at a time outside the measurable range")
    if c["scalar"]:
        return
    # element by element
    i = len(t) // 2
    check(close(np.atleast_1d(o.compute_eccentricity(t[i:i + 1])), e[i:i + 1], rtol=1e-9), "element depends on the other reference times")
