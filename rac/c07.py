"""C07 on the real code: averages between extrema."""
import numpy as np
from rac.base import *
from rac import meas

PARTIAL = True
RULE = ("measured objects (all methods, averages, short segments) and partially built objects with irregular random extrema; averages recomputed "
        "from times and phases; increasing check in both directions; non-trivial: all")


def cases(rng, tier):
    while True:
        for _ in range(30):
            yield dict(kind="direct", seed=int(rng.integers(1 << 30)), n=int(rng.integers(3, 12)), bad=str(rng.choice(["none", "none", "some"])))
        yield dict(kind="obj", cfg=meas.rand_cfg(rng, methods=["Amplitude", "Frequency", "ResidualAmplitude"], zeroecc=True, seg=0.1, domain="frequency" if rng.random() < .5 else "time"))


def averages(t, ph, P):
    return [(ph[b] - ph[a]) / (t[b] - t[a]) for a, b in zip(P, P[1:])], [(t[a] + t[b]) / 2 for a, b in zip(P, P[1:])]


def merged(t, ph, P, A):
    wp, tp = averages(t, ph, P)
    wa, ta = averages(t, ph, A)
    pairs = sorted(list(zip(tp, wp)) + list(zip(ta, wa)))
    return wp, wa, np.array([x for x, _ in pairs]), np.array([y for _, y in pairs])


def run(case):
    from gw_eccentricity.eccDefinition import eccDefinition
    if case["kind"] == "direct":
        rng = np.random.default_rng(case["seed"])
        o = object.__new__(eccDefinition)
        n = case["n"]
        gaps = rng.integers(20, 60, size=2 * n)
        loc = np.cumsum(gaps)
        P, A = loc[0::2], loc[1::2]
        if rng.random() < 0.4:
            A = A[:-1] if len(A) > 3 else A
        if rng.random() < 0.4:
            P = P[1:] if len(P) > 3 else P
        N = loc[-1] + 10
        t = rng.uniform(-1e4, 1e4) + 0.5 * np.arange(N)
        om = 0.02 + 0.05 * (np.arange(N) / N) ** 2
        if case["bad"] == "some":
            k = int(rng.integers(10, N - 10))
            om[k:] -= rng.uniform(0.005, 0.02)
        ph = np.concatenate(([0.0], np.cumsum(0.5 * (om[1:] + om[:-1]) * 0.5)))
        o.t, o.phase_gw, o.pericenters_location, o.apocenters_location, o.omega_gw = t, ph, P, A, om
        o.general_interp_kwargs = {"w": None, "bbox": [None, None], "k": 3, "ext": 2, "check_finite": False}
        o.debug_plots, o.debug_level, o.method = False, -1, "x"
        o.extra_kwargs = {"omega_gw_averaging_method": "orbit_averaged_omega_gw"}
        wp, wa, T, W = merged(t, ph, P, A)
        f = need(o, "compute_orbit_averaged_omega_gw_between_extrema")
        inc = all(np.all(np.diff(x) > 0) for x in (wp, wa, W))
        margin = min(np.min(np.abs(np.diff(x))) for x in (wp, wa, W))
        if not inc:
            if margin > 1e-12:
                expect_raise(lambda: f(T), f"averages not strictly increasing (pericenters {wp}, apocenters {wa}, merged {list(W)})")
            return
        if margin < 1e-12:
            raise Skip("ties")
        check(close(f(T), W, 1e-9), lambda: f"the average at the midpoints {list(T)} is {list(f(T))}, expected {list(W)}")
        x = np.sort(rng.uniform(T[0], T[-1], size=30))
        from scipy.interpolate import InterpolatedUnivariateSpline as S
        e = S(T, W, k=min(3, len(T) - 1))(x)
        check(close(f(x), e, 1e-8, 1e-10), "the average between the midpoints is not the interpolant through them")
        return
    c = case["cfg"]
    r, o = meas.measure(c)
    t, ph, P, A = np.asarray(o.t), np.asarray(o.phase_gw), o.pericenters_location, o.apocenters_location
    wp, wa, T, W = merged(t, ph, P, A)
    if min(len(wp), len(wa)) < 2 or len(W) < 4:
        raise Skip("too few extrema")
    g = need(o, "get_omega_gw_average")
    for m in meas.AVG:
        try:
            tt, w = g(m)
        except Exception as e:
            if m == "orbit_averaged_omega_gw" and min(np.diff(x).min() for x in (wp, wa, W)) > 1e-12:
                raise
            continue
        check(np.all((tt >= o.tmin) & (tt <= o.tmax)), f"{m}: range exceeds the measurable range")
        if m == "orbit_averaged_omega_gw":
            from scipy.interpolate import InterpolatedUnivariateSpline as S
            e = S(T, W, k=3)(tt)
            lim = (max(o.tmin, T[0]), min(o.tmax, T[-1]))
        elif m == "mean_of_extrema_interpolants":
            e = 0.5 * (o.omega_gw_pericenters_interp(tt) + o.omega_gw_apocenters_interp(tt))
            lim = (o.tmin, o.tmax)
        else:
            d = o.dataDict
            from scipy.interpolate import InterpolatedUnivariateSpline as S
            tz = np.asarray(d["t_zeroecc"])
            ts = tz - o.t_merger_zeroecc + o.t_merger
            wz = np.gradient(np.asarray(d["phaselm_zeroecc"][(2, 2)] if "phaselm_zeroecc" in d else -np.unwrap(np.angle(d["hlm_zeroecc"][(2, 2)]))), tz, edge_order=2)
            e = S(ts, wz, k=3)(tt)
            lim = (o.tmin, o.tmax)
            check(close(w, e, 1e-3), lambda: f"quasicircular average differs from the shifted quasicircular frequency by {np.max(np.abs(w - e))}")
            e = w
        check(close(w, e, 1e-7, 1e-9), lambda: f"{m}: average differs by {np.max(np.abs(w - e))}")
        k = np.where((t >= lim[0]) & (t <= lim[1]))[0]
        check(np.array_equal(tt, t[k]), f"{m}: not evaluated at exactly the samples in its range")
