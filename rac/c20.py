"""C20: the adaptive rational fit with scripted outcomes of the monotonicity check, and unscripted on random extrema."""
import warnings
import numpy as np
from rac.base import Skip, check, need

RULE = ("an object holding random extrema; the monotonicity check is scripted with a random outcome per degrees (or left alone); starting degrees up to 7 given or derived, "
        "2 to 40 points; the sequence of degrees tried, the outcome recorded, the degrees recorded and the function returned are compared with an independent search")
PARTIAL = True


def cases(rng, tier):
    i = 0
    while True:
        yield dict(kind=["script", "script", "real", "start"][i % 4], seed=int(rng.integers(1 << 30)))
        i += 1


def run(c):
    from gw_eccentricity.eccDefinition import eccDefinition
    import gw_eccentricity.eccDefinition as mod
    rng = np.random.default_rng(c["seed"])
    o = object.__new__(eccDefinition)
    if c["kind"] == "start":
        a, b = (int(rng.choice([0, 1, 5, 19, 20, 21, 39, 40, 41, 42, 59, 60, 61, 62, 100])) for _ in "ab")
        o.pericenters_location, o.apocenters_location = np.arange(a), np.arange(b)
        r = need(o, "get_approximate_degree_for_rational_fit")()
        k = max(a, b)
        e = 3 if k <= 20 else 4 if k <= 40 else 5 if k <= 60 else 6
        check(tuple(r) == (e, e), f"starting degrees {r} for {a} pericenters and {b} apocenters")
        return
    N = int(rng.integers(2, 41)) if rng.random() < 0.5 else int(rng.integers(2, 14))
    x = np.cumsum(rng.uniform(80, 120, N)) - 6000
    y = 0.02 * (1 + 0.3 * (N - np.arange(N))) ** -0.4 + rng.normal(size=N) * rng.choice([0, 1e-6, 1e-4])
    start = None if rng.random() < 0.3 else tuple(int(v) for v in rng.integers(0, 8, 2))
    o.special_interp_kwargs_for_omega_gw_extrema = dict(degrees=start, tol=1e-7, max_iterations=3, verbose=False)
    kw0 = dict(o.special_interp_kwargs_for_omega_gw_extrema)
    kwobj = o.special_interp_kwargs_for_omega_gw_extrema
    o.t = np.arange(x[0], x[-1] + 5, 2.0 if N > 2 else 1.0)
    o.extra_kwargs = dict(use_only_these_many_orbits=None)
    o.debug_level = -1
    o.pericenters_location = o.apocenters_location = np.arange(N)
    o.rational_fit_nonmonotonicity_history = dict(pericenters={}, apocenters={})
    o.rational_fit_degrees = dict(pericenters="x", apocenters="untouched")
    bad = set((m, n) for m in range(30) for n in range(30) if rng.random() < c.get("p", rng.choice([0.2, 0.5, 0.9])))
    tried, kinds = [], {}
    orig_fit = mod.get_rational_fit
    cur = []

    def fit(xx, yy, *a, **k):
        kw = k.get("rational_fit_kwargs", a[0] if a else None)
        d = tuple(int(v) for v in kw["degrees"])
        if c["kind"] == "script":
            r = lambda z: np.zeros(np.shape(z)) + d[0] * 1000 + d[1]
        else:
            r = orig_fit(xx, yy, *a, **k)
        tried.append(d)
        kinds[id(r)] = d
        cur.append(r)
        check(xx is x and yy is y or (np.array_equal(xx, x) and np.array_equal(yy, y)), "not fitted to the points given")
        return r

    ocheck = o.check_if_first_derivative_is_not_strictly_monotonic
    outcomes = {}

    def mono(xs, v, *a):
        d = tried[-1]
        z = np.asarray(xs, dtype=float)
        h = 2.01 * (o.t[1] - o.t[0])
        check(z[0] <= x[0] + h and z[-1] >= x[-1] - h and np.all(np.diff(z) <= h),
              f"monotonicity checked on {len(z)} points from {z[0]} to {z[-1]}, the extrema being at {x[0]} to {x[-1]} and the data's time step {h/2.01}")
        r = (d in bad) if c["kind"] == "script" else ocheck(xs, v, *a)
        if c["kind"] == "script":
            check(np.all(v == d[0] * 1000 + d[1]), "the values checked are not those of the last fit")
        outcomes[d] = bool(r)
        return r

    o.check_if_first_derivative_is_not_strictly_monotonic = mono
    need(mod, "get_rational_fit")
    mod.get_rational_fit = fit
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = need(o, "get_rational_fit_for_extrema")(x, y, "pericenters")
            except (np.linalg.LinAlgError, ValueError) as e:
                if c["kind"] == "real":
                    raise Skip(str(e))
                raise
    finally:
        mod.get_rational_fit = orig_fit
    if not tried:
        raise Skip("fits made otherwise")
    d = start
    if d is None:
        e = 3 if N <= 20 else 4 if N <= 40 else 5
        d = (e, e)
    turn = True
    while d[0] + d[1] + 1 >= N:
        d = (d[0], d[1] - 1) if (turn and d[1]) or not d[0] else (d[0] - 1, d[1])
        turn = not turn
    out = lambda d: outcomes.get(d)
    exp, rec = [d], d
    if out(d):
        while out(d) and max(d) > 1:
            d = (max(d[0] - 1, 1), max(d[1] - 1, 1))
            exp.append(d)
        rec = None if out(d) else d
    elif out(d) is not None:
        while True:
            e = (d[0] + 1, d[1] + 1)
            if sum(e) + 1 >= N:
                break
            exp.append(e)
            if out(e) or out(e) is None:
                break
            d = e
        rec = d
    what = f"{N} points, start {start}, outcomes {outcomes}"
    check(tried == exp, f"{what}: degrees tried {tried}, expected {exp}")
    got = o.rational_fit_degrees["pericenters"]
    check(got == rec if rec is None else got is not None and tuple(got) == rec, f"{what}: recorded degrees {got}, expected {rec}")
    h = o.rational_fit_nonmonotonicity_history["pericenters"]
    check({tuple(k): bool(v) for k, v in h.items()} == outcomes, f"{what}: recorded outcomes {h}")
    check(not o.rational_fit_nonmonotonicity_history["apocenters"] and o.rational_fit_degrees["apocenters"] == "untouched", f"{what}: other extrema touched")
    if rec is None:
        check(id(r) not in kinds and np.allclose(r(x), y, rtol=1e-9), f"{what}: not a spline through the points")
    else:
        check(kinds.get(id(r)) == rec, f"{what}: returned fit of degrees {kinds.get(id(r))}, recorded {rec}")
    check(kwobj == kw0, f"{what}: the settings given are modified to {kwobj}")
