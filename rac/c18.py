"""C18 on the real code: interpolation."""
import warnings
import numpy as np
from rac.base import *

RULE = "random data (2..40 points), requested points at/inside/just outside the ends, unordered or short data, every interpolator, order and extrapolation flag; non-trivial: all"


def cases(rng, tier):
    while True:
        yield dict(n=int(rng.choice([0, 1, 2, 3, 4, 5, 6, int(rng.integers(7, 40))])), seed=int(rng.integers(1 << 30)),
                   kind=str(rng.choice(["spline", "spline", "monotonic_spline", "nosuch"])), extrap=bool(rng.random() < 0.4),
                   k=[None, 1, 2, 3, 4, 5][int(rng.integers(6))], ext=[None, None, None, 0, 1, 2, 3][int(rng.integers(7))],
                   fault=[None, None, None, "swap", "equal", "length", "reverse"][int(rng.integers(7))],
                   off=float(rng.choice([0, 0, 5e-11, 2e-10, 1e-6, 1.0])), side=int(rng.integers(2)), scalar=bool(rng.random() < 0.2))


def run(case):
    from gw_eccentricity import utils
    from scipy.interpolate import InterpolatedUnivariateSpline, PchipInterpolator
    ip, gi = need(utils, "interpolate"), need(utils, "get_interpolant")
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    x = np.cumsum(rng.uniform(0.1, 2, n)) - rng.uniform(0, 3)
    y = rng.normal(size=n)
    f = case["fault"]
    if f == "swap" and n >= 2:
        i = int(rng.integers(0, n - 1))
        x[i], x[i + 1] = x[i + 1], x[i]
    elif f == "equal" and n >= 2:
        i = int(rng.integers(0, n - 1))
        x[i + 1] = x[i]
    elif f == "reverse" and n >= 2:
        x = x[::-1].copy()
    elif f == "length":
        y = rng.normal(size=n + 1 if rng.random() < 0.5 or n == 0 else n - 1)
    inc = bool(np.all(np.diff(x) > 0))
    if n:
        lo, hi = x.min(), x.max()
        q = rng.uniform(lo, hi, 5)
        q[0], q[1] = lo, hi
        if case["off"]:
            q[2] = lo - case["off"] if case["side"] else hi + case["off"]
        if case["scalar"]:
            q = q[2:3] if case["off"] else q[:1]
    else:
        q = np.array([0.0])
    out = bool(n and (q.min() < x.min() - 1e-10 or q.max() > x.max() + 1e-10))
    kw = {}
    if case["k"] is not None:
        kw["k"] = case["k"]
    if case["ext"] is not None:
        kw["ext"] = case["ext"]
    spl = case["kind"] == "spline"
    x0, y0 = x.copy(), y.copy()
    bad = (len(x) != len(y)) or not inc or n < 2 or case["kind"] == "nosuch" or (not case["extrap"] and out)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = ip(q, x, y, allowExtrapolation=case["extrap"], interpolator=case["kind"], spline_kwargs=dict(kw) if spl else None)
        except Exception as e:
            check(bad or case["off"] == 5e-11, f"valid interpolation rejected: {e}")
            return
        check(not bad, lambda: f"invalid interpolation accepted: n={n}, increasing={inc}, outside={out}, {case}")
        check(np.array_equal(x, x0) and np.array_equal(y, y0), "data modified")
        if spl:
            k = min(case["k"] if case["k"] is not None else 3, n - 1)
            ext = 2 if not case["extrap"] else (0 if case["ext"] in (None, 2) else case["ext"])
            want = InterpolatedUnivariateSpline(x, y, k=k, ext=0 if ext == 2 else ext)(q)
        else:
            want = PchipInterpolator(x, y, extrapolate=True)(q)
        if case["off"] == 5e-11:
            r, want = np.delete(r, np.argmin(q) if case["side"] else np.argmax(q)), np.delete(want, np.argmin(q) if case["side"] else np.argmax(q))
        check(len(r) == 0 or close(r, want, rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(want)))), lambda: f"not the interpolant of the requested order through the data: {r} expected {want}")
        g = gi(x, y, case["extrap"], case["kind"], dict(kw) if spl else None)
        check(close(g(x), y, rtol=1e-8, atol=1e-8), "interpolant does not pass through its data")
        # the flag alone decides, whatever was done before
        for first in (True, False):
            shared = dict(kw)
            if spl:
                gi(x, y, first, "spline", shared)
            if not case["extrap"]:
                try:
                    z = gi(x, y, False, case["kind"], shared if spl else None)(np.array([x[-1] + 1.0]))
                    check(not spl and np.all(np.isnan(z)), "extrapolates although not allowed")
                except Violation:
                    raise
                except Exception:
                    pass
