"""C09 on the real code: fourth-order frequencies."""
import numpy as np
from rac.base import *
from rac import meas

RULE = ("random polynomials of degree <= 4 on random uniform grids (length 5..40, several steps and origins) and random phases; "
        "multi-mode data dictionaries; user supplied frequencies; non-trivial: all")


def cases(rng, tier):
    while True:
        for n in (5, 6, 7, int(rng.integers(8, 40))):
            yield dict(kind="poly", n=n, dt=float(rng.choice([0.1, 1.0, 2.5, 1e-3, 37.0])), deg=int(rng.integers(0, 5)),
                       t0=float(rng.choice([0.0, -3000.0, 12.5])), seed=int(rng.integers(1 << 30)))
        c = meas.rand_cfg(rng, methods=["Amplitude", "Frequency"], zeroecc=bool(rng.random() < 0.5), averages=meas.AVG[:2], seg=0.0)
        c["modes"] = [[2, 2], [3, 3], [2, 1], [4, 4]][:int(rng.integers(1, 5))]
        yield dict(kind="obj", cfg=c)


def oracle(y, dt):
    """fourth-order accurate derivative by exact polynomial interpolation of five points."""
    n = len(y)
    out = np.empty(n)
    for i in range(n):
        s = min(max(i - 2, 0), n - 5)
        x = np.arange(5.0) - (i - s)
        w = np.linalg.solve(np.vander(x, 5, increasing=True).T, np.array([0, 1.0, 0, 0, 0]))
        out[i] = w.dot(y[s:s + 5]) / dt
    return out


def run(case):
    from gw_eccentricity import utils
    if case["kind"] == "poly":
        f = need(utils, "time_deriv_4thOrder")
        rng = np.random.default_rng(case["seed"])
        n, dt = case["n"], case["dt"]
        u = np.arange(n) - n / 3.0
        c = rng.normal(size=case["deg"] + 1)
        y = sum(a * u ** k for k, a in enumerate(c)) + 0.0 * u
        d = sum(k * a * u ** (k - 1) for k, a in enumerate(c) if k) / dt + 0.0 * u
        y0 = y.copy()
        r = f(y, dt)
        check(np.array_equal(y, y0), "phase modified")
        check(np.shape(r) == (n,), "wrong length")
        sc = (np.max(np.abs(y)) + 1) / dt
        check(np.all(np.abs(r - d) < 1e-10 * sc), lambda: f"degree {case['deg']} polynomial, n={n}, dt={dt}: derivative off by {np.abs(r - d)} at samples {np.where(np.abs(r - d) >= 1e-10 * sc)[0]}")
        g = rng.normal(size=n)
        rg = f(g, dt)
        check(close(rg, oracle(g, dt), rtol=1e-9, atol=1e-9 / dt), "not the five-point fourth-order derivative")
        check(close(f(y + 3.7 * g, dt), r + 3.7 * rg, rtol=1e-8, atol=1e-9 * sc), "not linear")
        check(close(f(g + 11.0, dt), rg, rtol=1e-8, atol=1e-10 * 11 / dt), "changes when a constant is added to the phase")
        return
    c = case["cfg"]
    c["precessing"] = False
    d = meas.build(c)
    r, o = meas.measure(c, d)
    full = {}
    for suf in ("", "_zeroecc"):
        if "t" + suf not in d:
            continue
        dt = d["t" + suf][1] - d["t" + suf][0]
        got = o.dataDict.get("omegalm" + suf)
        check(got is not None, "no mode frequencies" + suf)
        keys = (d.get("hlm" + suf) or d.get("phaselm" + suf)).keys()
        check(set(got) == set(keys), f"modes of omegalm{suf} {sorted(got)} expected {sorted(keys)}")
        for k in keys:
            if "omegalm" + suf in d:
                e = d["omegalm" + suf][k]
            else:
                p = d["phaselm" + suf][k] if "phaselm" + suf in d else -np.unwrap(np.angle(d["hlm" + suf][k]))
                e = oracle_fast(p, dt)
            m = len(got[k])
            check(m <= len(e) and m > 5 and (suf == "" or m == len(e)), f"omegalm{suf}{k} has {m} samples")
            check(close(got[k], e[:m], rtol=1e-7, atol=1e-9), lambda: f"frequency of mode {k}{suf} is not the derivative of its own phase (or the user's frequency)")


def oracle_fast(y, dt):
    n = len(y)
    r = np.empty(n)
    r[2:-2] = (y[:-4] - 8 * y[1:-3] + 8 * y[3:-1] - y[4:]) / 12 / dt
    for i in (0, 1, n - 2, n - 1):
        s = min(max(i - 2, 0), n - 5)
        x = np.arange(5.0) - (i - s)
        w = np.linalg.solve(np.vander(x, 5, increasing=True).T, np.array([0, 1.0, 0, 0, 0]))
        r[i] = w.dot(y[s:s + 5]) / dt
    return r
