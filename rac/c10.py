"""C10 on the real code: peak by a parabola, total amplitude, merger."""
import numpy as np
from rac.base import *
from rac import meas

RULE = ("random samples (length 5..60, peak anywhere incl. at the ends, ties), exact parabolas, time shifts; multi-mode data "
        "through a measurement with the merger recomputed; non-trivial: all")


def cases(rng, tier):
    while True:
        for n in (5, 6, 7, 8, int(rng.integers(9, 60))):
            yield dict(kind="data", n=n, peak=float(rng.choice([0.0, 1.0, rng.random(), rng.random()])), dt=float(rng.choice([0.1, 1.0, 3.0])),
                       t0=float(rng.choice([0.0, -2000.0, 55.5])), seed=int(rng.integers(1 << 30)), tie=bool(rng.random() < 0.2))
        c = meas.rand_cfg(rng, methods=["Amplitude", "Frequency"], zeroecc=bool(rng.random() < 0.5), averages=meas.AVG[:2])
        c["modes"] = [[2, 2], [3, 3], [2, 1], [4, 4]][:int(rng.integers(1, 5))]
        yield dict(kind="obj", cfg=c, skew=bool(rng.random() < 0.5))


def oracle(t, f):
    i = int(np.argmax(f))
    i = max(2, min(len(t) - 3, i))
    x, y = t[i - 2:i + 3] - t[i], f[i - 2:i + 3]
    A = np.vander(x, 3, increasing=True)
    c = np.linalg.lstsq(A, y, rcond=None)[0]
    return t[i] - c[1] / (2 * c[2]), c[0] - c[1] ** 2 / 4 / c[2], c[2]


def run(case):
    from gw_eccentricity import utils
    if case["kind"] == "data":
        f = need(utils, "peak_time_via_quadratic_fit")
        n, dt = case["n"], case["dt"]
        rng = np.random.default_rng(case["seed"])
        t = case["t0"] + dt * np.arange(n)
        p = case["peak"] * (n - 1)
        y = np.exp(-((np.arange(n) - p) / (0.3 * n + 1)) ** 2) + 0.02 * rng.normal(size=n)
        if case["tie"]:
            k = int(rng.integers(0, n - 1))
            y[k + 1] = y[k] = y.max() + 0.1
        y0, t00 = y.copy(), t.copy()
        tm, v = f(t, y)
        check(np.array_equal(y, y0) and np.array_equal(t, t00), "arguments modified")
        te, ve, c2 = oracle(t, y)
        if abs(c2) * dt * dt > 1e-3:
            check(abs(tm - te) < 1e-6 * (dt + abs(te) * 1e-6 + abs(te - t[0])) and abs(v - ve) < 1e-6 * (1 + abs(ve)), lambda: f"peak ({tm}, {v}) expected ({te}, {ve}) for {list(y)}, t={list(t)}")
            a, b = f(t + 512.0, y)
            check(abs(a - tm - 512.0) < 1e-6 * (dt + abs(te - t[0])) and abs(b - v) < 1e-8 * (1 + abs(v)), "time shift")
        # exact parabola
        for c2 in (-rng.uniform(0.2, 2) / dt ** 2, rng.uniform(0.2, 2) / dt ** 2):
            tc = t[0] + rng.uniform(-0.2, 1.2) * (t[-1] - t[0])
            q = 1.7 + c2 * (t - tc) ** 2
            tm, v = f(t, q)
            sc = np.max(np.abs(q))
            check(abs(tm - tc) < 1e-7 * (abs(tc - t[0]) + n * dt) * (1 + n) and abs(v - 1.7) < 1e-7 * sc * (1 + n), lambda: f"parabola with vertex ({tc}, 1.7): got ({tm}, {v})")
        am = need(utils, "amplitude_using_all_modes")
        h = {(2, k): rng.normal(size=n) + 1j * rng.normal(size=n) for k in range(-2, int(rng.integers(-1, 3)))}
        check(close(am(h, "hlm"), np.sqrt(sum(np.abs(x) ** 2 for x in h.values()))), "total amplitude of complex modes")
        a = {k: np.abs(x) for k, x in h.items()}
        check(close(am(a, "amplm"), np.sqrt(sum(x ** 2 for x in a.values()))), "total amplitude of real modes")
        expect_raise(lambda: am(a, "other"), "unknown data type")
        return
    c = case["cfg"]
    d = meas.build(c)
    if case["skew"]:
        # subdominant modes peak earlier, so that they matter for the merger time
        t = d["t"]
        w = 1 + 3.0 * np.exp(-((t - c["t_shift"] + 14.3) / 6.0) ** 2)
        for k in list(d.get("hlm") or d.get("amplm")):
            if k != (2, 2):
                if "hlm" in d:
                    d["hlm"][k] = d["hlm"][k] * w
                else:
                    d["amplm"][k] = d["amplm"][k] * w
    r, o = meas.measure(c, d)
    A = np.sqrt(sum(np.abs(x) ** 2 for x in (d.get("hlm") or d.get("amplm")).values()))
    te, ve, _ = oracle(d["t"], A)
    check(abs(need(o, "t_merger") - te) < 1e-6 * c["dt"] + 1e-9 * abs(te), lambda: f"t_merger {o.t_merger} expected {te} (modes {c['modes']})")
