"""C02 on the real code: mean anomaly between consecutive pericenters."""
import numpy as np
from rac.base import *
from rac import meas

RULE = ("random increasing pericenter sequences (2..40, gaps over 6 decades) with times inside, at every pericenter and "
        "just beside them, and random full measurements; non-trivial: accepted by the code")
PARTIAL = True


def cases(rng, tier):
    yield dict(kind="seq", tp=[0.0, 1.0], n=5, apo=[0.0, 1.0])
    yield dict(kind="seq", tp=[-1000.0, -10.0, -9.0, 0.0, 500.0], n=9, apo=[-2000.0, 900.0])
    while True:
        for _ in range(4):
            m = int(rng.integers(2, 40))
            tp = float(rng.choice([0.0, -5e4, 1e3])) + np.cumsum(10 ** rng.uniform(-1, 3, m))
            yield dict(kind="seq", tp=[float(x) for x in tp], n=int(rng.integers(1, 50)), apo=None)
        yield dict(kind="meas", cfg=meas.rand_cfg(rng, seg=0.15))


def run(case):
    if case["kind"] == "seq":
        from rac.c01 import bare
        tp = np.array(case["tp"])
        o = bare(float(tp[0]), float(tp[-1]))
        o.t_pericenters = tp
        span = tp[-1] - tp[0]
        t = np.sort(np.concatenate([tp, np.linspace(tp[0], tp[-1], case["n"] + 2)[1:-1],
                                    np.nextafter(tp[1:], -np.inf)[:0], 0.5 * (tp[1:] + tp[:-1])]))
        t = t[(t >= tp[0]) & (t <= tp[-1])]
        m = need(o, "compute_mean_anomaly")(t)
        check(m.shape == t.shape, "length of the mean anomaly differs from that of the times")
        check(np.all(m >= 0) and np.all(m < 2 * np.pi), lambda: f"mean anomaly outside [0, 2pi): {m.min()}, {m.max()}")
        exp = meas.mean_anomaly(t, tp)
        tol = 1e-9 + 4e-15 * np.max(np.abs(tp)) / np.min(np.diff(tp)) * 2 * np.pi * 10
        check(np.all(meas.angdiff(m, exp) < tol), lambda: f"mean anomaly {m[:4]} expected {exp[:4]}")
        at = o.compute_mean_anomaly(tp)
        check(np.all(meas.angdiff(at, 0) < 1e-9), "mean anomaly is not 0 at a pericenter")
        for k in range(len(tp) - 1):
            x = tp[k] + (tp[k + 1] - tp[k]) * np.array([0.01, 0.2, 0.5, 0.9])
            check(np.all(np.diff(o.compute_mean_anomaly(x)) > 0), "mean anomaly does not increase between two pericenters")
        for bad in (tp[-1] + 1e-3 * span, tp[0] - 1e-3 * span):
            expect_raise(lambda: o.compute_mean_anomaly(np.array([bad])), "mean anomaly outside the measurable range")
        return
    c = case["cfg"]
    r, o = meas.measure(c)
    t = meas.ref_times(c, r, o)
    m = np.atleast_1d(r["mean_anomaly"])
    tp = o.t[o.pericenters_location]
    check(np.all(m >= 0) and np.all(m < 2 * np.pi), "mean anomaly outside [0, 2pi)")
    check(np.all(meas.angdiff(m, meas.mean_anomaly(t, tp)) < 1e-7), lambda: f"mean anomaly {m[:3]} expected {meas.mean_anomaly(t, tp)[:3]}")
    for bad in (o.tmax + 1e-3, o.tmin - 1e-3):
        expect_raise(lambda: o.compute_mean_anomaly(np.array([bad])), "mean anomaly outside the measurable range")
