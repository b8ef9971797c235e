"""C13 on the real code: one window around the reference points."""
import numpy as np
from rac.base import *
from rac import meas

RULE = ("objects built with a requested number of orbits (1 to more than available, odd, even, fractional), reference times (scalar, arrays in any order, near "
        "either end) and reference frequencies with the merger anywhere in time; the window recomputed from its definition; and the secular-trend time "
        "shifted together with the data; non-trivial: objects with a window")


def cases(rng, tier):
    while True:
        c = meas.rand_cfg(rng, methods=["Amplitude", "ResidualAmplitude"], averages=meas.AVG[:2])
        c["interp"] = "spline"
        c["scalar"] = bool(rng.random() < 0.5)
        yield dict(cfg=c, N=float(rng.choice([1, 2, 3, 5, 8, 10, 11, 7.5, 12, 60])), where=str(rng.choice(["mid", "start", "end", "wide"])),
                   perm=int(rng.integers(1 << 30)), int_n=bool(rng.random() < 0.5), shift=float(rng.choice([0.0, 512.0, -4096.0, 1e4])))


def reference(case, t, ph, tm):
    c = case["cfg"]
    rng = np.random.default_rng(case["perm"])
    tot = tm - t[0]
    lo, hi = {"mid": (0.4, 0.6), "start": (0.98, 0.93), "end": (0.05, 0.12), "wide": (0.2, 0.8)}[case["where"]]
    lo, hi = min(lo, hi), max(lo, hi)
    k = 1 if c["scalar"] else int(rng.integers(2, 7))
    x = rng.uniform(lo, hi, size=k)
    if c["domain"] == "time":
        r = tm - x * tot
    else:
        r = 0.35 * (x * tot + 60.0) ** (-3.0 / 8) / np.pi
    return float(r[0]) if c["scalar"] else r


def make(c, d, ref, N, ndict=None):
    from gw_eccentricity.gw_eccentricity import get_available_methods
    cls = get_available_methods(return_dict=True)[c["method"]]
    ek = meas.extra(c)
    ek["use_only_these_many_orbits"] = N
    kw = {"tref_in" if c["domain"] == "time" else "fref_in": ref}
    return cls(d, num_orbits_to_exclude_before_merger=c["excl"], debug_level=-1, extra_kwargs=ek, **kw)


def run(case):
    c = case["cfg"]
    d = meas.build(c)
    N = int(case["N"]) if case["int_n"] and case["N"] == int(case["N"]) else case["N"]
    probe = dict(c, domain="time", scalar=True)
    full = make(probe, d, float(d["t"][len(d["t"]) // 2]), None)
    t, A, P, W = (need(full, k) for k in ("t", "amp_gw", "phase_gw", "omega_gw"))
    tm = need(full, "t_merger")
    ref = reference(case, t, P, tm)
    o = make(c, d, ref, N)
    total = (P[-1] - P[0]) / (4 * np.pi)
    if abs(total - N) < 1e-6:
        raise Skip("boundary")
    i0 = int(np.argmin(np.abs(t - o.t[0])))
    m = len(o.t)
    check(m > 0 and np.array_equal(o.t, t[i0:i0 + m]), "times are not one block of consecutive samples")
    for nm, x, f in (("amplitude", o.amp_gw, A), ("phase", o.phase_gw, P), ("frequency", o.omega_gw, W)):
        check(np.array_equal(x, f[i0:i0 + m]), lambda: f"{nm}: {len(x)} samples from another block than the {m} times from sample {i0}")
    if total < N:
        check(m == len(t), lambda: f"{total:.2f} orbits available, {N} requested: {m} of {len(t)} samples used")
        return
    step = float(np.max(np.diff(P)))
    sel = (o.phase_gw[-1] - o.phase_gw[0]) / (4 * np.pi)
    check(sel >= N - 2 * step / (4 * np.pi), lambda: f"{sel:.3f} orbits selected, {N} requested of {total:.2f}")
    if c["domain"] == "time":
        tl, tr = np.min(ref), np.max(ref)
    else:
        fr = np.atleast_1d(ref)
        f = need(full, "get_approximate_tref_for_fref_using_secular_trend")
        tl, tr = f(np.min(fr)), f(np.max(fr))
        o2 = make(c, dict(d, t=d["t"] + case["shift"]), ref, N)
        check(len(o2.t) == m and close(o2.t - case["shift"], o.t, 1e-9), lambda: f"window depends on the time origin (shift {case['shift']}): starts at {o2.t[0] - case['shift']} instead of {o.t[0]}, {len(o2.t)} samples instead of {m}")
        # the trend is near the averaged frequency: the window holds times where the frequency passes the reference
        if tl > t[0] and tr < t[-1]:
            wl = W[np.abs(P - P[int(np.argmin(np.abs(t - tl)))]) <= 13]
            w0 = 2 * np.pi * float(np.min(fr))
            if W[5:-5].min() < w0 < W[:len(W) // 2].max():
                check(len(wl) == 0 or (wl.min() <= 1.1 * w0 and wl.max() >= 0.9 * w0), lambda: f"time {tl} chosen for frequency {w0 / 2 / np.pi}: frequencies around it between {wl.min() / 2 / np.pi} and {wl.max() / 2 / np.pi}")
    il, ir = int(np.argmin(np.abs(t - tl))), int(np.argmin(np.abs(t - tr)))
    last = i0 + m - 1
    check(i0 <= il and last >= min(ir, len(t) - 2), lambda: f"window {t[i0]}..{t[last]} does not contain the reference points {tl}..{tr} (data {t[0]}..{t[-1]})")
    half = 2 * np.pi * N
    check(i0 == 0 or P[il] - P[i0] >= half - 2 * step, lambda: f"{(P[il] - P[i0]) / 4 / np.pi:.3f} orbits before the first reference point, half of {N} expected")
    check(last >= len(t) - 2 or P[last] - P[ir] >= half - 2 * step, lambda: f"{(P[last] - P[ir]) / 4 / np.pi:.3f} orbits after the last reference point, half of {N} expected")
    lim = (P[ir] - P[il]) / 4 / np.pi + 1.1 * (N + 2) + 1
    check(sel <= lim, lambda: f"{sel:.2f} orbits selected, {N} requested around {(P[ir] - P[il]) / 4 / np.pi:.2f} orbits")
