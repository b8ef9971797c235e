"""C12 on the real code: exclusion before merger."""
import numpy as np
from rac.base import *
from rac import meas

RULE = ("measurements with random N (integers, fractions, zero, none, more than available), several modes, quasicircular data; the kept "
        "samples, the width and the refusal recomputed from the data; and the index alone for random phases; non-trivial: all")


def cases(rng, tier):
    while True:
        for _ in range(20):
            yield dict(kind="index", seed=int(rng.integers(1 << 30)), n=int(rng.integers(1, 60)), N=float(rng.choice([0, 1, 2, 0.5, 3.7, 10, 40])))
        c = meas.rand_cfg(rng, methods=["Amplitude", "Frequency", "ResidualAmplitude"], averages=meas.AVG[:2])
        c["n_orb"] = min(c["n_orb"], 20)
        c["modes"] = [[2, 2], [3, 3], [2, 1]][:int(rng.integers(1, 4))]
        c["excl"] = [None, 0, 0.0, 0.25, 1, 1.5, 2, 3, 5.8, 200][int(rng.integers(10))]
        yield dict(kind="data", cfg=c)


def run(case):
    from gw_eccentricity.eccDefinition import eccDefinition
    o = object.__new__(eccDefinition)
    o.debug_level, o.precessing, o.frame = -1, False, "inertial"
    if case["kind"] == "index":
        rng = np.random.default_rng(case["seed"])
        n, N = case["n"], case["N"]
        P = np.cumsum(rng.uniform(0.01, 3, size=n)) + rng.uniform(-50, 50)
        pm = P[int(rng.integers(n))]
        f = need(o, "get_index_at_num_orbits_earlier_than_merger")
        target = pm - 4 * np.pi * N
        if target < P[0]:
            expect_raise(lambda: f(P, pm, N), f"only {(pm - P[0]) / 4 / np.pi} orbits before merger, {N} requested")
            return
        i = f(P, pm, N)
        check(i == int(np.argmin(np.abs(P - target))), lambda: f"index {i}: phase {P[i]}, target {target}, closest {np.argmin(np.abs(P - target))}")
        return
    c = case["cfg"]
    d = meas.build(c)
    N = c["excl"]
    t = d["t"]
    h = d.get("hlm")
    A2 = sum(np.abs(x) ** 2 for x in (h or d["amplm"]).values())
    im = int(np.argmax(A2))
    j = max(2, min(len(t) - 3, im))
    x = t[j - 2:j + 3] - t[j]
    cf = np.polyfit(x, np.sqrt(A2[j - 2:j + 3]), 2)
    tm = t[j] - cf[1] / 2 / cf[0]
    im = int(np.argmin(np.abs(t - tm)))
    P = -np.unwrap(np.angle(h[2, 2])) if h else d["phaselm"][2, 2]
    args = (d, N, {})
    f = need(o, "process_data_dict")
    target = P[im] - 4 * np.pi * N if N is not None else None
    if N is not None and target < P[0] - 1e-9:
        expect_raise(lambda: f(*args), f"{N} orbits requested, {(P[im] - P[0]) / 4 / np.pi} available")
        return
    r = f(*args)
    new, tm2, amp, width = r[:4]
    k = len(t) if N is None else int(np.argmin(np.abs(P - target)))
    check(np.array_equal(new["t"], t[:k]), lambda: f"{len(new['t'])} samples kept, expected {k} (of {len(t)}, N={N})")
    for q in ("amplm", "phaselm", "omegalm"):
        for m in new[q]:
            check(len(new[q][m]) == k, lambda: f"{len(new[q][m])} samples of {q} {m} kept, {k} times")
    src = {m: np.abs(v) for m, v in h.items()} if h else d["amplm"]
    check(all(np.array_equal(new["amplm"][m], np.asarray(src[m])[:k]) for m in src), "kept amplitudes are not the first samples")
    if c["zeroecc"]:
        nz = len(d["t_zeroecc"])
        check(len(new["t_zeroecc"]) == nz and all(len(new[q + "_zeroecc"][2, 2]) == nz for q in ("amplm", "phaselm", "omegalm")), "quasicircular data truncated")
    i1, i2 = (int(np.argmin(np.abs(P - (P[im] - 4 * np.pi * q)))) for q in (1, 2))
    check(abs(width - (i1 - i2) / 4) <= 1 + 1e-9 and abs(width - int((i1 - i2) / 4)) <= (1 if (i1 - i2) % 4 == 0 else 0), lambda: f"width {width}, samples between two and one orbits before merger: {i1 - i2}")
    check(close(amp, (np.abs(h[2, 2]) if h else d["amplm"][2, 2])[im], 1e-12), "amplitude at merger")
    try:
        r, ob = meas.measure(c, d)
    except Skip:
        return
    if not c.get("seg"):
        check(len(ob.t) == k and len(ob.amp_gw) == k and len(ob.phase_gw) == k and len(ob.omega_gw) == k, "measurement uses other samples")
