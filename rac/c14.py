"""C14: the same measurement after shifting the time origin or changing the units."""
import numpy as np
from rac.base import Skip, check, fail
from rac import meas

RULE = ("a random measurement (all methods, reference times or frequencies, with and without the short-segment option) repeated through the public entry point after "
        "(a) shifting the waveform and reference times, and the quasicircular waveform by another constant, (b) multiplying all amplitudes by a constant, "
        "(c) changing the unit of time (times, reference times; frequencies inversely); a case counts when the original measurement is accepted; cases in which a fitted "
        "extremum moves by one sample are set aside")


def cases(rng, tier):
    i = 0
    while True:
        kind = ["shift", "shift", "shift_zero", "amp", "unit"][i % 5]
        c = meas.rand_cfg(rng, seg=0.35 if kind in ("shift", "unit") else 0.0, interp="spline", t_shift=0.0, amp_scale=1.0, t_shift_zeroecc=0.0,
                          zeroecc=True if kind == "shift_zero" else None, order="sorted")
        c["dt"] = float(rng.choice([0.5, 1.0]))
        c["transform"] = kind
        c["s"] = float(rng.choice([4096.0, -2048.5, 300.0, 65536.0, 1.5]))
        c["s2"] = float(rng.choice([-1000.5, 64.0, 20480.0, 0.0, -7.0]))
        # powers of two: exact in floating point
        c["f"] = float(2.0 ** int(rng.choice([-70, -14, -3, 1, 7, 20] if kind == "amp" else [-20, -14, -9, -3, -1, 1, 3])))
        if kind == "unit" and c["domain"] == "frequency":
            c["seg"] = None     # the fitted trend depends on the unit through its starting point
        i += 1
        yield c


def transform(c, d, ref):
    d = dict(d)
    T = c["transform"]
    if T in ("shift", "shift_zero"):
        s = c["s"] if T == "shift" else 0.0
        d["t"] = d["t"] + s
        if "t_zeroecc" in d:
            d["t_zeroecc"] = d["t_zeroecc"] + c["s2"]
        if c["domain"] == "time":
            ref = ref + s
    elif T == "amp":
        for k in list(d):
            if k.startswith(("hlm", "amplm")):
                d[k] = {m: v * c["f"] for m, v in d[k].items()}
    else:
        f = c["f"]
        for k in ("t", "t_zeroecc"):
            if k in d:
                d[k] = d[k] * f
        for k in list(d):
            if k.startswith("omegalm"):
                d[k] = {m: v / f for m, v in d[k].items()}
        ref = ref * f if c["domain"] == "time" else ref / f
    return d, ref


def run(c):
    d = meas.build(c)
    ref = meas.refs(c, d)
    a, x = meas.attempt(c, d, ref=ref)
    if a != "ok":
        raise Skip("configuration refused")
    d2, ref2 = transform(c, d, ref)
    b, y = meas.attempt(c, d2, ref=ref2)
    k = meas.outkey(c)
    fits = "Fits" in c["method"]
    n1 = np.size(x["eccentricity"])
    check(b == "ok", lambda: f"accepted in the original units but refused after {c['transform']}: {type(y).__name__}: {str(y)[:150]}")
    o1, o2 = x["gwecc_object"], y["gwecc_object"]
    for nm in ("pericenters_location", "apocenters_location"):
        p, q = getattr(o1, nm), getattr(o2, nm)
        if len(p) == len(q) and np.array_equal(p, q):
            continue
        if len(p) == len(q) and (fits or c["transform"] != "shift") and np.max(np.abs(p - q)) <= 1:
            raise Skip("an extremum on the edge between two samples")
        if c.get("seg") and len(p) == len(q) and np.max(np.abs((p - p[0]) - (q - q[0]))) == 0:
            raise Skip("the cut moved by a sample")
        fail(f"{nm} changed after {c['transform']}: {p[:5]}.. ({len(p)}) -> {q[:5]}.. ({len(q)})")
    n2 = np.size(y["eccentricity"])
    r1, r2 = np.atleast_1d(x[k]), np.atleast_1d(y[k])
    if n1 != n2:
        # a reference point within rounding of the bounds
        if abs(n1 - n2) <= 1 and (c["transform"] == "unit" or fits or c["domain"] == "frequency"):
            raise Skip("reference point at the bound")
        fail(f"{n1} reference points were accepted, {n2} after {c['transform']}")
    f, s = c["f"], c["s"]
    exp = r1
    if c["transform"] == "shift" and k == "tref_out":
        exp = r1 + s
    if c["transform"] == "unit":
        exp = r1 * f if k == "tref_out" else r1 / f
    tol = 1e-9 * np.max(np.abs(exp)) + 1e-300
    check(np.max(np.abs(r2 - exp)) <= tol, lambda: f"returned reference points differ by {np.max(np.abs(r2 - exp))} after {c['transform']}")
    de = np.max(np.abs(np.atleast_1d(x["eccentricity"]) - np.atleast_1d(y["eccentricity"])))
    dm = np.max(meas.angdiff(np.atleast_1d(x["mean_anomaly"]), np.atleast_1d(y["mean_anomaly"])))
    te, tm = (1e-6, 1e-4)
    check(de <= te, lambda: f"eccentricity differs by {de:.3g} after {c['transform']}")
    check(dm <= tm, lambda: f"mean anomaly differs by {dm:.3g} after {c['transform']}")
