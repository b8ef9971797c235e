"""C05 on the real code: the caller's objects are unchanged, repeats are equal."""
import copy
import numpy as np
from rac.base import *
from rac import meas

RULE = ("random measurements (all methods, domains, input kinds, precessing in either frame, nested options supplied, "
        "some requests malformed so that they raise); every array, dictionary and option compared bit for bit before and "
        "after, and the measurement repeated; non-trivial: all")


def cases(rng, tier):
    i = 0
    while True:
        i += 1
        c = meas.rand_cfg(rng, seg=0.25)
        c["mid"] = bool(rng.random() < 0.2)
        ex = {}
        if rng.random() < 0.5:
            ex["extrema_finding_kwargs"] = {"width": None, "prominence": None}
            ex["general_interp_kwargs"] = {"k": 3}
        if rng.random() < 0.5:
            ex["kwargs_for_fits_methods"] = {"num_orbits": 4} if "Fits" in c["method"] else {}
        if rng.random() < 0.4:
            ex["special_interp_kwargs_for_omega_gw_extrema"] = {"degrees": [3, 3]} if c["interp"] == "rational_fit" else {"k": 3}
        if rng.random() < 0.3:
            ex["refine_extrema"] = False
        if i % 4 == 0:
            c["precessing"] = True
            c["kind"] = "hlm" if rng.random() < 0.6 else "amp"
            c["frame"] = str(rng.choice(["inertial", "coprecessing"]))
            c["n_orb"] = min(c["n_orb"], 20)
            ex["filter_kwargs"] = {"do_not_filter": True}
        if i % 5 == 0:
            c["modes"] = [[2, 2], [3, 3], [2, 1]]
        if rng.random() < 0.15:
            ex["return_zero_if_small_ecc_failure"] = True
            c["e0"] = 0.0
        if rng.random() < 0.2:
            ex["nosuch"] = 1
        if c["kind"] == "hlm" and c["precessing"]:
            pass
        c["extra"] = ex
        yield dict(cfg=c, asarray=bool(rng.random() < 0.5))


def snap(o, path=""):
    if isinstance(o, dict):
        return ("d", [(k, snap(v)) for k, v in o.items()], id(o))
    if isinstance(o, (list, tuple)):
        return ("l", [snap(v) for v in o], type(o).__name__)
    if isinstance(o, np.ndarray):
        return ("a", o.shape, str(o.dtype), o.tobytes(), id(o))
    return ("v", repr(o))


def build(c):
    if c["precessing"]:
        modes = [(2, m) for m in range(-2, 3)] if c["frame"] == "inertial" else [(2, 2), (2, -2)]
        d0 = meas.build(dict(c, modes=None))
        d = {"t": d0["t"]}
        for tag in ("", "_zeroecc"):
            if "t" + tag not in d0:
                continue
            d["t" + tag] = d0["t" + tag]
            h = d0.get("hlm" + tag) or {(2, 2): d0["amplm" + tag][(2, 2)] * np.exp(-1j * d0["phaselm" + tag][(2, 2)])}
            h22 = h[(2, 2)]
            asym = 1 + 0.02 * np.cos(0.7 * np.unwrap(np.angle(h22)) + 0.1)
            hm = {(2, 2): h22, (2, -2): np.conj(h22) * asym, (2, 1): 0.1 * h22, (2, -1): -0.1 * np.conj(h22), (2, 0): 0.01 * np.abs(h22) * (1 + 0j)}
            hm = {k: hm[k] for k in modes}
            if c["kind"] == "hlm":
                d["hlm" + tag] = hm
            else:
                d["amplm" + tag] = {k: np.abs(v) for k, v in hm.items()}
                d["phaselm" + tag] = {k: -np.unwrap(np.angle(v)) for k, v in hm.items()}
        return d
    return meas.build(c)


def run(case):
    c = case["cfg"]
    d = build(c)
    ex = meas.extra(c)
    ref = meas.refs(c, d)
    if not case["asarray"] and not c["scalar"]:
        ref = list(ref)
    before = snap([d, ex, ref])
    out = []
    for _ in range(2):
        st, r = meas.attempt(c, d, ref=ref, extra_kwargs=ex)
        after = snap([d, ex, ref])
        if after != before:
            for name, a, b in zip(("dataDict", "extra_kwargs", "the reference array"), before[1], after[1]):
                if a != b:
                    what = name
                    if a[0] == "d":
                        ka, kb = dict(a[1]), dict(b[1])
                        what += ": " + ", ".join(str(k) for k in list(ka) + [k for k in kb if k not in ka] if ka.get(k) != kb.get(k))
                    fail(f"{what} changed by the measurement ({st})")
        out.append((st, r))
    (s1, r1), (s2, r2) = out
    check(s1 == s2, lambda: f"repeating the measurement: {s1} then {s2} ({str(r1)[:80]} / {str(r2)[:80]})")
    if s1 == "ok":
        k = meas.outkey(c)
        for n in ("eccentricity", "mean_anomaly", k):
            check(np.array_equal(np.asarray(r1[n]), np.asarray(r2[n])), f"repeating the measurement changes {n}")
