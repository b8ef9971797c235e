"""C11 on the real code: amplitude, phase and frequency conventions."""
import numpy as np
from rac.base import *
from rac import meas

RULE = ("random multi-mode data as complex modes or amplitude and phase (with and without given frequencies, quasicircular data, "
        "precessing with unequal (2,2) and (2,-2)), through a measurement and through the data-processing methods; non-trivial: all")


def cases(rng, tier):
    while True:
        for _ in range(3):
            yield dict(kind="data", seed=int(rng.integers(1 << 30)), n=int(rng.integers(5, 80)), modes=int(rng.integers(1, 5)), z=bool(rng.random() < 0.5), form=str(rng.choice(["hlm", "amp"])))
        c = meas.rand_cfg(rng, methods=["Amplitude", "Frequency", "ResidualAmplitude"], averages=meas.AVG[:2], domain="time")
        c["n_orb"] = min(c["n_orb"], 22)
        yield dict(kind="same", cfg=c)
        yield dict(kind="prec", cfg=dict(c, zeroecc=False, method="Amplitude", precessing=True, frame="coprecessing", avg=meas.AVG[1]),
                   sym=bool(rng.random() < 0.5), f=float(np.round(rng.uniform(0.7, 0.99), 3)), form=str(rng.choice(["hlm", "amp", "ampomega"])), drop=bool(rng.random() < 0.2))


def run(case):
    from gw_eccentricity.eccDefinition import eccDefinition
    if case["kind"] == "data":
        rng = np.random.default_rng(case["seed"])
        n = case["n"]
        ms = [(2, 2), (2, -2), (3, 3), (2, 1)][:case["modes"]]
        d, ph, am = {}, {}, {}
        for suf in ("", "_zeroecc")[:1 + case["z"]]:
            N = n + (3 if suf else 0)
            d["t" + suf] = rng.uniform(-10, 10) + rng.choice([0.1, 2.0]) * np.arange(N)
            for m in ms:
                ph[suf, m] = np.cumsum(rng.uniform(0.1, 2.5, size=N)) * np.sign(m[1]) + rng.uniform(-9, 9)
                am[suf, m] = rng.uniform(0.1, 3, size=N)
            if case["form"] == "hlm":
                d["hlm" + suf] = {m: am[suf, m] * np.exp(-1j * ph[suf, m]) for m in ms}
            else:
                d["amplm" + suf] = {m: am[suf, m].copy() for m in ms}
                d["phaselm" + suf] = {m: ph[suf, m].copy() for m in ms}
        o = object.__new__(eccDefinition)
        o.debug_level, o.precessing = -1, False
        r = need(o, "get_amp_phase_omega_data")(d)
        for suf in ("", "_zeroecc"):
            if suf and not case["z"]:
                check(not any(k.endswith(suf) for k in r), "quasicircular data appears without being given")
                continue
            for m in ms:
                A, P, W = (r[k + suf][m] for k in ("amplm", "phaselm", "omegalm"))
                check(close(A, am[suf, m], 1e-12), f"amplitude of mode {m}{suf}")
                check(close(A * np.exp(-1j * P), am[suf, m] * np.exp(-1j * ph[suf, m]), 1e-9), f"A exp(-i phase) does not reproduce h for mode {m}{suf}")
                c = P - ph[suf, m]
                check(np.max(np.abs(c - c[0])) < 1e-8 and abs(c[0] / 2 / np.pi - round(c[0] / 2 / np.pi)) < 1e-9, f"phase of mode {m}{suf} is not continuous")
                dt = d["t" + suf][1] - d["t" + suf][0]
                i = np.arange(2, len(P) - 2)
                e = (-P[i + 2] + 8 * P[i + 1] - 8 * P[i - 1] + P[i - 2]) / 12 / dt
                check(close(W[2:-2], e, 1e-8, 1e-9), f"frequency of mode {m}{suf}")
            check(set(r["amplm" + suf]) == set(ms) == set(r["phaselm" + suf]) == set(r["omegalm" + suf]), "modes")
        # frequencies given by the user are used as they are
        if case["form"] == "amp":
            w = {m: rng.normal(size=n) for m in ms}
            r = o.get_amp_phase_omega_data(dict(d, omegalm=w))
            check(all(np.array_equal(r["omegalm"][m], w[m]) for m in ms), "given frequencies are not used")
        for prec in (False, True):
            o.precessing = prec
            q = {k: {m: rng.normal(size=n) for m in ms} for k in ("amplm", "phaselm", "omegalm")}
            q["t"] = d["t"]
            f = need(o, "get_amp_phase_omega_gw")
            if prec and (2, -2) not in ms:
                expect_raise(lambda: f(q), "precessing without the (2,-2) mode")
                continue
            a, p, w = f(q)
            if not prec:
                ok = all(np.array_equal(x, q[k][2, 2]) for x, k in ((a, "amplm"), (p, "phaselm"), (w, "omegalm")))
            else:
                ok = close(a, 0.5 * (q["amplm"][2, 2] + q["amplm"][2, -2])) and close(p, 0.5 * (q["phaselm"][2, 2] - q["phaselm"][2, -2])) \
                    and close(w, 0.5 * (q["omegalm"][2, 2] - q["omegalm"][2, -2]))
            check(ok, f"combination of modes (precessing={prec})")
        return
    c = case["cfg"]
    if case["kind"] == "same":
        res = []
        for form in ("hlm", "amp"):
            r, o = meas.measure(dict(c, kind=form, interp="spline"))
            res.append((r, o))
        (r1, o1), (r2, o2) = res
        check(close(o1.amp_gw, o2.amp_gw, 1e-9), "amplitude differs between the two forms of the same data")
        k = (o1.phase_gw - o2.phase_gw) / 2 / np.pi
        check(np.max(np.abs(k - np.round(k[0]))) < 1e-6, "phase differs between the two forms of the same data")
        check(np.max(np.abs(o1.omega_gw - o2.omega_gw)) < 1e-7, "frequency differs between the two forms of the same data")
        for nm in ("pericenters_location", "apocenters_location"):
            if not np.array_equal(getattr(o1, nm), getattr(o2, nm)):
                raise Skip("a tie between samples is decided by rounding")
        for key in ("eccentricity", "tref_out"):
            check(close(r1[key], r2[key], 1e-5, 1e-6), lambda: f"{key} differs between the two forms of the same data: {r1[key]} and {r2[key]}")
        return
    d = meas.build(dict(c, kind="amp"))
    A, P = d["amplm"][2, 2], d["phaselm"][2, 2]
    f = 1.0 if case["sym"] else case["f"]
    am = {(2, 2): A, (2, -2): A * f}
    ph = {(2, 2): P, (2, -2): -P * (1.0 if case["sym"] else 1 + 0.0) + (0.0 if case["sym"] else 0.4)}
    if case["drop"]:
        am.pop((2, -2))
        ph.pop((2, -2))
    dd = {"t": d["t"]}
    if case["form"] == "hlm":
        dd["hlm"] = {m: am[m] * np.exp(-1j * ph[m]) for m in am}
    else:
        dd["amplm"], dd["phaselm"] = am, ph
        if case["form"] == "ampomega":
            dd["omegalm"] = {m: np.gradient(ph[m], d["t"]) for m in ph}
    cc = dict(c, extra={"filter_kwargs": {"do_not_filter": True}})
    if case["drop"]:
        st, v = meas.attempt(cc, dd)
        check(st == "raise", "precessing measurement without the (2,-2) mode did not raise")
        return
    if case["sym"]:
        # symmetric modes: the (2,2) values (the search for asymmetry may refuse such data; the combination itself is checked here)
        o = object.__new__(eccDefinition)
        o.debug_level, o.precessing = -1, True
        r = o.get_amp_phase_omega_gw(dict(t=d["t"], amplm=am, phaselm=ph, omegalm={m: np.gradient(ph[m], d["t"]) for m in ph}))
        check(close(r[0], A) and close(r[1], P) and close(r[2], np.gradient(P, d["t"])), "symmetric modes do not give the (2,2) values")
        return
    try:
        r = meas.call(cc, dd)
    except Exception as e:
        raise Skip("refused: " + str(e)[:80])
    o = r["gwecc_object"]
    n = len(o.amp_gw)
    check(close(o.amp_gw, (A * (1 + f) / 2)[:n], 1e-9), "amplitude of a precessing measurement")
    k = o.phase_gw - ((ph[2, 2] - ph[2, -2]) / 2)[:n]
    check(np.max(np.abs(k - k[0])) < 1e-6, "phase of a precessing measurement")
