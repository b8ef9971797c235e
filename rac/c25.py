"""C25: loading helpers on random data, against independent constructions."""
from types import SimpleNamespace
import numpy as np
from rac.base import Skip, check, need

RULE = ("random masses and distances, mode dictionaries in random order with random ell ranges up to 8 and modes removed, waveforms whose (2,2) phase grows "
        "monotonically or not, random option dictionaries; units are compared with the constants, packing/unpacking and the cut with independent constructions")
PARTIAL = True


def cases(rng, tier):
    i = 0
    while True:
        yield dict(kind=["units", "pack", "missing", "junk", "sub", "origin", "copr"][i % 7], seed=int(rng.integers(1 << 30)))
        i += 1


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False


def run(c):
    import gw_eccentricity.load_data as ld
    rng = np.random.default_rng(c["seed"])
    K = c["kind"]
    if K == "units":
        M, D = 10 ** rng.uniform(0, 9), 10 ** rng.uniform(0, 4)
        G, cc, ms, pc = 6.67430e-11, 299792458., 1.98892e30, 3.0856775814913673e16
        e = M * G * ms / cc ** 3
        check(abs(need(ld, "time_dimless_to_mks")(M) / e - 1) < 1e-3, f"time unit of {M} Msun is not {e}")
        e = G * ms * M / (cc ** 2 * D * 1e6 * pc)
        check(abs(need(ld, "amplitude_dimless_to_mks")(M, D) / e - 1) < 1e-3, f"strain unit at M={M}, D={D} is not {e}")
        return
    if K in ("pack", "missing"):
        lo = int(rng.integers(2, 5))
        hi = int(rng.integers(lo, 9))
        n = int(rng.integers(1, 30))
        keys = [(l, m) for l in range(lo, hi + 1) for m in range(-l, l + 1)]
        allk = keys + [(l, m) for l in range(2, 10) for m in range(-l, l + 1) if (l < lo or l > hi) and ((l, m) == (2, 2) or rng.random() < 0.2)]
        d = {allk[i]: rng.normal(size=n) + 1j * rng.normal(size=n) for i in rng.permutation(len(allk))}
        orig = {k: v.copy() for k, v in d.items()}
        pack = need(ld, "package_modes_for_scri")
        if K == "missing":
            k = keys[int(rng.integers(len(keys)))]
            if k == (2, 2):
                raise Skip("")
            del d[k]
            check(raises(pack, d, lo, hi), f"missing mode {k} accepted for ell {lo}..{hi}")
            return
        r = pack(d, lo, hi)
        check(r.shape == (n, len(keys)), f"shape {r.shape} for {len(keys)} modes of {n} samples (ell {lo}..{hi})")
        for i, k in enumerate(keys):
            check(np.array_equal(r[:, i], orig[k]), f"column {i} is not mode {k}")
        check(set(d) == set(orig) and all(np.array_equal(d[k], orig[k]) for k in d), "dictionary modified")
        LM = np.array(keys)
        w = SimpleNamespace(LM=LM, data=r, index=lambda l, m: keys.index((int(l), int(m))), ell_min=lo, ell_max=hi)
        u = need(ld, "unpack_scri_modes")(w)
        check({(int(a), int(b)) for a, b in u} == set(keys), f"unpacked modes {sorted(u)}")
        for k in keys:
            check(np.array_equal(u[k], orig[k]), f"mode {k} changed")
        return
    if K == "junk":
        n = int(rng.integers(3, 800))
        t = np.cumsum(rng.uniform(0.1, 2, n)) + rng.uniform(-1e4, 1e3)
        ph = np.cumsum(rng.uniform(0.02, 0.9, n) * (1 if rng.random() < 0.7 else rng.choice([-1, 1, 1, 1], n))) + rng.uniform(-9, 9)
        modes = [(2, 2), (2, 1), (3, 3), (4, 4)]
        d = {modes[i]: (1 + rng.random(n)) * np.exp(-1j * ph * modes[i][1] / 2) for i in rng.permutation(4)}
        orig, t0 = {k: v.copy() for k, v in d.items()}, t.copy()
        N = float(rng.choice([0, 1, 2, 3, 0.5, 2.5, 10]))
        t2, d2 = need(ld, "reomve_junk_from_nr_data")(t, d, N)
        dist = np.abs(ph - ph[0] - 4 * np.pi * N)
        cut = n - len(t2)
        check(0 <= cut < n and dist[cut] <= dist.min() + 1e-8, f"cut at sample {cut}, {dist[cut]} from {4*N} pi; the closest sample {int(np.argmin(dist))} is {dist.min()} away")
        check(np.array_equal(t2, t0[cut:]), "times are not those from the cut on")
        check(set(d2) == set(orig), "modes lost")
        for k in orig:
            check(np.array_equal(d2[k], orig[k][cut:]), f"mode {k} is not cut at the sample of the times")
            check(np.array_equal(d[k], orig[k]), f"the caller's mode {k} is modified")
        check(np.array_equal(t, t0), "the caller's times are modified")
        return
    if K == "copr":
        lo = int(rng.integers(2, 4))
        hi = int(rng.integers(lo, 5))
        d, ts = {}, {"": int(rng.integers(8, 60)), "_zeroecc": int(rng.integers(8, 60))}
        for q, n in ts.items():
            if q and rng.random() < 0.3:
                continue
            t = np.linspace(-500, 0, n) + rng.uniform(-10, 10)
            w = rng.uniform(0.02, 0.06)
            d["t" + q] = t
            d["hlm" + q] = {(l, m): rng.uniform(0.1, 1) * np.exp(-1j * (m * w * t * (1 + 1e-4 * t) + rng.uniform(0, 6))) * (1 if abs(m) == 2 else 0.1)
                            for l in range(2, hi + 1) for m in range(-l, l + 1)}
        tag = str(rng.choice([""] + [q for q in ts if "hlm" + q in d]))
        orig = {k: {m: v.copy() for m, v in x.items()} if isinstance(x, dict) else x.copy() for k, x in d.items()}
        r = need(ld, "get_coprecessing_data_dict")(d, ell_min=lo, ell_max=hi, tag=tag)
        eq = lambda a, b: set(a) == set(b) and all(np.array_equal(a[k], b[k]) for k in b) if isinstance(b, dict) else np.array_equal(a, b)
        check(set(d) == set(orig) and all(eq(d[k], orig[k]) for k in orig), "the dictionary given is modified")
        check(set(r) == set(orig), f"keys {sorted(r)}")
        for k in orig:
            if k != "hlm" + tag:
                check(eq(r[k], orig[k]), f"{k} changed by rotating hlm{tag}")
        got, own = {(int(a), int(b)): v for (a, b), v in r["hlm" + tag].items()}, orig["hlm" + tag]
        check(set(got) == {k for k in own if lo <= k[0] <= hi}, f"modes {sorted(got)} for ell {lo}..{hi}")
        for l in range(lo, hi + 1):
            a, b = (sum(np.abs(x[l, m]) ** 2 for m in range(-l, l + 1)) for x in (got, own))
            check(a.shape == b.shape and np.allclose(a, b, rtol=1e-8, atol=1e-12), f"the power in ell={l} of hlm{tag} is not kept by the rotation")
        return
    if K == "sub":
        names = [f"k{i}" for i in range(8)]
        d = {k: rng.random() for k in names if rng.random() < 0.8}
        want = [names[i] for i in rng.permutation(8)[: int(rng.integers(0, 9))]]
        f = need(ld, "make_a_sub_dict")
        if set(want) - set(d):
            check(raises(f, d, want), f"unknown keys {set(want) - set(d)} accepted")
        else:
            check(dict(f(d, want)) == {k: d[k] for k in want}, "sub dictionary")
        return
    o = "".join(rng.choice(list("LALEOBSXS_"), int(rng.integers(0, 6))))
    if o in ld.get_available_waveform_origins():
        raise Skip("")
    for f in ("load_waveform", "get_load_waveform_defaults"):
        check(raises(need(ld, f), o), f"{f} accepts the unknown origin {o!r}")
    for o in ("LAL", "LVCNR", "LVCNR_hack", "EOB", "EMRI", "SXSCatalog"):
        check(raises(ld.load_waveform, o, not_an_option=1), f"{o}: unknown option accepted")
