"""C26: residuals against an independent evaluation, on the object that the public entry point builds."""
import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline
from rac.base import Skip, check, need
from rac import meas

RULE = ("random waveforms with quasicircular counterparts (independent time offset, lengths and sampling), every representation of the data: the residuals of the object are "
        "compared with data minus a spline of the quasicircular data evaluated at t - t_merger + t_merger_zeroecc; quasicircular data equal to the eccentric data, starting later, "
        "non-uniform or ending before a reference time; a case counts when the object was built")


def cases(rng, tier):
    i = 0
    while True:
        kind = ["values", "values", "equal", "late_start", "nonuniform", "ref_beyond", "other_step"][i % 7]
        c = meas.rand_cfg(rng, methods=["Amplitude", "ResidualAmplitude", "ResidualFrequency"], domain="time", zeroecc=True, interp="spline")
        c["avg"] = "orbit_averaged_omega_gw"
        c["check"] = kind
        c["modes"] = [[2, 2], [3, 3]] if i % 3 == 0 and c["kind"] != "x" else None
        c["cut"] = float(np.round(rng.uniform(0.02, 0.3), 3))
        c["perm"] = int(rng.integers(1000))
        i += 1
        yield c


def sub(d, sl):
    d = dict(d)
    d["t_zeroecc"] = d["t_zeroecc"][sl]
    for k in d:
        if k.endswith("lm_zeroecc"):
            d[k] = {m: v[sl] for m, v in d[k].items()}
    return d


def amp_omega(d, tag):
    """(2,2) amplitude and frequency of the given data, fourth order differences."""
    t = d["t" + tag]
    if "hlm" + tag in d:
        h = d["hlm" + tag][(2, 2)]
        A, ph = np.abs(h), -np.unwrap(np.angle(h))
    else:
        A, ph = d["amplm" + tag][(2, 2)], d["phaselm" + tag][(2, 2)]
    if "omegalm" + tag in d:
        return A, d["omegalm" + tag][(2, 2)]
    dt = t[1] - t[0]
    w = np.empty_like(ph)
    w[2:-2] = (ph[:-4] - 8 * ph[1:-3] + 8 * ph[3:-1] - ph[4:]) / 12 / dt
    w[:2], w[-2:] = w[2], w[-3]
    return A, w


def peak(d, tag):
    t = d["t" + tag]
    modes = d["hlm" + tag] if "hlm" + tag in d else d["amplm" + tag]
    a = np.sqrt(sum(np.abs(v) ** 2 for v in modes.values()))
    k = int(np.argmax(a))
    if k < 2 or k > len(a) - 3:
        raise Skip("merger at an end")
    i = slice(k - 2, k + 3)
    p = np.polyfit(t[i] - t[k], a[i] / a[k], 2)
    return t[k] - p[1] / 2 / p[0]


def run(c):
    d = meas.build(c)
    K = c["check"]
    tz = d["t_zeroecc"]
    m = c["t_shift_zeroecc"]
    n = len(tz)
    rel = d["t"][0] - c["t_shift"]
    refuse = None
    if K == "equal":
        for k in [k for k in d if k.endswith("_zeroecc")]:
            src = d[k[:-8]]
            d[k] = {q: v.copy() for q, v in src.items()} if isinstance(src, dict) else src + 512.5 - 0.0
    elif K == "late_start":
        k0 = int(np.searchsorted(tz, m + rel * (1 - c["cut"])))
        d = sub(d, slice(k0, None))
        refuse = "starts later than the eccentric data"
    elif K == "nonuniform":
        tz2 = tz.copy()
        j = int(c["perm"]) % (n - 20) + 10
        tz2[j] += 0.3 * (tz[1] - tz[0])
        d["t_zeroecc"] = tz2
        refuse = "is not uniformly sampled"
    elif K == "other_step":
        d = sub(d, slice(None, None, 2))
    elif K == "ref_beyond":
        pass
    ref = meas.refs(c, d)
    if refuse:
        st, r = meas.attempt(c, d, ref=ref)
        check(st == "raise", f"quasicircular data that {refuse} was accepted")
        return
    if K == "ref_beyond":
        return beyond(c, d, ref)
    st, r = meas.attempt(c, d, ref=ref)
    if st != "ok":
        if K in ("equal",) and c["method"].startswith("Residual"):
            raise Skip("no extrema in zero residuals")
        else:
            raise Skip("configuration refused")
    else:
        o = r["gwecc_object"]
    ra, rw, t = need(o, "res_amp_gw"), need(o, "res_omega_gw"), o.t
    if len(t) < 10:
        raise Skip("short")
    A, w = o.amp_gw, o.omega_gw
    if K == "equal":
        inner = slice(4, len(t) - 4)
        check(np.max(np.abs(ra[inner])) <= 1e-7 * np.max(np.abs(A)) and np.max(np.abs(rw[inner])) <= 1e-6 * np.max(np.abs(w)),
              lambda: f"quasicircular data equal to the data: residuals up to {np.max(np.abs(ra)):.2e}, {np.max(np.abs(rw)):.2e}")
        return
    Az, wz = amp_omega(d, "_zeroecc")
    x = d["t_zeroecc"] - peak(d, "_zeroecc") + peak(d, "")
    keep = slice(4, len(x) - 4)
    inside = (t > x[keep][0]) & (t < x[keep][-1] - 20)
    ea = A - InterpolatedUnivariateSpline(x, Az)(t)
    ew = w - InterpolatedUnivariateSpline(x, wz)(t)
    if not inside.any():
        raise Skip("no common inner range")
    sa, sw = np.max(np.abs(A)), np.max(np.abs(w))
    check(np.max(np.abs(ra - ea)[inside]) <= 2e-5 * sa, lambda: f"residual amplitude differs from data minus aligned quasicircular data by {np.max(np.abs(ra - ea)[inside]) / sa:.2e} of the maximum")
    check(np.max(np.abs(rw - ew)[inside]) <= 2e-4 * sw, lambda: f"residual frequency differs from data minus aligned quasicircular data by {np.max(np.abs(rw - ew)[inside]) / sw:.2e} of the maximum")


def beyond(c, d, ref):
    """a quasicircular waveform whose merger is early: its aligned end falls inside the measurable range."""
    if np.ndim(ref) == 0:
        ref = np.array([ref, ref + 1.0])
    st, r = meas.attempt(c, d, ref=ref)
    if st != "ok":
        raise Skip("configuration refused")
    o = r["gwecc_object"]
    out = r["tref_out"]
    if len(out) < 3:
        raise Skip("too few points")
    rng = np.random.default_rng(c["perm"])
    ends = np.sort(out)
    end = 0.5 * (ends[-2] + ends[-1])       # one point beyond, the others not
    if ends[-1] - ends[-2] < 1e-6:
        raise Skip("equal points")
    need(o, "t_zeroecc_shifted")
    z = o.t_zeroecc_shifted
    cut = z[z < end]
    import types
    for order in (np.arange(len(out)), rng.permutation(len(out))):
        # the same measurement with the aligned quasicircular data ending there
        from gw_eccentricity.gw_eccentricity import measure_eccentricity
        cls = type(o)
        name = "compute_res_amp_gw_and_res_omega_gw"
        orig = need(cls, name)

        def short(self, *a, **k):
            res = orig(self, *a, **k)
            self.t_zeroecc_shifted = cut
            return res
        setattr(cls, name, short)
        try:
            st2, r2 = meas.attempt(c, d, ref=out[order])
        finally:
            delattr(cls, name) if name in cls.__dict__ and orig is not cls.__dict__.get(name) and name not in getattr(cls, "_own", ()) else None
            if getattr(cls, name) is not orig:
                setattr(cls, name, orig)
        check(st2 == "raise", lambda: f"a reference time {ends[-1]} beyond the end {cut[-1]} of the aligned quasicircular data was accepted (order {order[:6].tolist()})")
