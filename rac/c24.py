"""C24: the spin filter on random spectra, segments and synthetic coprecessing modes."""
import warnings
import numpy as np
from rac.base import Skip, check, need

RULE = ("random frequencies, cutoffs and taper widths (zero and above one included), random spectra, random overlapping segments, and synthetic coprecessing modes with random "
        "eccentric and spin-induced modulations, with filtering forced, excluded or switched off; compared with independent formulas")
PARTIAL = True


def cases(rng, tier):
    i = 0
    while True:
        yield dict(kind=["mask", "mask", "freq", "segment", "combine", "average", "all", "freq"][i % 8], seed=int(rng.integers(1 << 30)))
        i += 1


def modes(rng, n=None):
    n = int(rng.integers(1500, 4000)) if n is None else n
    dt = 0.5 + rng.random()
    t = np.arange(n) * dt + rng.normal() * 100
    tm = t[-1] + dt * (20 + 100 * rng.random())
    we = 2 * np.pi / (dt * (100 + 80 * rng.random()))
    ws = we * (2.5 + rng.random())
    e, a = 0.02 * rng.random() + 0.002, 0.02 * rng.random() + 0.004
    ramp = (tm - t)
    A = 0.1 * (ramp / ramp[0]) ** -0.25
    W = 0.03 * (ramp / ramp[0]) ** -0.375
    d = dict(t=t)
    p = rng.random() * 6
    for q, base in (("amp", A), ("omega", W)):
        sy, an = base * (1 + e * np.cos(we * t + p)), base * a * np.cos(ws * t)
        d[q + "lm"] = {(2, 2): sy + an, (2, -2): (sy - an) * (1 if q == "amp" else -1)}
    d["phaselm"] = {k: np.cumsum(v) * dt for k, v in d["omegalm"].items()}
    return d, tm, dt


def run(c):
    import gw_eccentricity.spin_filter as sf
    rng = np.random.default_rng(c["seed"])
    K = c["kind"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["k_" + K](sf, rng)


def k_mask(sf, rng):
    f = need(sf, "_make_lowpass_mask")
    n = int(rng.integers(1, 80))
    fr = np.fft.rfftfreq(max(2 * n - 2, 1), 0.1 + rng.random())
    fc = fr[int(rng.integers(len(fr)))] if rng.random() < 0.5 else fr[-1] * rng.random() + 1e-3
    if fc <= 0:
        raise Skip("no cutoff")
    w = [0.0, 0.2, rng.random(), 1 + rng.random()][int(rng.integers(4))]
    m = f(fr, fc, w)
    lo, hi = fc * (1 - w), fc * (1 + w)
    check(m.shape == fr.shape and np.all(np.isfinite(m)), f"mask with taper width {w}: {m}")
    check(np.all((m >= 0) & (m <= 1)), f"mask outside [0, 1]: {m}")
    check(np.all(m[fr < lo] == 1) and np.all(m[fr > hi] == 0), f"mask is not 1 below {lo} and 0 above {hi}: {m}")
    check(np.all(np.diff(m) <= 1e-15), "mask does not decrease")
    s = (fr > lo) & (fr < hi)
    if w > 0:
        check(np.allclose(m[s], np.cos(0.5 * np.pi * (fr[s] - lo) / (hi - lo)) ** 2, atol=1e-9), "not a cosine taper")


def k_freq(sf, rng):
    f = need(sf, "_get_fcut_fecc_fspin")
    n = int(rng.integers(4, 600))
    dt = 0.1 + rng.random()
    t = np.arange(n) * dt + rng.normal() * 10
    d = rng.normal(size=n)
    fr = np.fft.rfftfreq(n, dt)
    g = fr[-1] * (0.02 + 0.9 * rng.random()) if rng.random() < 0.8 else 1e-3 / (n * dt)
    slo, shi, elo, ehi = 0.5 + 0.5 * rng.random(), 1 + 0.5 * rng.random(), 0.1 + 0.3 * rng.random(), 0.4 + 0.5 * rng.random()
    fc, fe, fs, fr2, sp = f(t, d, g, slo, shi, elo, ehi, False)
    check(np.allclose(fr2, fr) and np.allclose(sp, np.abs(np.fft.rfft(d)) / n), "frequencies and spectrum")
    eps = 1e-12 * fr[-1]

    def pick(lo, hi, best, default, what, got):
        s = (fr2 >= lo) & (fr2 <= hi)
        want = fr2[s][best(sp[s])] if s.any() else default
        check(abs(got - want) <= eps, f"{what} {got}, expected {want} in [{lo}, {hi}]")
    pick(slo * g, shi * g, np.argmax, g, "spin frequency", fs)
    check(elo * fs - eps <= fe <= ehi * fs + eps, f"eccentricity frequency {fe} outside its window below the spin frequency {fs}")
    s = (fr2 >= elo * fs) & (fr2 <= ehi * fs)
    if s.any():
        pick(elo * fs, ehi * fs, np.argmax, None, "eccentricity frequency", fe)
    check(fe - eps <= fc <= fs + eps, f"cutoff {fc} not between {fe} and {fs}")
    s = (fr2 >= fe) & (fr2 <= fs)
    if s.any():
        pick(fe, fs, np.argmin, None, "cutoff", fc)


def blank(sf, **at):
    C = need(sf, "FilterSpinInducedOscillations")
    o = C.__new__(C)
    o.__dict__.update(at)
    return o


def k_segment(sf, rng):
    n = int(rng.integers(2, 200))
    t = np.cumsum(0.1 + rng.random(n)) if rng.random() < 0.5 else np.arange(n) * 0.5
    d = rng.normal(size=n)
    dT, size = 3 * rng.random() + 0.01, float(rng.integers(1, 30))
    mid = t[int(rng.integers(n))] if rng.random() < 0.5 else t[0] + (t[-1] - t[0]) * rng.random()
    o = blank(sf, t=t, data=d, segment_size=size, delta_T_interp=lambda x: dT)
    ts, ds = need(o, "_make_segment")(mid)
    half = 0.5 * size * dT
    s = (t >= mid - half) & (t <= mid + half)
    check(np.array_equal(ts, t[s]) and np.array_equal(ds, d[s]), f"segment at {mid} of half width {half}: times {ts[:3]}..{ts[-3:]}, expected {t[s][:3]}..{t[s][-3:]}")


class R:
    def __init__(self, t, y):
        self.t, self.filtered_data, self.data = t, y, y


def segs(rng, t, g):
    n = len(t)
    out, w = [], np.zeros(n)
    s = 0
    while s < n - 3:
        e = min(n, s + int(rng.integers(4, 60)))
        out.append((s, e))
        w[s:e] += np.hanning(e - s)
        s += int(rng.integers(1, max(2, (e - s) // 2)))
        if rng.random() < 0.02:
            s = e + 3
    return out, w


def k_combine(sf, rng, common=True):
    n = int(rng.integers(20, 300))
    t = np.arange(n) * (0.1 + rng.random()) + rng.normal() * 10
    g = rng.normal(size=n)
    ss, w = segs(rng, t, g)
    o = blank(sf, t=t, debug_level=0)
    ys = [g[s:e].copy() if common else rng.normal(size=e - s) for s, e in ss]
    y = np.zeros(n)
    for (s, e), v in zip(ss, ys):
        y[s:e] += v * np.hanning(e - s)
    if not np.any(w > 1e-6):
        raise Skip("no weight")
    r = need(o, "_combine_segments")([R(t[s:e].copy(), v.copy()) for (s, e), v in zip(ss, ys)])
    m = w > 1e-6
    want = g if common else np.where(m, y / np.where(m, w, 1), 0)
    check(r.shape == t.shape, "one value per time")
    check(np.allclose(r[m], want[m], rtol=1e-7, atol=1e-9), f"combined signal differs from the {'common signal' if common else 'weighted average'} by {np.abs(r - want)[m].max()}")


def k_average(sf, rng):
    k_combine(sf, rng, False)


def k_all(sf, rng):
    f = need(sf, "check_and_filter_spin_induced_oscillations")
    d, tm, dt = modes(rng)
    kw = need(sf, "get_default_kwargs_for_filtering")()
    forced = int(rng.integers(3))
    kw.update(filter_threshold=[1e9, -1e9, -1e9][forced], do_not_filter=forced == 2, padding_length=int(rng.integers(1, 3000)), taper_width=[0.2, 0.0, 0.4][int(rng.integers(3))])
    copy = {k: ({q: x.copy() for q, x in v.items()} if isinstance(v, dict) else v.copy()) for k, v in d.items()}
    try:
        r = f(data_dict=d, data_tag="", t_merger=tm, filter_kwargs=dict(kw))
    except (ValueError, IndexError) as e:
        raise Skip(f"filter not applicable: {e}")
    for k, v in copy.items():
        for q, x in (v.items() if isinstance(v, dict) else [(None, v)]):
            check(np.array_equal(x, d[k] if q is None else d[k][q]), f"data passed in modified: {k} {q}")
    for q, sgn in (("amp", 1), ("omega", -1), ("phase", -1)):
        sym = 0.5 * (d[q + "lm"][2, 2] + sgn * d[q + "lm"][2, -2])
        check(np.array_equal(r[f"{q}_gw_original"], sym), f"{q}: original is not the symmetric combination")
        got, fil = r[f"{q}_gw"], r[f"{q}_gw_filtered"]
        check(got.shape == sym.shape, f"{q}: shape")
        if forced != 1:
            check(np.array_equal(got, sym) and fil is None, f"{q}: not filtered, but not the symmetric combination (threshold {kw['filter_threshold']}, do_not_filter {kw['do_not_filter']})")
            continue
        check(fil is not None and np.array_equal(got, fil), f"{q}: filtered data not used")
        check(np.all(np.isfinite(got)), f"{q}: filtered data not finite (taper width {kw['taper_width']})")
        if q == "phase":
            check(np.allclose(got, np.cumsum(r["omega_gw"]) * (d["t"][1] - d["t"][0]), rtol=1e-9, atol=1e-9), "phase is not the running sum of the filtered frequency times the time step")
        else:
            n = len(sym)
            s = slice(n // 4, 3 * n // 4)
            an = d[q + "lm"][2, 2] - sym
            check(np.abs(got - sym)[s].max() < 3 * np.abs(an).max() + 0.05 * np.abs(sym).max(), f"{q}: filtered data far from the data")
            for sg in r[f"{q}_gw_filter_segment_results"] or []:
                check(sg.f_ecc - 1e-12 <= sg.f_cutoff <= sg.f_spin + 1e-12, "cutoff of a segment not between the frequencies")
                check(len(sg.filtered_data) == len(sg.t) == len(sg.data), "segment lengths")
