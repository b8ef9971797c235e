"""C13 one consistent window around the reference points."""
from .common import *
from . import contract
from .c03 import select
from pyvc.npmodel import extreme_idx, unary, StructVal

SEG = ED + "._get_segment_indices"
ADD = ED + "._compute_additional_orbits"
RB = ED + "._get_reference_bounds"
PB = ED + "._get_phase_bounds"
UPD = ED + "._update_waveform_data_segment"
GET = ED + ".get_amp_phase_omega_gw_segments"
AT = ED + ".get_approximate_tref_for_fref_using_secular_trend"
QF = UT + "QusicircularFitForMappingFrequencyToTime"
INIT = ED + ".__init__"
NOTE = ("phase_gw strictly increasing by at most `step` radians per sample (step <= 1); 'contains', 'at least' are up to one sample; "
        "scipy.optimize.least_squares assumed a deterministic function of its residual function, starting point and bounds")
FOUR_PI = 4 * to_z3(PI)


def phase(ctx, n):
    """strictly increasing phase, by at most one radian per sample."""
    P = ctx.arr("phase_gw", n)
    ctx.strictly_increasing(P)
    ctx.forall(n, lambda i: z3.Implies(to_z3(i) >= 1, P.at(i) - P.at(isub(i, 1)) <= 1))
    ctx.assume(P.at(isub(n, 1)) - P.at(isub(n, 2)) <= 1)
    return P


@contract(on=[SEG, ADD], budget=300, cap=1)
def window(ctx):
    """For any increasing phase and any number N of orbits not exceeding the waveform: the window starts at or before the first reference point and ends after the last one; it has at least N/2 orbits on each side or reaches the end of the data on that side; it has at least N orbits in total, and no more than the orbits between the reference points plus N rounded up to even (times 1.1)."""
    n = ctx.length("n", 3)
    P = phase(ctx, n)
    N = ctx.real("N")
    last = P.at(isub(n, 1))
    ctx.assume(z3.And(N > 0, last - P.at(0) >= FOUR_PI * N))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    ctx.assume(z3.And(i <= j, j < to_z3(n)))
    o = ctx.obj(ED, phase_gw=P, extra_kwargs=ctx.dict({"use_only_these_many_orbits": N}))
    ctx.no_raise("call", SEG, o, P.at(i), P.at(j))
    s, e = to_z3(o.attrs["segment_start_index"]), to_z3(o.attrs["segment_end_index"])
    half = N / 2 + 1
    ctx.prove("start is at or before the first reference point", z3.And(s >= 0, s <= i))
    ctx.prove("end is after the last reference point, or the end of the data", z3.Or(e == -1, z3.And(e > j, e < to_z3(n))))
    w = isub(n, 2) if ctx.branch(e == -1) else isub(e, 1)      # last sample of the window
    ctx.prove("not empty", z3.Implies(i < to_z3(n) - 1, to_z3(w) >= s))
    ctx.prove("half of the orbits on the left, unless the data end", z3.Or(s == 0, P.at(i) - P.at(s) >= FOUR_PI * N / 2 - 1))
    ctx.prove("half of the orbits on the right, unless the data end", z3.Or(e == -1, P.at(w) - P.at(j) >= FOUR_PI * N / 2 - 1))
    ctx.prove("at least the requested number of orbits", P.at(w) - P.at(s) >= FOUR_PI * N - 1)
    half = N / 2 + 1
    ctx.prove("not more than requested", P.at(w) - P.at(s) <= P.at(j) - P.at(i) + 2 * half * FOUR_PI * z3.Q(11, 10) + 2)
    ctx.frame("phase not modified", P)


@contract(on=[UPD])
def same_window(ctx):
    """Time, amplitude, phase and frequency are cut by the same window of consecutive samples."""
    n = ctx.length("n", 1)
    q = {k: ctx.arr(k, n) for k in ("t", "amp_gw", "phase_gw", "omega_gw")}
    s = ctx.int("start", 0)
    to_end = ctx.choose(2) == 1
    if to_end:
        e = -1
        ctx.assume(s <= to_z3(n) - 1)
        stop = to_z3(n) - 1
    else:
        e = stop = ctx.int("end", 0)
        ctx.assume(z3.And(s <= e, e <= to_z3(n)))
    o = ctx.obj(ED, segment_start_index=s, segment_end_index=e, **q)
    for a in q.values():
        ctx.watch(a)
    ctx.no_raise("call", UPD, o)
    for k, a in q.items():
        same_array(ctx, k, o.attrs[k], lambda p, a=a: a.at(iadd(s, p)), stop - s)
        ctx.frame(k + ": caller's data not modified", a)


@contract(on=[GET])
def sequence(ctx):
    """The window is computed from the phases at the bounds of the reference points and then applied once, whatever the debug setting."""
    n = ctx.length("n", 2)
    q = {k: ctx.arr(k, n) for k in ("t", "amp_gw", "phase_gw", "omega_gw")}
    log = []
    tl, tr, pl, pr = (ctx.real(x) for x in ("t_left", "t_right", "phase_left", "phase_right"))

    def st(nm, ret):
        def f(c, a, k):
            log.append((nm, a[1:]))
            return ret
        return f
    ctx.summaries[RB] = st("bounds", (tl, tr))
    ctx.summaries[PB] = st("phases", (pl, pr))
    ctx.summaries[SEG] = st("indices", None)
    ctx.summaries[UPD] = st("update", None)
    o = ctx.obj(ED, debug_plots=False, **q)
    ctx.no_raise("call", GET, o)
    ctx.prove("steps", [x[0] for x in log] == ["bounds", "phases", "indices", "update"])
    ctx.prove("phases at the bounds of the reference", log[1][1][0] is tl and log[1][1][1] is tr)
    ctx.prove("window around these phases", log[2][1][0] is pl and log[2][1][1] is pr)


@contract(on=[PB])
def phase_bounds(ctx):
    """The phases are those at the samples closest to the bounds."""
    n = ctx.length("n", 1)
    t, P = ctx.arr("t", n), ctx.arr("phase_gw", n)
    tl, tr = ctx.real("t_left"), ctx.real("t_right")
    r = ctx.no_raise("call", PB, ctx.obj(ED, t=t, phase_gw=P), tl, tr)
    for nm, x, got in (("left", tl, r[0]), ("right", tr, r[1])):
        m = extreme_idx(ctx, unary(ctx, lambda v: to_z3(f_abs(ctx, v - x)), t, "real"), "<")
        ctx.prove(f"{nm}: phase at the closest sample", got == P.at(m))
        ctx.prove_all(f"{nm}: no sample is closer", n, lambda k: to_z3(f_abs(ctx, t.at(m) - x)) <= to_z3(f_abs(ctx, t.at(k) - x)))


@contract(on=[RB])
def reference_bounds(ctx):
    """For times, the bounds are the earliest and the latest reference time, in whatever order they are given; for frequencies the times of the lowest and of the highest reference frequency."""
    q = ctx.length("n_ref", 1)
    ref = ctx.arr("ref", q)
    dom = ["time", "frequency"][ctx.choose(2)]
    asked = []

    def at(c, a, k):
        asked.append(a[1])
        return c.ufun("t_of_f", a[1])
    ctx.summaries[AT] = at
    o = ctx.obj(ED, domain=dom, **{"tref_in" if dom == "time" else "fref_in": ref})
    ctx.watch(ref)
    r = ctx.no_raise("call", RB, o)
    lo, hi = (r if dom == "time" else (asked[0], asked[-1]))
    ctx.prove_all("lowest reference point", q, lambda k: lo <= ref.at(k))
    ctx.prove_all("highest reference point", q, lambda k: hi >= ref.at(k))
    for nm, b in (("lower", lo), ("upper", hi)):
        with ctx.assuming_all(q, lambda k: b != ref.at(k)):
            ctx.unreachable(f"{nm} bound is a reference point")
    if dom == "frequency":
        ctx.prove("times of these frequencies", z3.And(r[0] == ctx.ufun("t_of_f", lo), r[1] == ctx.ufun("t_of_f", hi)))
    ctx.frame("reference points not modified", ref)


def ghost_differences(ctx, a):
    """ghost array: differences of successive elements (gives the prover the neighbour of every index)."""
    D = ctx.arr("ghost_diff", a.n)
    ctx.forall(a.n, lambda i: z3.Implies(to_z3(i) >= 1, D.at(i) == a.at(i) - a.at(isub(i, 1))))


def fit_summaries(ctx, fits):
    """contract of the quasicircular fit: a deterministic function of (times from merger, frequencies)."""
    def init(c, a, k):
        a[0].attrs["times"], a[0].attrs["frequencies"] = a[1], a[2]

    def fit(c, a, k):
        T, W = a[0].attrs["times"], a[0].attrs["frequencies"]
        for (T2, W2, x) in fits:
            if c.entailed(num_cmp("==", T.n, T2.n)) and c.entailed_forall(T.n, lambda i: b_and(num_cmp("==", T.at(i), T2.at(i)), num_cmp("==", W.at(i), W2.at(i)))):
                fits.append((T, W, x))
                return StructVal("OptimizeResult", {"x": PyList(x)})
        x = [c.real(f"fit{len(fits)}_{q}") for q in range(3)]
        fits.append((T, W, x))
        return StructVal("OptimizeResult", {"x": PyList(x)})
    ctx.summaries[QF + ".__init__"] = init
    ctx.summaries[QF + ".least_square_fit"] = fit
    ctx.summaries[QF + ".model"] = lambda c, a, k: unary(c, lambda v: c.ufun("trend", v, *a[2:]), a[1], "real")


@contract(on=[AT], budget=300, cap=8)
def trend_time(ctx):
    """For any reference frequency and any time origin: the trend is fitted to (time from merger, frequency) of one block of consecutive samples (every step-th of them); the returned time is the sample of the block at which the trend is closest to 2 pi f."""
    n = ctx.length("n", 2)
    P = phase(ctx, n)
    t, W, tm, f = ctx.arr("t", n), ctx.arr("omega_gw", n), ctx.real("t_merger"), ctx.real("fref")
    ghost_differences(ctx, W)
    fits = []
    fit_summaries(ctx, fits)
    o = ctx.obj(ED, t=t, omega_gw=W, phase_gw=P, t_merger=tm)
    for a in (t, W, P):
        ctx.watch(a)
    out = ctx.outcome(AT, o, f)
    if raised(out):      # shown not to happen by trend_time_origin
        return
    r = out[1]
    ctx.prove("one fit", len(fits) == 1)
    T, F, x = fits[0]
    m = T.n
    wref = 2 * PI * f
    tr = lambda i: ctx.ufun("trend", T.at(i), *x)
    k = ctx.int("k", 0)
    ctx.assume(k < to_z3(m))
    ctx.prove("at least one sample", to_z3(m) >= 1)
    best = extreme_idx(ctx, new_arr((m,), lambda i: to_z3(f_abs(ctx, tr(i) - wref)), "real"), "<")
    ctx.prove("the returned time is the fitted sample where the trend is closest to the reference frequency", r == T.at(best) + tm)
    with ctx.assuming_all(n, lambda i: z3.Or(T.at(k) != t.at(i) - tm, F.at(k) != W.at(i))):
        ctx.unreachable("the fit is given time from merger and frequency of the same samples")
    for a in (t, W, P):
        ctx.frame("data not modified", a)


@contract(on=[AT], budget=300, cap=1)
def trend_time_origin(ctx):
    """Shifting the times and the merger time by s shifts the returned time by s, for any data and frequency."""
    n = ctx.length("n", 2)
    P = phase(ctx, n)
    t, W, tm, f = ctx.arr("t", n), ctx.arr("omega_gw", n), ctx.real("t_merger"), ctx.real("fref")
    s = ctx.real("s")
    ghost_differences(ctx, W)
    fits = []
    fit_summaries(ctx, fits)
    r = ctx.no_raise("call", AT, ctx.obj(ED, t=t, omega_gw=W, phase_gw=P, t_merger=tm), f)
    t2 = new_arr((n,), lambda i: t.at(i) + s, "real", "t_shifted")
    r2 = ctx.no_raise("call", AT, ctx.obj(ED, t=t2, omega_gw=W, phase_gw=P, t_merger=tm + s), f)
    ctx.prove("shifted by s", r2 == r + s)


@contract(on=[INIT], budget=200)
def window_or_full(ctx):
    """The window is cut exactly when a number of orbits is requested and the waveform has at least that many; otherwise the full data are used unchanged."""
    from .c04 import init_world
    n, t = init_world(ctx)
    N = [None, 0][ctx.choose(2)] if ctx.choose(2) else ctx.real("N")
    if N is not None and not isinstance(N, int):
        ctx.assume(N > 0)
    cut = []
    ctx.summaries[GET] = lambda c, a, k: cut.append(1)
    o = ctx.obj(ED)
    ctx.no_raise("call", INIT, o, ctx.dict({"t": 1, "hlm": 1}), tref_in=ctx.real("tref"), debug_level=0,
                 extra_kwargs=ctx.dict({"use_only_these_many_orbits": N}))
    P = o.attrs["phase_gw"]
    if not is_z3(N):
        ctx.prove("no window unless requested", not cut)
    else:
        total = P.at(isub(P.n, 1)) - P.at(0)
        ctx.prove("window iff the waveform has that many orbits", z3.BoolVal(len(cut) == 1) == (total >= FOUR_PI * N))
    ctx.prove("at most one window", len(cut) <= 1)


@contract(on=[QF + ".least_square_fit", QF + ".residual", QF + ".__init__"])
def secular_fit(ctx):
    """The fit minimises frequencies minus model over the given times, starting from parameters inside its bounds, and its result is returned."""
    n = ctx.length("n", 2)
    T, W = ctx.arr("times", n), ctx.arr("frequencies", n)
    ctx.strictly_increasing(T)
    ctx.assume(z3.And(T.at(isub(n, 1)) <= 0))
    ctx.forall(n, lambda i: W.at(i) > 0)
    o = ctx.obj(QF)
    ctx.no_raise("init", QF + ".__init__", o, T, W)
    r = ctx.no_raise("fit", QF + ".least_square_fit", o)
    ev = [e for e in ctx.events if e[0] == "least_squares"]
    ctx.prove("one optimisation, its result returned", len(ev) == 1 and isinstance(r, StructVal))
    fun, p0 = ev[0][1][0], ev[0][1][1]
    b = ev[0][2]["bounds"]
    for q in range(3):
        ctx.prove(f"start inside the bounds {q}", z3.And(to_z3(b.l[0].l[q]) <= to_z3(p0.l[q]), to_z3(p0.l[q]) <= to_z3(b.l[1].l[q])))
    x = [ctx.real(f"p{q}") for q in range(3)]
    ctx.summaries[QF + ".model"] = lambda c, a, k: unary(c, lambda v: c.ufun("trend", v, *a[2:]), a[1], "real")
    res = ctx.interp.call(fun, [PyList(x)] + list(ev[0][2]["args"]), {})
    same_array(ctx, "residual", res, lambda i: W.at(i) - ctx.ufun("trend", T.at(i), *x), n)
