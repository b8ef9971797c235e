"""C24 spin filtering uses a valid low-pass and leaves data alone unless required."""
from .common import *
from . import contract
from pyvc.core import PathEnd, Obj, PyRaise, Arr
from pyvc.interp import Ext, LoopSpec, SymSeq, LazyList
from pyvc.npmodel import StructVal

S = "spin_filter:"
F = S + "FilterSpinInducedOscillations"
MASK, FREQ, REQ, CROSS, COND, ALL = (S + x for x in ("_make_lowpass_mask", "_get_fcut_fecc_fspin", "check_filter_requirement", "_find_intersection_points",
                                                  "_condition_data_for_fft", "check_and_filter_spin_induced_oscillations"))
SEG, COMB, FSEG, APPLY = (f"{F}.{x}" for x in ("_make_segment", "_combine_segments", "_filter_segment", "apply_filter"))
NOTE = ("mask, frequencies, segments and their combination for any length; Fourier transforms and secular fits by assumed contracts (arbitrary values); "
        "whether filtering is required is not specified, only what follows from it; the taper decreases by the assumed monotonicity of cos on [0, pi]")


@contract(on=[MASK])
def mask(ctx):
    """1 below the taper, 0 above it, a cosine taper in between, always within [0, 1]; a zero taper width gives a sharp cutoff."""
    n = ctx.length("n", 0)
    f = ctx.arr("frequencies", n)
    fc, w = ctx.real("f_cutoff"), ctx.real("taper_width")
    ctx.assume(z3.And(fc > 0, w >= 0))
    ctx.watch(f)
    r = ctx.no_raise("call", MASK, f, fc, w)
    ctx.prove("one weight per frequency", num_cmp("==", r.n, n))
    ctx.frame("frequencies not modified", f)
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))
    x, v = f.at(i), to_z3(r.at(i))
    lo, hi = fc * (1 - w), fc * (1 + w)
    if ctx.branch(x <= lo):
        ctx.prove("1 below the taper", v == 1)
    elif ctx.branch(x > hi):
        ctx.prove("0 above the taper", v == 0)
    else:
        ctx.prove("taper is not empty", hi > lo)
        c = f_trig("cos")(ctx, to_z3(num_binop("/", num_binop("*", PI, x - lo, ctx), hi - lo, ctx)))
        ctx.prove("cosine taper", v == (1 + c) / 2)
    ctx.prove("within [0, 1]", z3.And(v >= 0, v <= 1))


@contract(on=[MASK])
def taper_decreases(ctx):
    """The taper decreases from 1 at its lower end to 0 at its upper end."""
    n = ctx.length("n", 2)
    f = ctx.arr("frequencies", n)
    fc, w = ctx.real("f_cutoff"), ctx.real("taper_width")
    ctx.assume(z3.And(fc > 0, w > 0))
    r = ctx.no_raise("call", MASK, f, fc, w)
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    ctx.assume(z3.And(i < to_z3(n), j < to_z3(n)))
    x, y = f.at(i), f.at(j)
    lo, hi = fc * (1 - w), fc * (1 + w)
    ctx.assume(z3.And(lo < x, x <= y, y <= hi))
    vi, vj = to_z3(r.at(i)), to_z3(r.at(j))
    ph = lambda q: to_z3(num_binop("/", num_binop("*", PI, q - lo, ctx), hi - lo, ctx))
    a, b = ph(x), ph(y)
    p = to_z3(PI)
    u, v = ctx.real("u"), ctx.real("v")
    ctx.assume(z3.And(u * (hi - lo) == x - lo, v * (hi - lo) == y - lo))
    ctx.lemma("fractions of the taper", z3.And(u > 0, u <= v, v <= 1), using=[])
    ca, cb = f_trig("cos")(ctx, a), f_trig("cos")(ctx, b)
    ctx.trusted_math.add("cos decreases on [0, pi]")
    ctx.lemma("phases", z3.And(a == p * u, b == p * v))
    ctx.lemma("phases in order", z3.And(a >= 0, a <= b, b <= p))
    ctx.assume(z3.Implies(z3.And(a >= 0, a <= b, b <= p), ca >= cb))
    ctx.prove("decreasing", vi >= vj)


@contract(on=[FREQ])
def frequencies(ctx):
    """The spin frequency lies in its window around the guess, the eccentricity frequency in its window below the spin frequency, and the cutoff between the two."""
    n = ctx.length("n", 2)
    t, d = ctx.arr("t", ctx.length("nt", 2)), ctx.arr("data", n)
    ctx.assume(t.at(1) > t.at(0))
    g, slo, shi, elo, ehi = (ctx.real(x) for x in ("guess", "spin_lo", "spin_hi", "ecc_lo", "ecc_hi"))
    ctx.assume(z3.And(g > 0, slo > 0, slo <= 1, shi >= 1, elo > 0, elo <= z3.Q(2, 5), ehi >= z3.Q(2, 5), ehi <= 1))
    fc, fe, fs, fr, sp = ctx.no_raise("call", FREQ, t, d, g, slo, shi, elo, ehi, 0)
    fc, fe, fs = (to_z3(scalar(x)) if isinstance(x, Arr) else to_z3(x) for x in (fc, fe, fs))
    ctx.lemma("spin frequency in its window", z3.And(fs >= slo * g, fs <= shi * g))
    ctx.lemma("positive", fs > 0)
    ctx.lemma("eccentricity frequency in its window", z3.And(fe >= elo * fs, fe <= ehi * fs))
    ctx.lemma("not above the spin frequency", fe <= fs)
    ctx.prove("cutoff between eccentricity and spin frequency", z3.And(fc >= fe, fc <= fs))
    ctx.prove("frequencies and spectrum belong together", num_cmp("==", fr.n, sp.n))
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, fr.n))


@contract(on=[SEG])
def segments(ctx):
    """A segment is the data within half its width of its centre: the same consecutive samples of times and data, and exactly those inside."""
    n = ctx.length("n", 2)
    t, d = ctx.arr("t", n), ctx.arr("data", n)
    ctx.forall2(n, lambda i, j: t.at(i) < t.at(j))
    dT, size, mid = ctx.real("delta_T"), ctx.real("segment_size"), ctx.real("t_mid")
    ctx.assume(z3.And(dT > 0, size > 0, mid >= t.at(0), mid <= t.at(isub(n, 1))))
    calls = []
    o = ctx.obj(F, partial=True)
    o.attrs.update(t=t, data=d, segment_size=size, delta_T_interp=Ext("delta_T", lambda c, a, k: calls.append(a[0]) or dT))
    r = ctx.no_raise("call", SEG, o, mid)
    ts, ds = r
    ctx.prove("times and data of equal length", num_cmp("==", ts.n, ds.n))
    half = z3.Q(1, 2) * size * dT
    ctx.prove("width at its centre", bool(calls) and all(q is mid or ctx.entailed(num_cmp("==", q, mid)) for q in calls))
    b, i = ctx.int("first", 0), ctx.int("i", 0)
    lo, hi = mid - half, mid + half
    ctx.assume(num_cmp("<", b, n))
    ctx.assume(z3.And(t.at(b) >= lo, z3.Or(b == 0, t.at(b - 1) < lo)))
    ctx.instantiate(b, b - 1)
    m = to_z3(ts.n)
    ctx.assume(z3.And(i < m))
    ctx.instantiate(b + i)
    ctx.prove("same consecutive times", ts.at(i) == t.at(b + i))
    ctx.prove("same consecutive data", ds.at(i) == d.at(b + i))
    ctx.prove("inside", z3.And(ts.at(i) >= lo, ts.at(i) <= hi))
    ctx.prove("no further sample inside", z3.Or(b + m == to_z3(n), t.at(b + m) > hi))


def world(ctx, n, segs):
    """times, and the given number of segments at arbitrary places"""
    t = ctx.arr("t", n)
    ctx.forall2(n, lambda i, j: t.at(i) < t.at(j))
    res, place = [], []
    for j in range(segs):
        s, k = ctx.int(f"start{j}", 0), ctx.length(f"len{j}", 3)
        ctx.assume(s + to_z3(k) <= to_z3(n))
        y = ctx.arr(f"filtered{j}", k)
        tt = new_arr((k,), lambda i, s=s: t.at(iadd(s, i)))
        ctx.instantiate(s, s - 1, s + 1)
        res.append(StructVal("FilterSegmentResult", {"t": tt, "filtered_data": y}))
        place.append((s, k, y))
    o = ctx.obj(F, partial=True)
    o.attrs.update(t=t)
    return o, t, res, place


@contract(on=[COMB], soft=True)
def combine_any_number(ctx):
    """For any number of segments of any length at any place (loop invariant): segments that agree with a common signal reproduce it wherever they have weight."""
    n = ctx.length("n", 3)
    o, t, res, place = world(ctx, n, 0)
    g = ctx.arr("signal", n)
    K = ctx.int("K", 0)
    ctx.assume(num_cmp("<", K, n))
    m = ctx.length("segments", 1)
    made = {}

    def seg(k):
        q = str(k)
        if q not in made:
            s, ln = ctx.int("start", 0), ctx.length("len", 3)
            ctx.assume(s + to_z3(ln) <= to_z3(n))
            ctx.instantiate(s, s - 1, s + 1)
            made[q] = StructVal("FilterSegmentResult", {"t": new_arr((ln,), lambda i: t.at(iadd(s, i))), "filtered_data": new_arr((ln,), lambda i: g.at(iadd(s, i)))})
        return made[q]
    last = {}

    def heap(c, v):
        last["y"] = v["y_full"] = c.arr("y_full", n)
        last["w"] = v["w_full"] = c.arr("w_full", n)
    ctx.loops[(COMB, 0)] = LoopSpec(lambda c, L: [("weights are not negative", L["w_full"].at(K) >= 0),
                                                  ("weighted sum of the signal", to_z3(L["y_full"].at(K)) == to_z3(L["w_full"].at(K)) * g.at(K)),
                                                  ("one sum per time", to_z3(b_and(num_cmp("==", L["w_full"].n, n), num_cmp("==", L["y_full"].n, n))))],
                                    heap=heap, name="segments")
    out = ctx.outcome(COMB, o, SymSeq(m, seg))
    if raised(out):
        return
    r = out[1]
    ctx.prove("one value per time", num_cmp("==", r.n, n))
    ctx.assume(to_z3(last["w"].at(K)) > 0)
    ctx.prove("the common signal", to_z3(r.at(K)) == g.at(K))


@contract(on=[COMB], paths=200, budget=100, bounded="up to 2 segments of any length at any place")
def combine_common(ctx):
    """Segments that agree with a common signal reproduce it wherever they have weight."""
    n = ctx.length("n", 3)
    o, t, res, place = world(ctx, n, 1 + ctx.choose(2))
    g = ctx.arr("signal", n)
    for s, k, y in place:
        ctx.forall(k, lambda i, s=s, y=y: y.at(i) == g.at(s + i))
    out = ctx.outcome(COMB, o, ctx.list(res))
    if raised(out):
        return
    r = out[1]
    ctx.prove("one value per time", num_cmp("==", r.n, n))
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))
    for s, k, y in place:
        ctx.instantiate(i - s)
    w = ctx.choose(len(place))
    for j, (s, k, y) in enumerate(place):
        if j != w:
            ctx.branch(i >= s) and ctx.branch(i < s + to_z3(k))
    s, k, y = place[w]
    ctx.assume(z3.And(i > s, i < s + to_z3(k) - 1))
    h = z3.Function("hanning", z3.IntSort(), z3.IntSort(), z3.RealSort())
    ctx.assume(h(to_z3(k), i - s) > 0)
    ctx.prove("the common signal", to_z3(r.at(i)) == g.at(i))


@contract(on=[COMB], bounded="two segments of any length, overlapping arbitrarily")
def combine_average(ctx):
    """Overlapping segments are combined as averages weighted with their windows."""
    n = ctx.length("n", 3)
    o, t, res, place = world(ctx, n, 2)
    out = ctx.outcome(COMB, o, ctx.list(res))
    if raised(out):
        return
    r = out[1]
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))
    h = z3.Function("hanning", z3.IntSort(), z3.IntSort(), z3.RealSort())
    ws, ys = [], []
    for s, k, y in place:
        ctx.assume(z3.And(i > s, i < s + to_z3(k) - 1))
        w = h(to_z3(k), i - s)
        ctx.assume(w > 0)
        ws.append(w)
        ys.append(y.at(i - s))
    ctx.prove("weighted average", to_z3(r.at(i)) * (ws[0] + ws[1]) == ws[0] * ys[0] + ws[1] * ys[1])


@contract(on=[COND])
def conditioning(ctx):
    """Padding puts the same number of zeros before and after the data; one of the two versions is not windowed."""
    n, p = ctx.length("n", 1), ctx.length("padding", 0)
    d = ctx.arr("data", n)
    ctx.watch(d)
    w, u = ctx.no_raise("call", COND, d, p)
    m = iadd(n, imul(2, p))
    ctx.prove("length", z3.And(to_z3(num_cmp("==", w.n, m)), to_z3(num_cmp("==", u.n, m))))
    ctx.frame("data not modified", d)
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, m))
    inside = z3.And(i >= to_z3(p), i < to_z3(p) + to_z3(n))
    ctx.prove("data in the middle, zeros around", to_z3(u.at(i)) == z3.If(inside, d.at(i - to_z3(p)), 0))
    ctx.prove("zeros around the windowed data", z3.Implies(z3.Not(inside), to_z3(w.at(i)) == 0))


@contract(on=[FSEG, MASK, COND])
def one_segment(ctx):
    """A filtered segment is its secular trend plus the low-passed rest: the spectrum of the padded rest times the mask made with the cutoff frequency found; it has one value per sample of the segment, and times and data are those of the segment."""
    n, p = ctx.length("n", 2), ctx.length("padding", 1)
    t, d, sec = ctx.arr("t", n), ctx.arr("data", n), ctx.arr("secular", n)
    ctx.assume(t.at(1) > t.at(0))
    fc, fe, fs, tw = (ctx.real(x) for x in ("fc", "fe", "fs", "taper_width"))
    ctx.assume(z3.And(fc > 0, tw >= 0))
    mid = ctx.real("mid")
    ctx.summaries[SEG] = lambda c, a, k: (t, d)
    ctx.summaries[f"{F}._f_spin_from_delta_T"] = lambda c, a, k: c.real("guess")
    ctx.summaries[f"{F}._get_secular_and_residual"] = lambda c, a, k: (sec, new_arr((n,), lambda i: d.at(i) - sec.at(i)))
    ctx.summaries[FREQ] = lambda c, a, k: (fc, fe, fs, c.arr("fr", c.length("nf", 1)), c.arr("sp", c.length("nf2", 1)))
    masks = []
    mk = ctx.arr("mask", iadd(ctx.interp.binop("//", iadd(n, imul(2, p)), 2), 1))

    def mask_(c, a, k):
        masks.append((a[0], a[1] if len(a) > 1 else k["f_cutoff"], a[2] if len(a) > 2 else k["taper_width"]))
        return mk
    ctx.summaries[MASK] = mask_
    o = ctx.obj(F, partial=True)
    o.attrs.update(t=ctx.arr("T", ctx.length("N", 2)), debug_level=0, data_type="amp")
    ctx.events.clear()
    r = ctx.no_raise("call", FSEG, o, mid, p, tw, ctx.real("slo"), ctx.real("shi"), ctx.real("elo"), ctx.real("ehi"))
    a = r.attrs
    ctx.prove("times and data of the segment", a["t"] is t and a["data"] is d)
    ctx.prove("frequencies found", a["f_cutoff"] is fc and a["f_ecc"] is fe and a["f_spin"] is fs)
    ctx.prove("one mask, with the cutoff found", len(masks) == 1 and masks[0][1] is fc and masks[0][2] is tw)
    i = ctx.int("i", 0)
    k = ctx.int("k", 0)
    m = iadd(n, imul(2, p))
    fr = masks[0][0]
    ctx.assume(num_cmp("<", k, fr.n))
    ctx.prove("mask on the frequencies of the padded data", to_z3(fr.at(k)) * (to_z3(m) * (t.at(1) - t.at(0))) == k)
    ev = [e for e in ctx.events if e[0] == "irfft"]
    ctx.prove("one inverse transform, of the padded length", len(ev) == 1 and to_z3(num_cmp("==", ev[0][2], m)))
    sp, out = ev[0][1], ev[0][3]
    ft = [e for e in ctx.rffts if e[1] is not None]
    hit = None
    for src, spec in ft:
        if ctx.entailed(z3.And(spec.at(k).re * mk.at(k) == sp.at(k).re, spec.at(k).im * mk.at(k) == sp.at(k).im)):
            hit = src
    ctx.prove("spectrum times mask", hit is not None)
    ctx.assume(num_cmp("<", i, n))
    ctx.prove("of the padded rest", to_z3(hit.at(iadd(p, i))) == d.at(i) - sec.at(i))
    ctx.prove("one value per sample", num_cmp("==", a["filtered_data"].n, n))
    ctx.prove("trend plus low-passed rest", to_z3(a["filtered_data"].at(i)) == sec.at(i) + out.at(iadd(p, i)))


@contract(on=[APPLY], bounded="up to 3 segments")
def whole_signal(ctx):
    """Segments are centred from the first time on in steps of alpha times the local spin period until the end; all of them, in order, are combined into the result."""
    n = ctx.length("n", 2)
    t = ctx.arr("t", n)
    opts = {k: ctx.real(k) for k in ("padding_length", "taper_width", "f_spin_lo_frac", "f_spin_hi_frac", "fecc_lo_frac", "fecc_hi_frac")}
    alpha = ctx.real("alpha")
    k = 1 + ctx.choose(3)
    dT = [ctx.real(f"dT{i}") for i in range(k)]
    cen = [t.at(0)]
    for q in dT:
        cen.append(cen[-1] + alpha * q)
    end = t.at(isub(n, 1))
    for c_ in cen[:-1]:
        ctx.assume(c_ < end)
    ctx.assume(cen[-1] >= end)
    segs, comb = [], []
    out = ctx.arr("combined", n)

    def fseg(c, a, kw):
        names = ["t_mid"] + list(opts)
        kw = {**dict(zip(names, a[1:])), **kw}
        c.prove("same options for every segment", all(kw[q] is opts[q] for q in opts))
        segs.append((kw["t_mid"], StructVal("segment", {})))
        return segs[-1][1]
    ctx.summaries[FSEG] = fseg
    ctx.summaries[COMB] = lambda c, a, kw: comb.append(list(a[1].l)) or out
    o = ctx.obj(F, partial=True)
    asked = []

    def delta(c, a, kw):
        for j, q in enumerate(cen[:-1]):
            if c.entailed(num_cmp("==", a[0], q)):
                return dT[j]
        c.fail("spin period at the centre of a segment", "other time")
        raise PathEnd()
    o.attrs.update(t=t, debug_level=0, debug_plots=False, delta_T_interp=Ext("delta_T", delta))
    r = ctx.no_raise("call", APPLY, o, opts["padding_length"], opts["taper_width"], alpha, *[opts[q] for q in list(opts)[2:]])
    ctx.prove("number of segments", len(segs) == k)
    for (m, _), q in zip(segs, cen):
        ctx.prove("centres", num_cmp("==", m, q))
    ctx.prove("all segments combined, in order", len(comb) == 1 and comb[0] == [s for _, s in segs])
    ctx.prove("combined signal returned", r is out)
    ctx.prove("segments kept", o.attrs["filter_segment_results"].l == [s for _, s in segs])


@contract(on=[APPLY], soft=True)
def whole_signal_any_number(ctx):
    """The same for any number of segments."""
    n = ctx.length("n", 2)
    t = ctx.arr("t", n)
    opts = {k: ctx.real(k) for k in ("padding_length", "taper_width", "f_spin_lo_frac", "f_spin_hi_frac", "fecc_lo_frac", "fecc_hi_frac")}
    alpha, K = ctx.real("alpha"), ctx.int("K", 0)
    I, R = z3.IntSort(), z3.RealSort()
    centre, period, segment = (z3.Function(ctx.fresh_name(q), a, R) for q, a in (("centre", I), ("period", R), ("segment", R)))
    ctx.assume(centre(0) == t.at(0))
    end, comb = t.at(isub(n, 1)), []
    out = ctx.arr("combined", n)
    o = ctx.obj(F, partial=True)

    def fseg(c, a, kw):
        kw = {**dict(zip(["t_mid"] + list(opts), a[1:])), **kw}
        c.prove("same options for every segment", all(kw[q] is opts[q] for q in opts))
        return segment(to_z3(kw["t_mid"]))
    ctx.summaries[FSEG] = fseg
    ctx.summaries[COMB] = lambda c, a, kw: comb.append(a[1]) or out
    o.attrs.update(t=t, debug_level=0, debug_plots=False, delta_T_interp=Ext("delta_T", lambda c, a, kw: period(to_z3(a[0]))))

    def inv(c, L):
        r, at = L["results"], to_z3(L["t_s"])
        m = len(r.l) if isinstance(r, PyList) else to_z3(r.n)
        m = z3.IntVal(m) if isinstance(m, int) else m
        # definition of the centres, for the step at hand
        c.assume(centre(m) == centre(m - 1) + alpha * period(centre(m - 1))) if not isinstance(r, PyList) and c.branch(m > 0) else None
        g = [("at the next centre", at == centre(m))]
        if not isinstance(r, PyList) and c.branch(K < m):
            g += [("segments in order", to_z3(r.at(K)) == segment(centre(K))), ("centres before the end", centre(K) < end)]
        return g
    ctx.loops[(APPLY, 0)] = LoopSpec(inv, havoc={"results": lambda c: LazyList(c, c.int("done", 0), lambda k: z3.Function("done", I, R)(to_z3(k)))}, name="segments")
    r = ctx.no_raise("call", APPLY, o, opts["padding_length"], opts["taper_width"], alpha, *[opts[q] for q in list(opts)[2:]])
    if len(comb) != 1 or not isinstance(comb[0], LazyList):
        raise Unsupported("segments not one list")
    l = comb[0]
    if ctx.branch(K < to_z3(l.n)):
        ctx.prove("segment K centred at its time", to_z3(l.at(K)) == segment(centre(K)))
        ctx.prove("centred before the end", centre(K) < end)
    ctx.prove("until the end is reached", centre(to_z3(l.n)) >= end)
    ctx.prove("combined signal returned", r is out)
    ctx.prove("segments kept", o.attrs["filter_segment_results"] is l)


@contract(on=[ALL, f"{F}.__init__"], paths=1000)
def decision(ctx):
    """Not required or switched off: amplitude, frequency and phase are exactly the symmetric combinations of the coprecessing modes. Applied: the filtered data, with the phase the running sum of the filtered frequency times the time step; originals are kept alongside and the data passed in are not modified."""
    n = ctx.length("n", 2)
    tag = ["", "_zeroecc"][ctx.choose(2)]
    t = ctx.arr("t", n)
    m = {}
    dd = {"t": t}
    for q in ("amp", "omega", "phase"):
        m[q] = {lm: ctx.arr(f"{q}{lm[1]}", n) for lm in ((2, 2), (2, -2))}
        dd[f"{q}lm{tag}"] = ctx.dict(dict(m[q]))
    dd = ctx.dict(dd)
    need = {q: bool(ctx.choose(2)) for q in ("amp", "omega")}
    off = bool(ctx.choose(2))
    est = [None, "amp", "omega"][ctx.choose(3)]
    thr, tm = ctx.real("threshold"), ctx.real("t_merger")
    filt = {}
    cur = []

    def same(x, y):
        k = ctx.int("k", 0)
        return ctx.entailed(z3.Implies(to_z3(num_cmp("<", k, n)), x.at(k) == y.at(k)))

    def req(c, a, k):
        names = ("t", "data_copr_22", "data_copr_2m2", "t_merger", "data_type", "threshold")
        k = {**dict(zip(names, a)), **k}
        q = k["data_type"]
        c.prove("decision on the two modes of the type asked for", same(k["data_copr_22"], m[q][2, 2]) and same(k["data_copr_2m2"], m[q][2, -2]) and k["threshold"] is thr and k["t_merger"] is tm)
        cur.append(q)
        return need[["amp", "omega"][len(cur) - 1]]
    ctx.summaries[REQ] = req
    ctx.summaries[CROSS] = lambda c, a, k: (c.arr("tc", c.length("nc", 2)), c.arr("tmid", c.length("nm", 2)), c.arr("dT", c.length("nd", 2)))
    ctx.summaries[S + "_build_delta_T_interpolant"] = lambda c, a, k: Ext("delta_T", lambda *x: c.real("dT"))
    opts = {k: ctx.real(k) for k in ("padding_length", "taper_width", "alpha", "f_spin_lo_frac", "f_spin_hi_frac", "fecc_lo_frac", "fecc_hi_frac")}

    def app(c, a, k):
        k = {**dict(zip(opts, a[1:])), **k}
        c.prove("options passed on", all(k[q] is opts[q] for q in opts))
        q = a[0].attrs["data_type"]
        j = c.int("j", 0)
        c.assume(num_cmp("<", j, n))
        x, y = m[q][2, 2].at(j), m[q][2, -2].at(j)
        c.prove("the symmetric combination is filtered", to_z3(a[0].attrs["data"].at(j)) * 2 == (x + y if q == "amp" else x - y))
        filt[q] = c.arr("filtered_" + q, n)
        a[0].attrs["filter_segment_results"] = c.list([q])
        return filt[q]
    ctx.summaries[APPLY] = app
    kw = ctx.dict(dict(opts, segment_size=ctx.real("segment_size"), data_type_for_filter_requirement_check=est, data_type_for_fspin_estimate=est, debug_plots=False,
                       filter_threshold=thr, debug_level=0, do_not_filter=off))
    for q in [t] + [m[q][lm] for q in m for lm in m[q]]:
        ctx.watch(q)
    r = ctx.no_raise("call", ALL, dd, tag, tm, kw)
    ctx.frame("data passed in not modified", dd, t, *[m[q][lm] for q in m for lm in m[q]], kw)
    ctx.prove("one decision per type", cur == [est or "amp", est or "omega"])
    j = ctx.int("i", 0)
    ctx.assume(num_cmp("<", j, n))
    for q in ("amp", "omega"):
        b = f"{q}_gw{tag}"
        x, y = m[q][2, 2].at(j), m[q][2, -2].at(j)
        sym = x + y if q == "amp" else x - y
        ctx.prove(f"{q}: original kept", to_z3(r.d[b + "_original"].at(j)) * 2 == sym)
        ctx.prove(f"{q}: length", num_cmp("==", r.d[b].n, n))
        if need[q] and not off:
            ctx.prove(f"{q}: filtered data used", z3.And(to_z3(r.d[b].at(j)) == filt[q].at(j), to_z3(r.d[b + "_filtered"].at(j)) == filt[q].at(j)))
        else:
            ctx.prove(f"{q}: not filtered", q not in filt and r.d[b + "_filtered"] is None)
            ctx.prove(f"{q}: exactly the symmetric combination", to_z3(r.d[b].at(j)) * 2 == sym)
    ph = r.d[f"phase_gw{tag}"]
    sym = m["phase"][2, 2].at(j) - m["phase"][2, -2].at(j)
    ctx.prove("phase: original kept", to_z3(r.d[f"phase_gw{tag}_original"].at(j)) * 2 == sym)
    ctx.prove("phase: length", num_cmp("==", ph.n, n))
    if need["omega"] and not off:
        dt = t.at(1) - t.at(0)
        ctx.prove("phase: starts with the first step", to_z3(ph.at(0)) == filt["omega"].at(0) * dt)
        ctx.assume(j >= 1)
        ctx.instantiate(j)
        ctx.prove("phase: running sum of the filtered frequency", to_z3(ph.at(j)) == to_z3(ph.at(j - 1)) + filt["omega"].at(j) * dt)
        ctx.prove("phase: filtered phase kept", to_z3(r.d[f"phase_gw{tag}_filtered"].at(j)) == to_z3(ph.at(j)))
    else:
        ctx.prove("phase: exactly the symmetric combination", to_z3(ph.at(j)) * 2 == sym)
        ctx.prove("phase: no filtered phase", r.d[f"phase_gw{tag}_filtered"] is None)


@contract(on=[REQ, f"{F}.__init__"])
def unknown_types(ctx):
    """An unknown data type or tag raises."""
    n = ctx.length("n", 2)
    t = ctx.arr("t", n)
    w = ctx.choose(5)
    if w == 0:
        expect_raise(ctx, "data type", ctx.outcome(REQ, t, ctx.arr("a", n), ctx.arr("b", n), 0, "phase"))
        return
    dd = ctx.dict({"t": t, **{f"{q}lm": ctx.dict({(2, 2): ctx.arr("x", n), (2, -2): ctx.arr("y", n)}) for q in ("amp", "omega", "phase")}})
    ctx.summaries[REQ] = lambda c, a, k: False
    a = dict(data_dict=dd, data_type="amp", segment_size=1, filter_threshold=1, data_type_for_fspin_estimate=None, data_type_for_filter_requirement_check=None,
             debug_plots=False, debug_level=0, data_tag="", t_merger=0)
    a[("data_type", "data_tag", "data_type_for_fspin_estimate", "data_type_for_filter_requirement_check")[w - 1]] = "phase"
    expect_raise(ctx, "type or tag", ctx.outcome(F, **a))
