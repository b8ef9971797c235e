"""C25 loading helpers preserve modes, convert units and cut junk consistently."""
from .common import *
from . import contract
from pyvc.npmodel import CV, StructVal, CONSTS, MODELS, Host, mk
from pyvc.interp import Ext

LD = "load_data:"
PKG, UNP, JUNK, SUB, LOAD = (LD + x for x in ("package_modes_for_scri", "unpack_scri_modes", "reomve_junk_from_nr_data", "make_a_sub_dict", "load_waveform"))
NOTE = "packing and unpacking proved for data of any length with 2 <= ell <= 5 (every range of ell in it); the rotation itself (scri, assumed contract of WaveformModes), lal and the waveform generators are external"


def K(name):
    return to_z3(CONSTS["lal." + name])


@contract(on=[LD + "time_dimless_to_mks", LD + "amplitude_dimless_to_mks"])
def units(ctx):
    """time: M * G Msun / c^3; strain: G M Msun / (c^2 D Mpc)."""
    M, D = ctx.real("M"), ctx.real("D")
    ctx.assume(z3.And(M > 0, D > 0))
    t = scalar(ctx.no_raise("time", LD + "time_dimless_to_mks", M))
    tc3, gm = t * K("C_SI") * K("C_SI") * K("C_SI"), M * K("G_SI") * K("MSUN_SI")
    ctx.prove("time unit M G Msun / c^3 (12 digits)", z3.And(tc3 <= gm * (1 + Fraction(1, 10 ** 12)), tc3 >= gm * (1 - Fraction(1, 10 ** 12))))
    a = scalar(ctx.no_raise("amplitude", LD + "amplitude_dimless_to_mks", M, D))
    x = ctx.real("M_over_D")
    ctx.assume(x * D == M)
    e = x * (K("G_SI") * K("MSUN_SI") / (K("C_SI") * K("C_SI") * 1000000 * K("PC_SI")))
    ctx.prove("strain unit (12 digits)", z3.And(a <= e * (1 + Fraction(1, 10 ** 12)), a >= e * (1 - Fraction(1, 10 ** 12))))


def mode_data(ctx, lo, hi, n):
    return {(l, m): ctx.arr(f"h{l}_{m}", n, "cplx") for l in range(lo, hi + 1) for m in range(-l, l + 1)}


def ell_range(ctx, top=5):
    lo = 2 + ctx.choose(top - 1)
    return lo, lo + ctx.choose(top - lo + 1)


@contract(on=[PKG], paths=3000, budget=200, bounded="ell ranges within 2..5")
def packing(ctx):
    """Columns are the modes by increasing ell then increasing m, each mode's samples unchanged, one column per mode; the dictionary may be in any order and hold further modes; it is not modified."""
    n = ctx.length("n", 1)
    lo, hi = ell_range(ctx)
    md = mode_data(ctx, lo, hi, n)
    md.setdefault((2, 2), ctx.arr("h22", n, "cplx"))
    keys = list(md)
    order = [keys, keys[::-1], keys[1::2] + keys[::2]][ctx.choose(3)]
    d = ctx.dict({k: md[k] for k in order}, name="modes")
    r = ctx.no_raise("call", PKG, d, lo, hi)
    exp = [(l, m) for l in range(lo, hi + 1) for m in range(-l, l + 1)]
    ctx.prove("one row per sample", num_cmp("==", r.shape[0], n))
    ctx.prove("one column per mode", num_cmp("==", r.shape[1], len(exp)))
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))
    ok = []
    for c, k in enumerate(exp):
        v, w = CV.lift(r.at(i, c)), CV.lift(md[k].at(i))
        ok += [to_z3(v.re) == to_z3(w.re), to_z3(v.im) == to_z3(w.im)]
    ctx.prove("every column is its mode", z3.And(*ok))
    ctx.prove("dictionary not modified", set(d.d) == set(md) and all(d.d[k] is md[k] for k in md))


@contract(on=[PKG], paths=3000, bounded="ell ranges within 2..4")
def missing_mode_refused(ctx):
    """Any missing mode of the range makes packing fail."""
    n = ctx.length("n", 1)
    lo, hi = ell_range(ctx, 4)
    md = mode_data(ctx, lo, hi, n)
    keys = list(md)
    gone = keys[ctx.choose(len(keys))]
    del md[gone]
    if gone != (2, 2):
        md.setdefault((2, 2), ctx.arr("h22", n, "cplx"))
    expect_raise(ctx, "missing mode", ctx.outcome(PKG, ctx.dict(md), lo, hi))


@contract(on=[UNP, PKG], paths=200, bounded="ell ranges within 2..4")
def unpacking(ctx):
    """Unpacking what was packed returns exactly the same modes, each under its own (ell, m)."""
    n = ctx.length("n", 1)
    lo, hi = ell_range(ctx, 4)
    md = mode_data(ctx, lo, hi, n)
    if lo > 2:
        md[(2, 2)] = ctx.arr("h22", n, "cplx")
    data = ctx.no_raise("pack", PKG, ctx.dict(dict(md)), lo, hi)
    LM = [(l, m) for l in range(lo, hi + 1) for m in range(-l, l + 1)]
    # contract of scri.WaveformModes: LM lists the modes by ell then m, index(ell, m) is the column
    w = StructVal("WaveformModes", {"LM": PyList([PyList([l, m]) if ctx.opts.get("x") else (l, m) for l, m in LM]), "data": data,
                                    "index": Ext("WaveformModes.index", lambda c, a, k: LM.index((a[0], a[1])))})
    r = ctx.no_raise("unpack", UNP, w)
    ctx.prove("exactly the modes", isinstance(r, PyDict) and set(r.d) == set(LM))
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))
    ok = []
    for k in LM:
        v, u = CV.lift(r.d[k].at(i)), CV.lift(md[k].at(i))
        ok += [to_z3(v.re) == to_z3(u.re), to_z3(v.im) == to_z3(u.im), to_z3(num_cmp("==", r.d[k].n, n))]
    ctx.prove("every mode is unchanged", z3.And(*ok))


def pick(cols, i, x):
    if isinstance(x, int):
        return cols[x].at(i)
    re, im = (lambda q: q.re), (lambda q: q.im)
    out = [to_z3(f(CV.lift(cols[-1].at(i)))) for f in (re, im)]
    for k in range(len(cols) - 2, -1, -1):
        out = [z3.If(to_z3(x) == k, to_z3(f(CV.lift(cols[k].at(i)))), o) for f, o in zip((re, im), out)]
    return CV(*out)


class Modes(Host):
    """contract of scri.WaveformModes: holds the given times and modes, LM lists the modes by ell then m, index(ell, m) is the column;
    to_coprecessing_frame replaces the modes of the object by other ones of the same shape and returns the object."""
    name = "WaveformModes"

    def __init__(self, ctx, t, data, lo, hi, rest, made=None):
        self.ctx, self.t, self.data, self.lo, self.hi, self.rest, self.rotated, self.made = ctx, t, data, lo, hi, rest, False, made if made is not None else []
        self.lm = [(l, m) for l in range(lo, hi + 1) for m in range(-l, l + 1)]
        self.attrs = {}
        self.made.append(self)

    def deepcopied(self, cp):
        r = Modes(self.ctx, cp(self.t), cp(self.data), self.lo, self.hi, self.rest, self.made)
        r.rotated = self.rotated
        return r

    def p_LM(self):
        return PyList(list(self.lm))

    def p_data(self):
        return self.data

    def p_t(self):
        return self.t

    def p_ell_min(self):
        return self.lo

    def p_ell_max(self):
        return self.hi

    def m_index(self, c, l, m):
        return self.lm.index((l, m))

    def m_to_coprecessing_frame(self, c, *a, **k):
        self.before, self.rotated = self.data, True
        cols = [c.arr(f"copr{l}_{m}", self.data.shape[0], "cplx") for l, m in self.lm]
        self.data = mk(c, (self.data.shape[0], len(cols)), lambda i, x: pick(cols, i, x), "cplx")
        c.rotations.append(self)
        return self


CONSTS["scri.h"] = "h"
CONSTS["scri.Inertial"] = "Inertial"
CONSTS["scri.Coprecessing"] = "Coprecessing"
MODELS["scri.WaveformModes"] = Ext("scri.WaveformModes", lambda c, a, k: Modes(c, k["t"], k["data"], k["ell_min"], k["ell_max"], {q: v for q, v in k.items() if q not in ("t", "data")}))


@contract(on=[LD + "get_coprecessing_data_dict", PKG, UNP], paths=400, bounded="ell ranges within 2..3")
def coprecessing(ctx):
    """Only the modes of the chosen waveform are replaced, by the rotated ones of that waveform's own modes and times; the dictionary given is not modified."""
    n, nz = ctx.length("n", 1), ctx.length("nz", 1)
    lo, hi = ell_range(ctx, 3)
    ctx.rotations = []
    md, mz = mode_data(ctx, 2, hi, n), {k: ctx.arr(f"z{k[0]}{k[1]}", nz, "cplx") for k in mode_data(ctx, 2, hi, nz)}
    z = ctx.choose(3)
    items = dict(t=ctx.arr("t", n), hlm=ctx.dict(dict(md)))
    if z:
        items.update(t_zeroecc=ctx.arr("tz", nz), hlm_zeroecc=ctx.dict(dict(mz)))
    d = ctx.dict(dict(items))
    for v in [items[k] for k in items if k.startswith("t")] + list(md.values()) + list(mz.values()):
        ctx.watch(v)
    tag = "_zeroecc" if z == 2 else ""
    kw = dict(ell_min=lo, ell_max=hi)
    if tag or ctx.choose(2):
        kw["tag"] = tag
    r = ctx.no_raise("call", LD + "get_coprecessing_data_dict", d, **kw)
    own, t = (mz, items["t_zeroecc"]) if tag else (md, items["t"])
    ctx.prove("dictionary not modified", set(d.d) == set(items) and all(d.d[k] is v for k, v in items.items())
              and all(items["hlm" + q].d == m for q, m in [("", md)] + ([("_zeroecc", mz)] if z else [])))
    ctx.frame("arrays not modified", *[items[k] for k in items if k.startswith("t")], *md.values(), *mz.values())
    ctx.prove("a dictionary of its own", r is not d and set(r.d) == set(items))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    ctx.assume(z3.And(to_z3(num_cmp("<", i, n)), to_z3(num_cmp("<", j, nz))))
    k_ = j if tag else i
    for q, m, ix in [("", md, i)] + ([("_zeroecc", mz, j)] if z else []):
        ctx.prove(f"times{q} kept", z3.And(to_z3(num_cmp("==", r.d["t" + q].n, items["t" + q].n)), r.d["t" + q].at(ix) == items["t" + q].at(ix)))
        if q == tag:
            continue
        got = r.d["hlm" + q]
        ctx.prove(f"modes{q} of the other waveform: the same", set(got.d) == set(m))
        same(ctx, f"modes{q} of the other waveform unchanged", [(got.d[k], m[k]) for k in m], ix)
    ctx.prove("one rotation", len(ctx.rotations) == 1)
    w = ctx.rotations[0]
    ctx.prove("told it is an inertial strain", w.rest.get("frameType") == "Inertial" and w.rest.get("dataType") == "h")
    ctx.prove("of the waveform's times", z3.And(to_z3(num_cmp("==", w.t.n, t.n)), w.t.at(k_) == t.at(k_)))
    ctx.prove("of the modes asked for", (w.lo, w.hi) == (lo, hi) and set(w.lm) == {k for k in own if lo <= k[0] <= hi})
    c = [(CV.lift(w.before.at(k_, x)), CV.lift(own[k].at(k_))) for x, k in enumerate(w.lm)]
    ctx.prove("of the waveform's own modes", z3.And(*[z3.And(to_z3(a.re) == to_z3(b.re), to_z3(a.im) == to_z3(b.im)) for a, b in c]))
    got = r.d["hlm" + tag]
    ctx.prove("exactly the rotated modes", set(got.d) == set(w.lm))
    c = [(CV.lift(got.d[k].at(k_)), CV.lift(w.data.at(k_, x))) for x, k in enumerate(w.lm)]
    ctx.prove("each rotated mode under its own (ell, m)", z3.And(*[z3.And(to_z3(a.re) == to_z3(b.re), to_z3(a.im) == to_z3(b.im)) for a, b in c]))


def same(ctx, what, pairs, i):
    ok = []
    for a, b in pairs:
        ok.append(to_z3(num_cmp("==", a.n, b.n)))
        v, u = CV.lift(a.at(i)), CV.lift(b.at(i))
        ok += [to_z3(v.re) == to_z3(u.re), to_z3(v.im) == to_z3(u.im)]
    ctx.prove(what, z3.And(*ok))


@contract(on=[JUNK], budget=150)
def junk(ctx):
    """Times and all modes are cut at the same sample, one whose (2,2) phase is closest to 4 pi N above the initial phase; the arguments are not modified."""
    n = ctx.length("n", 1)
    t = ctx.arr("t", n)
    modes = [(2, 2), (3, 3), (2, 1)][: 1 + ctx.choose(3)]
    md = {k: ctx.arr(f"h{k[0]}{k[1]}", n, "cplx") for k in (modes if ctx.choose(2) else modes[::-1])}
    N = ctx.real("num_orbits")
    d = ctx.dict(dict(md))
    for a in list(md.values()) + [t]:
        ctx.watch(a)
    t2, m2 = ctx.no_raise("call", JUNK, t, d, N)
    ctx.frame("arguments not modified", t, *md.values())
    ctx.prove("dictionary not modified", set(d.d) == set(md) and all(d.d[k] is md[k] for k in md))
    ctx.prove("same modes", set(m2.d) == set(md))
    cut = isub(n, t2.n)
    ctx.prove("a sample of the data", z3.And(to_z3(num_cmp(">=", cut, 0)), to_z3(num_cmp("<", cut, n))))
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, t2.n))
    ctx.prove("times from the cut on", t2.at(i) == t.at(iadd(cut, i)))
    for k in md:
        ctx.prove(f"{k}: same length", num_cmp("==", m2.d[k].n, t2.n))
        v, u = CV.lift(m2.d[k].at(i)), CV.lift(md[k].at(iadd(cut, i)))
        ctx.prove(f"{k}: samples from the cut on", z3.And(to_z3(v.re) == to_z3(u.re), to_z3(v.im) == to_z3(u.im)))
    un = getattr(ctx, "unwraps", [])
    ctx.prove("phase of the (2,2) mode", len(un) == 1)
    f, g, kf = un[0]
    # the unwrapped argument of h22; the phase is minus it (contract C11)
    h = CV.lift(md[(2, 2)].at(i))
    from pyvc.npmodel import MODELS
    ang = MODELS["numpy.angle"].fn(ctx, [md[(2, 2)]], {})
    ctx.prove("of its argument", g(i) == ang.at(i))
    ph = lambda j: -to_z3(f(j))
    dist = lambda j: absz(ph(j) - ph(0) - 4 * to_z3(PI) * N)
    j = ctx.int("j", 0)
    ctx.assume(num_cmp("<", j, n))
    ctx.instantiate(j, cut)
    ctx.prove("closest to 4 pi N above the initial phase", dist(cut) <= dist(j))


def absz(x):
    return z3.If(x >= 0, x, -x)


NAMES = ["a", "b", "c", "d"]


@contract(on=[SUB], paths=2000, bounded="dictionaries over four names")
def sub_dictionary(ctx):
    """Exactly the requested keys with their values (the same objects); a key that does not exist raises; the dictionary is not modified."""
    have = [k for k in NAMES if ctx.choose(2)]
    want = [k for k in NAMES if ctx.choose(2)]
    if ctx.choose(2):
        want = want[::-1]
    vals = {k: ctx.real(k) for k in have}
    d = ctx.dict(dict(vals))
    out = ctx.outcome(SUB, d, ctx.list(list(want)))
    if set(want) - set(have):
        expect_raise(ctx, "unknown key raises", out)
        return
    r = expect_return(ctx, "known keys", out)
    ctx.prove("exactly the requested keys", set(r.d) == set(want))
    ctx.prove("their values", all(r.d[k] is vals[k] for k in want))
    ctx.prove("not modified", set(d.d) == set(have))


ORIGINS = ["LAL", "SXSCatalog", "SXSCatalog_old", "LVCNR", "LVCNR_hack", "EOB", "EMRI"]
LOADERS = {"LAL": "load_LAL_waveform", "SXSCatalog": "load_sxs_catalogformat", "SXSCatalog_old": "load_sxs_catalogformat_old", "LVCNR": "load_lvcnr_waveform",
           "LVCNR_hack": "load_lvcnr_hack", "EOB": "load_EOB_waveform", "EMRI": "load_EMRI_waveform"}


@contract(on=[LOAD, LD + "get_available_waveform_origins"])
def origins(ctx):
    """Each origin is dispatched to its loader with the given options; unknown origins raise."""
    called = []
    for o, f in LOADERS.items():
        ctx.summaries[LD + f] = lambda c, a, k, o=o: called.append((o, k)) or ctx.dict({})
    k = ctx.choose(len(ORIGINS) + 3)
    if k >= len(ORIGINS):
        expect_raise(ctx, "unknown origin", ctx.outcome(LOAD, ["lal", "", "SXS"][k - len(ORIGINS)], x=1))
        ctx.prove("no loader called", not called)
        return
    v = ctx.real("v")
    ctx.no_raise("call", LOAD, ORIGINS[k], x=v)
    ctx.prove("its loader, once, with the options", len(called) == 1 and called[0][0] == ORIGINS[k] and set(called[0][1]) == {"x"} and called[0][1]["x"] is v)


REQ = {"SXSCatalog_old": ["data_dir", "metadata_path", "deltaTOverM", "include_zero_ecc", "include_params_dict", "zero_ecc_approximant", "num_orbits_to_remove_as_junk", "mode_array", "extrap_order"],
       "LVCNR": ["filepath", "deltaTOverM", "Momega0", "include_zero_ecc", "include_params_dict", "zero_ecc_approximant", "num_orbits_to_remove_as_junk"],
       "LVCNR_hack": ["filepath", "deltaTOverM", "include_zero_ecc", "include_params_dict", "zero_ecc_approximant", "num_orbits_to_remove_as_junk"]}
REQ["SXSCatalog"] = REQ["SXSCatalog_old"] + ["keep_memory"]


@contract(on=[LD + "get_load_waveform_defaults", SUB, LD + "get_defaults_for_nr"])
def origin_defaults(ctx):
    """Numerical-relativity origins offer exactly their options; every call gives a fresh dictionary; unknown origins raise."""
    q = LD + "get_load_waveform_defaults"
    k = ctx.choose(len(ORIGINS) + 1)
    if k == len(ORIGINS):
        expect_raise(ctx, "unknown origin", ctx.outcome(q, "nope"))
        return
    o = ORIGINS[k]
    a, b = ctx.no_raise("call", q, o), ctx.no_raise("again", q, o)
    ctx.prove("fresh", a is not b)
    if o in REQ:
        ctx.prove("exactly its options", set(a.d) == set(REQ[o]))


@contract(on=[LD + "load_LAL_waveform", LD + "load_EOB_waveform", LD + "load_lvcnr_hack", LD + "load_EMRI_waveform", LD + "load_lvcnr_waveform"])
def unknown_options(ctx):
    """An unknown option raises for every loader."""
    o = ["LAL", "EOB", "LVCNR_hack", "EMRI", "LVCNR"][ctx.choose(5)]
    expect_raise(ctx, "unknown option", ctx.outcome(LD + LOADERS[o], not_an_option=1))
