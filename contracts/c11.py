"""C11 amplitude, phase and frequency conventions."""
from .common import *
from . import contract
from pyvc.npmodel import CV

GAP = ED + ".get_amp_phase_omega_data"
GM = ED + ".get_amp_phase_omega_gw"
MODES = [(2, 2), (2, -2), (3, 3)]


def modes_dict(ctx, name, modes, n, kind):
    return ctx.dict({m: ctx.arr(f"{name}{m[0]}{m[1]}", n, kind) for m in modes}, name=name)


def trig(ctx, a):
    return to_z3(f_trig("cos")(ctx, a)), to_z3(f_trig("sin")(ctx, a))


def reproduces(ctx, nm, A, ph, h, n):
    """A >= 0 and A exp(-i ph) = h at every sample."""
    ctx.prove(nm + ": lengths", z3.And(to_z3(num_cmp("==", A.n, n)), to_z3(num_cmp("==", ph.n, n))))
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))
    v = h.at(i)
    re, im = to_z3(v.re), to_z3(v.im)
    a, p = ctx.real("a"), ctx.real("p")
    ctx.assume(z3.And(a == A.at(i), p == ph.at(i)))
    ctx.prove(nm + ": the amplitude is |h|", z3.And(A.at(i) >= 0, A.at(i) * A.at(i) == re * re + im * im))
    c, s = trig(ctx, ph.at(i))
    ctx.axiom("cos is even, sin is odd", True)
    cm, sm = trig(ctx, -ph.at(i))
    ctx.assume(z3.And(cm == c, sm == -s))
    facts = [cm == c, sm == -s, A.at(i) >= 0, A.at(i) * A.at(i) == re * re + im * im]
    for f, g, kf in getattr(ctx, "unwraps", []):
        u, b = to_z3(f(i)), to_z3(g(i))
        cu, su = trig(ctx, u)
        cb, sb = trig(ctx, b)
        ctx.axiom("cos and sin have period 2 pi; np.unwrap(a)[i] - a[i] is a multiple of 2 pi", z3.And(cu == cb, su == sb))
        ctx.axiom("cos is even, sin is odd", True)
        for x, cx, sx in ((u, cu, su), (b, cb, sb)):
            c_, s_ = trig(ctx, -x)
            ctx.assume(z3.And(c_ == cx, s_ == -sx))
            facts += [c_ == cx, s_ == -sx]
        facts += [cu == cb, su == sb]
    ctx.prove(nm + ": A cos(phase) = Re h", A.at(i) * c == re)
    ctx.prove(nm + ": -A sin(phase) = Im h", -A.at(i) * s == im)


@contract(on=[GAP, ED + ".get_amplm_from_dataDict", ED + ".get_phaselm_from_dataDict", ED + ".get_omegalm_from_phaselm"], paths=800, timeout=6000)
def data_forms(ctx):
    """From complex modes: amplitude |h| and a phase with A exp(-i phase) = h, for exactly the modes given; given amplitude and phase are used as they are; frequencies are those given, or the derivative (contract C09) of that mode's phase with the sampling step; quasicircular data likewise and only if given."""
    n, nz = ctx.length("n", 5), ctx.length("nz", 5)
    modes = MODES[:1 + ctx.choose(2)]
    kind = ["hlm", "amp", "ampomega"][ctx.choose(3)]
    kz = ["none", "hlm", "amp", "ampomega"][ctx.choose(4)]
    d = {}
    for suf, kd, N, ms in (("", kind, n, modes), ("_zeroecc", kz, nz, [(2, 2)])):
        if kd == "none":
            continue
        d["t" + suf] = ctx.arr("t" + suf, N)
        if kd == "hlm":
            d["hlm" + suf] = modes_dict(ctx, "h" + suf, ms, N, "cplx")
        else:
            d["amplm" + suf] = modes_dict(ctx, "A" + suf, ms, N, "real")
            d["phaselm" + suf] = modes_dict(ctx, "P" + suf, ms, N, "real")
            if kd == "ampomega":
                d["omegalm" + suf] = modes_dict(ctx, "W" + suf, ms, N, "real")
    made = []

    def deriv(c, a, k):
        w = c.arr("dphase", a[0].n)
        made.append((a[0], a[1], w))
        return w
    ctx.summaries[UT + "time_deriv_4thOrder"] = deriv
    D = ctx.dict(d, name="data")
    ctx.watch(D)
    o = ctx.obj(ED, precessing=False, debug_level=0)
    r = ctx.no_raise("call", GAP, o, D)
    for suf, kd, N, ms in (("", kind, n, modes), ("_zeroecc", kz, nz, [(2, 2)])):
        keys = [q + suf for q in ("amplm", "phaselm", "omegalm")]
        if kd == "none":
            ctx.prove("no quasicircular data is made up", not any(q in r.d for q in keys))
            continue
        ctx.prove("amplitude, phase and frequency of this waveform" + suf, all(q in r.d and isinstance(r.d[q], PyDict) and set(r.d[q].d) == set(ms) for q in keys))
        for m in ms:
            A, P, W = [r.d[q].d[m] for q in keys]
            if kd == "hlm":
                reproduces(ctx, f"mode {m}{suf}", A, P, d["hlm" + suf].d[m], N)
            else:
                same_array(ctx, f"amplitude {m}{suf} as given", A, d["amplm" + suf].d[m], N)
                same_array(ctx, f"phase {m}{suf} as given", P, d["phaselm" + suf].d[m], N)
            if kd == "ampomega":
                same_array(ctx, f"frequency {m}{suf} as given", W, d["omegalm" + suf].d[m], N)
            else:
                src = [x for x in made if x[2] is W]
                ctx.prove(f"frequency {m}{suf} is a derivative", len(src) == 1)
                same_array(ctx, f"frequency {m}{suf} is that of its own phase", src[0][0], P, N)
                t = d["t" + suf]
                ctx.prove(f"frequency {m}{suf}: sampling step of its own times", to_z3(src[0][1]) == t.at(1) - t.at(0))
    ctx.frame("data not modified", D)


@contract(on=[GM])
def mode_combination(ctx):
    """Non-precessing: the (2,2) mode itself. Precessing: (A22+A2-2)/2, (phi22-phi2-2)/2, (omega22-omega2-2)/2, raising without the (2,-2) mode; for symmetric modes these are the (2,2) values. Quasicircular data alike."""
    n = ctx.length("n", 1)
    tag = ["", "_zeroecc"][ctx.choose(2)]
    prec = ctx.choose(2) == 1
    have = ctx.choose(3)
    missing = [None, "amplm", "phaselm"][have] if prec else None
    modes = [(2, 2), (2, -2), (3, 3)]
    d = {k + tag: modes_dict(ctx, k, [m for m in modes if not (m == (2, -2) and k == missing)], n, "real") for k in ("amplm", "phaselm", "omegalm")}
    if tag:      # the other waveform's data must not be used
        for k in ("amplm", "phaselm", "omegalm"):
            d[k] = modes_dict(ctx, "other" + k, modes, n, "real")
    D = ctx.dict(d, name="data")
    ctx.watch(D)
    o = ctx.obj(ED, precessing=prec, frame="coprecessing", debug_level=0)
    out = ctx.outcome(GM, o, D, *([tag] if tag else []))
    ctx.frame("data not modified", D)
    if missing:
        expect_raise(ctx, "the (2,-2) mode is required", out)
        return
    A, P, W = expect_return(ctx, "returns", out)
    g = lambda k, m: d[k + tag].d[m]
    if not prec:
        for nm, x, k in (("amplitude", A, "amplm"), ("phase", P, "phaselm"), ("frequency", W, "omegalm")):
            same_array(ctx, nm, x, g(k, (2, 2)), n)
        return
    same_array(ctx, "amplitude", A, lambda i: (g("amplm", (2, 2)).at(i) + g("amplm", (2, -2)).at(i)) / 2, n)
    same_array(ctx, "phase", P, lambda i: (g("phaselm", (2, 2)).at(i) - g("phaselm", (2, -2)).at(i)) / 2, n)
    same_array(ctx, "frequency", W, lambda i: (g("omegalm", (2, 2)).at(i) - g("omegalm", (2, -2)).at(i)) / 2, n)
    sym = lambda i: z3.And(g("amplm", (2, 2)).at(i) == g("amplm", (2, -2)).at(i), g("phaselm", (2, 2)).at(i) == -g("phaselm", (2, -2)).at(i),
                           g("omegalm", (2, 2)).at(i) == -g("omegalm", (2, -2)).at(i))
    ctx.prove_all("symmetric modes give the (2,2) values", n, lambda i: z3.Implies(sym(i), z3.And(
        A.at(i) == g("amplm", (2, 2)).at(i), P.at(i) == g("phaselm", (2, 2)).at(i), W.at(i) == g("omegalm", (2, 2)).at(i))))


@contract(on=[ED + ".get_hlm_from_amplm_phaselm"])
def amplitude_phase_to_strain(ctx):
    """h = A exp(-i phase) for every mode, of the eccentric and (if present) the quasicircular waveform."""
    n = ctx.length("n", 1)
    z = ctx.choose(2)
    a, p = {}, {}
    for suf, ms in (("", MODES), ("_zeroecc", MODES[:2]))[:1 + z]:
        a["amplm" + suf], p["phaselm" + suf] = modes_dict(ctx, "A" + suf, ms, n, "real"), modes_dict(ctx, "P" + suf, ms, n, "real")
    o = ctx.obj(ED, debug_level=0)
    r = ctx.no_raise("call", ED + ".get_hlm_from_amplm_phaselm", o, ctx.dict(a), ctx.dict(p))
    ctx.prove("waveforms", set(r.d) == {"hlm" + s for s in ("", "_zeroecc")[:1 + z]})
    for suf in ("", "_zeroecc")[:1 + z]:
        ctx.prove("modes" + suf, set(r.d["hlm" + suf].d) == set(a["amplm" + suf].d))
        for m, h in r.d["hlm" + suf].d.items():
            A, P = a["amplm" + suf].d[m], p["phaselm" + suf].d[m]
            ctx.prove(f"length {m}{suf}", num_cmp("==", h.n, n))
            i = ctx.int("i", 0)
            ctx.assume(num_cmp("<", i, n))
            v = h.at(i)
            c, s = trig(ctx, P.at(i))
            cm, sm = trig(ctx, -P.at(i))
            ctx.axiom("cos is even, sin is odd", z3.And(cm == c, sm == -s))
            ctx.prove(f"real part {m}{suf}", to_z3(v.re) == A.at(i) * c)
            ctx.prove(f"imaginary part {m}{suf}", to_z3(v.im) == -A.at(i) * s)
