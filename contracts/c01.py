"""C01 eccentricity formula."""
from .common import *
from . import contract


def spec_ecc(ctx, wp, wa):
    """the documented function of the two envelopes (oracle)."""
    sp, sa = to_z3(f_sqrt(ctx, wp)), to_z3(f_sqrt(ctx, wa))
    x = (sp - sa) / (sp + sa)
    return spec_et(ctx, x), x, sp, sa


def spec_et(ctx, x):
    psi = f_arctan2(ctx, 1 - x * x, 2 * x)
    th = psi / 3
    return to_z3(f_trig("cos")(ctx, th)) - to_z3(f_sqrt(ctx, Fraction(3))) * to_z3(f_trig("sin")(ctx, th))


@contract(on=[ED + ".et_from_ew22_0pn"])
def et_formula(ctx):
    """et(x) = cos(psi/3) - sqrt(3) sin(psi/3), psi = arctan2(1-x^2, 2x), for every real x."""
    x = ctx.real("ew22")
    o = ctx.obj(ED)
    r = ctx.no_raise("scalar", ED + ".et_from_ew22_0pn", o, x)
    ctx.prove("formula (scalar)", num_cmp("==", scalar(r), spec_et(ctx, x)))
    n = ctx.length("n", 1)
    a = ctx.arr("ew", n)
    r = ctx.no_raise("array", ED + ".et_from_ew22_0pn", o, a)
    ctx.prove("length", num_cmp("==", r.n, n))
    ctx.prove_all("formula (array)", n, lambda i: num_cmp("==", r.at(i), spec_et(ctx, a.at(i))))


@contract(on=[ED + ".compute_eccentricity", ED + ".check_input_limits", ED + ".et_from_ew22_0pn"])
def eccentricity_pointwise(ctx):
    """Each output element is the documented function of the two envelopes at the time with the same index only; times outside the range raise, times inside do not."""
    n = ctx.length("n", 1)
    t = ctx.arr("t", n)
    tmin, tmax = ctx.real("tmin"), ctx.real("tmax")
    wp, wa = (lambda v: ctx.ufun("omega_peri", v)), (lambda v: ctx.ufun("omega_apo", v))
    dom = ["time", "frequency"][ctx.choose(2)]
    from pyvc.npmodel import unary

    def interp_of(w):
        return lambda c, args, kw: unary(c, w, args[0], "real")
    o = ctx.obj(ED, tmin=tmin, tmax=tmax, domain=dom, setting_ecc_to_zero=ctx.choose(2) == 1,
                omega_gw_pericenters_interp=interp_of(wp), omega_gw_apocenters_interp=interp_of(wa))
    out = ctx.outcome(ED + ".compute_eccentricity", o, t)
    if raised(out):
        with ctx.assuming_all(n, lambda i: z3.And(t.at(i) >= tmin, t.at(i) <= tmax)):
            ctx.unreachable("raises only when some time is outside the range")
        return
    r = out[1]
    ctx.prove_all("every accepted time is in the range", n, lambda i: z3.And(t.at(i) >= tmin, t.at(i) <= tmax))
    ctx.prove("length", num_cmp("==", r.n, n))
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))
    spec, x, sp, sa = spec_ecc(ctx, wp(t.at(i)), wa(t.at(i)))
    ew = o.attrs.get("e_omega_gw")
    ctx.prove("formula", num_cmp("==", r.at(i), spec))
    if isinstance(ew, Arr):
        ctx.prove("e_omega_gw", num_cmp("==", ew.at(i), x))


def et_axioms(ctx, x):
    """trigonometric facts about psi = arctan2(1-x^2, 2x) for 0 <= x <= 1."""
    psi = f_arctan2(ctx, 1 - x * x, 2 * x)
    th = psi / 3
    c, s = to_z3(f_trig("cos")(ctx, th)), to_z3(f_trig("sin")(ctx, th))
    C = to_z3(f_trig("cos")(ctx, psi))
    r3 = to_z3(f_sqrt(ctx, Fraction(3)))
    ctx.axiom("triple angle: cos(3a) = 4 cos(a)^3 - 3 cos(a)", C == 4 * c * c * c - 3 * c)
    ctx.axiom("y >= 0 and x >= 0 imply 0 <= arctan2(y,x) <= pi/2, so a third of it is in [0, pi/6]: cos >= sqrt(3)/2, 0 <= sin <= 1/2",
              z3.Implies(z3.And(x >= 0, x <= 1), z3.And(s >= 0, 2 * s <= 1, 2 * c >= r3, c <= 1)))
    return psi, c, s, C, r3


@contract(on=[ED + ".et_from_ew22_0pn"])
def et_range(ctx):
    """For 0 <= x <= 1: 0 <= e <= 1, and e is the root of e^3 - 3e + 4x/(1+x^2) = 0; e = 0 iff x = 0."""
    x = ctx.real("x")
    ctx.assume(z3.And(x >= 0, x <= 1))
    o = ctx.obj(ED)
    r = scalar(ctx.no_raise("call", ED + ".et_from_ew22_0pn", o, x))
    psi, c, s, C, r3 = et_axioms(ctx, x)
    e = ctx.real("e")
    ctx.lemma("formula", r == c - r3 * s)
    ctx.assume(e == r)
    h = to_z3(f_sqrt(ctx, (2 * x) * (2 * x) + (1 - x * x) * (1 - x * x)))
    ctx.lemma("hypot(2x, 1-x^2) = 1 + x^2", h == 1 + x * x,
              using=[h >= 0, h * h == (2 * x) * (2 * x) + (1 - x * x) * (1 - x * x)])
    ctx.lemma("cos psi", C * (1 + x * x) == 2 * x, using=[h * C == 2 * x, h == 1 + x * x])
    base = [c * c + s * s == 1, r3 * r3 == 3, r3 >= 0, e == c - r3 * s]
    tri = C == 4 * c * c * c - 3 * c
    bnd = z3.And(s >= 0, 2 * s <= 1, 2 * c >= r3, c <= 1)
    ctx.lemma("e <= 1", e <= 1, using=base + [bnd])
    ctx.lemma("e >= 0", e >= 0, using=base + [bnd])
    ctx.lemma("e^3 - 3e + 2 cos psi = 0", e * e * e - 3 * e + 2 * C == 0, using=base + [tri])
    ctx.prove("in [0,1]", z3.And(r >= 0, r <= 1))
    rel = [C * (1 + x * x) == 2 * x, e * e * e - 3 * e + 2 * C == 0, e >= 0, e <= 1, x >= 0, x <= 1]
    ctx.prove("e = 0 only if x = 0", z3.Implies(e == 0, x == 0), using=rel)
    ctx.prove("x = 0 gives e = 0", z3.Implies(x == 0, e == 0), using=rel)
    ctx.prove("x = 1 gives e = 1", z3.Implies(x == 1, e == 1), using=rel)


@contract(on=[ED + ".et_from_ew22_0pn"])
def et_monotone(ctx):
    """et is strictly increasing on [0, 1] (from the contract et_range)."""
    x1, x2, e1, e2, C1, C2 = [ctx.real(v) for v in ("x1", "x2", "e1", "e2", "C1", "C2")]
    # et_range, used as the callee's contract at two points
    for x, e, C in ((x1, e1, C1), (x2, e2, C2)):
        ctx.assume(z3.And(x >= 0, x <= 1, e >= 0, e <= 1, C * (1 + x * x) == 2 * x, e * e * e - 3 * e + 2 * C == 0))
    ctx.assume(x1 < x2)
    ctx.lemma("cos psi increases", C1 < C2, using=[C1 * (1 + x1 * x1) == 2 * x1, C2 * (1 + x2 * x2) == 2 * x2,
                                                   x1 < x2, x1 >= 0, x2 <= 1])
    f1, f2 = 3 * e1 - e1 * e1 * e1, 3 * e2 - e2 * e2 * e2
    ctx.prove("strictly increasing", e1 < e2, using=[f1 == 2 * C1, f2 == 2 * C2, C1 < C2, e1 >= 0, e1 <= 1, e2 >= 0, e2 <= 1])


@contract(on=[ED + ".compute_eccentricity"])
def frequency_ratio(ctx):
    """x = (sqrt(wp)-sqrt(wa))/(sqrt(wp)+sqrt(wa)) is in [0,1) for wp >= wa > 0, 0 iff equal, increases with wp/wa and is invariant under rescaling both."""
    wp, wa, lam = ctx.real("wp"), ctx.real("wa"), ctx.real("lam")
    ctx.assume(z3.And(wa > 0, wp >= wa, lam > 0))
    one = ctx.arr("one", 1)
    from pyvc.npmodel import unary
    t = ctx.arr("t", 1)

    def ew(a, b):
        o = ctx.obj(ED, tmin=t.at(0), tmax=t.at(0), domain="time", setting_ecc_to_zero=False,
                    omega_gw_pericenters_interp=lambda c, args, kw: unary(c, lambda v: a, args[0], "real"),
                    omega_gw_apocenters_interp=lambda c, args, kw: unary(c, lambda v: b, args[0], "real"))
        r = ctx.no_raise("call", ED + ".compute_eccentricity", o, t)
        return o.attrs["e_omega_gw"].at(0), r.at(0)
    x, e = ew(wp, wa)
    xl, el = ew(lam * wp, lam * wa)
    sp, sa = to_z3(f_sqrt(ctx, wp)), to_z3(f_sqrt(ctx, wa))
    lp, la = to_z3(f_sqrt(ctx, lam * wp)), to_z3(f_sqrt(ctx, lam * wa))
    base = [sp >= 0, sa >= 0, sp * sp == wp, sa * sa == wa, wa > 0, wp >= wa]
    ctx.lemma("roots ordered", z3.And(sa > 0, sp >= sa), using=base)
    X = ctx.real("X")
    ctx.assume(X == x)
    ctx.lemma("x times the sum is the difference", X * (sp + sa) == sp - sa)
    ctx.prove("x in [0,1)", z3.And(X >= 0, X < 1), using=[X * (sp + sa) == sp - sa, sa > 0, sp >= sa])
    ctx.prove("x = 0 iff wp = wa", (X == 0) == (wp == wa), using=[X * (sp + sa) == sp - sa, sa > 0, sp >= sa, sp * sp == wp, sa * sa == wa])
    XL = ctx.real("XL")
    ctx.assume(XL == xl)
    sc = [lp >= 0, la >= 0, lp * lp == lam * wp, la * la == lam * wa, sp * sp == wp, sa * sa == wa, sa > 0, sp >= sa, lam > 0]
    ctx.lemma("scaled roots are proportional", lp * sa == la * sp, using=sc)
    ctx.lemma("scaled roots positive", la > 0, using=sc)
    ctx.lemma("scaled x", XL * (lp + la) == lp - la)
    ctx.lemma("same x after rescaling", XL == X, using=[XL * (lp + la) == lp - la, X * (sp + sa) == sp - sa, lp * sa == la * sp,
                                                        la > 0, sa > 0, lp >= 0, sp >= sa])
    # monotone in the ratio: larger wp (same wa) gives larger x
    wq = ctx.real("wq")
    ctx.assume(wq > wp)
    xq, eq = ew(wq, wa)
    sq = to_z3(f_sqrt(ctx, wq))
    XQ = ctx.real("XQ")
    ctx.assume(XQ == xq)
    ctx.lemma("larger root", sq > sp, using=[sq >= 0, sp >= 0, sq * sq == wq, sp * sp == wp, wq > wp])
    ctx.lemma("xq", XQ * (sq + sa) == sq - sa)
    ctx.prove("x increases with wp", XQ > X, using=[XQ * (sq + sa) == sq - sa, X * (sp + sa) == sp - sa, sq > sp, sa > 0, sp >= sa])
