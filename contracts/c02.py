"""C02 mean anomaly."""
import z3
from pyvc.core import *
from pyvc.npmodel import PI
from . import contract

ED = "eccDefinition:eccDefinition"


def setup(ctx, lo=2):
    n = ctx.length("n", lo)
    tp = ctx.arr("t_pericenters", n)
    ctx.strictly_increasing(tp)
    tmin, tmax = ctx.real("tmin"), ctx.real("tmax")
    # established by measure_ecc (C03): tmin/tmax lie between first and last pericenter
    ctx.assume(tmin >= tp.at(0))
    ctx.assume(tmax <= tp.at(isub(n, 1)))
    o = ctx.obj(ED, tmin=tmin, tmax=tmax, t_pericenters=tp, domain=["time", "frequency"][ctx.choose(2)],
                setting_ecc_to_zero=ctx.choose(2) == 1)
    return n, tp, tmin, tmax, o


@contract(on=[ED + ".compute_mean_anomaly", ED + ".check_input_limits"])
def mean_anomaly_formula(ctx):
    """For t_k <= t < t_(k+1) the result is 2 pi (t-t_k)/(t_(k+1)-t_k), in [0, 2 pi), 0 exactly at t_k; the range is enforced."""
    n, tp, tmin, tmax, o = setup(ctx)
    m = ctx.length("m", 1)
    t = ctx.arr("t", m)
    ok = ctx.bool("some_outside")
    k0, r = ctx.outcome(ED + ".compute_mean_anomaly", o, t)
    if k0 == "raise":
        j = ctx.int("j", 0)
        # raised: some time is outside [tmin, tmax] (contrapositive: all inside is contradictory)
        with ctx.assuming_all(m, lambda i: z3.And(t.at(i) >= tmin, t.at(i) <= tmax)):
            ctx.unreachable("raises only when a time is outside the measurable range")
        return
    ctx.prove_all("every accepted time is inside [tmin, tmax]", m, lambda i: z3.And(t.at(i) >= tmin, t.at(i) <= tmax))
    ctx.prove("result has the length of the input", num_cmp("==", r.n, m))
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, isub(n, 1)))
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, m))
    ti, a, b = t.at(i), tp.at(k), tp.at(k + 1)
    ctx.assume(z3.And(a <= ti, ti < b))
    two_pi = 2 * to_z3(PI)
    v = r.at(i)
    f = ctx.real("fraction")
    ctx.assume(f * (b - a) == ti - a)
    ctx.lemma("fraction in [0,1)", z3.And(f >= 0, f < 1), using=[f * (b - a) == ti - a, a <= ti, ti < b])
    seg_lemmas(ctx, ti, k, a, b, f)
    ctx.lemma("result is 2 pi * fraction", v == two_pi * f)
    ctx.prove("formula", v == two_pi * (ti - a) / (b - a))
    ctx.prove("in [0, 2pi)", z3.And(v >= 0, v < two_pi))
    ctx.prove("0 exactly at a pericenter", (v == 0) == (ti == a))


@contract(on=[ED + ".compute_mean_anomaly"])
def mean_anomaly_at_last_pericenter(ctx):
    """At the last pericenter (allowed when it is the end of the range) the result is 0."""
    n, tp, tmin, tmax, o = setup(ctx)
    t = ctx.arr("t", 1)
    ctx.assume(t.at(0) == tp.at(isub(n, 1)))
    k0, r = ctx.outcome(ED + ".compute_mean_anomaly", o, t)
    if k0 == "raise":
        ctx.prove("raises only outside", z3.Or(t.at(0) < tmin, t.at(0) > tmax))
        return
    ctx.prove("0 at the last pericenter", r.at(0) == 0)


@contract(on=[ED + ".compute_mean_anomaly"])
def mean_anomaly_increasing(ctx):
    """Strictly increasing between two consecutive pericenters."""
    n, tp, tmin, tmax, o = setup(ctx)
    t = ctx.arr("t", 2)
    k0, r = ctx.outcome(ED + ".compute_mean_anomaly", o, t)
    if k0 == "raise":
        return
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, isub(n, 1)))
    a, b = tp.at(k), tp.at(k + 1)
    ctx.assume(z3.And(a <= t.at(0), t.at(0) < t.at(1), t.at(1) < b))
    two_pi = 2 * to_z3(PI)
    fs = []
    for q in range(2):
        f = ctx.real(f"fraction{q}")
        ctx.assume(f * (b - a) == t.at(q) - a)
        ctx.lemma(f"fraction{q} in [0,1)", z3.And(f >= 0, f < 1))
        rq = r.at(q)
        seg_lemmas(ctx, t.at(q), k, a, b, f)
        ctx.lemma(f"result {q} is 2 pi * fraction", r.at(q) == two_pi * f)
        fs.append(f)
    ctx.lemma("fractions increase", fs[0] < fs[1])
    ctx.prove("increasing", r.at(0) < r.at(1))


@contract(on=[ED + ".compute_mean_anomaly", ED + ".check_input_limits"])
def scalar_time(ctx):
    """A scalar time is accepted exactly inside the range, and gives the same value as the array call."""
    n, tp, tmin, tmax, o = setup(ctx)
    t = ctx.real("t")
    k0, r = ctx.outcome(ED + ".compute_mean_anomaly", o, t)
    if k0 == "raise":
        ctx.prove("raises only outside", z3.Or(t < tmin, t > tmax))
        return
    ctx.prove("accepted only inside", z3.And(t >= tmin, t <= tmax))
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, isub(n, 1)))
    a, b = tp.at(k), tp.at(k + 1)
    ctx.assume(z3.And(a <= t, t < b))
    f = ctx.real("fraction")
    ctx.assume(f * (b - a) == t - a)
    ctx.lemma("fraction in [0,1)", z3.And(f >= 0, f < 1))
    sr = scalar(r)
    seg_lemmas(ctx, t, k, a, b, f)
    ctx.prove("formula", sr == 2 * to_z3(PI) * f)


def seg_lemmas(ctx, t, k, a, b, f):
    """proof hints for np.interp: the segment found is k, the fraction is f."""
    for (v, seg, fr, x0, x1) in ctx.interps:
        if not z3.eq(z3.simplify(v), z3.simplify(t)):
            continue
        ctx.lemma("interp segment", seg == k)
        ctx.lemma("interp segment ends", z3.And(x0 == a, x1 == b))
        ctx.lemma("interp fraction", fr == f, using=[fr * (b - a) == t - a, f * (b - a) == t - a, b - a > 0])
        return


def last_lemmas(ctx, t):
    pass


def scalar(r):
    return r.at() if isinstance(r, Arr) and len(r.shape) == 0 else to_z3(r)
