"""C26 residuals subtract the quasicircular data aligned at merger."""
from .common import *
from . import contract
from .c03 import ME, measuring_object, measuring_summaries, bounds
from .c04 import uniform_grid
from pyvc.npmodel import unary

RES = ED + ".compute_res_amp_gw_and_res_omega_gw"
IP = UT + "interpolate"
PK = UT + "peak_time_via_quadratic_fit"
AMP = ED + ".get_amp_phase_omega_gw"
INIT = ED + ".__init__"
NOTE = "the interpolant itself is under contract in C18, the merger time in C10"


def interp_args(a, k):
    arg = dict(zip(("new_x", "old_x", "old_y", "spline_kwargs"), a))
    arg.update(k)
    return arg


def setup(ctx, modes=1, uniform=True):
    n, nz = ctx.length("n", 3), ctx.length("nz", 3)
    t, _, _ = uniform_grid(ctx, n)
    if uniform:
        tz, _, _ = uniform_grid(ctx, nz, "t_zeroecc")
    else:
        tz = ctx.arr("t_zeroecc", nz)
        ctx.strictly_increasing(tz)
    q = {k: ctx.arr(k, n) for k in ("amp_gw", "phase_gw", "omega_gw")}
    z = {k: ctx.arr(k, nz) for k in ("amp_z", "phase_z", "omega_z")}
    M = [(2, 2), (3, 3)][:modes]
    az = {m: ctx.arr(f"A{m[0]}{m[1]}", nz) for m in M}
    dd = ctx.dict({"t": t, "t_zeroecc": tz, "amplm_zeroecc": ctx.dict(dict(az))})
    tm = ctx.real("t_merger")
    o = ctx.obj(ED, t=t, t_merger=tm, dataDict=dd, general_interp_kwargs=ctx.dict({"k": 3}), debug_level=0, precessing=False, **q)
    return o, n, nz, t, tz, q, z, az, tm


@contract(on=[RES])
def residuals(ctx):
    """Residual amplitude and frequency are the eccentric data minus the quasicircular data interpolated at the same times after shifting the quasicircular times so that the mergers coincide; refused iff it starts later than the eccentric data or ends before the merger."""
    o, n, nz, t, tz, q, z, az, tm = setup(ctx, 1 + ctx.choose(2))
    ip, pk, tags = [], [], []
    tmz = ctx.real("t_merger_zeroecc")

    def peak(c, a, k):
        pk.append((a[0], a[1]))
        return (tmz, c.real("peak"))

    def amp(c, a, k):
        tags.append(a[2] if len(a) > 2 else k.get("tag"))
        return (z["amp_z"], z["phase_z"], z["omega_z"])

    def interp(c, a, k):
        arg = interp_args(a, k)
        ip.append(arg)
        nm = "ia" if arg["old_y"] is z["amp_z"] else "iw"
        return unary(c, lambda v: c.ufun(nm, v), arg["new_x"], "real")
    ctx.summaries[PK], ctx.summaries[AMP], ctx.summaries[IP] = peak, amp, interp
    for a in list(q.values()) + list(z.values()) + [t, tz]:
        ctx.watch(a)
    out = ctx.outcome(RES, o)
    for a in list(q.values()) + list(z.values()) + [t, tz]:
        ctx.frame("data not modified", a)
    early = tz.at(0) - tmz + tm > t.at(0)
    short = tz.at(isub(nz, 1)) - tmz + tm < tm
    if raised(out):
        ctx.prove("refused only when starting later or ending before the merger", z3.Or(early, short))
        return
    ctx.prove("starting later is refused", z3.Not(early))
    ctx.prove("ending before the merger is refused", z3.Not(short))
    ctx.prove("quasicircular data", tags == ["_zeroecc"])
    ctx.prove("one merger", len(pk) == 1)
    same_array(ctx, "merger: times", pk[0][0], tz, nz)
    ctx.prove_all("merger: total amplitude of all modes", nz, lambda i: to_z3(pk[0][1].at(i)) == f_sqrt(ctx, z3.Sum([a.at(i) * a.at(i) for a in az.values()])))
    ctx.prove("two interpolations", len(ip) == 2)
    for arg in ip:
        same_array(ctx, "evaluated at the eccentric times", arg["new_x"], t, n)
        same_array(ctx, "nodes: quasicircular times shifted to the same merger", arg["old_x"], lambda i: tz.at(i) - tmz + tm, nz)
    ctx.prove("amplitude and frequency", {id(a["old_y"]) for a in ip} == {id(z["amp_z"]), id(z["omega_z"])})
    same_array(ctx, "residual amplitude", o.attrs["res_amp_gw"], lambda i: q["amp_gw"].at(i) - ctx.ufun("ia", t.at(i)), n)
    same_array(ctx, "residual frequency", o.attrs["res_omega_gw"], lambda i: q["omega_gw"].at(i) - ctx.ufun("iw", t.at(i)), n)


@contract(on=[RES])
def nonuniform_refused(ctx):
    """Quasicircular times that are not uniformly spaced are refused."""
    o, n, nz, t, tz, q, z, az, tm = setup(ctx, 1, uniform=False)
    k = ctx.int("bad_step", 0)
    ctx.assume(num_cmp("<", k, isub(nz, 1)))
    d = lambda i: tz.at(iadd(i, 1)) - tz.at(i)
    dev = d(k) - d(0)
    tol = Fraction(1, 10 ** 8) + Fraction(1, 10 ** 5) * d(0)
    ctx.assume(z3.Or(dev > tol, -dev > tol))
    ctx.summaries[PK] = lambda c, a, k: (c.real("p"), c.real("v"))
    ctx.summaries[AMP] = lambda c, a, k: (z["amp_z"], z["phase_z"], z["omega_z"])
    ctx.summaries[IP] = lambda c, a, k: c.arr("i", n)
    expect_raise(ctx, "non-uniform times", ctx.outcome(RES, o))


@contract(on=[RES])
def identical_data(ctx):
    """Quasicircular data equal to the eccentric data (its first samples), for any time offset between the two, give zero residuals."""
    nz = ctx.length("nz", 3)
    n = ctx.length("n", 3)
    ctx.assume(num_cmp("<=", n, nz))
    tz, _, _ = uniform_grid(ctx, nz, "t_zeroecc")
    s = ctx.real("offset")
    t = new_arr((n,), lambda i: tz.at(i) + s, "real", "t")
    A, P, W = (ctx.arr(x, nz) for x in ("amp", "phase", "omega"))
    cut = lambda a: new_arr((n,), lambda i: a.at(i), "real")
    tmz = ctx.real("t_merger_zeroecc")
    ctx.assume(tmz <= tz.at(isub(nz, 1)))
    o = ctx.obj(ED, t=t, t_merger=tmz + s, dataDict=ctx.dict({"t": t, "t_zeroecc": tz, "amplm_zeroecc": ctx.dict({(2, 2): A})}),
                general_interp_kwargs=ctx.dict({"k": 3}), debug_level=0, precessing=False, amp_gw=cut(A), phase_gw=cut(P), omega_gw=cut(W))
    ctx.summaries[PK] = lambda c, a, k: (tmz, c.real("v"))
    ctx.summaries[AMP] = lambda c, a, k: (A, P, W)

    def interp(c, a, k):
        arg = interp_args(a, k)
        X, x, y = arg["new_x"], arg["old_x"], arg["old_y"]
        f = c.arr("interpolated", X.n)
        # contract C18: passes through its points
        c.prove_all("evaluated at its own nodes", X.n, lambda i: X.at(i) == x.at(i))
        c.forall(X.n, lambda i: f.at(i) == y.at(i))
        return f
    ctx.summaries[IP] = interp
    ctx.no_raise("call", RES, o)
    for k in ("res_amp_gw", "res_omega_gw"):
        same_array(ctx, k + " is zero", o.attrs[k], lambda i: z3.RealVal(0), n)


@contract(on=[ME], budget=200)
def beyond_quasicircular_data(ctx):
    """Whatever the order of the reference times: when some returned time is later than the end of the aligned quasicircular data the measurement raises; when none is, the guard does not raise."""
    o, n, t, ref, q = measuring_object(ctx, "time", 1)
    nz = ctx.length("nz", 1)
    Z = ctx.arr("t_zeroecc_shifted", nz)
    ctx.strictly_increasing(Z)
    o.attrs["t_zeroecc_shifted"] = Z
    f = measuring_summaries(ctx, n)
    end = Z.at(isub(nz, 1))
    tmin, tmax = bounds(ctx, t, f)
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, q))
    inside = z3.And(ref.at(k) >= tmin, ref.at(k) <= tmax)
    if ctx.choose(2):
        ctx.assume(z3.And(inside, ref.at(k) > end))
        expect_raise(ctx, "a time beyond the data is refused", ctx.outcome(ME, o))
    else:
        ctx.assume(inside)
        ctx.assume(tmax <= end)
        expect_return(ctx, "times before the end are accepted", ctx.outcome(ME, o))


@contract(on=[INIT])
def residuals_computed(ctx):
    """Residuals are computed exactly when quasicircular data are given."""
    from .c04 import init_world
    n, t = init_world(ctx)
    dd = ctx.summaries[ED + ".process_data_dict"](ctx, [], {})[0]
    z = ctx.choose(2) == 1
    if z:
        nz = ctx.length("nz", 3)
        dd.d["t_zeroecc"] = ctx.arr("tz", nz)
        for k in ("amplm_zeroecc", "phaselm_zeroecc", "omegalm_zeroecc"):
            dd.d[k] = ctx.dict({(2, 2): ctx.arr(k, nz)})
    done = []
    ctx.summaries[RES] = lambda c, a, k: done.append(1)
    ctx.no_raise("call", INIT, ctx.obj(ED), ctx.dict({"t": 1, "hlm": 1}), tref_in=ctx.real("tref"), debug_level=0)
    ctx.prove("computed iff given", len(done) == int(z))
