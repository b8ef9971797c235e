"""C09 fourth-order derivative."""
from .common import *
from . import contract

TD = UT + "time_deriv_4thOrder"


def deriv_setup(ctx):
    n = ctx.length("n", 5)
    dt = ctx.real("dt")
    ctx.assume(dt != 0)
    return n, dt


def cases(ctx, n):
    """the index: one of the four boundary samples or any interior one."""
    c = ctx.choose(5)
    if c < 2:
        return c
    if c < 4:
        return isub(n, c - 1)       # n-1, n-2
    if isinstance(n, int):
        if n < 5:
            raise PathEnd()
        return 2 + ctx.choose(n - 4)
    i = ctx.int("i", 2)
    ctx.assume(num_cmp("<", i, isub(n, 2)))
    return i


def rl(i):
    i = to_z3(i)
    return z3.ToReal(i) if z3.is_int(i) else i


@contract(on=[TD])
def exact_for_quartics(ctx):
    """If y_i = c0 + c1 t_i + ... + c4 t_i^4 at t_i = t0 + i dt, the result at every i is c1 + 2 c2 t_i + 3 c3 t_i^2 + 4 c4 t_i^3."""
    n, dt = deriv_setup(ctx)
    t0 = ctx.real("t0")
    c = [ctx.real(f"c{k}") for k in range(5)]

    def t(i):
        return t0 + rl(i) * dt

    def poly(i):
        x = t(i)
        return c[0] + c[1] * x + c[2] * x * x + c[3] * x * x * x + c[4] * x * x * x * x
    y = new_arr((n,), poly, "real", "y")
    r = ctx.no_raise("call", TD, y, dt)
    ctx.prove("length", num_cmp("==", r.n, n))
    i = cases(ctx, n)
    x = t(i)
    ctx.prove("derivative", r.at(i) == c[1] + 2 * c[2] * x + 3 * c[3] * x * x + 4 * c[4] * x * x * x)


@contract(on=[TD])
def linear_and_shift_invariant(ctx):
    """D(a y + b z) = a D(y) + b D(z) and D(y + const) = D(y) for arbitrary data; the input is not modified."""
    n, dt = deriv_setup(ctx)
    y, z = ctx.arr("y", n), ctx.arr("z", n)
    a, b, k = ctx.real("a"), ctx.real("b"), ctx.real("k")
    ctx.watch(y)
    comb = new_arr((n,), lambda i: a * y.at(i) + b * z.at(i), "real", "comb")
    sh = new_arr((n,), lambda i: y.at(i) + k, "real", "shifted")
    ry, rz = ctx.no_raise("y", TD, y, dt), ctx.no_raise("z", TD, z, dt)
    rc, rs = ctx.no_raise("comb", TD, comb, dt), ctx.no_raise("shifted", TD, sh, dt)
    i = cases(ctx, n)
    ctx.prove("linear", rc.at(i) == a * ry.at(i) + b * rz.at(i))
    ctx.prove("constant drops out", rs.at(i) == ry.at(i))
    ctx.frame("argument not modified", y)


@contract(on=[ED + ".get_omegalm_from_phaselm", TD])
def modes_independent(ctx):
    """Every mode's frequency is the derivative of that mode's own phase with the step t[1]-t[0]; the phases are not modified and the modes are the same."""
    n = ctx.length("n", 5)
    t = ctx.arr("t", n)
    ctx.assume(t.at(1) > t.at(0))
    modes = [(2, 2), (2, -2), (3, 3)][: 1 + ctx.choose(3)]
    ph = {m: ctx.arr(f"phase{m}", n) for m in modes}
    d = ctx.dict(ph, name="phaselm")
    ctx.watch(d)
    o = ctx.obj(ED)
    r = ctx.no_raise("call", ED + ".get_omegalm_from_phaselm", o, t, d)
    ctx.prove("same modes", set(r.d) == set(modes))
    ctx.frame("phases untouched", d)
    i = cases(ctx, n)
    for m in modes:
        one = ctx.no_raise("single", TD, ph[m], t.at(1) - t.at(0))
        ctx.prove(f"mode {m}", r.d[m].at(i) == one.at(i))


@contract(on=[ED + ".get_amp_phase_omega_data"])
def supplied_frequency_used(ctx):
    """A frequency supplied by the user is used unchanged (own and quasicircular); otherwise it is the derivative of the phase."""
    n = ctx.length("n", 5)
    nz = ctx.length("nz", 5)
    t, tz = ctx.arr("t", n), ctx.arr("tz", nz)
    d = {"t": t, "amplm": ctx.dict({(2, 2): ctx.arr("A", n)}), "phaselm": ctx.dict({(2, 2): ctx.arr("P", n)})}
    own = ctx.choose(2) == 1
    z = ctx.choose(3)
    w, wz = ctx.arr("W", n), ctx.arr("WZ", nz)
    if own:
        d["omegalm"] = ctx.dict({(2, 2): w})
    if z:
        d.update({"t_zeroecc": tz, "amplm_zeroecc": ctx.dict({(2, 2): ctx.arr("AZ", nz)}),
                  "phaselm_zeroecc": ctx.dict({(2, 2): ctx.arr("PZ", nz)})})
        if z == 2:
            d["omegalm_zeroecc"] = ctx.dict({(2, 2): wz})
    calls = []

    def deriv(c, args, kw):
        calls.append(args[:2])
        r = c.arr("D", args[0].n)
        calls[-1] = (args[0], args[1], r)
        return r
    ctx.assume(t.at(1) > t.at(0))
    ctx.assume(tz.at(1) > tz.at(0))
    ctx.summaries[TD] = deriv
    dd = ctx.dict(d)
    r = ctx.no_raise("call", ED + ".get_amp_phase_omega_data", ctx.obj(ED), dd)
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))

    def origin(key, phase, tt):
        got = r.d[key].d[(2, 2)]
        for a, step, res in calls:
            if got is res:
                j = ctx.int("j", 0)
                ctx.assume(num_cmp("<", j, a.n))
                ctx.prove(f"{key} from its own phase", num_cmp("==", a.at(j), phase.at(j)))
                ctx.prove(f"{key} with its own time step", num_cmp("==", step, tt.at(1) - tt.at(0)))
                return
        ctx.fail(f"{key} is the derivative of the phase", "not obtained from time_deriv_4thOrder")
    if own:
        ctx.prove("supplied frequency", num_cmp("==", r.d["omegalm"].d[(2, 2)].at(i), w.at(i)))
        ctx.prove("supplied frequency length", num_cmp("==", r.d["omegalm"].d[(2, 2)].n, n))
    else:
        origin("omegalm", d["phaselm"].d[(2, 2)], t)
    if z == 2:
        k = ctx.int("k", 0)
        ctx.assume(num_cmp("<", k, nz))
        ctx.prove("supplied quasicircular frequency", num_cmp("==", r.d["omegalm_zeroecc"].d[(2, 2)].at(k), wz.at(k)))
    elif z == 1:
        origin("omegalm_zeroecc", d["phaselm_zeroecc"].d[(2, 2)], tz)
    else:
        ctx.prove("no quasicircular frequency without data", "omegalm_zeroecc" not in r.d)
