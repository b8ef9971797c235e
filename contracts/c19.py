"""C19 rational fits are well posed and evaluate consistently on and off training data."""
from .common import *
from . import contract
from pyvc.core import new_arr
from pyvc.interp import LoopSpec

RF = "rational_fit:"
NOTE = "basis and fit consistency proved for degrees up to 2 and at most 2 iterations; reproduction of rational data and affine invariance of the whole fit are runtime checks"

UND, RED = RF + "is_underdetermined", RF + "get_reduced_degrees"
CLS = RF + "RationalFit"
INIT, FIT, PRED, CALL = (f"{CLS}.{x}" for x in ("__init__", "fit", "predict", "__call__"))
ARN, EVA, SCALE, SOLVE = (RF + x for x in ("_arnoldi_basis", "_eval_arnoldi_basis", "_scale_x", "_solve_using_varpro"))


@contract(on=[UND])
def underdetermined(ctx):
    """Exactly when numerator degree + denominator degree + 1 >= number of points."""
    m, n, N = ctx.int("m", 0), ctx.int("n", 0), ctx.int("N", 0)
    r = ctx.no_raise("call", UND, (m, n), N)
    ctx.prove("definition", to_z3(r) == (m + n + 1 >= N))


def reduced(m0, n0, N):
    """closed form: k degrees to remove, the denominator first, alternately, the other one when one is exhausted."""
    k = z3.If(m0 + n0 + 2 > N, m0 + n0 + 2 - N, 0)
    return after(m0, n0, k)


def after(m0, n0, k):
    dn, dm = (k + 1) / 2, k / 2
    a = z3.If(dn > n0, k - n0, z3.If(dm > m0, m0, dm))
    b = z3.If(dn > n0, n0, z3.If(dm > m0, k - m0, dn))
    return m0 - a, n0 - b


def reduced_post(ctx, m, n, N):
    z = lambda v: to_z3(v)
    out = ctx.outcome(RED, (m, n), N)
    if ctx.branch(num_cmp("<", N, 2)):
        expect_raise(ctx, "even a constant cannot be fitted", out)
        return
    r = expect_return(ctx, "result", out)
    M2, N2 = z(r[0]), z(r[1])
    ctx.prove("never negative", z3.And(M2 >= 0, N2 >= 0))
    ctx.prove("not underdetermined", M2 + N2 + 1 < z(N))
    zm, zn, zN = (z3.IntVal(v) if isinstance(v, int) else v for v in (m, n, N))
    em, en = reduced(zm, zn, zN)
    ctx.prove("largest total degree, lowered alternately", z3.And(M2 == em, N2 == en))


@contract(on=[RED, UND], soft=True)
def reduced_degrees(ctx):
    """For all degrees and numbers of points: terminates, never negative, the largest total degree below the limit reached by alternately lowering the denominator and the numerator; raises below two points."""
    m, n, N = ctx.int("m", 0), ctx.int("n", 0), ctx.int("N", 0)

    def inv(c, L):
        a, b = to_z3(L["m"]), to_z3(L["n"])
        em, en = after(m, n, m + n - a - b)
        rd = L["reduce_denom"]
        rd = z3.BoolVal(rd) if isinstance(rd, bool) else to_z3(rd)
        return [("within range", z3.And(a >= 0, b >= 0, a <= m, b <= n)),
                ("alternately lowered", z3.And(a == em, b == en)),
                ("turn", z3.Implies(z3.And(a > 0, b > 0), (n - b) - (m - a) == z3.If(rd, 0, 1))),
                ("nothing removed unless needed", z3.Or(z3.And(a == m, b == n), a + b + 2 >= N))]

    def var(c, L):
        rd = L["reduce_denom"]
        rd = z3.BoolVal(rd) if isinstance(rd, bool) else to_z3(rd)
        return 2 * (to_z3(L["m"]) + to_z3(L["n"])) + z3.If(rd, 0, 1)

    ctx.loops[(RED, 0)] = LoopSpec(inv, var, name="lowering")
    reduced_post(ctx, m, n, N)


@contract(on=[RED, UND], bounded="degrees up to 5, any number of points", paths=2000)
def reduced_degrees_bounded(ctx):
    """The same for degrees up to 5, unrolled (needs no loop invariant)."""
    m, n = ctx.choose(6), ctx.choose(6)
    reduced_post(ctx, m, n, ctx.int("N", 0))


@contract(on=[INIT, UND], paths=1000)
def construction(ctx):
    """Mismatched lengths, malformed or negative degrees raise; otherwise the data, the degrees and the range of the abscissa are stored, the fit is not available yet and a message is given exactly when underdetermined; the data is not modified."""
    n1 = ctx.length("n1", 1)
    same = ctx.choose(2)
    n2 = n1 if same else ctx.length("n2", 1)
    x, y = ctx.arr("x", n1), ctx.arr("y", n2)
    a, b = ctx.int("dm"), ctx.int("dn")
    deg = [lambda: (a, b), lambda: ctx.list([a, b]), lambda: (a,), lambda: (a, b, a), lambda: a, lambda: "33", lambda: None][ctx.choose(7)]()
    o = ctx.obj(CLS, partial=True)
    ctx.watch(x)
    ctx.watch(y)
    out = ctx.outcome(INIT, o, x, y, deg)
    ctx.frame("data not modified", x, y)
    pair = isinstance(deg, PyList) or (isinstance(deg, tuple) and len(deg) == 2)
    if not pair or not same and ctx.branch(num_cmp("!=", n1, n2)) or ctx.branch(z3.Or(a < 0, b < 0)):
        expect_raise(ctx, "malformed input", out)
        return
    expect_return(ctx, "valid input", out)
    at = o.attrs
    ctx.prove("data stored", at["x"] is x and at["y"] is y and at["degrees"] is deg)
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n1))
    ctx.prove("range of the abscissa", z3.And(to_z3(at["x_min"]) <= x.at(i), x.at(i) <= to_z3(at["x_max"])))
    ctx.prove("not fitted yet", at["a"] is None and at["b"] is None)
    w = [e for e in ctx.events if e[0] == "warn"]
    ctx.prove("message exactly when underdetermined", z3.BoolVal(len(w) == 1) == (a + b + 1 >= to_z3(n1)))


@contract(on=[CALL])
def not_fitted(ctx):
    """Evaluation before fitting raises; afterwards it is predict."""
    o = ctx.obj(CLS, partial=True)
    k = ctx.choose(4)
    a, b = ctx.arr("a", 3), ctx.arr("b", 3)
    o.attrs.update(a=a if k & 1 else None, b=b if k & 2 else None)
    r0 = ctx.real("value")
    called = []
    ctx.summaries[PRED] = lambda c, args, kw: called.append(args) or r0
    x = ctx.arr("x", ctx.length("n", 0))
    out = ctx.outcome(CALL, o, x)
    if k != 3:
        expect_raise(ctx, "not fitted", out)
        return
    r = expect_return(ctx, "fitted", out)
    ctx.prove("predict of the same points", r is r0 and len(called) == 1 and called[0][-1] is x)


@contract(on=[SCALE])
def scaling(ctx):
    """The abscissa used for fitting lies in [-1, 1], increases with x and does not change under an increasing affine change of the abscissa."""
    n = ctx.length("n", 1)
    x = ctx.arr("x", n)
    lo, hi, al, be = ctx.real("x_min"), ctx.real("x_max"), ctx.real("scale"), ctx.real("shift")
    ctx.assume(z3.And(lo < hi, al > 0))
    i, j = ctx.int("i", 0), ctx.int("j", 0)
    ctx.assume(z3.And(to_z3(num_cmp("<", i, n)), to_z3(num_cmp("<", j, n)), lo <= x.at(i), x.at(i) <= hi, x.at(i) < x.at(j)))
    s = ctx.no_raise("call", SCALE, x, lo, hi)
    si, sj = s.at(i), s.at(j)
    ctx.prove("same length", num_cmp("==", s.n, n))
    ctx.prove("within [-1, 1]", z3.And(si >= -1, si <= 1))
    ctx.prove("increasing", si < sj)
    one = scalar(ctx.no_raise("scaled and shifted point", SCALE, al * x.at(i) + be, al * lo + be, al * hi + be))
    ctx.prove("affine invariance", one == si)


@contract(on=[ARN, EVA], bounded="degrees up to 2", paths=200, budget=200)
def basis(ctx):
    """The basis evaluated from the recorded coefficients at the training points is, column by column, the training basis divided by the training weights (any number of points, any weights, any abscissa)."""
    ctx.abstract_dots = True
    n = ctx.length("n", 1)
    deg = ctx.choose(3)
    x, w = ctx.arr("x", n), ctx.arr("w", n)
    ctx.forall(n, lambda k: w.at(k) > 0)
    weighted = ctx.choose(2)
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))
    V, H, v0 = ctx.no_raise("train", ARN, x, deg, w if weighted else None)
    E = ctx.no_raise("evaluate", EVA, x, H, deg, v0)
    ctx.prove("shapes", z3.And(*[to_z3(num_cmp("==", M.shape[0], n)) for M in (V, E)]))
    ctx.prove("columns", V.shape[1] == deg + 1 and E.shape[1] == deg + 1)
    wi = w.at(i) if weighted else 1
    for k in range(deg + 1):
        ctx.prove(f"column {k}", to_z3(V.at(i, k)) == wi * to_z3(E.at(i, k)))


@contract(on=[FIT, PRED, SCALE, CALL], bounded="at most 2 iterations, degrees up to 1", paths=600, budget=300)
def consistency(ctx):
    """The coefficients kept are those of an iteration with the smallest residual norm, and evaluating at a training point gives the fitted value of that iteration there (wherever the denominator does not vanish); scalar in gives scalar out. Uses the contracts of the basis functions (see `basis`) and any outcome of the linear solver."""
    ctx.abstract_dots = True
    n = ctx.length("n", 1)
    x, y = ctx.arr("x", n), ctx.arr("y", n)
    dm, dn = [(1, 1), (0, 1), (1, 0)][ctx.choose(3)]
    iters = 1 + ctx.choose(2)
    lo, hi = ctx.real("x_min"), ctx.real("x_max")
    ctx.assume(lo < hi)
    ctx.forall(n, lambda k: z3.And(lo <= x.at(k), x.at(k) <= hi))
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, n))
    o = ctx.obj(CLS, partial=True)
    o.attrs.update(x=x, y=y, degrees=(dm, dn), verbose=False, x_min=lo, x_max=hi, a=None, b=None)
    deg = max(dm, dn)
    runs = []

    def arn(c, a, k):
        xs, d, w = a[0], a[1], a[2]
        c.prove("basis of the larger degree", d == deg)
        E = [c.arr(f"E{len(runs)}_{j}", n) for j in range(deg + 1)]
        H0 = c.arr(f"H{len(runs)}", 1)
        v0 = c.real(f"v0_{len(runs)}")
        runs.append(dict(E=E, H=H0, v0=v0, w=w.snapshot(), xs=xs.snapshot()))
        wg = w.snapshot()
        V = new_arr((n, deg + 1), lambda p, q, E=E: wg(p) * sel(E, p, q))
        return (V, H0, v0)

    def sel(E, p, q):
        if isinstance(q, int):
            return to_z3(E[q].at(p))
        out = to_z3(E[-1].at(p))
        for j in range(len(E) - 2, -1, -1):
            out = z3.If(to_z3(q) == j, to_z3(E[j].at(p)), out)
        return out

    def eva(c, a, k):
        xs, H, d, v0 = (k[q] for q in ("x", "H", "degree", "v0_norm"))
        c.prove("evaluated to the larger degree", d == deg)
        for r in runs:
            if z3.eq(to_z3(H.at(0)), to_z3(r["H"].at(0))):
                c.prove("norm of the same iteration", z3.eq(to_z3(v0), to_z3(r["v0"])))
                c.prove("same scaled abscissa", to_z3(xs.at(0 if ctx.scalar_in else i)) == to_z3(r["xs"](i)))
                E = r["E"]
                return new_arr((xs.n, deg + 1), lambda p, q: sel(E, i if ctx.scalar_in else p, q))
        c.unreachable("coefficients of an unknown iteration")

    def solve(c, a, k):
        r = runs[-1]
        r["a"], r["b"] = c.arr(f"a{len(runs)}", dm + 1), c.arr(f"b{len(runs)}", dn + 1)
        return (r["a"], r["b"], c.real("cond"))

    ctx.summaries[ARN], ctx.summaries[EVA], ctx.summaries[SOLVE] = arn, eva, solve
    ctx.no_raise("fit", FIT, o, iters)
    hist = o.attrs["history"]
    ctx.prove("between one and the maximum number of iterations", 1 <= len(hist.l) <= iters)
    best = [h for h in hist.l if h.d["a"] is o.attrs["a"] or z3.eq(to_z3(h.d["a"].at(0)), to_z3(o.attrs["a"].at(0)))]
    ctx.prove("coefficients of one iteration", len(best) == 1 and best[0].d["H"] is o.attrs["H"] and best[0].d["v0_norm"] is o.attrs["v0_norm"])
    for h in hist.l:
        ctx.prove("smallest residual", to_z3(best[0].d["res_norm"]) <= to_z3(h.d["res_norm"]))
    R = runs[hist.l.index(best[0])]
    Q = sum(to_z3(R["b"].at(j)) * to_z3(R["E"][j].at(i)) for j in range(dn + 1))
    P = sum(to_z3(R["a"].at(j)) * to_z3(R["E"][j].at(i)) for j in range(dm + 1))
    ctx.assume(Q != 0)
    ctx.scalar_in = bool(ctx.choose(2))
    r = ctx.no_raise("evaluate", PRED, o, x.at(i) if ctx.scalar_in else x)
    v = scalar(r) if ctx.scalar_in else r.at(i)
    ctx.prove("scalar in, scalar out; array in, array out", (not isinstance(r, Arr)) == ctx.scalar_in)
    ctx.prove("value of the fitted ratio at the training point", to_z3(v) * Q == P)
    wi = to_z3(R["w"](i))
    ctx.prove("weights do not vanish", wi != 0)
