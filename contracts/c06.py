"""C06 cleaning of extrema."""
from .common import *
from . import contract
from .c03 import increasing_indices

J = ED + ".drop_extrema_if_extrema_jumps"
TC = ED + ".drop_extrema_if_too_close"
EX = ED + ".drop_extra_extrema_at_ends"
GG = ED + ".get_good_extrema"


def setup(ctx, lo=1, m=None):
    n = ctx.length("n_t", 2)
    t, ph = ctx.arr("t", n), ctx.arr("phase_gw", n)
    ctx.strictly_increasing(ph)
    if m is None:
        E = increasing_indices(ctx, "extrema", n, lo)
    else:
        E = ctx.arr("extrema", m, "int")
        ctx.forall(m, lambda k: z3.And(E.at(k) >= 0, to_z3(num_cmp("<", E.at(k), n))))
        ctx.strictly_increasing(E)
    return ctx.obj(ED, t=t, phase_gw=ph, debug_level=0), t, ph, E


def upper_case(ctx, m, bad, mid, cut):
    """the last kept index: cut(k) if the first bad k lies in the second half (k > mid), else the last one."""
    c = ctx.choose(3)
    if c == 0:
        k1 = ctx.int("first_bad", 0)
        ctx.assume(z3.And(k1 < to_z3(m), k1 > to_z3(mid)))
        ctx.assume(bad(k1))
        ctx.forall(k1, lambda j: z3.Not(bad(j)))
        return cut(k1)
    if c == 1:
        ctx.forall(m, lambda j: z3.Not(bad(j)))
        return None
    k0 = ctx.int("early_bad", 0)
    ctx.assume(z3.And(k0 < to_z3(m), k0 <= to_z3(mid)))
    ctx.assume(bad(k0))
    return None


def lower_case(ctx, m, bad, mid, cut):
    c = ctx.choose(3)
    if c == 0:
        k2 = ctx.int("last_bad", 0)
        ctx.assume(z3.And(k2 < to_z3(m), k2 < to_z3(mid)))
        ctx.assume(bad(k2))
        ctx.forall(m, lambda j: z3.Not(bad(j)), lo=k2 + 1)
        return cut(k2)
    if c == 1:
        ctx.forall(m, lambda j: z3.Not(bad(j)))
        return None
    k0 = ctx.int("late_bad", 0)
    ctx.assume(z3.And(k0 < to_z3(m), k0 >= to_z3(mid)))
    ctx.assume(bad(k0))
    return None


def block(ctx, out, E, lo, hi):
    r = expect_return(ctx, "returns", out)
    lo = 0 if lo is None else lo
    hi = isub(E.n, 1) if hi is None else hi
    ctx.prove("number of extrema kept", num_cmp("==", r.n, iadd(isub(hi, lo), 1)))
    ctx.prove_all("extrema kept, in order", iadd(isub(hi, lo), 1), lambda j: r.at(j) == E.at(iadd(lo, j)))


@contract(on=[J], paths=2500, lengths=(4,), timeout=8000, abstract=True, budget=150, bounded="at most 6 extrema, in a waveform of any length")
def jumps(ctx):
    """Keeps the block that ends at the extremum before the first too large ratio if that lies in the second half, and starts at the extremum after the last too small ratio if that lies in the first half; otherwise drops nothing."""
    N = 1 + ctx.choose(6)
    o, t, ph, E = setup(ctx, m=N)
    ctx.watch(E)
    m = N - 2
    p = [ph.at(E.at(k)) for k in range(N)]
    d = [p[k + 1] - p[k] for k in range(N - 1)]
    mid = m // 2
    big = [k for k in range(m) if ctx.branch(d[k + 1] / d[k] > z3.Q(3, 2))]
    small = [k for k in range(m) if k not in big and ctx.branch(d[k + 1] / d[k] < z3.Q(2, 3))]
    hi, lo = N - 1, 0
    if big and big[0] > mid:
        hi = big[0] + 1
    if small and small[-1] < mid:
        lo = small[-1] + 1
    out = ctx.outcome(J, o, E, extrema_type="pericenters")
    block(ctx, out, E, lo, hi)
    ctx.frame("argument not modified", E)


@contract(on=[TC], paths=1500, lengths=(3, 4, 5), timeout=8000, abstract=True)
def too_close(ctx):
    """Keeps the block that ends at the first member of the first too close pair if that lies in the second half, and starts at the second member of the last too close pair if that lies in the first half; otherwise drops nothing."""
    o, t, ph, E = setup(ctx)
    D = ctx.real("min_difference")
    m = isub(E.n, 1)
    if ctx.branch(num_cmp("<=", m, 0)):
        out = ctx.outcome(TC, o, E, D, "pericenters")
        block(ctx, out, E, None, None)
        return
    mid = to_z3(m) / 2
    p = lambda k: ph.at(E.at(k))
    bad = lambda k: p(k + 1) - p(k) < D
    hi = upper_case(ctx, m, bad, mid, lambda k: k)
    lo = lower_case(ctx, m, bad, mid, lambda k: k + 1)
    ctx.watch(E)
    out = ctx.outcome(TC, o, E, D, "pericenters")
    block(ctx, out, E, lo, hi)
    ctx.frame("argument not modified", E)


def edge_cases(ctx, P, A):
    """first and last kept index of P: at most one beyond the outermost A at each end, the nearest one."""
    a0, al = A.at(0), A.at(isub(A.n, 1))
    lo = hi = None
    if ctx.choose(2) == 0:
        k = ctx.int("nearest_before", 0)
        ctx.assume(num_cmp("<", k, P.n))
        ctx.assume(P.at(k) < a0)
        ctx.assume(z3.Or(to_z3(num_cmp("==", k, isub(P.n, 1))), P.at(k + 1) >= a0))
        lo = k
    else:
        ctx.assume(P.at(0) >= a0)
    if ctx.choose(2) == 0:
        k = ctx.int("nearest_after", 0)
        ctx.assume(num_cmp("<", k, P.n))
        ctx.assume(P.at(k) > al)
        ctx.assume(z3.Or(k == 0, P.at(k - 1) <= al))
        hi = k
    else:
        ctx.assume(P.at(isub(P.n, 1)) <= al)
    return (0 if lo is None else lo), (isub(P.n, 1) if hi is None else hi)


@contract(on=[EX], paths=3000, lengths=(2, 3), timeout=8000, budget=300)
def extra_extrema(ctx):
    """At most one pericenter lies before the first and after the last apocenter, and vice versa; the one kept is the nearest; everything in between is kept in order."""
    n = ctx.length("n_t", 2)
    P = increasing_indices(ctx, "pericenters", n, 1)
    A = increasing_indices(ctx, "apocenters", n, 1)
    o = ctx.obj(ED, debug_level=0)
    lp, hp = edge_cases(ctx, P, A)
    la, ha = edge_cases(ctx, A, P)
    ctx.watch(P)
    ctx.watch(A)
    out = ctx.outcome(EX, o, P, A)
    r = expect_return(ctx, "returns", out)
    for nm, X, r0, lo, hi in (("pericenters", P, r[0], lp, hp), ("apocenters", A, r[1], la, ha)):
        ctx.prove(f"number of {nm} kept", num_cmp("==", r0.n, iadd(isub(hi, lo), 1)))
        ctx.prove_all(f"{nm} kept, in order", iadd(isub(hi, lo), 1), lambda j: r0.at(j) == X.at(iadd(lo, j)))
    ctx.frame("arguments not modified", P, A)


@contract(on=[GG])
def composition(ctx):
    """get_good_extrema applies to each kind of extrema the removal of jumps (threshold 1.5), then of close pairs (one orbit), each by its contract, and then the removal of extra extrema."""
    n = ctx.length("n_t", 2)
    P = increasing_indices(ctx, "pericenters", n, 1)
    A = increasing_indices(ctx, "apocenters", n, 1)
    o = ctx.obj(ED, debug_level=0)
    made = {}

    def step(tag, defaults):
        def f(c, a, k):
            x = a[1]
            thr = a[2] if len(a) > 2 else k.get(defaults[0], defaults[1])
            key = (tag, id(x))
            if key not in made:
                made[key] = (increasing_indices(c, tag, n, 1), thr, x)
            return made[key][0]
        return f
    ctx.summaries[J] = step("jump", ("max_r_delta_phase_gw_extrema", Fraction(3, 2)))
    ctx.summaries[TC] = step("close", ("min_phase_gw_difference", 4 * PI))
    fin = []

    def ends(c, a, k):
        fin.append((a[1], a[2], increasing_indices(c, "p", n, 1), increasing_indices(c, "a", n, 1)))
        return fin[-1][2], fin[-1][3]
    ctx.summaries[EX] = ends
    r = ctx.no_raise("call", GG, o, P, A)
    ctx.prove("the removal of extra extrema is the last step", len(fin) == 1 and r[0] is fin[0][2] and r[1] is fin[0][3])
    for X, y, nm in ((P, fin[0][0], "pericenters"), (A, fin[0][1], "apocenters")):
        j = made.get(("jump", id(X)))
        ctx.prove(f"jumps of {nm} are removed first", j is not None)
        ctx.prove(f"threshold of the ratio for {nm}", num_cmp("==", j[1], Fraction(3, 2)))
        c = made.get(("close", id(j[0])))
        ctx.prove(f"then close {nm} are removed", c is not None and y is c[0])
        ctx.prove(f"a close pair of {nm} is less than one orbit apart", num_cmp("==", c[1], 4 * PI))


@contract(on=[GG, EX], paths=600, lengths=(3, 4), timeout=8000, abstract=True)
def clean_extrema_unchanged(ctx):
    """Alternating extrema whose phase differences are at least one orbit and whose ratios are within [1/1.5, 1.5] are returned unchanged."""
    o, t, ph, P = setup(ctx, 2)
    n = t.n
    first = ctx.choose(2)
    extra = ctx.choose(2)
    m = iadd(P.n, extra if first else extra - 1)      # numbers differ by at most one
    A = ctx.arr("apocenters", m, "int")
    ctx.forall(m, lambda k: z3.And(A.at(k) >= 0, to_z3(num_cmp("<", A.at(k), n))))
    ctx.strictly_increasing(A)
    if first:      # apocenter first
        ctx.forall(mn_(ctx, P.n, m), lambda k: A.at(k) < P.at(k))
        ctx.forall(isub(m, 1), lambda k: P.at(k) < A.at(k + 1))
    else:
        ctx.forall(mn_(ctx, P.n, m), lambda k: P.at(k) < A.at(k))
        ctx.forall(isub(P.n, 1), lambda k: A.at(k) < P.at(k + 1))
    for X in (P, A):
        p = lambda k, X=X: ph.at(X.at(k))
        ctx.forall(isub(X.n, 1), lambda k: p(k + 1) - p(k) >= 4 * PI)
        ctx.forall(isub(X.n, 2), lambda k: z3.And((p(k + 2) - p(k + 1)) / (p(k + 1) - p(k)) <= Fraction_(3, 2),
                                                 (p(k + 2) - p(k + 1)) / (p(k + 1) - p(k)) >= 1 / Fraction_(3, 2)))

    def no_jumps(c, a, k):      # by the contract of drop_extrema_if_extrema_jumps
        X, q = a[1], lambda k: ph.at(a[1].at(k))
        c.prove_all("no ratio is beyond the threshold", isub(X.n, 2), lambda k: z3.And(
            (q(k + 2) - q(k + 1)) / (q(k + 1) - q(k)) <= Fraction_(3, 2), (q(k + 2) - q(k + 1)) / (q(k + 1) - q(k)) >= 1 / Fraction_(3, 2)))
        return X

    def none_close(c, a, k):    # by the contract of drop_extrema_if_too_close
        X, q = a[1], lambda k: ph.at(a[1].at(k))
        c.prove_all("no pair is too close", isub(X.n, 1), lambda k: q(k + 1) - q(k) >= 4 * PI)
        return X
    ctx.summaries[J] = no_jumps
    ctx.summaries[TC] = none_close
    out = ctx.outcome(GG, o, P, A)
    r = expect_return(ctx, "returns", out)
    same_array(ctx, "pericenters", r[0], P, P.n)
    same_array(ctx, "apocenters", r[1], A, m)


def Fraction_(a, b):
    return z3.Q(a, b)


def mn_(ctx, a, b):
    return ite(num_cmp("<=", a, b), a, b)
