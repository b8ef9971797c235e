"""C28 consistency checks report exactly the anomalies they are meant to detect."""
from .common import *
from . import contract
from .c03 import increasing_indices

MON = ED + ".check_if_first_derivative_is_not_strictly_monotonic"
SEP = ED + ".check_extrema_separation"
ALT = ED + ".check_pericenters_and_apocenters_appear_alternately"
DROP = ED + ".check_if_dropped_too_many_extrema"
MC = ED + ".check_monotonicity_and_convexity"
RNG = ED + ".get_range_from_indices"
DM = UT + "debug_message"
DEC = ED + ".derivative_of_eccentricity"
NOTE = "the wording of the messages is not specified"


def recorder(ctx):
    msgs = []
    ctx.summaries[DM] = lambda c, a, k: msgs.append(a[0] if a else k["message"])
    return msgs


def shown(msg):
    """the values a message shows."""
    return list(getattr(msg, "vals", ())) if isinstance(msg, Opaque) else []


@contract(on=[MON])
def monotonic_derivative(ctx):
    """Nonmonotonic iff some ratio of successive values of the numerical first derivative is below 1 by at least the tolerance; x and y are not modified."""
    n = ctx.length("n", 3)
    x, y = ctx.arr("x", n), ctx.arr("y", n)
    tol = ctx.real("tol")
    ctx.assume(tol > 0)
    dx = x.at(1) - x.at(0)
    ctx.assume(dx != 0)
    D = ctx.arr("derivative", n)
    last = isub(n, 1)
    # D = second order differences of y (one sided at the ends) with step dx
    ctx.assume(D.at(0) * dx == y.at(1) - y.at(0))
    ctx.assume(D.at(last) * dx == y.at(last) - y.at(isub(n, 2)))
    ctx.forall(n, lambda i: z3.Implies(z3.And(to_z3(num_cmp(">", i, 0)), to_z3(num_cmp("<", i, last))), D.at(i) * 2 * dx == y.at(i + 1) - y.at(i - 1)))
    ctx.forall(n, lambda i: D.at(i) != 0)
    ctx.watch(x)
    ctx.watch(y)
    default = ctx.choose(2)
    if default:
        tol = to_z3(Fraction(1, 100000))
        r = ctx.no_raise("call", MON, ctx.obj(ED), x, y)
    else:
        r = ctx.no_raise("call", MON, ctx.obj(ED), x, y, tol)
    ctx.frame("arguments not modified", x, y)
    res = ctx.interp.truth(r)
    bad = lambda i: D.at(i + 1) / D.at(i) <= 1 - tol
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, last))
    g = grad(ctx, y, dx, n)
    for j in (k, k + 1):
        ctx.lemma("numerical derivative", g(j) == D.at(j))
    if res:
        ctx.assume(True)
        ctx.forall(last, lambda i: z3.Not(g(i + 1) / g(i) <= 1 - tol))
        ctx.unreachable("reported nonmonotonic only if some ratio is below 1 - tol")
    else:
        ctx.prove("a ratio below 1 - tol is reported", z3.Not(g(k + 1) / g(k) <= 1 - tol))


def grad(ctx, y, dx, n):
    last = isub(n, 1)

    def g(i):
        i = to_z3(i)
        return z3.If(i == 0, (y.at(1) - y.at(0)) / dx,
                     z3.If(i == to_z3(last), (y.at(last) - y.at(isub(n, 2))) / dx, (y.at(i + 1) - y.at(i - 1)) / (2 * dx)))
    return g


@contract(on=[SEP], abstract=True, cap=1)
def separation(ctx):
    """At level 1 and above (or when always_return is set): returns the orbital phase differences and their ratios (first 0); a message iff some pair is closer than pi, another iff closer to pi than to 2 pi, another iff a ratio exceeds 1.5; below level 1 nothing is computed or reported. Phases and locations are not modified."""
    n = ctx.length("n_t", 2)
    t, ph = ctx.arr("t", n), ctx.arr("phase_gw", n)
    ctx.strictly_increasing(t)
    ctx.strictly_increasing(ph)
    X = increasing_indices(ctx, "extrema", n, 2)
    level = [-1, 0, 1, 2][ctx.choose(4)]
    always = ctx.choose(2) == 1
    msgs = recorder(ctx)
    for a in (t, ph, X):
        ctx.watch(a)
    o = ctx.obj(ED, t=t, phase_gw=ph, debug_level=level)
    r = ctx.no_raise("call", SEP, o, X, "pericenters", always_return=always)
    ctx.frame("data not modified", t, ph, X)
    if level < 1 and not always:
        ctx.prove("nothing reported below level 1", r == (None, None) and not msgs)
        return
    m = isub(X.n, 1)
    d = lambda k: (ph.at(X.at(k + 1)) - ph.at(X.at(k))) / 2
    same_array(ctx, "orbital phase differences", r[0], d, m)
    ctx.prove("ratios: length", num_cmp("==", r[1].n, m))
    ctx.prove("first ratio is 0", r[1].at(0) == 0)
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, m))
    ctx.lemma("differences positive", d(k) > 0)
    ctx.prove("ratio", z3.Or(k == 0, r[1].at(k) == d(k) / d(k - 1)))
    if len(msgs) == 0:
        ctx.prove("closer than pi is reported", d(k) >= to_z3(PI))
        ctx.prove("ratio above 1.5 is reported", z3.Or(k == 0, r[1].at(k) <= Fraction(3, 2)))
        return
    # every message corresponds to an anomaly: with none of the anomalies present there is no message
    ctx.assume(z3.BoolVal(True))
    if len(msgs) == 1 and ctx.choose(2):
        ctx.forall(m, lambda j: d(j) >= 2 * to_z3(PI))
        ctx.forall(m, lambda j: r[1].at(j) <= Fraction(3, 2))
        ctx.unreachable("no message without an anomaly")


@contract(on=[SEP], abstract=True, cap=1)
def separation_flags(ctx):
    """Each of the three messages appears iff its own condition holds somewhere."""
    n = ctx.length("n_t", 2)
    t, ph = ctx.arr("t", n), ctx.arr("phase_gw", n)
    ctx.strictly_increasing(t)
    ctx.strictly_increasing(ph)
    X = increasing_indices(ctx, "extrema", n, 2)
    m = isub(X.n, 1)
    msgs = recorder(ctx)
    o = ctx.obj(ED, t=t, phase_gw=ph, debug_level=1)
    d = lambda k: (ph.at(X.at(k + 1)) - ph.at(X.at(k))) / 2
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, m))
    case = ctx.choose(3)
    if case == 0:       # one pair closer than pi, no large ratio
        ctx.assume(d(k) < to_z3(PI))
        ctx.no_raise("call", SEP, o, X, "pericenters")
        ctx.prove("closer than pi is reported", len(msgs) >= 1)
    elif case == 1:
        ctx.assume(num_cmp(">", k, 0))
        ctx.assume(d(k) > Fraction(3, 2) * d(k - 1))
        ctx.lemma("positive", d(k - 1) > 0)
        ctx.lemma("ratio", d(k) / d(k - 1) > Fraction(3, 2))
        ctx.no_raise("call", SEP, o, X, "pericenters")
        ctx.prove("too far is reported", len(msgs) >= 1)
    else:
        ctx.assume(z3.And(d(k) >= to_z3(PI), 2 * d(k) < 3 * to_z3(PI)))
        ctx.no_raise("call", SEP, o, X, "pericenters")
        ctx.prove("closer to pi than to 2 pi is reported", len(msgs) >= 1)


@contract(on=[ALT], budget=200)
def alternation(ctx):
    """At level 1 and above: flagged exactly when pericenters and apocenters do not alternate in time; silent below."""
    n = ctx.length("n_t", 2)
    t = ctx.arr("t", n)
    ctx.strictly_increasing(t)
    P, A = increasing_indices(ctx, "pericenters", n, 1), increasing_indices(ctx, "apocenters", n, 1)
    ctx.assume(P.at(0) != A.at(0))
    level = [0, 1, -1][ctx.choose(3)]
    msgs = recorder(ctx)
    o = ctx.obj(ED, t=t, pericenters_location=P, apocenters_location=A, debug_level=level)
    ctx.watch(P)
    ctx.watch(A)
    ctx.no_raise("call", ALT, o)
    ctx.frame("locations not modified", P, A)
    if level < 1:
        ctx.prove("silent below level 1", not msgs)
        return
    nP, nA = to_z3(P.n), to_z3(A.n)
    k = ctx.int("k", 0)
    first_p = P.at(0) < A.at(0)
    if not msgs:
        ctx.instantiate(0, 2 * k, 2 * k + 1)
        ctx.prove("numbers differ by at most one", z3.And(nP - nA <= 1, nA - nP <= 1))
        if ctx.branch(first_p):
            # P0 < A0 < P1 < A1 ...
            ctx.prove("alternating: pericenter k before apocenter k", z3.Implies(z3.And(k < nP, k < nA), P.at(k) <= A.at(k)))
            ctx.prove("alternating: apocenter k before pericenter k+1", z3.Implies(z3.And(k < nA, k + 1 < nP), A.at(k) <= P.at(k + 1)))
            ctx.prove("not one more apocenter", nA <= nP)
        else:
            ctx.prove("alternating: apocenter k before pericenter k", z3.Implies(z3.And(k < nP, k < nA), A.at(k) <= P.at(k)))
            ctx.prove("alternating: pericenter k before apocenter k+1", z3.Implies(z3.And(k < nP, k + 1 < nA), P.at(k) <= A.at(k + 1)))
            ctx.prove("not one more pericenter", nP <= nA)
        return
    ctx.prove("one message", len(msgs) == 1)
    # assume alternation: the message cannot have appeared
    ctx.assume(z3.And(nP - nA <= 1, nA - nP <= 1))
    lo, hi = (P, A) if ctx.branch(first_p) else (A, P)
    ctx.assume(to_z3(num_cmp("<=", hi.n, lo.n)))
    ctx.forall(hi.n, lambda j: lo.at(j) < hi.at(j))
    ctx.forall(isub(lo.n, 1), lambda j: hi.at(j) < lo.at(j + 1))
    ctx.unreachable("alternating extrema are not flagged")


@contract(on=[DROP])
def dropped(ctx):
    """At level 1 and above flags iff more than half of the original extrema were dropped."""
    a, b = ctx.arr("original", ctx.length("n1", 0), "int"), ctx.arr("kept", ctx.length("n2", 0), "int")
    level = [0, 1, 2, -1][ctx.choose(4)]
    msgs = recorder(ctx)
    ctx.no_raise("call", DROP, ctx.obj(ED, debug_level=level), a, b, "pericenters")
    if level < 1:
        ctx.prove("silent below level 1", not msgs)
        return
    more = 2 * (to_z3(a.n) - to_z3(b.n)) > to_z3(a.n)
    ctx.prove("flagged only if more than half dropped" if msgs else "more than half dropped is flagged", more if msgs else z3.Not(more))


@contract(on=[MC, RNG])
def increasing_eccentricity(ctx):
    """A message iff the derivative of the eccentricity is positive at some checked time; it shows the first and the last such time (one time when there is one); the check of convexity does the same with the second derivative, and only on request."""
    n = ctx.length("n", 1)
    T, D1, D2 = ctx.arr("t_for_checks", n), ctx.arr("decc_dt", n), ctx.arr("d2ecc_dt2", n)
    ctx.strictly_increasing(T)
    conv = ctx.choose(2) == 1
    have = ctx.choose(2) == 1
    orders = []

    def der(c, a, k):
        order = a[2] if len(a) > 2 else k["n"]
        orders.append(order)
        c.prove("derivative at the checked times", a[1] is T)
        return D1 if order == 1 else D2
    ctx.summaries[DEC] = der
    msgs = recorder(ctx)
    o = ctx.obj(ED, t_for_checks=T, decc_dt_for_checks=D1 if have else None, d2ecc_dt_for_checks=None, debug_level=1)
    ctx.watch(D1)
    kw = {"check_convexity": True} if conv else {}
    if conv:
        ctx.forall(n, lambda i: D1.at(i) <= 0)      # only the second derivative at issue
    ctx.no_raise("call", MC, o, **kw)
    ctx.frame("derivative not modified", D1)
    ctx.prove("derivative taken once", orders == ([] if have else [1]) + ([2] if conv else []))
    D = D2 if conv else D1
    k = ctx.int("k", 0)
    ctx.assume(num_cmp("<", k, n))
    if not msgs:
        ctx.prove("increase is reported", D.at(k) <= 0)
        return
    ctx.prove("one message", len(msgs) == 1)
    r = [v for v in shown(msgs[0]) if isinstance(v, (PyList, tuple, Arr)) or is_z3(v)]
    ctx.prove("shows the times", len(r) >= 1)
    v = r[-1]
    if isinstance(v, PyList):
        v = tuple(v.l)
    first, last = (v[0], v[-1]) if isinstance(v, tuple) else (v, v)
    first, last = to_z3(first), to_z3(last)
    ctx.prove("no positive derivative before the first time", z3.Implies(D.at(k) > 0, T.at(k) >= first))
    ctx.prove("none after the last time", z3.Implies(D.at(k) > 0, T.at(k) <= last))
    for nm, x in (("first", first), ("last", last)):
        ctx.forall(n, lambda i: z3.Implies(T.at(i) == x, D.at(i) <= 0))
        ctx.unreachable(nm + " time is one where the eccentricity increases") if nm == "last" else None


@contract(on=[RNG])
def range_from_indices(ctx):
    """The first and last of the given times; a single time when there is one index."""
    n = ctx.length("n", 1)
    T = ctx.arr("times", n)
    I = increasing_indices(ctx, "indices", n, 1)
    r = ctx.no_raise("call", RNG, ctx.obj(ED), I, T)
    if isinstance(r, PyList):
        r = tuple(r.l)
    if isinstance(r, tuple):
        ctx.prove("two ends", len(r) == 2)
        ctx.prove("first and last", z3.And(to_z3(r[0]) == T.at(I.at(0)), to_z3(r[1]) == T.at(I.at(isub(I.n, 1)))))
    else:
        ctx.prove("one index", num_cmp("==", I.n, 1))
        ctx.prove("its time", scalar(r) == T.at(I.at(0)))
