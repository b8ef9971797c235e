"""C20 the adaptive rational fit returns a monotonic fit with the degrees it records."""
from .common import *
from . import contract
from pyvc.interp import LoopSpec, Ext
from .c19 import reduced

U = "utils:"
ADAPT, APPROX, CHECK, INTERP = (f"{ED}.{x}" for x in ("get_rational_fit_for_extrema", "get_approximate_degree_for_rational_fit",
                                                       "check_if_first_derivative_is_not_strictly_monotonic", "get_omega_gw_extrema_interpolant"))
FIT, SPL = U + "get_rational_fit", U + "get_interpolant"


@contract(on=[APPROX])
def starting_degrees(ctx):
    """(3,3) up to 20 extrema of the more frequent kind, (4,4) up to 40, (5,5) up to 60, (6,6) beyond."""
    a, b = ctx.length("pericenters", 0), ctx.length("apocenters", 0)
    o = ctx.obj(ED, partial=True)
    o.attrs.update(pericenters_location=ctx.arr("p", a, "int"), apocenters_location=ctx.arr("q", b, "int"))
    r = ctx.no_raise("call", APPROX, o)
    k = z3.If(to_z3(a) >= to_z3(b), to_z3(a), to_z3(b))
    e = z3.If(k <= 20, 3, z3.If(k <= 40, 4, z3.If(k <= 60, 5, 6)))
    ctx.prove("degrees", z3.And(to_z3(r[0]) == e, to_z3(r[1]) == e, len(r) == 2))


class World:
    """the fits made, each with its degrees and (arbitrary) outcome of the monotonicity check."""

    def __init__(self, ctx, n, start, user):
        self.ctx, self.fits, self.checks, self.splines = ctx, [], [], []
        self.x, self.y = ctx.arr("x", n), ctx.arr("y", n)
        self.t = ctx.arr("t", ctx.length("nt", 2))
        ctx.assume(self.t.at(1) > self.t.at(0))
        ctx.assume(self.x.at(0) < self.x.at(isub(n, 1)))
        self.n = n
        self.tol, self.maxit, self.verbose = ctx.real("tol"), ctx.int("max_iterations"), ctx.real("verbose")
        o = self.o = ctx.obj(ED, partial=True)
        self.kw0 = ctx.dict(dict(degrees=start if user else None, tol=self.tol, max_iterations=self.maxit, verbose=self.verbose))
        self.name = ["pericenters", "apocenters", "omega_gw_average"][0]
        self.hist = {k: ctx.dict({}) for k in ("pericenters", "apocenters")}
        self.degs = ctx.dict({"pericenters": None, "apocenters": "untouched"})
        o.attrs.update(special_interp_kwargs_for_omega_gw_extrema=self.kw0, t=self.t, debug_level=0,
                       rational_fit_nonmonotonicity_history=ctx.dict(dict(self.hist)), rational_fit_degrees=self.degs,
                       extra_kwargs=ctx.dict({"use_only_these_many_orbits": ctx.int("orbits") if ctx.choose(2) else None}))
        self.start = start
        ctx.summaries[APPROX] = lambda c, a, k: start
        ctx.summaries[FIT] = self.make
        ctx.summaries[SPL] = self.spline
        ctx.summaries[CHECK] = self.check
        for a in (self.x, self.y, self.t):
            ctx.watch(a)

    def fit(self, deg, flag=None):
        c = self.ctx
        e = Ext("fit", lambda c_, a, k: self.value(e, a[0]))
        e.deg, e.flag = deg, (c.bool("nonmonotonic") if flag is None else flag)
        return e

    def value(self, e, xs):
        v = self.ctx.arr("values", xs.n)
        v.src, v.xs = e, xs
        return v

    def make(self, c, a, k):
        kw = k.get("rational_fit_kwargs", a[2] if len(a) > 2 else None)
        c.prove("fit of the given points", a[0] is self.x and a[1] is self.y)
        c.prove("user's settings used", all(kw.d[q] is v for q, v in (("tol", self.tol), ("max_iterations", self.maxit), ("verbose", self.verbose))))
        d = kw.d["degrees"]
        c.prove("enough points for the degrees", to_z3(d[0]) + to_z3(d[1]) + 1 < to_z3(self.n))
        e = self.fit((d[0], d[1]))
        self.fits.append(e)
        return e

    def spline(self, c, a, k):
        c.prove("spline through the same points", a[0] is self.x and a[1] is self.y)
        e = Ext("spline", lambda c_, a, k: None)
        self.splines.append(e)
        return e

    def check(self, c, a, k):
        xs, v = a[-3:-1] if len(a) == 4 or not isinstance(a[-1], Arr) else a[-2:]
        tol = k.get("tol", a[-1] if not isinstance(a[-1], Arr) else None)
        c.prove("checked on the values of a fit", getattr(v, "src", None) is not None and v.xs is xs)
        c.prove("from the first extremum on", xs.at(0) == self.x.at(0))
        dt = self.t.at(1) - self.t.at(0)
        i = c.int("i", 0)
        c.prove("on points no coarser than the data", z3.Implies(to_z3(num_cmp("<", iadd(i, 1), xs.n)), xs.at(iadd(i, 1)) - xs.at(i) <= 2 * dt))
        c.prove("with the tolerance 1", tol is not None and num_cmp("==", tol, 1))
        e = v.src
        self.checks.append(e)
        return e.flag

    def post(self, r):
        c = self.ctx
        rec = self.degs.d["pericenters"]
        kw = self.o.attrs["special_interp_kwargs_for_omega_gw_extrema"]
        c.prove("recorded degrees kept for later", kw.d["degrees"] is rec or kw.d["degrees"] == rec)
        c.prove("the settings passed in are not modified", self.kw0.writes == 0 and (kw is not self.kw0))
        c.prove("other kinds of extrema untouched", self.degs.d["apocenters"] == "untouched" and not self.hist["apocenters"].d and not self.hist["apocenters"].log)
        c.frame("data not modified", self.x, self.y, self.t)
        if r in self.splines:
            c.prove("spline: recorded degrees None", rec is None)
            last = self.checks[-1]
            c.prove("spline only after the lowest degrees failed", z3.And(to_z3(last.deg[0]) <= 1, to_z3(last.deg[1]) <= 1, last.flag))
            return
        c.prove("a rational fit", getattr(r, "deg", None) is not None)
        c.prove("checked to be monotonic", z3.Not(r.flag))
        c.prove("recorded degrees are those of the fit", rec is not None and z3.And(to_z3(rec[0]) == to_z3(r.deg[0]), to_z3(rec[1]) == to_z3(r.deg[1])))


def low(d):
    return max(d[0] - 1, 1), max(d[1] - 1, 1)


@contract(on=[ADAPT, RED := "rational_fit:get_reduced_degrees", "rational_fit:is_underdetermined"], paths=6000, budget=300,
          bounded="starting degrees up to 3, at most 9 points; every sequence of outcomes")
def every_outcome_sequence(ctx):
    """For every sequence of outcomes of the monotonicity check: the fit returned was checked to be monotonic and has the recorded degrees, or is the spline after the lowest degrees failed; degrees go down in steps of one to at least one while nonmonotonic, up in steps of one while monotonic and determined; every degree tried is recorded with its outcome."""
    N = 2 + ctx.choose(8)
    k = ctx.choose(10)
    start = [(3, 3), (2, 2), (1, 1), (0, 0), (3, 1), (1, 3), (0, 2), (2, 0), (3, 0), (3, 2)][k]
    w = World(ctx, N, start, user=bool(ctx.choose(2)) if k == 0 else True)
    r = ctx.no_raise("call", ADAPT, w.o, w.x, w.y, data_name="pericenters")
    w.post(r)
    d = start
    turn = True
    while d[0] + d[1] + 1 >= N:
        if turn and d[1] or not d[0]:
            d = (d[0], d[1] - 1)
        else:
            d = (d[0] - 1, d[1])
        turn = not turn
    ctx.prove("every fit is checked", w.checks == w.fits)
    ctx.prove("starting degrees, reduced when there are too few points", w.fits[0].deg == d)
    flags = [ctx.entailed(f.flag) for f in w.fits]
    degs = [f.deg for f in w.fits]
    for i in range(1, len(degs)):
        e = low(degs[i - 1]) if flags[0] else (degs[i - 1][0] + 1, degs[i - 1][1] + 1)
        ctx.prove("steps of one", degs[i] == e)
        ctx.prove("continues only while nonmonotonic / monotonic", flags[i - 1] == flags[0])
    if flags[0]:
        ctx.prove("lowered until monotonic or the lowest", not flags[-1] or max(degs[-1]) <= 1)
    else:
        ctx.prove("raised until nonmonotonic or too few points", flags[-1] or sum(degs[-1]) + 3 >= N)
        mono = [f for f, g in zip(w.fits, flags) if not g]
        ctx.prove("the last monotonic fit", r is mono[-1])
    h = w.hist["pericenters"]
    ctx.prove("every degree tried is recorded", not h.log and set(h.d) == set(degs))
    for f in w.fits:
        ctx.prove("recorded with its outcome", (h.d[f.deg] is f.flag) or to_z3(h.d[f.deg]) == f.flag)


@contract(on=[ADAPT, "rational_fit:is_underdetermined"], soft=True, paths=200)
def any_degrees(ctx):
    """For all starting degrees and numbers of points (loop invariants): the fit returned was checked to be monotonic and has the recorded degrees, or is the spline after the lowest degrees failed; both searches terminate."""
    m, n, N = ctx.int("m", 0), ctx.int("n", 0), ctx.length("N", 2)
    w = World(ctx, N, (m, n), user=bool(ctx.choose(2)))

    def red(c, a, k):      # contract of get_reduced_degrees (C19)
        p, q = c.int("mr", 0), c.int("nr", 0)
        c.assume(z3.And(p + q + 2 == to_z3(N)))
        return (p, q)
    ctx.summaries["rational_fit:get_reduced_degrees"] = red

    def z(v):
        return z3.BoolVal(v) if isinstance(v, bool) else to_z3(v)

    def same(d, e):
        return z3.And(to_z3(d[0]) == to_z3(e[0]), to_z3(d[1]) == to_z3(e[1]))

    def fresh(c):
        f = w.fit((c.int("fm", 0), c.int("fn", 0)))
        return f

    def heap(c, v):
        v["kwargs"].d["degrees"] = (c.int("km", 0), c.int("kn", 0))
        w.checks.append(v["rat_fit"])

    def inv0(c, L):
        d = L["kwargs"].d["degrees"]
        return [("current degrees are those of the fit", same(d, L["rat_fit"].deg)),
                ("the flag is the outcome of the fit", z(L["fit_is_nonmonotonic"]) == z(L["rat_fit"].flag)),
                ("within the number of points", to_z3(d[0]) + to_z3(d[1]) + 1 < to_z3(N)),
                ("not negative", z3.And(to_z3(d[0]) >= 0, to_z3(d[1]) >= 0))]

    def inv1(c, L):
        return inv0(c, L) + [("the last monotonic fit is the current one", z3.And(same(L["last_monotonic_degrees"], L["last_monotonic_fit"].deg),
                                                                                  same(L["last_monotonic_degrees"], L["kwargs"].d["degrees"]),
                                                                                  z3.Not(z(L["last_monotonic_fit"].flag)),
                                                                                  z3.Not(z(L["fit_is_nonmonotonic"]))))]

    one = lambda v: z3.If(to_z3(v) > 1, to_z3(v), 1)

    def heap1(c, v):
        heap(c, v)
        v["last_monotonic_degrees"] = v["kwargs"].d["degrees"]

    ctx.loops[(ADAPT, 0)] = LoopSpec(inv0, lambda c, L: one(L["kwargs"].d["degrees"][0]) + one(L["kwargs"].d["degrees"][1]),
                                     havoc=dict(rat_fit=fresh), heap=heap, name="lowering")
    ctx.loops[(ADAPT, 1)] = LoopSpec(inv1, lambda c, L: to_z3(N) - to_z3(L["kwargs"].d["degrees"][0]) - to_z3(L["kwargs"].d["degrees"][1]),
                                     havoc=dict(rat_fit=fresh, last_monotonic_fit=fresh), heap=heap1, name="raising")
    r = ctx.no_raise("call", ADAPT, w.o, w.x, w.y, data_name="pericenters")
    w.post(r)


@contract(on=[ADAPT])
def name_needed(ctx):
    """Without the kind of the extrema it raises."""
    w = World(ctx, ctx.length("N", 2), (1, 1), True)
    expect_raise(ctx, "no name", ctx.outcome(ADAPT, w.o, w.x, w.y))


@contract(on=[INTERP])
def dispatch(ctx):
    """The envelope is built by the chosen method from the times and frequencies at the extrema of that kind and returned; fewer than two extrema or an unknown kind raises."""
    kind = ["pericenters", "apocenters", "extrema"][ctx.choose(3)]
    method = ["rational_fit", "spline"][ctx.choose(2)]
    nt = ctx.length("nt", 2)
    t, om = ctx.arr("t", nt), ctx.arr("omega_gw", nt)
    k = {q: ctx.length("n" + q, 0) for q in ("pericenters", "apocenters")}
    loc = {q: ctx.arr(q, k[q], "int") for q in k}
    for q in k:
        ctx.forall(k[q], lambda i, q=q: z3.And(loc[q].at(i) >= 0, loc[q].at(i) < to_z3(nt)))
    calls = []
    env = Ext("envelope", lambda c, a, kw: c.arr("envelope_values", a[0].n))

    def maker(nm):
        return Ext(nm, lambda c, a, kw: calls.append((nm, a, kw)) or env)
    o = ctx.obj(ED, partial=True)
    sk = ctx.dict({})
    o.attrs.update(t=t, omega_gw=om, pericenters_location=loc["pericenters"], apocenters_location=loc["apocenters"], debug_level=0,
                   available_omega_gw_extrema_interpolation_methods=ctx.dict({q: maker(q) for q in ("rational_fit", "spline")}),
                   omega_gw_extrema_interpolation_method=method, special_interp_kwargs_for_omega_gw_extrema=sk, t_for_checks=ctx.arr("t_for_checks", ctx.length("nc", 2)))
    ctx.summaries[CHECK] = lambda c, a, kw: c.bool("nonmonotonic")
    out = ctx.outcome(INTERP, o, kind)
    if kind == "extrema" or ctx.branch(num_cmp("<", k[kind], 2)):
        expect_raise(ctx, "unknown kind or too few extrema", out)
        return
    r = expect_return(ctx, "result", out)
    ctx.prove("the chosen method, once", r is env and len(calls) == 1 and calls[0][0] == method)
    _, a, kw = calls[0]
    i = ctx.int("i", 0)
    ctx.assume(num_cmp("<", i, k[kind]))
    ctx.prove("lengths", z3.And(to_z3(num_cmp("==", a[0].n, k[kind])), to_z3(num_cmp("==", a[1].n, k[kind]))))
    ctx.prove("times at the extrema", a[0].at(i) == t.at(loc[kind].at(i)))
    ctx.prove("frequencies at the extrema", a[1].at(i) == om.at(loc[kind].at(i)))
    if method == "rational_fit":
        ctx.prove("kind passed on", (a[2] if len(a) > 2 else kw.get("data_name")) == kind)
