"""C21 batch post-processing isolates failures and keeps samples aligned."""
from .common import *
from . import contract
from pyvc.npmodel import StructVal
from pyvc.interp import Ext, PyRaise, LazyList, Unsupported

CO = "postprocess.core:"
PP = "postprocess.postprocess:PostProcess"
SAMPLE, FREF, DATA, FILTER = (CO + x for x in ("postprocess_sample", "get_fref_bounds_for_sample", "get_data_dict", "filter_posterior_columns"))
MEASURE = "gw_eccentricity:measure_eccentricity"
RESULTS, FRESULTS = CO + "PostProcessResults", CO + "FrefBoundsResults"
NOTE = "single samples proved for all inputs and all exceptions; batches, their bounds and summaries for any number of samples (and once more for up to 4, with every mixture of outcomes); pandas and joblib by assumed contracts"

KINDS = [ValueError, KeyError, IndexError, TypeError, RuntimeError, ZeroDivisionError, AssertionError, Exception]


class Waveforms:
    """data_dict_generator and measure_eccentricity: any values, or an exception."""

    def __init__(self, ctx, fref=False):
        self.ctx, self.gen_calls, self.meas_calls, self.fate = ctx, [], [], {}
        self.kinds, self.fref = KINDS, fref
        self.gen = Ext("data_dict_generator", self.generate)
        ctx.summaries[MEASURE] = self.measure

    def sample(self, i, fates=None):
        c = self.ctx
        p = c.dict({"eccentricity": c.real(f"par{i}")})
        f = c.choose(4) if fates is None else fates[c.choose(len(fates))]
        d = dict(i=i, params=p, fate=f, data=c.dict({"t": c.real(f"t{i}")}), kind=self.kinds[c.choose(len(self.kinds))] if f in (1, 3) else None,
                 ecc=c.real(f"e{i}"), mean=c.real(f"l{i}"), lo=c.real(f"fmin{i}"), hi=c.real(f"fmax{i}"), msg=f"reason {i}")
        self.fate[id(p)] = d
        return d

    def generate(self, c, a, k):
        p = a[0] if a else k["params"]
        d = self.fate[id(p)]
        self.gen_calls.append((d["i"], a, k))
        if d["fate"] == 1:
            raise PyRaise(d["kind"], (d["msg"],))
        if d["fate"] == 2:
            return c.list([1])
        return d["data"]

    def measure(self, c, a, k):
        d = [x for x in self.fate.values() if x["data"] is k["dataDict"]]
        c.prove("data made from the sample's parameters", len(d) == 1)
        d = d[0]
        self.meas_calls.append((d["i"], k))
        if d["fate"] == 3:
            raise PyRaise(d["kind"], (d["msg"],))
        g = StructVal("gwecc_object", {"get_fref_bounds": Ext("get_fref_bounds", lambda c_, a_, k_: (d["lo"], d["hi"]))})
        return c.dict({"eccentricity": d["ecc"], "mean_anomaly": d["mean"], "gwecc_object": g})

    def post(self, r, d):
        c = self.ctx
        at = r.attrs
        c.prove("own sample index", at["sample_index"] is d["idx"] or num_cmp("==", at["sample_index"], d["idx"]))
        names = ("fref_min", "fref_max") if self.fref else ("egw", "lgw")
        vals = (d["lo"], d["hi"]) if self.fref else (d["ecc"], d["mean"])
        if d["fate"] == 0:
            c.prove("success with the values of this sample", at["status"] == "success" and all(at[n] is v for n, v in zip(names, vals)) and at["error_message"] is None)
        else:
            c.prove("failed entry without values", at["status"] == "fail" and all(at[n] is None for n in names))
            m = at["error_message"]
            if d["fate"] == 2:
                c.prove("error text", m is not None)
            else:
                c.prove("the error text", d["msg"] in (m if isinstance(m, str) else getattr(m, "text", "")))


@contract(on=[SAMPLE, DATA], paths=2000)
def one_sample(ctx):
    """A sample whose waveform generation or measurement raises (any exception) gives a failed entry with the error text and no values, otherwise the eccentricity and mean anomaly measured on its own data at the given reference point with the given method and options; exactly one of reference time and frequency must be given."""
    w = Waveforms(ctx)
    d = w.sample(0)
    d["idx"] = ctx.int("sample_index")
    given = ctx.choose(4)
    tref, fref = ctx.real("tref") if given & 1 else None, ctx.real("fref") if given & 2 else None
    opt = ctx.real("option")
    extra, gk = ctx.dict({"delta": ctx.real("delta")}), ctx.dict({"opt": opt}) if ctx.choose(2) else None
    ex = extra if ctx.choose(2) else None
    out = ctx.outcome(SAMPLE, sample_index=d["idx"], params=d["params"], tref=tref, fref=fref, data_dict_generator=w.gen,
                      data_dict_generator_extra_kwargs=ex, method="M", gw_eccentricity_kwargs=gk)
    if given in (0, 3):
        expect_raise(ctx, "exactly one reference", out)
        ctx.prove("nothing evaluated", not w.gen_calls and not w.meas_calls)
        return
    r = expect_return(ctx, "never raises for a failing sample", out)
    w.post(r, d)
    ctx.prove("generated once from the sample's parameters", len(w.gen_calls) == 1 and (w.gen_calls[0][1] or [w.gen_calls[0][2].get("params")])[0] is d["params"])
    a = w.gen_calls[0][1]
    if len(a) == 2:
        ctx.prove("with the extra options", a[1] is ex if ex is not None else isinstance(a[1], PyDict) and not a[1].d)
    if d["fate"] in (0, 3):
        k = w.meas_calls[0][1]
        ctx.prove("measured once at the reference given", len(w.meas_calls) == 1 and k.get("tref_in") is tref and k.get("fref_in") is fref)
        ctx.prove("with the method and options given", k["method"] == "M" and (k.get("opt") is opt if gk is not None else "opt" not in k))


@contract(on=[FREF, DATA], paths=2000)
def one_sample_bounds(ctx):
    """The same for the frequency range of a sample."""
    w = Waveforms(ctx, fref=True)
    d = w.sample(0)
    d["idx"] = ctx.int("sample_index")
    gk = ctx.dict({"opt": ctx.real("option")}) if ctx.choose(2) else None
    r = ctx.no_raise("never raises", FREF, d["idx"], d["params"], w.gen, None, "M", gk)
    w.post(r, d)
    if d["fate"] in (0, 3):
        k = w.meas_calls[0][1]
        ctx.prove("measured on its data", len(w.meas_calls) == 1 and k["method"] == "M" and k.get("tref_in") is d["data"].d["t"])


def posterior(ctx, rows):
    """contract of the pandas DataFrame used: index, loc[list] in that order, to_dict('records')."""
    def loc(c, a, k):
        want = a[0]
        sel = [next(q["params"] for q in rows if q["idx"] == x) for x in want.l]
        return StructVal("DataFrame", {"to_dict": Ext("to_dict", lambda c_, a_, k_: c.list(sel)), "index": c.list(list(want.l))})
    return StructVal("DataFrame", {"index": ctx.list([q["idx"] for q in rows]), "loc": StructVal("loc", {"__getitem__": Ext("loc", loc)})})


def batch(ctx, fref):
    w = Waveforms(ctx, fref)
    w.kinds = KINDS[:2]
    n = ctx.choose(4)
    rows = [w.sample(i, [0, 1, 3]) for i in range(n)]
    for q, idx in zip(rows, (7, 3, 11, 5)):
        q["idx"] = idx
    sel = list(rows) if ctx.choose(2) else rows[::-1][: max(0, n - 1)]
    samples = None if sel == rows and ctx.choose(2) else ctx.list([q["idx"] for q in sel])
    o = ctx.obj(PP, partial=True)
    o.attrs.update(posterior=posterior(ctx, rows), data_dict_generator=w.gen, data_dict_generator_extra_kwargs=ctx.dict({}), postprocess_result=None)
    return w, o, sel, samples


@contract(on=[f"{PP}.postprocess", SAMPLE, f"{PP}.postprocess_summary"], bounded="up to 3 samples, every subset failing", paths=4000, budget=200)
def batches(ctx):
    """One entry per sample, in the order requested, each with its own index and the values from its own parameters, whichever samples fail; exactly one reference must be given."""
    w, o, sel, samples = batch(ctx, False)
    given = ctx.choose(4) if not sel else 1 + ctx.choose(2)
    tref, fref = ctx.real("tref") if given & 1 else None, ctx.real("fref") if given & 2 else None
    out = ctx.outcome(f"{PP}.postprocess", o, tref=tref, fref=fref, samples=samples, method="M", n_jobs=1)
    if given in (0, 3):
        expect_raise(ctx, "exactly one reference", out)
        return
    r = expect_return(ctx, "failures do not escape", out)
    l = r.attrs["results"].l
    ctx.prove("one entry per sample", len(l) == len(sel))
    for e, q in zip(l, sel):
        w.post(e, q)
    ctx.prove("each sample evaluated once", sorted(i for i, _, _ in w.gen_calls) == sorted(q["i"] for q in sel))
    ctx.prove("result kept", o.attrs["postprocess_result"] is r)


@contract(on=[f"{PP}.get_fref_bounds", FREF], bounded="up to 3 samples, every subset failing", paths=4000, budget=200)
def bounds_batches(ctx):
    """The same for the frequency ranges."""
    w, o, sel, samples = batch(ctx, True)
    r = ctx.no_raise("call", f"{PP}.get_fref_bounds", o, samples=samples, method="M", n_jobs=1)
    l = r.attrs["results"].l
    ctx.prove("one entry per sample", len(l) == len(sel))
    for e, q in zip(l, sel):
        w.post(e, q)


def entries(ctx, cls, names, n):
    out = []
    for i in range(n):
        ok = ctx.choose(2)
        o = ctx.obj(CO + cls)
        v = {m: (ctx.real(f"{m}{i}") if ok else None) for m in names}
        o.attrs.update(sample_index=ctx.int(f"idx{i}"), status="success" if ok else "fail", error_message=None if ok else "why", **v)
        out.append(o)
    return out


@contract(on=[f"{RESULTS}.get_summary", f"{RESULTS}.success_only", f"{FRESULTS}.get_summary", f"{FRESULTS}.success_only", f"{FRESULTS}.get_minmax_fref"], bounded="up to 4 samples", paths=2000)
def summaries(ctx):
    """All samples counted, success percentage 100*successes/total, successful values only, in order; the common range is (largest minimum, smallest maximum) and raises without a successful sample."""
    fref = ctx.choose(2)
    names = ("fref_min", "fref_max") if fref else ("egw", "lgw")
    n = 1 + ctx.choose(4)
    l = entries(ctx, "FrefBoundsResult" if fref else "PostProcessResult", names, n)
    o = ctx.obj(FRESULTS if fref else RESULTS)
    o.attrs["results"] = ctx.list(list(l))
    s = ctx.no_raise("summary", (FRESULTS if fref else RESULTS) + ".get_summary", o)
    good = [e for e in l if e.attrs["status"] == "success"]
    ctx.prove("all samples counted", num_cmp("==", s.d["total_samples"], n))
    ctx.prove("success percentage", num_cmp("==", s.d["success_percentage"], Fraction(100 * len(good), n)))
    for m in names:
        ctx.prove(f"{m}: successful values in order", [id(v) for v in s.d[m].l] == [id(e.attrs[m]) for e in good])
    only = ctx.no_raise("successful entries", (FRESULTS if fref else RESULTS) + ".success_only", o)
    ctx.prove("successful entries in order", [id(e) for e in only.l] == [id(e) for e in good])
    if fref:
        out = ctx.outcome(FRESULTS + ".get_minmax_fref", o)
        if not good:
            expect_raise(ctx, "no successful sample", out)
            return
        lo, hi = expect_return(ctx, "range", out)
        mins, maxs = [to_z3(e.attrs["fref_min"]) for e in good], [to_z3(e.attrs["fref_max"]) for e in good]
        ctx.prove("largest minimum", z3.And(z3.Or(*[to_z3(lo) == v for v in mins]), *[to_z3(lo) >= v for v in mins]))
        ctx.prove("smallest maximum", z3.And(z3.Or(*[to_z3(hi) == v for v in maxs]), *[to_z3(hi) <= v for v in maxs]))


@contract(on=[FILTER], bounded="four column names", paths=2000)
def columns(ctx):
    """Exactly the requested columns of the posterior are selected; a missing column raises."""
    have = [k for k in "abcd" if ctx.choose(2)]
    want = [k for k in "dcba" if ctx.choose(2)]
    asked = []

    def get(c, a, k):
        asked.append(list(a[0].l))
        return StructVal("DataFrame", {"copy": Ext("copy", lambda c_, a_, k_: "the copy")})
    df = StructVal("DataFrame", {"columns": ctx.list(have), "__getitem__": Ext("getitem", get)})
    out = ctx.outcome(FILTER, df, ctx.list(want))
    if set(want) - set(have):
        expect_raise(ctx, "missing column", out)
        return
    r = expect_return(ctx, "selection", out)
    ctx.prove("exactly these columns, copied", asked == [want] and r == "the copy")


# ------------------------------------------------------------ any number of samples
class Samples(Waveforms):
    """any number of samples, each failing in any way or not; sample k has its own index, parameters and values."""

    def __init__(self, ctx, fref=False):
        super().__init__(ctx, fref)
        self.kinds = KINDS[:1]
        self.made = {}
        c = self.ctx
        self.F = {q: z3.Function(c.fresh_name(q), z3.IntSort(), z3.RealSort()) for q in ("par", "t", "ecc", "mean", "lo", "hi")}
        self.fated = z3.Function(c.fresh_name("fate"), z3.IntSort(), z3.IntSort())

    def of(self, label):
        """the sample with this label of the posterior."""
        lab = conc(z3.simplify(to_z3(label)))
        key = str(lab)
        if key not in self.made:
            c, x = self.ctx, to_z3(lab)
            f = self.fated(x)
            fate = 0 if c.branch(f == 0) else 1 if c.branch(f == 1) else 3
            v = {q: self.F[q](x) for q in self.F}
            d = dict(i=key, params=c.dict({"eccentricity": v["par"]}), fate=fate, data=c.dict({"t": v["t"]}), kind=self.kinds[0] if fate else None,
                     ecc=v["ecc"], mean=v["mean"], lo=v["lo"], hi=v["hi"], msg=f"reason {key}", idx=lab)
            self.made[key] = self.fate[id(d["params"])] = d
        return self.made[key]


def any_batch(ctx, fref):
    w = Samples(ctx, fref)
    n = ctx.int("rows", 0)
    label = z3.Function(ctx.fresh_name("label"), z3.IntSort(), z3.IntSort())
    index = LazyList(ctx, n, lambda k: label(to_z3(k)))
    want = index
    if ctx.choose(2):
        pick = z3.Function(ctx.fresh_name("pick"), z3.IntSort(), z3.IntSort())
        want = LazyList(ctx, ctx.int("requested", 0), lambda k: pick(to_z3(k)))

    def loc(c, a, k):
        sel = a[0]
        if not isinstance(sel, LazyList):
            raise Unsupported("selection of rows")
        rec = LazyList(c, sel.n, lambda q: w.of(sel.at(q))["params"])
        return StructVal("DataFrame", {"to_dict": Ext("to_dict", lambda c_, a_, k_: rec), "index": sel})
    o = ctx.obj(PP, partial=True)
    o.attrs.update(posterior=StructVal("DataFrame", {"index": index, "loc": StructVal("loc", {"__getitem__": Ext("loc", loc)})}),
                   data_dict_generator=w.gen, data_dict_generator_extra_kwargs=ctx.dict({}), postprocess_result=None)
    return w, o, want, None if want is index else want


def one_entry_each(ctx, w, r, want):
    l = r.attrs["results"]
    if not isinstance(l, LazyList):
        raise Unsupported("results not one list of any length")
    ctx.prove("one entry per sample", to_z3(l.n) == to_z3(want.n))
    k = ctx.int("k", 0)
    ctx.assume(k < to_z3(want.n))
    d = w.of(want.at(k))
    e = l.at(k)
    w.post(e, d)
    ctx.prove("evaluated once", [i for i, _, _ in w.gen_calls].count(d["i"]) == 1)


@contract(on=[f"{PP}.postprocess", SAMPLE], paths=2000)
def batches_of_any_size(ctx):
    """For any number of samples, in any order, whichever fail: entry k carries the index and the values of the k-th sample requested (all samples of the posterior when none are named)."""
    w, o, want, samples = any_batch(ctx, False)
    tref, fref = (ctx.real("tref"), None) if ctx.choose(2) else (None, ctx.real("fref"))
    r = expect_return(ctx, "failures do not escape", ctx.outcome(f"{PP}.postprocess", o, tref=tref, fref=fref, samples=samples, method="M", n_jobs=1))
    ctx.prove("result kept", o.attrs["postprocess_result"] is r)
    one_entry_each(ctx, w, r, want)
    k = w.meas_calls
    ctx.prove("at the reference given", all(q.get("tref_in") is tref and q.get("fref_in") is fref and q["method"] == "M" for _, q in k))


@contract(on=[f"{PP}.get_fref_bounds", FREF], paths=2000)
def bounds_batches_of_any_size(ctx):
    """The same for the frequency ranges."""
    w, o, want, samples = any_batch(ctx, True)
    r = ctx.no_raise("call", f"{PP}.get_fref_bounds", o, samples=samples, method="M", n_jobs=1)
    one_entry_each(ctx, w, r, want)


@contract(on=[f"{RESULTS}.get_summary", f"{RESULTS}.success_only", f"{FRESULTS}.get_summary", f"{FRESULTS}.success_only", f"{FRESULTS}.get_minmax_fref"], paths=2000)
def summaries_of_any_size(ctx):
    """For any number of samples: all counted; the successful values are exactly those of the successful entries, in order; percentage 100*successes/total; the common range is the largest minimum and the smallest maximum over every successful entry."""
    fref = ctx.choose(2)
    names = ("fref_min", "fref_max") if fref else ("egw", "lgw")
    n = ctx.int("n", 1)
    good = z3.Function(ctx.fresh_name("success"), z3.IntSort(), z3.BoolSort())
    F = {m: z3.Function(ctx.fresh_name(m), z3.IntSort(), z3.RealSort()) for m in names}

    def entry(k):
        k = to_z3(k)
        ok = ctx.branch(good(k))
        o = ctx.obj(CO + ("FrefBoundsResult" if fref else "PostProcessResult"))
        o.attrs.update(sample_index=k, status="success" if ok else "fail", error_message=None if ok else "why", **{m: F[m](k) if ok else None for m in names})
        return o
    l = LazyList(ctx, n, entry)
    cls = FRESULTS if fref else RESULTS
    o = ctx.obj(cls)
    o.attrs["results"] = l
    s = ctx.no_raise("summary", cls + ".get_summary", o)
    only = ctx.no_raise("successful entries", cls + ".success_only", o)
    if not all(isinstance(x, LazyList) for x in (only, s.d[names[0]], s.d[names[1]])):
        raise Unsupported("selection of the successful entries")
    sel = only.source
    if sel not in [f for _, f in l.filters]:
        raise Unsupported("selection of the successful entries")
    k = ctx.int("k", 0)
    ctx.assume(k < n)
    j = sel.locate(k)
    ctx.prove("exactly the successful entries are selected", good(k) if j is not None else z3.Not(good(k)))
    ctx.prove("all samples counted", to_z3(s.d["total_samples"]) == n)
    ctx.prove("success percentage", to_z3(num_cmp("==", s.d["success_percentage"], num_binop("/", num_binop("*", 100, sel.n, ctx), n, ctx))))
    ctx.prove("as many values as successes", z3.And(*[to_z3(x.n) == to_z3(sel.n) for x in (only, s.d[names[0]], s.d[names[1]])]))
    if j is not None:
        ctx.prove("the entry itself, in its place", only.at(j) is l.at(sel.pos(j)))
        for m in names:
            ctx.prove(f"{m}: the value of the entry, in its place", to_z3(s.d[m].at(j)) == F[m](k))
    if fref:
        out = ctx.outcome(FRESULTS + ".get_minmax_fref", o)
        if out[0] != "return":
            ctx.prove("raises only without a successful entry", j is None)
            ctx.prove("raises only when nothing was selected", to_z3(sel.n) == 0)
            return
        lo, hi = out[1]
        for src, _ in ctx.extremes:
            if j is not None:
                src.at(j)
        if j is not None:
            ctx.prove("not below any minimum", to_z3(lo) >= F["fref_min"](k))
            ctx.prove("not above any maximum", to_z3(hi) <= F["fref_max"](k))
        seen = [e.attrs["sample_index"] for e in list(l.memo.values())]
        for v, m in ((lo, "fref_min"), (hi, "fref_max")):
            ctx.prove(f"one of the successful {m}", z3.Or(*[z3.And(good(q), to_z3(v) == F[m](q)) for q in seen]))


@contract(on=["postprocess.postprocess_cli:extract_batch_data"])
def batch_contents(ctx):
    """For a batch of any size: the sample indices and the parameters of its items, in order."""
    n = ctx.int("n", 0)
    S = z3.Function(ctx.fresh_name("sample"), z3.IntSort(), z3.IntSort())
    P = {}
    l = LazyList(ctx, n, lambda k: (k, S(to_z3(k)), P.setdefault(str(k), ctx.dict({}))))
    a, b = ctx.no_raise("call", "postprocess.postprocess_cli:extract_batch_data", l)
    if not (isinstance(a, LazyList) and isinstance(b, LazyList)):
        raise Unsupported("contents of the batch")
    k = ctx.int("k", 0)
    ctx.assume(k < n)
    ctx.prove("as many", z3.And(to_z3(a.n) == n, to_z3(b.n) == n))
    ctx.prove("in order", z3.And(to_z3(a.at(k)) == S(k), z3.BoolVal(b.at(k) is l.at(k)[2])))
