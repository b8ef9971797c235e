"""C22 parallel post-processing handles each sample exactly once, also after a resume."""
from .common import *
from . import contract
from pyvc.core import PathEnd, Unsupported
from pyvc.interp import Ext, PyRaise, LoopSpec, LazyList
from pyvc.npmodel import Host
from pyvc import pdmodel

C = "postprocess.postprocess_cli:"
CLI = "gw_eccentricity.postprocess.postprocess_cli"
CORE = "gw_eccentricity.postprocess.core"
MASTER, WORKER, BATCH, ONE, EXTRACT, SAVE, FINAL, LOAD, WRITE = (C + x for x in (
    "master", "worker", "run_postprocess_batch", "run_postprocess", "extract_batch_data", "save_checkpoint", "save_final", "load_checkpoint", "write_df"))
SAMPLE, RESULT = "postprocess.core:postprocess_sample", "postprocess.core:PostProcessResult"
TODF = "postprocess.core:PostProcessResults.to_dataframe"
NOTE = ("the worker loop is proved for any number of batches (loop invariant); a batch for any number of samples; the master for up to 5 samples, 3 workers and every arrival order (bounded); "
        "pandas, MPI and the file system by assumed contracts (pyvc/pdmodel.py, class Comm)")
FIELDS = ("sample_index", "status", "egw", "lgw", "error_message")
INDEX = (7, 3, 11, 5, 0)


class Idle(BaseException):
    """the worker waits for a message that has not been sent yet."""


class Crash(BaseException):
    pass


class Comm(Host):
    """MPI point-to-point contract: messages arrive once, unchanged; a receive from any source returns the reply of any worker that
    has work, in any order.  Workers are the real worker function."""
    name = "comm"

    def __init__(self, w):
        super().__init__()
        self.w, self.inbox, self.stopped, self.me, self.box, self.reply = w, {}, [], 0, None, []

    def p_Get_rank(self):
        return Ext("Get_rank", lambda c, a, k: self.me)

    def m_send(self, ctx, msg, dest=None, **k):
        if self.me != 0:
            ctx.prove("workers reply to the master", dest == 0)
            self.reply.append(msg)
            return None
        ctx.prove("a message goes to a worker", isinstance(dest, int) and 1 <= dest < self.w.size)
        ctx.prove("no message to a worker that was told to stop", dest not in self.stopped)
        ctx.prove("no message to a worker that is still busy", dest not in self.inbox)
        r, n = self.run(dest, msg)
        if n:
            self.stopped.append(dest)
            ctx.prove("told to stop with nothing left to reply", not r)
        else:
            ctx.prove("one reply per batch", len(r) == 1)
            self.inbox[dest] = r[0]

    def run(self, rank, msg):
        """the real worker on one message: its replies, and whether it ended."""
        v = self.w.env
        self.me, self.box, self.reply = rank, [msg], []
        v["rank"] = rank
        try:
            self.w.ctx.call(WORKER, self.w.config)
            done = True
        except Idle:
            done = False
        finally:
            self.me = v["rank"] = 0
        return self.reply, done

    def m_recv(self, ctx, source=None, **k):
        if self.me != 0:
            if not self.box:
                raise Idle()
            return self.box.pop()
        if not self.inbox:
            ctx.fail("the master does not wait for a reply that never comes", "receive with no worker busy")
            raise PathEnd()
        ranks = sorted(self.inbox)
        return self.inbox.pop(ranks[ctx.choose(len(ranks))])


class World:
    def __init__(self, ctx, n, size=1, batch=1, every=None, fmt="csv", total=None, samples="all"):
        self.ctx, self.size, self.every, self.fmt = ctx, size, every, fmt
        self.comm = Comm(self)
        total = n if total is None else total
        self.env = pdmodel.install(ctx, [CLI, CORE], comm=self.comm, rank=0, size=size)
        self.par = {INDEX[i]: ctx.real(f"x{i}") for i in range(total)}
        self.res, self.runs = {}, []
        self.posterior = pdmodel.Frame([{"x": self.par[q]} for q in INDEX[:total]], INDEX[:total], ["x"])
        self.sel = list(INDEX[:n])
        if samples == "reversed":
            self.sel = self.sel[::-1]
        self.gen, self.gk, self.ok = Ext("gen", lambda c, a, k: None), ctx.dict({}), ctx.dict({})
        self.config = ctx.dict(dict(posterior_type="bilby", posterior_path="p", parameter_columns=None, output_dir="out", output_format=fmt, save_every=every,
                                    samples=None if samples == "all" and n == total else ctx.list(list(self.sel)), fref=None, tref=(tref := ctx.real("tref")), method="M",
                                    batch_size=batch, data_dict_generator=self.gen, data_dict_generator_extra_kwargs=self.gk, gw_eccentricity_kwargs=self.ok))
        self.tref = tref
        self.crash_at = None
        ctx.summaries[SAMPLE] = self.evaluate

    def result(self, q):
        """the result of a sample: a function of the sample."""
        if q not in self.res:
            c, good = self.ctx, q != 3
            self.res[q] = dict(sample_index=q, status="success" if good else "fail", egw=c.real(f"e{q}") if good else None, lgw=c.real(f"l{q}") if good else None,
                               error_message=None if good else "why")
        return self.res[q]

    def evaluate(self, c, a, k):
        names = ("sample_index", "params", "tref", "fref", "data_dict_generator", "data_dict_generator_extra_kwargs", "method", "gw_eccentricity_kwargs")
        k = {**dict(zip(names, a)), **k}
        q = k["sample_index"]
        c.prove("own parameters of the sample", set(k["params"].d) == {"x"} and k["params"].d["x"] is self.par.get(q))
        c.prove("the options of the run", k["tref"] is self.tref and k["fref"] is None and k["data_dict_generator"] is self.gen and k["data_dict_generator_extra_kwargs"] is self.gk
                and k["method"] == "M" and k["gw_eccentricity_kwargs"] is self.ok)
        if self.crash_at is not None and len(self.runs) == self.crash_at:
            raise Crash()
        self.runs.append(q)
        return c.obj(RESULT, **self.result(q))

    def same(self, row, q, recorded=None):
        e = recorded or self.result(q)
        return all((row.get(f) is e[f]) or (row.get(f) == e[f] and not is_z3(e[f])) for f in FIELDS)

    def go(self):
        """one run of the master; what was written, and what was evaluated."""
        c = self.ctx
        self.runs, self.comm.inbox, self.comm.stopped = [], {}, []
        c.events.clear()
        c.no_raise("the run ends normally", MASTER, self.posterior, self.config)
        return [e for e in c.events if e[0] == "file"]

    def post(self, files, have=()):
        """have: sample index -> recorded entry of the checkpoint found at the start."""
        c, have = self.ctx, dict(have)
        todo = [q for q in self.sel if q not in have]
        c.prove("each pending sample evaluated exactly once, no other", sorted(self.runs) == sorted(todo))
        c.prove("each worker told to stop exactly once", sorted(self.comm.stopped) == list(range(1, self.size)))
        c.prove("no worker left busy", not self.comm.inbox)
        last = files[-1] if files else ("file", None, None, None)
        c.prove("final table written last, in the requested format", last[1] == f"out/eccentricity_results.{self.fmt}" and last[2] == self.fmt)
        t = last[3]
        c.prove("one row per selected sample, in the order requested", [r.get("sample_index") for r in t.rows] == self.sel)
        c.prove("all columns", set(t.columns) == {"x", *FIELDS})
        for q, r in zip(self.sel, t.rows):
            c.prove("own parameters in the own row", r.get("x") is self.par[q])
            c.prove("own result in the own row", self.same(r, q, have.get(q)))
        chk = files[:-1]
        c.prove("everything else written is the checkpoint", all(f[1] == "out/checkpoint.parquet" and f[2] == "parquet" for f in chk))
        n0, n = len([q for q in have if q in self.sel]), len(todo)
        want = [] if not self.every else [n0 + k for k in range(self.every, n + 1, self.every)] + ([n0 + n] if n % self.every else [])
        c.prove("checkpoints every requested number of samples and at the end", [len(f[3].rows) for f in chk] == want)
        for f in chk:
            c.prove("a checkpoint has own results of distinct samples", len({r["sample_index"] for r in f[3].rows}) == len(f[3].rows)
                    and all(self.same(r, r["sample_index"], have.get(r["sample_index"])) for r in f[3].rows))


@contract(on=[MASTER, WORKER, BATCH, ONE, EXTRACT, SAVE, FINAL, LOAD, WRITE], paths=20000, budget=300,
          bounded="up to 5 samples, 3 workers, batches of up to 3, checkpoints every 1 to 3 samples; every arrival order")
def schedules(ctx):
    """For every number of ranks, batch size and arrival order: each sample evaluated exactly once, its result in its own row, each worker stopped exactly once after its last batch, checkpoints every requested number of samples and at the end."""
    size = 2 + ctx.choose(3)
    n = ctx.choose(6 if size < 4 else 5)
    batch = 1 + ctx.choose(3)
    every = [None, 1, 2, 3][ctx.choose(4)] if n > 1 else [None, 1][ctx.choose(2)]
    w = World(ctx, n, size, batch, every)
    w.post(w.go())


@contract(on=[MASTER, ONE, SAVE, FINAL, LOAD, WRITE, TODF], paths=3000, bounded="up to 4 samples")
def one_process(ctx):
    """The same without workers, in every output format and for any selection."""
    n, fmt = ctx.choose(5), ["csv", "json", "parquet"][ctx.choose(3)]
    w = World(ctx, n, 1, 1, [None, 1, 2, 3, 9][ctx.choose(5)], fmt, total=n + ctx.choose(2), samples=["all", "reversed"][ctx.choose(2)])
    w.post(w.go())


@contract(on=[MASTER, WORKER, SAVE, FINAL, LOAD], paths=6000, budget=200, bounded="3 samples, every subset recorded, up to 2 workers")
def resume(ctx):
    """Samples found in a checkpoint (successes and failures) are not evaluated again and keep their recorded result; rows of samples that are not selected are ignored; a checkpoint lacking required columns is ignored."""
    n, size = 3, 1 + ctx.choose(3)
    lack = ctx.choose(3)
    w = World(ctx, n, size, 1 + (ctx.choose(2) if size == 2 else 0), [None, 2][ctx.choose(2)], samples=["all", "reversed"][0 if lack else ctx.choose(2)])
    have = {}
    for i in range(n):
        s = 1 + i % 2 if lack else ctx.choose(3)
        if s:
            q = INDEX[i]
            have[q] = dict(sample_index=q, status="success" if s == 1 else "fail", egw=ctx.real(f"recorded_e{i}") if s == 1 else None,
                           lgw=ctx.real(f"recorded_l{i}") if s == 1 else None, error_message=None if s == 1 else "recorded reason")
    rows = list(have.values())[::-1]
    if ctx.choose(2) if size == 1 else 1:
        rows.append(dict(sample_index=99, status="success", egw=ctx.real("other"), lgw=ctx.real("other_l"), error_message=None))
    cols = [f for f in FIELDS if f != (None, "status", "sample_index")[lack]]
    ctx.files["out/checkpoint.parquet"] = ("parquet", pdmodel.Frame([{f: r[f] for f in cols} for r in rows], None, cols))
    w.post(w.go(), {} if lack else have)


@contract(on=[MASTER, WORKER, SAVE, FINAL, LOAD], paths=8000, budget=200, bounded="up to 4 samples, up to 2 workers, interrupted at any evaluation")
def interrupted(ctx):
    """A run interrupted at any point after any checkpoint and restarted gives the same final table as an uninterrupted one, and evaluates nothing the checkpoint holds."""
    n, size = 1 + ctx.choose(4), 1 + ctx.choose(3)
    w = World(ctx, n, size, 1 + ctx.choose(2), 1 + ctx.choose(3))
    w.crash_at = ctx.choose(n)
    try:
        w.go()
        ctx.unreachable("interrupted")
    except Crash:
        pass
    w.crash_at = None
    c = ctx.files.get("out/checkpoint.parquet")
    have = {r["sample_index"]: r for r in c[1].rows} if c else {}
    ctx.prove("the final table only at the end", all(f == "out/checkpoint.parquet" for f in ctx.files))
    ctx.prove("recorded results are those of the samples", all(w.same(r, q) for q, r in have.items()))
    w.comm.me, w.env["rank"] = 0, 0
    w.post(w.go(), {q: w.result(q) for q in have})


@contract(on=[WORKER], soft=True)
def worker_loop(ctx):
    """For any number of batches: each batch received is answered by exactly one message to the master with the worker's rank, the batch and its results, in that order; the worker ends exactly when told to stop."""
    rank = ctx.int("rank", 1)
    st = dict(got=0, sent=0, stop=False, cur=None, res=None)
    stop = ctx.prog.load(CLI).env.vars.get("_STOP")
    if not isinstance(stop, str):
        raise Unsupported("the stop message is not a string")

    class W(Host):
        def m_recv(self, c, source=None, **k):
            c.prove("listens to the master", source == 0)
            c.prove("nothing is read after the stop message", st["stop"] is False)
            c.prove("one answer before the next batch", to_z3(num_cmp("==", st["got"], st["sent"])))
            if c.choose(2):
                st["stop"] = True
                return stop
            st["cur"], st["res"] = (c.list([c.int("i")]), c.list([c.dict({})])), None
            st["got"] = iadd(st["got"], 1)
            return st["cur"]

        def m_send(self, c, msg, dest=None, **k):
            c.prove("to the master", dest == 0)
            c.prove("rank, batch and results", isinstance(msg, tuple) and len(msg) == 3 and msg[0] is rank and st["cur"] is not None and msg[1] is st["cur"][0]
                    and st["res"] is not None and msg[2] is st["res"])
            st["sent"] = iadd(st["sent"], 1)
    pdmodel.install(ctx, [CLI, CORE], comm=W(), rank=rank, size=ctx.int("size", 2))
    cfg = ctx.dict({})

    def run(c, a, k):
        c.prove("the samples and parameters of the batch", a[0] is st["cur"][0] and a[1] is st["cur"][1] and a[2] is cfg)
        st["res"] = c.list([])
        return st["res"]
    ctx.summaries[BATCH] = run

    def heap(c, v):
        st["got"] = st["sent"] = c.int("answered", 0)
        st["cur"] = st["res"] = None
    ctx.loops[(WORKER, 0)] = LoopSpec(lambda c, L: [("every batch answered", to_z3(num_cmp("==", st["got"], st["sent"]))), ("not yet told to stop", z3.BoolVal(not st["stop"]))],
                                      heap=heap, name="messages")
    ctx.no_raise("call", WORKER, cfg)
    ctx.prove("ends only when told to stop", st["stop"] is True)
    ctx.prove("every batch answered", to_z3(num_cmp("==", st["got"], st["sent"])))


@contract(on=[BATCH, EXTRACT], bounded="up to 4 samples")
def batches(ctx):
    """A batch gives one result per sample in its order, from the sample's own parameters; the batch data are the indices and parameters of the work items in order."""
    n = ctx.choose(5)
    w = World(ctx, n)
    par = [ctx.dict({"x": w.par[q]}) for q in w.sel]
    r = ctx.no_raise("call", EXTRACT, ctx.list([(ctx.int(f"pos{i}"), q, p) for i, (q, p) in enumerate(zip(w.sel, par))]))
    ctx.prove("indices and parameters in order", isinstance(r, tuple) and len(r) == 2 and r[0].l == w.sel and all(a is b for a, b in zip(r[1].l, par)) and len(r[1].l) == n)
    out = ctx.no_raise("call", BATCH, r[0], r[1], w.config)
    ctx.prove("one result per sample in order", [o.attrs["sample_index"] for o in out.l] == w.sel and w.runs == w.sel)


@contract(on=[BATCH], soft=True)
def batch_of_any_size(ctx):
    """The same for a batch of any size."""
    n = ctx.int("n", 0)
    S, R = (z3.Function(ctx.fresh_name(q), z3.IntSort(), z3.IntSort()) for q in ("sample", "result"))
    par = {}
    cfg = ctx.dict({})
    indices = LazyList(ctx, n, lambda k: S(to_z3(k)))
    params = LazyList(ctx, n, lambda k: par.setdefault(str(k), (to_z3(k), ctx.dict({})))[1])
    K = ctx.int("K", 0)
    ctx.assume(K < n)

    def run(c, a, k):
        a = list(a) + [k[q] for q in ("sample_index", "params", "config")[len(a):]]
        own = [q for q, d in par.values() if d is a[1]]
        c.prove("parameters of this batch", len(own) == 1 and a[2] is cfg)
        c.prove("with their own index", to_z3(a[0]) == S(own[0]))
        return R(own[0])
    ctx.summaries[ONE] = run

    def inv(c, L):
        r, it = L["results"], to_z3(L.it)
        if isinstance(r, PyList):
            return [("one result per sample", it == len(r.l))]
        return [("one result per sample", to_z3(r.n) == it), ("in order", to_z3(r.at(K)) == R(K) if c.branch(K < it) else z3.BoolVal(True))]
    ctx.loops[(BATCH, 0)] = LoopSpec(inv, havoc={"results": lambda c: LazyList(c, c.int("done", 0), lambda k: z3.Function("done", z3.IntSort(), z3.IntSort())(to_z3(k)))}, name="samples")
    r = ctx.no_raise("call", BATCH, indices, params, cfg)
    if not isinstance(r, LazyList):
        raise Unsupported("results of the batch")
    ctx.prove("one result per sample", to_z3(r.n) == n)
    ctx.prove("in order", to_z3(r.at(K)) == R(K))


@contract(on=[FINAL, WRITE], bounded="up to 4 samples")
def final_table(ctx):
    """The final table has the selected rows in order with each result beside its own parameters; a sample without result keeps its row; an unknown format raises."""
    n = ctx.choose(5)
    fmt = ["csv", "json", "parquet", "xml"][ctx.choose(4)]
    w = World(ctx, n, fmt=fmt)
    miss = [ctx.choose(2) if i else 0 for i in range(n)]
    res = ctx.list([None if m else ctx.obj(RESULT, **w.result(q)) for q, m in zip(w.sel, miss)])
    out = ctx.outcome(FINAL, res, ctx.list(list(w.sel)), w.posterior, w.config)
    if fmt == "xml":
        expect_raise(ctx, "unknown format", out)
        return
    expect_return(ctx, "written", out)
    t = ctx.files[f"out/eccentricity_results.{fmt}"]
    ctx.prove("format", t[0] == fmt)
    ctx.prove("rows in order", [r["sample_index"] for r in t[1].rows] == w.sel and all(r["x"] is w.par[q] for r, q in zip(t[1].rows, w.sel)))
    for r, q, m in zip(t[1].rows, w.sel, miss):
        ctx.prove("own result or none", (r["status"] is None and r["egw"] is None) if m else w.same(r, q))
    ctx.prove("the posterior is not modified", w.posterior.columns == ["x"])
