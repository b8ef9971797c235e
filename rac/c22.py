"""C22: the real master and worker with a scheduled stand-in for MPI, real pandas and real files in a scratch directory."""
import logging
import os
import shutil
import tempfile
import numpy as np
from rac.base import Skip, check, need

RULE = ("random posteriors, selections, numbers of ranks, batch sizes, checkpoint intervals, formats and arrival orders, with failing samples; some runs are interrupted at a random evaluation "
        "(repeatedly) and restarted, some start from a prepared checkpoint; final table, evaluations, checkpoints and stop messages are compared with an independent bookkeeping")
PARTIAL = True


def cases(rng, tier):
    i = 0
    while True:
        yield dict(kind=["run", "resume", "interrupted"][i % 3], seed=int(rng.integers(1 << 30)))
        i += 1


class Idle(BaseException):
    pass


class Crash(BaseException):
    pass


class Comm:
    def __init__(self, cli, size, rng, config):
        self.cli, self.size, self.rng, self.config = cli, size, rng, config
        self.inbox, self.stopped, self.me, self.box, self.reply = {}, [], 0, [], []

    def Get_rank(self):
        return self.me

    def Get_size(self):
        return self.size

    def send(self, msg, dest=None, **k):
        if self.me:
            check(dest == 0, f"worker {self.me} replies to {dest}")
            self.reply.append(msg)
            return
        check(1 <= dest < self.size, f"message to rank {dest}")
        check(dest not in self.stopped, f"message to worker {dest} after it was told to stop")
        check(dest not in self.inbox, f"message to worker {dest} while it is busy")
        self.me = self.cli.rank = dest
        self.box, self.reply = [msg], []
        try:
            self.cli.worker(self.config)
            done = True
        except Idle:
            done = False
        finally:
            self.me = self.cli.rank = 0
        if done:
            check(not self.reply, f"worker {dest} replies to the stop message")
            self.stopped.append(dest)
        else:
            check(len(self.reply) == 1, f"worker {dest}: {len(self.reply)} replies to one batch")
            self.inbox[dest] = self.reply[0]

    def recv(self, source=None, **k):
        if self.me:
            if not self.box:
                raise Idle()
            return self.box.pop()
        check(self.inbox, "the master waits for a reply although no worker is busy")
        r = sorted(self.inbox)
        return self.inbox.pop(r[int(self.rng.integers(len(r)))])


def nul(x):
    return x is None or (isinstance(x, float) and np.isnan(x))


def run(c):
    logging.disable(logging.CRITICAL)
    import pandas as pd
    import gw_eccentricity.postprocess.postprocess_cli as cli
    import gw_eccentricity.postprocess.core as core
    for f in ("master", "worker", "comm", "size", "rank"):
        need(cli, f)
    need(core, "measure_eccentricity")
    d = tempfile.mkdtemp(prefix="c22_")
    old = cli.comm, cli.size, cli.rank, core.measure_eccentricity
    try:
        _run(c, pd, cli, core, d)
    finally:
        cli.comm, cli.size, cli.rank, core.measure_eccentricity = old
        shutil.rmtree(d, ignore_errors=True)


def _run(c, pd, cli, core, d):
    rng = np.random.default_rng(c["seed"])
    N = int(rng.integers(1, 13))
    index = rng.choice(200, N, replace=False)
    x = rng.random(N)
    post = pd.DataFrame(dict(x=x, k=np.arange(N)), index=index)
    n = int(rng.integers(0 if rng.random() < 0.1 else 1, N + 1))
    selk = rng.permutation(N)[:n]
    samples = [int(index[k]) for k in selk]
    if rng.random() < 0.4:
        samples, selk, n = None, np.arange(N), N
    bad = set(rng.permutation(N)[: int(rng.integers(0, N + 1)) // (1 if rng.random() < 0.2 else 2)].tolist())
    size = int(rng.integers(1, 6))
    every = None if rng.random() < 0.25 and c["kind"] != "interrupted" else int(rng.integers(1, 6))
    fmt = ["csv", "json", "parquet"][int(rng.integers(3))]
    runs, crash = [], [None]

    def gen(p, extra):
        k = int(p["k"])
        check(p["x"] == x[k], "parameters of another sample")
        if crash[0] is not None and len(runs) == crash[0]:
            raise Crash()
        runs.append(k)
        if k in bad:
            raise ValueError(f"bad {k}")
        return dict(t=np.arange(3), k=k)

    def measure(dataDict=None, **kw):
        return dict(eccentricity=x[dataDict["k"]] / 3, mean_anomaly=x[dataDict["k"]] + 1, gwecc_object=None)

    core.measure_eccentricity = measure
    config = dict(posterior_type="bilby", posterior_path="", parameter_columns=None, output_dir=os.path.join(d, "o", "p"), output_format=fmt, save_every=every, samples=samples, fref=None,
                  tref=-100.0, method="Amplitude", batch_size=int(rng.integers(1, 5)), data_dict_generator=gen, data_dict_generator_extra_kwargs={}, gw_eccentricity_kwargs={})
    ck = os.path.join(config["output_dir"], "checkpoint.parquet")
    fin = os.path.join(config["output_dir"], f"eccentricity_results.{fmt}")
    sizes = []
    orig = pd.DataFrame.to_parquet

    def spy(self, path, *a, **k):
        r = orig(self, path, *a, **k)
        if str(path) == ck:
            sizes.append(len(self))
        return r

    def go():
        cli.size, cli.rank = size, 0
        cli.comm = Comm(cli, size, rng, config)
        runs.clear(), sizes.clear()
        pd.DataFrame.to_parquet = spy
        try:
            cli.master(post.copy(), dict(config))
        finally:
            pd.DataFrame.to_parquet = orig
        return cli.comm

    def recorded():
        if not os.path.exists(ck):
            return {}
        f = pd.read_parquet(ck)
        check(len(set(f["sample_index"])) == len(f), "checkpoint with a sample twice")
        return {int(r["sample_index"]): r for r in f.to_dict("records")}

    def own(r, k, what):
        if k in bad:
            check(r["status"] == "fail" and nul(r["egw"]) and nul(r["lgw"]) and f"bad {k}" in r["error_message"], f"{what} of failing sample {index[k]}: {r}")
        else:
            check(r["status"] == "success" and abs(r["egw"] - x[k] / 3) < 1e-9 and abs(r["lgw"] - x[k] - 1) < 1e-9 and nul(r["error_message"]), f"{what} of sample {index[k]}: {r}")

    have = {}
    if c["kind"] == "resume":
        rows = [dict(sample_index=int(index[k]), status="success", egw=5.0 + k, lgw=6.0 + k, error_message=None) if rng.random() < 0.6
                else dict(sample_index=int(index[k]), status="fail", egw=None, lgw=None, error_message="recorded") for k in rng.permutation(N)[: int(rng.integers(0, N + 1))]]
        rows.append(dict(sample_index=500, status="success", egw=1.0, lgw=2.0, error_message=None))
        f = pd.DataFrame(rows)
        lack = [None, None, "status", "sample_index"][int(rng.integers(4))]
        os.makedirs(config["output_dir"])
        (f if lack is None else f.drop(columns=[lack])).to_parquet(ck)
        if lack is None:
            have = {r["sample_index"]: r for r in rows}
    if c["kind"] == "interrupted":
        left = n
        for _ in range(int(rng.integers(1, 4))):
            if left < 1:
                break
            crash[0] = int(rng.integers(0, left))
            try:
                go()
                check(False, "the interruption was swallowed")
            except Crash:
                pass
            have = recorded()
            for q, r in have.items():
                own(r, int(np.flatnonzero(index == q)[0]), "checkpoint entry")
            left = n - len(have)
        crash[0] = None
        check(not os.path.exists(fin), "final table written by an interrupted run")
    try:
        cm = go()
    except (ValueError, KeyError, TypeError, IndexError, AttributeError) as e:
        check(False, f"the run raises {type(e).__name__}: {e}")
    todo = sorted(int(k) for k in selk if int(index[k]) not in have)
    check(sorted(runs) == todo, f"evaluated samples {sorted(runs)}, expected {todo}")
    check(sorted(cm.stopped) == list(range(1, size)), f"stop messages to {cm.stopped}, {size} ranks")
    check(not cm.inbox, "a worker is left with an unread reply")
    n0, m = len([k for k in selk if int(index[k]) in have]), len(todo)
    want = [] if not every else [n0 + k for k in range(every, m + 1, every)] + ([n0 + m] if m % every else [])
    check(sizes == want, f"entries in the checkpoints {sizes}, expected {want}")
    t = dict(csv=pd.read_csv, json=pd.read_json, parquet=pd.read_parquet)[fmt](fin).to_dict("records")
    check([int(r["sample_index"]) for r in t] == [int(index[k]) for k in selk], "rows are not the selected samples in order")
    for r, k in zip(t, selk):
        check(abs(r["x"] - x[k]) < 1e-9 and r["k"] == k, f"row of sample {index[k]} with other parameters")
        q = int(index[k])
        if c["kind"] == "resume" and q in have:
            e = have[q]
            check(r["status"] == e["status"] and all((nul(r[f]) and nul(e[f])) or r[f] == e[f] for f in ("egw", "lgw", "error_message")), f"recorded result of sample {q} changed: {r}")
        else:
            own(r, int(k), "row")
