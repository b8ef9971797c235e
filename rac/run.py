"""rac/run.py PID OUT.json [--replay FILE]: run the runtime contract checks of a property."""
import importlib
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
os.environ.setdefault("OMPI_MCA_ess_singleton_isolated", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
import numpy as np   # noqa
import multiprocessing as mp   # noqa
from rac import base   # noqa


def worker(args):
    pid, case = args
    mod = importlib.import_module(f"rac.{pid.lower()}")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.close(devnull)
    t0 = time.time()
    r = base.run_case(mod, case)
    return case, r, time.time() - t0


def main():
    pid = sys.argv[1]
    mod = importlib.import_module(f"rac.{pid.lower()}")
    if "--replay" in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        r = base.run_case(mod, d["case"])
        print("reproduced: " + r[1] if r else "not reproduced")
        sys.exit(1 if r and r[0] == "violation" else 0)
    out = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    budget = float(os.environ.get("RAC_BUDGET", "25" if tier == "quick" else "400"))
    t0 = time.time()
    res = dict(property=pid, evaluations=0, distinct=0, skipped=0, skips=[], samples=[], violations=[], rule=mod.RULE)
    seen = set()

    slots = threading.Semaphore(3 * getattr(mod, "PROCS", 8))

    def gen():
        n = 0
        rng = np.random.default_rng(seed)
        for c in mod.cases(rng, tier):
            slots.acquire()
            if time.time() - t0 > budget:
                return
            n += 1
            yield (pid, c)
    procs = getattr(mod, "PROCS", 8)
    ctxm = mp.get_context("fork")
    pool = ctxm.Pool(procs, maxtasksperchild=None)
    found = pool.imap_unordered(worker, gen(), chunksize=1)
    while True:
        try:
            # a lost worker must not hold up what the others found
            case, r, dt = found.next(timeout=max(5.0, t0 + budget + 100 - time.time()))
        except StopIteration:
            break
        except mp.TimeoutError:
            res["skips"].append("some cases gave no answer in time")
            break
        slots.release()
        res["evaluations"] += 1
        k = json.dumps(case, sort_keys=True)
        if k not in seen:
            seen.add(k)
        if r is None:
            if len(res["samples"]) < 6:
                res["samples"].append(case)
        elif r[0] == "skip":
            res["skipped"] += 1
            if r[1] not in res["skips"]:
                res["skips"].append(r[1])
        else:
            res["violations"].append(dict(case=case, message=r[1]))
            if len(res["violations"]) >= 3:
                break
    res["distinct"] = len(seen) - res["skipped"]
    res["secs"] = time.time() - t0
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, indent=1)
    os.replace(out + ".tmp", out)
    # the feeder thread may be waiting for a free slot: end the workers directly
    for p in mp.active_children():
        p.kill()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
