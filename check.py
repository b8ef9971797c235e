#!/usr/bin/env python3
"""check.py PID: decide one property on /repo's current tree.

1. the deductive verifier discharges every obligation of contracts/<pid>.py,
   generated from the source in /repo on this run;
2. the runtime contract checks rac/<pid>.py execute the same contracts on the
   real code (bounded; the source of concrete failing inputs).
"""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
VENV = "/opt/venv/bin/python"


def run_one(args):
    pid, fname, mode, scale = args
    import contracts
    from pyvc.run import run_contract
    from pyvc.interp import Program
    fns, _ = contracts.load(pid)
    fn = next(f for f in fns if f.__name__ == fname)
    sp = fn.spec
    opts = {"name": fname}
    if sp["timeout"] or scale != 1:
        opts["timeout"] = int((sp["timeout"] or 6000) * scale)
    for q in ("coarse", "abstract", "cap"):
        if sp[q]:
            opts[q] = sp[q]
    if mode is not None:
        opts["lengths"] = {"*": mode}
    budget = sp["budget"] * (4 if os.environ.get("VERIF_TIER") == "thorough" else 1) * (2 if scale > 1 else 1)
    if mode is not None:
        budget = min(budget, 60)
    try:
        r = run_contract(fn, Program(REPO), fname, opts, max_paths=sp["paths"], budget=budget)
    except Exception as e:   # engine failure: undecided
        import traceback
        return dict(name=fname, mode=mode, obligations=[], paths=0, live=0,
                    unsupported=[f"engine: {type(e).__name__}: {e} {traceback.format_exc().splitlines()[-2:]}"],
                    functions=[], trusted=[], math=[], summaries=[], cut_loops=[], secs=0.0,
                    bounded=sp["bounded"], on=sp["on"], doc=(fn.__doc__ or "").strip())
    if sp["soft"] and any(o.status != "proved" for o in r.obligations):
        r.unsupported = list(r.unsupported) + ["not discharged (loop invariant does not fit): " + o.name for o in r.obligations if o.status != "proved"][:3]
        r.obligations = [o for o in r.obligations if o.status == "proved"]
    return dict(name=fname, mode=mode,
                obligations=[dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 3),
                                  detail=str(o.detail)[:800] if o.detail else None, path=o.path) for o in r.obligations],
                paths=r.paths, live=r.live_paths, unsupported=r.unsupported,
                functions=sorted(r.functions), trusted=sorted(r.trusted), math=sorted(map(str, r.math)),
                summaries=sorted(r.summaries), cut_loops=sorted(r.cut_loops), secs=r.secs,
                bounded=sp["bounded"], on=sp["on"], doc=(fn.__doc__ or "").strip())


def undecided(pid, f, mode, why):
    return dict(name=f.__name__, mode=mode, obligations=[], paths=0, live=0, unsupported=[why], functions=[], trusted=[], math=[], summaries=[],
                cut_loops=[], secs=0.0, bounded=f.spec["bounded"], on=f.spec["on"], doc=(f.__doc__ or "").strip())


class Jobs:
    """contracts under verification, each in a worker process."""

    def __init__(self, pid, todo):
        self.pid, self.todo = pid, todo          # (function, mode, scale)
        self.pool = mp.get_context("fork").Pool(min(8, max(1, len(todo))))
        self.jobs = [self.pool.apply_async(run_one, ((pid, f.__name__, m, s),)) for f, m, s in todo]

    def wait(self, until):
        """True when all are done."""
        for j in self.jobs:
            j.wait(max(0.0, until - time.time()))
        return all(j.ready() for j in self.jobs)

    def results(self):
        out = [j.get() if j.ready() else undecided(self.pid, f, m, "time budget of the check") for j, (f, m, s) in zip(self.jobs, self.todo)]
        self.pool.terminate()
        self.pool.join()
        return out


def has(r, status):
    return any(o["status"] == status for o in r["obligations"])


def try_harder(pid, fns, res, until):
    """obligations not discharged: once more with four times the solver time; then
    over small concrete lengths, where a refutation is a genuine counterexample."""
    def go(todo):
        if not todo or time.time() > until:
            return []
        j = Jobs(pid, todo)
        j.wait(until)
        return j.results()
    todo = [(i, f) for i, (f, r) in enumerate(zip(fns, res)) if has(r, "unknown") and not has(r, "refuted")]
    again = go([(f, None, 4) for _, f in todo])
    for (i, f), r in zip(todo, again):
        if r["obligations"] and not r["unsupported"] and (not has(r, "unknown") or has(r, "refuted")):
            r["retried"] = True
            res[i] = r
    return go([(f, k, 1) for f, r in zip(fns, res) if has(r, "unknown") and not has(r, "refuted") for k in f.spec["lengths"]])


def main():
    pid = sys.argv[1].upper()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    deep = 4 if tier == "thorough" else 1
    os.environ.setdefault("VERIF_SEED", str(seed))
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    os.makedirs(f"{HERE}/out", exist_ok=True)
    env = dict(os.environ, OMPI_MCA_ess_singleton_isolated="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               HOME="/root", PYVC_REPO=REPO)
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONHOME", None)

    # ---- runtime contract checks (concurrently with nothing: the solver times should not depend on them)
    rac = None
    rac_err = None
    racout = f"{HERE}/out/{pid}.rac.json"
    has_rac = os.path.exists(f"{HERE}/rac/{pid.lower()}.py")

    def run_rac(budget=None, sd=None):
        e = dict(env)
        if budget:
            e["RAC_BUDGET"] = str(budget)
        if sd is not None:
            e["VERIF_SEED"] = str(sd)
        if os.path.exists(racout):
            os.remove(racout)
        try:
            p = subprocess.run([VENV, f"{HERE}/rac/run.py", pid, racout], cwd=HERE, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=float(budget or (150 if tier == "quick" else 800)) + 120)
        except subprocess.TimeoutExpired:
            return None, "runtime checks timed out"
        if p.returncode or not os.path.exists(racout):
            return None, p.stderr[-1500:]
        return json.load(open(racout)), None

    # ---- deductive part
    ded, extra, ded_secs, cmod = [], [], 0.0, None
    has_contracts = os.path.exists(f"{HERE}/contracts/{pid.lower()}.py")
    known = load_known(pid)
    newv = []

    def fresh(r):
        return [(v, None) for v in (r or {}).get("violations", []) if not any(x["match"] and x["match"] in json.dumps(v, sort_keys=True) for x in known)]

    if has_contracts:
        import contracts
        fns, cmod = contracts.load(pid)
        jobs = Jobs(pid, [(f, None, 1) for f in fns])
        jobs.wait(t0 + 120 * deep)
    # runtime checks after the proofs (concurrently only with unusually long ones)
    if has_rac:
        rac, rac_err = run_rac()
        newv = fresh(rac)
    if has_contracts:
        jobs.wait(time.time() + 10 if newv else t0 + 420 * deep)
        ded = jobs.results()
        ded_secs = max([r["secs"] for r in ded] + [0.0])
        if not newv and any(has(r, "unknown") for r in ded):
            t1 = time.time()
            extra = try_harder(pid, fns, ded, t0 + 640 * deep)
            ded_secs += time.time() - t1

    obls = [dict(o, contract=r["name"]) for r in ded for o in r["obligations"]]
    full = [dict(o, contract=r["name"]) for r in ded if not r["bounded"] for o in r["obligations"]]
    bnd = [dict(o, contract=r["name"]) for r in ded if r["bounded"] for o in r["obligations"]]
    refuted = [o for o in obls if o["status"] == "refuted"]
    refuted += [dict(o, contract=r["name"], lengths=r["mode"]) for r in extra for o in r["obligations"] if o["status"] == "refuted"]
    unknown = [o for o in obls if o["status"] == "unknown"]
    unsupported = {r["name"]: r["unsupported"] for r in ded if r["unsupported"]}
    vacuous = [r["name"] for r in ded if (not r["obligations"] or r["live"] == 0) and not r["unsupported"]]
    # an obligation of the current source that the verifier does not accept is a violation of this technique
    failed = refuted or unknown

    if failed and not newv and has_rac:
        # look harder for a concrete failing input on the real code
        for sd in range(seed + 1000, seed + 1003):
            if time.time() - t0 > 680 * deep:
                break
            r2, _e = run_rac(40, sd)
            newv = fresh(r2)
            if newv:
                break

    by = {}
    for o in full:
        if o["status"] == "proved":
            by[o["backend"].split(" (")[0]] = by.get(o["backend"].split(" (")[0], 0) + 1
    lines = []
    verdict = 0
    nviol = 0
    if newv:
        verdict = 1
        nviol = len(newv)
        path = f"{HERE}/out/{pid}.replay.json"
        v = newv[0][0]
        json.dump(dict(property=pid, case=v["case"], message=v["message"],
                       failed_obligations=refuted[:5], undischarged_obligations=unknown[:5],
                       replay_cmd=f"{VENV} {HERE}/rac/run.py {pid} - --replay {path}"), open(path, "w"), indent=1)
        print(f"{pid}: {v['message']}")
        for o in refuted[:5]:
            print(f"{pid}: failed obligation {o['contract']}: {o['name']}: {o['detail']}")
        lines.append(f"VIOLATION property={pid} replay={path}")
    elif failed:
        verdict = 1
        nviol = len(failed)
        path = f"{HERE}/out/{pid}.obligation.json"
        json.dump(dict(property=pid, failed_obligations=refuted, undischarged_obligations=unknown), open(path, "w"), indent=1)
        for o in failed[:5]:
            print(f"{pid}: failed obligation ({o['status']}) {o['contract']}: {o['name']}: {o['detail']}")
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")

    if rac_err:
        print(f"{pid}: runtime checks did not run: {rac_err}", file=sys.stderr)
    for n in vacuous:
        print(f"{pid}: contract {n} is vacuous", file=sys.stderr)
    for n, u in unsupported.items():
        print(f"{pid}: contract {n} undecided: {u[:2]}", file=sys.stderr)
    for o in unknown[:10]:
        print(f"{pid}: obligation undecided: {o['contract']}: {o['name']} ({o['detail']})", file=sys.stderr)

    nonb = [r for r in ded if not r["bounded"]]
    proved_contracts = [r["name"] for r in nonb if r["obligations"] and r["live"] and not r["unsupported"]
                        and all(o["status"] == "proved" for o in r["obligations"])]
    cov = dict(
        obligations=len(full), discharged=sum(o["status"] == "proved" for o in full),
        checker_cmd=f"cd /verif && ./check.sh {pid}",
        trusted_base=sorted({"pyvc verification-condition generator (symbolic execution of the Python AST read from /repo on this run)",
                             "z3 and cvc5", "CPython semantics as modelled by pyvc/interp.py"} |
                            {"assumed contract on " + t for r in ded for t in r["trusted"] if not t.startswith("opaque")} |
                            {t for r in ded for t in r["trusted"] if t.startswith("opaque")} |
                            {"axiom: " + t for r in ded for t in r["math"]}),
        contracts=[dict(name=r["name"], on=r["on"], statement=r["doc"].split("\n\n")[0], paths=r["paths"],
                        obligations=len(r["obligations"]), discharged=sum(o["status"] == "proved" for o in r["obligations"]),
                        bounded=r["bounded"], loop_invariants=r["cut_loops"], callee_contracts_used=r["summaries"],
                        solver_and_generator_secs=round(r["secs"], 2), undecided=r["unsupported"]) for r in ded],
        contracts_fully_discharged=proved_contracts,
        functions_under_contract=sorted({q for r in nonb for q in r["on"]}),
        functions_executed=sorted({q for r in ded for q in r["functions"]}),
        backends=by,
        deductive_wall_s=round(ded_secs, 2),
        undecided=[f"{o['contract']}: {o['name']}" for o in unknown] + [f"{n}: {u[0]}" for n, u in unsupported.items()],
        bounded_standins=dict(
            deductive_bounded_contracts=[dict(name=r["name"], bound=r["bounded"], obligations=len(r["obligations"]),
                                              discharged=sum(o["status"] == "proved" for o in r["obligations"])) for r in ded if r["bounded"]],
            runtime=None if rac is None else dict(evaluations=rac["evaluations"], distinct_nontrivial=rac["distinct"],
                                                  skipped=rac["skipped"], skip_reasons=rac["skips"][:5], rule=rac["rule"],
                                                  samples=rac["samples"][:3], wall_s=round(rac["secs"], 1)),
            runtime_error=rac_err),
        violations_found=lines)
    if rac is not None:
        cov["evaluations"] = rac["evaluations"]
        cov["distinct_nontrivial"] = rac["distinct"]
        cov["rule"] = rac["rule"]
        cov["samples"] = rac["samples"][:3]
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(cmod, "LEVEL", "proof") if has_contracts else "exploration",
              coverage=cov,
              assumptions=["floating-point numbers are mathematical reals (no rounding, overflow or NaN) in the deductive part",
                           "ints are mathematical integers; effects of libraries outside numpy/scipy models (matplotlib, lal, h5py, ...) are assumed not to touch the values tracked"]
              + list(getattr(cmod, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid}: {cov['discharged']}/{cov['obligations']} obligations discharged "
          f"({len(proved_contracts)}/{len(nonb)} contracts; {len(bnd)} bounded obligations), runtime cases "
          f"{(rac or {}).get('evaluations', 0)}, {time.time() - t0:.1f}s")
    for l in lines:
        print(l)
    if verdict == 0 and ((has_contracts and not full and not unsupported and not bnd) or (rac_err and has_rac) or (not has_rac and not has_contracts)):
        sys.exit(3)
    sys.exit(verdict)


def load_known(pid):
    out = []
    try:
        for l in open(f"{HERE}/known_findings.txt"):
            l = l.strip()
            if l.startswith(f"known: property={pid} "):
                rest = l.split(" ", 2)[2]
                m, _, what = rest.partition(" :: ")
                out.append(dict(match=m.replace("match=", "", 1), what=what))
    except FileNotFoundError:
        pass
    return out


if __name__ == "__main__":
    main()
