#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the contract and runtime modules present."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{H}/properties.jsonl")]
checks, na = [], []
NOTE = ("Machine-checked contracts on the real functions: the verification-condition generator (pyvc) reads the source in /repo on every "
        "run, executes it symbolically for arguments of unbounded length, and every obligation is discharged by z3 or cvc5. "
        "Assumes exact real arithmetic and the stated contracts on numpy/scipy (trusted_base in the evidence). ")
BND = "Runtime contract checks on the real code (labelled bounded, not counted as proved) search for a concrete failing input. "
NA = {}
for p in props:
    i = p["id"]
    c = f"{H}/contracts/{i.lower()}.py"
    r = f"{H}/rac/{i.lower()}.py"
    if i in NA or not os.path.exists(c):
        na.append(dict(property=i, reason=NA.get(i, "contracts for this property are not written yet")))
        continue
    m = re.search(r'^NOTE\s*=\s*\(?((?:\s*"[^"]*")+)', open(c).read(), re.M)
    extra = "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else ""
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
                       evidence_file=f"evidence/{i}.json",
                       technique="contract-based deductive verification of the real Python source (own VC generator, z3/cvc5)" +
                                 ("; bounded runtime contract checks for failing inputs" if os.path.exists(r) else ""),
                       level="proof", level_note=NOTE + (BND if os.path.exists(r) else "") + extra))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks: the contracts are external to /repo and the source is read from /repo's working tree on every run. "
                     "Genuine defects repaired in /repo by fix: commits are listed in known_findings.txt."),
          open(f"{H}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
