#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (section 3: per property, from the contract and runtime modules). Run with python3-vt."""
import importlib, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import contracts
B, E = "<!-- generated by tools/gen_design.py -->", "<!-- end of the generated part -->"
out = []
for l in open(f"{H}/properties.jsonl"):
    p = json.loads(l)
    fs, m = contracts.load(p["id"])
    out += [f"### {p['id']} {p['title']}", "", p["statement"], ""]
    for f in fs:
        s = f.spec
        lab = f"**bounded: {s['bounded']}**" if s["bounded"] else "unbounded" + (" (loop invariant over local variables: soft)" if s["soft"] else "")
        on = ", ".join(f"`{q.split(':')[1]}`" for q in s["on"])
        out.append(f"* `{f.__name__}` ({lab}) on {on}: {' '.join((f.__doc__ or '').split())}")
    src = open(f"{H}/rac/{p['id'].lower()}.py").read()
    r = re.search(r'^RULE\s*=\s*\(((?:\s*(?:f?"[^"\n]*")\s*)+)\)', src, re.M)
    txt = "".join(re.findall(r'"([^"\n]*)"', r.group(1))) if r else ""
    out += [f"* runtime contract (bounded, seeded; source of failing inputs): {txt}", ""]
d = open(f"{H}/DESIGN.md").read()
a, b = d.index(B) + len(B), d.index(E)
open(f"{H}/DESIGN.md", "w").write(d[:a] + "\n\n" + "\n".join(out) + "\n" + d[b:])
