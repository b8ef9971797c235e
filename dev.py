"""dev.py PID [substr]: run the contracts of one property in-process (development aid)."""
import sys, time
sys.path.insert(0, '/verif')
import contracts
from pyvc.run import run_contract, summarize
fns, m = contracts.load(sys.argv[1])
L = None
sub = ""
for a in sys.argv[2:]:
    if a.startswith("L="):
        L = int(a[2:])
    else:
        sub = a
for f in fns:
    if sub and sub not in f.__name__:
        continue
    o = {}
    if L:
        o["lengths"] = {"*": L}
    o["timeout"] = 3000
    if f.spec["timeout"]:
        o["timeout"] = f.spec["timeout"]
    for q in ("coarse", "abstract", "cap"):
        if f.spec[q]:
            o[q] = f.spec[q]
    r = run_contract(f, None, f.__name__, o, max_paths=f.spec["paths"], budget=f.spec["budget"])
    print(summarize(r), flush=True)
    if "-v" in sys.argv or True:
        slow = sorted(r.obligations, key=lambda o: -o.secs)[:2]
        print("     slowest:", [(o.name, round(o.secs, 1), o.backend) for o in slow])
