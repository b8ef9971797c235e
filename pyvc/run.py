"""run a contract over all its paths."""
import time
import traceback
from .core import *
from .core import STATS, Obligation
from .interp import Program, Interp, LoopSpec


class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.paths = 0
        self.live_paths = 0
        self.unsupported = []
        self.functions = set()
        self.trusted = set()
        self.math = set()
        self.summaries = set()
        self.cut_loops = set()
        self.secs = 0.0
        self.bounded = None
        self.requires_unsat = False

    @property
    def refuted(self):
        return [o for o in self.obligations if o.status == "refuted"]

    @property
    def unknown(self):
        return [o for o in self.obligations if o.status == "unknown"]

    @property
    def proved(self):
        return [o for o in self.obligations if o.status == "proved"]

    def ok(self):
        return bool(self.obligations) and not self.unsupported and all(o.status == "proved" for o in self.obligations) and self.live_paths > 0


def run_contract(fn, prog=None, name=None, opts=None, max_paths=400, budget=120.0):
    prog = prog or Program()
    opts = dict(opts or {})
    opts.setdefault("name", name or fn.__name__)
    res = Result(opts["name"])
    decisions = []
    t0 = time.time()
    prog.used_trusted = set()
    from .core import clear_caches
    clear_caches()
    prog.inlined = set()
    while True:
        ctx = Ctx(prog, decisions, opts)
        ctx.interp = Interp(prog, ctx)
        finished = False
        try:
            fn(ctx)
            finished = True
        except PathEnd:
            finished = True
        except Unsupported as e:
            res.unsupported.append(str(e))
        except PyRaise as e:
            # an exception the contract did not expect
            ctx.fail("no unexpected exception", f"raises {e.clsname} at {e.where}: {[fmt(a) for a in e.pargs]}")
        except (KeyError, AttributeError, TypeError, IndexError, AssertionError) as e:
            # contract could not be applied to this shape of code
            res.unsupported.append(f"contract not applicable: {type(e).__name__}: {e} @ " +
                                   traceback.format_exc().strip().splitlines()[-3].strip())
        res.paths += 1
        alive = ctx.solver.check() != z3.unsat
        if alive and ctx.obls:
            res.live_paths += 1
        res.obligations.extend(ctx.obls)
        res.math |= ctx.trusted_math
        res.summaries |= ctx.used_summaries
        res.cut_loops |= {str(k) for k in ctx.cut_loops}
        # backtrack
        del decisions[ctx.pos:]
        while decisions and decisions[-1][0] + 1 >= decisions[-1][1]:
            decisions.pop()
        if not decisions:
            break
        decisions[-1][0] += 1
        if opts.get("timeout", 6000) > 1500 and sum(o.status == "unknown" for o in res.obligations) >= 6:
            opts["timeout"] = 1500      # does not verify: no need to wait long for the rest
        if res.paths >= max_paths:
            res.unsupported.append(f"path limit {max_paths}")
            break
        if time.time() - t0 > budget:
            res.unsupported.append(f"time budget {budget}s")
            break
    res.functions = set(prog.inlined)
    res.trusted = set(prog.used_trusted)
    res.secs = time.time() - t0
    return res


def summarize(res, verbose=True):
    s = f"{res.name}: {len(res.proved)}/{len(res.obligations)} proved, paths {res.paths} (live {res.live_paths}), {res.secs:.1f}s"
    if res.unsupported:
        s += f", UNSUPPORTED {res.unsupported[:3]}"
    for o in res.obligations:
        if o.status != "proved" and verbose:
            s += f"\n   {o.status}: {o.name} [{o.backend}] path={o.path} {str(o.detail)[:600]}"
    return s
