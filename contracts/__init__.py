"""Contracts on the real functions of /repo, one module per property.

A contract is a Python function of a `Ctx`: it builds symbolic arguments that
satisfy the precondition, calls the real function (whose source is read from
/repo on this run) and states the postconditions with ctx.prove*/fail.
"""


def contract(on=(), bounded=None, paths=400, budget=100.0, timeout=None, lengths=(3, 4), covers=None, coarse=False, abstract=False, cap=None, soft=False):
    """on: qualified names of the functions under contract.
    bounded: text stating the bound, when the contract is a bounded stand-in
    (its obligations are then never counted as proved).
    coarse: cheap path feasibility (more, possibly infeasible, paths are checked);
    for frame contracts, whose obligations do not need the path condition.
    abstract: path feasibility with nonlinear terms uninterpreted (sound, cheaper).
    cap: most index terms per array for which quantified facts are instantiated.
    soft: the contract needs a loop invariant over local variables; when an obligation
    fails (the loop may only have been rewritten) the contract is undecided, and the
    bounded contract beside it, which states the same without invariant, decides.
    lengths: concrete sequence lengths used to look for a counterexample when an
    obligation over symbolic lengths is not discharged."""
    def deco(fn):
        fn.spec = dict(on=list(on), bounded=bounded, paths=paths, budget=budget, timeout=timeout,
                       lengths=tuple(lengths), covers=covers, coarse=coarse, abstract=abstract, cap=cap, soft=soft)
        return fn
    return deco


def load(pid):
    import importlib
    m = importlib.import_module(f"contracts.{pid.lower()}")
    return [f for f in vars(m).values() if callable(f) and hasattr(f, "spec") and f.__module__ == m.__name__], m
