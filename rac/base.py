"""Runtime contract checks on the real code (bounded stand-in and source of
concrete failing inputs).  A module rac/cXX.py defines

  RULE                  how cases are made and what makes one non-trivial
  cases(rng, tier)      yields JSON-able dicts, deterministic in the seed
  run(case)             raises Violation(msg) when the contract fails
"""
import json
import os
import time
import traceback
import numpy as np

REPO = os.environ.get("PYVC_REPO", "/repo")


class Violation(Exception):
    pass


class Skip(Exception):
    """the function this contract talks about is not there (any more)."""


def fail(msg):
    raise Violation(msg)


def need(o, name):
    if not hasattr(o, name):
        raise Skip(f"{o} has no {name}")
    return getattr(o, name)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def expect_raise(f, what, exc=Exception):
    try:
        r = f()
    except exc:
        return
    raise Violation(f"{what}: no exception was raised (returned {str(r)[:120]})")


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    inrepo = [f for f in tb if REPO in f.filename]
    w = inrepo[-1] if inrepo else last
    return f"unexpected {type(e).__name__}: {str(e)[:300]} at {os.path.basename(w.filename)}:{w.name}:{w.lineno}" if w else repr(e)


def run_case(mod, case):
    """None, ('skip', msg) or ('violation', msg)."""
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.run(case)
    except Skip as e:
        return ("skip", str(e))
    except Violation as e:
        return ("violation", str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if tb and not tb[-1].filename.startswith(REPO) and os.path.dirname(__file__) in tb[-1].filename \
                and (isinstance(e, (AttributeError, ImportError)) or (isinstance(e, TypeError) and "argument" in str(e))):
            # the harness itself asked for a name or signature that is not there (any more)
            return ("skip", "harness: " + describe(e))
        if isinstance(e, AttributeError) and getattr(mod, "PARTIAL", False):
            # a partially built object lacks something the function now reads
            return ("skip", "partial object: " + describe(e))
        return ("violation", describe(e))
    return None
