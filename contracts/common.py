"""helpers shared by the contracts."""
import z3
from pyvc.core import *
from pyvc.npmodel import PI, f_sqrt, f_arctan2, f_trig, f_exp, f_abs, Spline

ED = "eccDefinition:eccDefinition"
UT = "utils:"
TWO_PI = 2 * PI


def scalar(r):
    if isinstance(r, Arr):
        if len(r.shape) == 0:
            return r.at()
        raise Unsupported("array where a scalar was expected")
    return to_z3(r)


def native(f):
    """a callable of the interpreted program backed by a Python function of its arguments."""
    return lambda ctx, args, kw: f(*args, **kw)


def raised(outcome):
    return outcome[0] == "raise"


def expect_raise(ctx, name, outcome):
    """obligation: the call raised."""
    if outcome[0] == "raise":
        ctx.prove(name, True)
    else:
        ctx.fail(name, "returned normally")


def expect_return(ctx, name, outcome):
    if outcome[0] == "raise":
        e = outcome[1]
        ctx.fail(name, f"raises {e.clsname} at {e.where}: {[fmt(a) for a in e.pargs]}")
        raise PathEnd()
    ctx.prove(name, True)
    return outcome[1]


def same_array(ctx, name, a, b, n):
    """equal length and equal elements."""
    ctx.prove(name + ": length", num_cmp("==", a.n, n))
    ctx.prove_all(name + ": elements", n, lambda i: num_cmp("==", a.at(i), b.at(i) if isinstance(b, Arr) else b(i)))
