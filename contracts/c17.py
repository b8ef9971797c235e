"""C17 option merging and messages."""
from .common import *
from . import contract

CK = UT + "check_kwargs_and_set_defaults"
NAMES = ["a", "b", "c", "d"]
# values a user may give: None, False, 0, an array, a nested dict, an unknown value
USER = [None, False, 0]


@contract(on=[CK], paths=3000)
def merge_defaults(ctx):
    """For every subset of known option names given by the user (any value, including None, False, 0) and every subset of unknown names: raises iff an unknown name is given; otherwise the result has exactly the default names, the user's values where given (the same objects), and the defaults elsewhere; the defaults are not modified."""
    nd = ctx.choose(4)          # number of defaults 0..3
    dv = {NAMES[k]: mk_default(ctx, k) for k in range(nd)}
    defaults = ctx.dict(dv, name="defaults")
    ctx.watch(defaults)
    given = {}
    for k in range(nd):
        c = ctx.choose(6)
        if c:
            given[NAMES[k]] = [None, None, False, 0, ctx.dict({"x": 1}), ctx.real("v")][c]
    unknown = ctx.choose(2) == 1
    use_none = not given and not unknown and ctx.choose(2) == 1
    if unknown:
        pos = ctx.choose(2)
        given = {"zz": 1, **given} if pos else {**given, "zz": None}
    user = None if use_none else ctx.dict(given, name="user")
    out = ctx.outcome(CK, user, defaults, "opts", "somewhere")
    if unknown:
        expect_raise(ctx, "unknown option raises", out)
        return
    r = expect_return(ctx, "valid options are accepted", out)
    ctx.prove("exactly the default names", isinstance(r, PyDict) and set(r.d) == set(dv))
    for k in dv:
        if k in given:
            ctx.prove(f"user value of {k} kept", r.d[k] is given[k] or equalv(r.d[k], given[k]))
        else:
            ctx.prove(f"default of {k} filled in", r.d[k] is dv[k] or equalv(r.d[k], dv[k]))
    ctx.prove("defaults are not modified", {k: id(v) for k, v in defaults.d.items()} == {k: id(v) for k, v in dv.items()})


def mk_default(ctx, k):
    return [Fraction(1, 2), None, ctx.real("default2")][k % 3]


def equalv(a, b):
    if is_z3(a) or is_z3(b):
        return is_z3(a) and is_z3(b) and z3.eq(a, b)
    return type(a) is type(b) and a == b


DEFAULTS = [(ED + ".get_default_extra_kwargs", "extra_kwargs"), (UT + "get_default_spline_kwargs", "spline"),
            (UT + "get_default_rational_fit_kwargs", "rational"),
            ("spin_filter:get_default_kwargs_for_filtering", "filter")]


@contract(on=[q for q, _ in DEFAULTS])
def defaults_are_fresh(ctx):
    """Each set of defaults is a new dictionary on every call (filling in an option can never change the defaults of a later call)."""
    q, nm = DEFAULTS[ctx.choose(len(DEFAULTS))]
    args = [ctx.obj(ED)] if q.startswith(ED) else []
    a = ctx.no_raise("first", q, *args)
    b = ctx.no_raise("second", q, *args)
    ctx.prove(f"{nm}: a fresh dictionary", a is not b)
    ctx.prove(f"{nm}: same names", set(a.d) == set(b.d))
    for k in a.d:
        if isinstance(a.d[k], (PyDict, PyList)):
            ctx.prove(f"{nm}[{k}]: a fresh container", a.d[k] is not b.d[k])
    # writing through the result of one call does not change what the next returns
    for k in a.d:
        if isinstance(a.d[k], PyDict):
            a.d[k].d["polluted"] = 1
    c = ctx.no_raise("third", q, *args)
    for k in c.d:
        if isinstance(c.d[k], PyDict):
            ctx.prove(f"{nm}[{k}] not polluted", "polluted" not in c.d[k].d)


@contract(on=[UT + "debug_message"])
def debug_levels(ctx):
    """Level -1 silent, 0 warns iff important, 1 warns, 2 raises; any other integer level raises ValueError."""
    lev = ctx.int("debug_level")
    imp = ctx.bool("important")
    point = ctx.choose(2) == 1
    ev0 = len(ctx.events)
    out = ctx.outcome(UT + "debug_message", "text", lev, imp, point)
    warned = [e for e in ctx.events[ev0:] if e[0] == "warn"]
    known = z3.And(lev >= -1, lev <= 2)
    if raised(out):
        ctx.prove("raises only at level 2 or an unknown level", z3.Or(lev == 2, z3.Not(known)))
        if ctx.branch(z3.Not(known)):
            ctx.prove("unknown level is a ValueError", out[1].clsname == "ValueError")
        ctx.prove("nothing warned when raising", len(warned) == 0)
        return
    ctx.prove("level 2 and unknown levels raise", z3.And(known, lev != 2))
    if warned:
        ctx.prove("warns only at level 1, or at level 0 if important", z3.Or(lev == 1, z3.And(lev == 0, imp)))
        ctx.prove("warns once", len(warned) == 1)
    else:
        ctx.prove("silent only at level -1, or at level 0 if not important", z3.Or(lev == -1, z3.And(lev == 0, z3.Not(imp))))


@contract(on=[UT + "raise_exception_if_none"])
def required_options(ctx):
    """Raises iff one of the required options is None (not for False, 0 or an empty dict)."""
    vals = [None, False, 0, "s", ctx.dict({}), ctx.real("v")]
    keys = ["a", "b", "c"]
    d = {k: vals[ctx.choose(len(vals))] for k in keys}
    req = [[], ["a"], ["b", "c"], ["a", "b", "c"]][ctx.choose(4)]
    out = ctx.outcome(UT + "raise_exception_if_none", ctx.dict(d), ctx.list(req), "n", "loc")
    if any(d[k] is None for k in req):
        expect_raise(ctx, "missing required option raises", out)
    else:
        expect_return(ctx, "complete options are accepted", out)
required_options.spec["paths"] = 1200


@contract(on=[ED + ".get_default_extra_kwargs", ED + ".get_default_extrema_finding_kwargs"])
def documented_default_values(ctx):
    """The documented defaults (gw_eccentricity.measure_eccentricity docstring)."""
    d = ctx.no_raise("extra_kwargs", ED + ".get_default_extra_kwargs", ctx.obj(ED)).d
    want = {"debug_plots": False, "omega_gw_averaging_method": "orbit_averaged_omega_gw",
            "treat_mid_points_between_pericenters_as_apocenters": False, "refine_extrema": False,
            "return_zero_if_small_ecc_failure": False, "omega_gw_extrema_interpolation_method": "rational_fit",
            "use_only_these_many_orbits": None}
    for k, v in want.items():
        ctx.prove(f"default {k}", k in d and type(d[k]) is type(v) and d[k] == v)
    for k in ("general_interp_kwargs", "special_interp_kwargs_for_omega_gw_extrema", "extrema_finding_kwargs",
              "kwargs_for_fits_methods", "filter_kwargs"):
        ctx.prove(f"default {k} is empty", k in d and isinstance(d[k], PyDict) and not d[k].d)
    w = ctx.int("width")
    e = ctx.no_raise("extrema_finding", ED + ".get_default_extrema_finding_kwargs", ctx.obj(ED), w).d
    ctx.prove("width is the given one", e.get("width") is w)
    for k in ("height", "threshold", "distance", "prominence", "wlen", "plateau_size"):
        ctx.prove(f"default {k} is None", k in e and e[k] is None)
    ctx.prove("rel_height 0.5", e["rel_height"] == Fraction(1, 2))
