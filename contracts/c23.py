"""C23 command-line values are parsed to exactly what they denote."""
import itertools
from .common import *
from . import contract
from pyvc.core import Unsupported
from pyvc.npmodel import TokStr, JoinedInts, JsonStr, StructVal
from pyvc.interp import Ext, RangeVal, PyRaise, LazyList

C = "postprocess.postprocess_cli:"
SAMPLES, INT, JSON, LOAD = (C + x for x in ("parse_samples", "parse_int_or_none", "parse_json_dict", "load_callable"))
NOTE = "sample specifications proved for all integers in every listed shape, comma lists of any length; other strings are runtime checks"


def cases(word):
    return ["".join(c) for c in itertools.product(*[(x.lower(), x.upper()) for x in word])]


@contract(on=[SAMPLES])
def every_sample(ctx):
    """'all' or 'none' in any case (and surrounding blanks) means every sample."""
    w = (cases("all") + cases("none") + [None, " all ", "none\n"])
    v = w[ctx.choose(len(w))]
    ctx.prove("every sample", ctx.no_raise("call", SAMPLES, v) is None)


@contract(on=[SAMPLES])
def one_sample(ctx):
    """An integer means that single sample (given as text or as a number)."""
    n = ctx.int("n")
    v = [TokStr([n]), TokStr([" ", n, " "]), TokStr([n, "\n"])][ctx.choose(3)]
    r = ctx.no_raise("call", SAMPLES, v)
    ctx.prove("one sample", isinstance(r, PyList) and len(r.l) == 1)
    ctx.prove("that sample", to_z3(r.l[0]) == n)


@contract(on=[SAMPLES], bounded="up to 4 items")
def comma_list(ctx):
    """'a,b,c' means those samples in that order."""
    k = 2 + ctx.choose(3)
    v = [ctx.int(f"a{i}") for i in range(k)]
    sep = [",", ", ", " ,"][ctx.choose(3)]
    p = [v[0]]
    for x in v[1:]:
        p += [sep, x]
    r = ctx.no_raise("call", SAMPLES, TokStr(p))
    ctx.prove("as many samples", isinstance(r, PyList) and len(r.l) == k)
    ctx.prove("in that order", z3.And(*[to_z3(a) == b for a, b in zip(r.l, v)]))


@contract(on=[SAMPLES], bounded="the shapes listed")
def empty_items(ctx):
    """Empty or blank items of a list are ignored."""
    a, b = ctx.int("a"), ctx.int("b")
    shapes = [([a, ","], [a]), ([",", a], [a]), ([a, ",,", b], [a, b]), ([a, ", ,", b], [a, b]), ([a, ",  ,,", b, ","], [a, b]), ([",", a, " , "], [a]), ([a, ",", b, ", "], [a, b]), ([" ,", a, ",", b], [a, b]),
              ([a, ",\t,", b], [a, b]), ([a, ",", b, ",\n"], [a, b])]
    p, e = shapes[ctx.choose(len(shapes))]
    r = ctx.no_raise("call", SAMPLES, TokStr.make([q for x in p for q in (x if isinstance(x, str) else [x])]))
    ctx.prove("as many samples", isinstance(r, PyList) and len(r.l) == len(e))
    ctx.prove("in that order", z3.And(*[to_z3(x) == y for x, y in zip(r.l, e)]))


@contract(on=[SAMPLES])
def comma_list_of_any_length(ctx):
    """The same for any number of samples."""
    n = ctx.int("n", 2)
    v = z3.Function(ctx.fresh_name("item"), z3.IntSort(), z3.IntSort())
    before, after = [("", ""), ("", " "), (" ", "")][ctx.choose(3)]
    r = ctx.no_raise("call", SAMPLES, JoinedInts(ctx, n, lambda k: v(to_z3(k)), ",", before, after))
    if not isinstance(r, LazyList):
        raise Unsupported("samples not one list of any length")
    ctx.prove("as many samples", to_z3(r.n) == n)
    k = ctx.int("k", 0)
    ctx.assume(k < n)
    ctx.prove("in that order", to_z3(r.at(k)) == v(k))


@contract(on=[SAMPLES])
def ranges(ctx):
    """'start:stop[:step]' means the indices of the Python range, start defaulting to 0 and step to 1; a step of 0 raises."""
    a, b, s = ctx.int("start"), ctx.int("stop"), ctx.int("step")
    shape = ctx.choose(6)
    p = [[a, ":", b], [":", b], [a, ":", b, ":", s], [":", b, ":", s], [a, ":", b, ":"], [":", b, ":"]][shape]
    if ctx.choose(2):
        p = [q for x in p for q in ([x, " "] if not isinstance(x, str) else [x, " "])] if shape in (0, 2) else p
    out = ctx.outcome(SAMPLES, TokStr(p))
    ea, es = (a if shape in (0, 2, 4) else 0), (s if shape in (2, 3) else 1)
    if shape in (2, 3) and ctx.branch(s == 0):
        expect_raise(ctx, "step 0", out)
        return
    r = expect_return(ctx, "range", out)
    if not isinstance(r, RangeVal):
        if r is None:
            ctx.fail("a range of indices", repr(r))
        if isinstance(r, PyList):
            k, up = len(r.l), to_z3(es) > 0
            at = lambda i: to_z3(ea) + i * to_z3(es)
            inside = lambda i: z3.If(up, at(i) < b, at(i) > b)
            ctx.prove("the indices of the range", z3.And(z3.BoolVal(True), *[to_z3(x) == at(i) for i, x in enumerate(r.l)]))
            ctx.prove("all of them and no more", z3.And(inside(k - 1) if k else z3.BoolVal(True), z3.Not(inside(k))))
            return
        raise Unsupported("indices not written as a range")
    ctx.prove("start, stop, step", z3.And(to_z3(r.lo) == ea, to_z3(r.hi) == b, to_z3(r.step) == es))


@contract(on=[SAMPLES], bounded="the shapes listed")
def other_specifications(ctx):
    """Anything else raises."""
    a, b, c, d = (ctx.int(x) for x in "abcd")
    bad = [[a, ":"], [":"], ["::"], [a, "::", c], ["::", c], [a, ":", b, ":", c, ":", d], [":::"], [a, ":", b, ",", c], [a, ",", b, ":", c], [a, " ", b],
           ["x"], [""], [" "], [a, "x"], [a, ",", "x"], ["x:", b], [a, ":x"], [a, ":", b, ":x"], [a, ";", b], ["every"], ["al"], ["nonee"], [a, "."], ["[", a, "]"], ["all,", a], [a, ",none"]]
    p = bad[ctx.choose(len(bad))]
    expect_raise(ctx, "malformed specification", ctx.outcome(SAMPLES, TokStr.make([q for x in p for q in (x if isinstance(x, str) else [x])])))


@contract(on=[INT])
def optional_integer(ctx):
    """'none' in any case is no value; an integer (as text or number) is itself; other text raises."""
    n = ctx.int("n")
    w = cases("none") + [None]
    bad = ["", "nan", "nonee", "x", "1.5", "all", "1,2"]
    k = ctx.choose(len(w) + 2 + len(bad))
    if k < len(w):
        ctx.prove("no value", ctx.no_raise("call", INT, w[k]) is None)
    elif k < len(w) + 2:
        ctx.prove("the integer", to_z3(ctx.no_raise("call", INT, n if k == len(w) else TokStr([n]))) == n)
    else:
        expect_raise(ctx, "not an integer", ctx.outcome(INT, bad[k - len(w) - 2]))


@contract(on=[JSON])
def json_options(ctx):
    """Empty means no options (a fresh dictionary); text denoting a JSON object means that object; invalid JSON and any other kind of value raise."""
    import json
    obj = ctx.dict({"a": ctx.real("v")})

    def invalid(c):
        raise PyRaise(json.JSONDecodeError, ("bad",))
    vals = [lambda c: obj, lambda c: ctx.dict({}), invalid, lambda c: ctx.list([1]), lambda c: ctx.list([]), lambda c: "text", lambda c: "", lambda c: ctx.real("x"),
            lambda c: ctx.int("i"), lambda c: True, lambda c: False, lambda c: None]
    k = ctx.choose(len(vals) + 2)
    if k >= len(vals):
        r = ctx.no_raise("empty", JSON, [None, ""][k - len(vals)], "arg")
        ctx.prove("no options", isinstance(r, PyDict) and not r.d)
        r2 = ctx.no_raise("again", JSON, "", "arg")
        ctx.prove("fresh dictionary", r2 is not r)
        return
    out = ctx.outcome(JSON, JsonStr(vals[k]), "arg")
    if k < 2:
        r = expect_return(ctx, "object", out)
        ctx.prove("that object", r is obj if k == 0 else isinstance(r, PyDict) and not r.d)
    else:
        expect_raise(ctx, "not a JSON object", out)


@contract(on=[LOAD])
def functions(ctx):
    """'module:name' gives the attribute of that name of that module when it is callable, and raises when it is not or when there is no ':' separator."""
    fn = Ext("function", lambda c, a, k: None)
    target = [fn, ctx.real("x"), "text", None][ctx.choose(4)]
    asked = []
    ctx.import_module = lambda m: asked.append(m) or StructVal("module", {"name": target, "other": fn})
    mod = ["package", "package.module", "a.b.c"][ctx.choose(3)]
    if ctx.choose(2):
        expect_raise(ctx, "no separator", ctx.outcome(LOAD, mod, "arg"))
        ctx.prove("nothing imported", not asked)
        return
    out = ctx.outcome(LOAD, mod + ":name", "arg")
    ctx.prove("that module", asked == [mod])
    if target is fn:
        ctx.prove("that function", expect_return(ctx, "callable", out) is fn)
    else:
        expect_raise(ctx, "not callable", out)
