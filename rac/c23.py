"""C23: command-line values, against an independent reading of each string."""
import contextlib
import io
import json
import os
import random
import shutil
import sys
import tempfile
from rac.base import Skip, check, need

RULE = ("random sample specifications (words in any case, integers, lists, ranges with parts left out, mutated strings), optional integers, JSON texts, function paths in "
        "modules and scratch files, whole command lines; the result is compared with an independent reading")
PARTIAL = True


def cases(rng, tier):
    i = 0
    while True:
        yield dict(kind=["samples", "samples", "int", "json", "callable", "cli"][i % 6], seed=int(rng.integers(1 << 30)))
        i += 1


def outcome(f, *a):
    try:
        return "ok", f(*a)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return "raise", e


def anycase(r, w):
    return "".join(c.upper() if r.random() < 0.5 else c.lower() for c in w)


def run(c):
    import gw_eccentricity.postprocess.postprocess_cli as m
    r = random.Random(c["seed"])
    K = c["kind"]
    if K == "samples":
        f = need(m, "parse_samples")
        k = r.randrange(6)
        if k == 0:
            s, e = anycase(r, r.choice(["all", "none"])), None
        elif k == 1:
            e = r.randrange(-5, 10 ** r.randrange(1, 7))
            s, e = str(e), [e]
        elif k == 2:
            e = [r.randrange(0, 1000) for _ in range(r.randrange(2, 9))]
            items = [(" " if r.random() < 0.2 else "") + str(x) + (" " if r.random() < 0.1 else "") for x in e]
            for _ in range(r.choice([0, 0, 1, 2])):
                items.insert(r.randrange(len(items) + 1), r.choice(["", " ", "  "]))
            s = ",".join(items)
        elif k in (3, 4):
            a, b, st = r.randrange(-3, 40), r.randrange(-3, 60), r.choice([1, 2, 3, 7, -1, -2])
            ha, hs = r.random() < 0.7, r.random() < 0.6
            s = (str(a) if ha else "") + ":" + str(b) + (":" + str(st) if hs else r.choice(["", ":"]))
            e = list(range(a if ha else 0, b, st if hs else 1))
        else:
            s = r.choice(["5:", ":", "::", "::2", "1:2:3:4", "a", "", "1.5", "1;2", "1:x", "x:1", "1,x", "1-3", "1 2", "1:5,7", "1,2:5", "every", "al", "[1,2]", "1:2:0", "0x10", "1e3", "all,1", "none:3", "5::2"])
            check(outcome(f, s)[0] == "raise", f"sample specification {s!r} accepted as {outcome(f, s)[1]!r}")
            return
        o, v = outcome(f, s)
        check(o == "ok" and (v is None) == (e is None) and (e is None or list(v) == e), f"sample specification {s!r} gives {v!r}, not {e!r}")
        check(f(None) is None, "no specification")
        return
    if K == "int":
        f = need(m, "parse_int_or_none")
        n = r.randrange(-10, 10 ** 6)
        for s, e in ((anycase(r, "none"), None), (None, None), (str(n), n), (n, n), ("0", 0)):
            o, v = outcome(f, s)
            check(o == "ok" and v == e and (v is None) == (e is None), f"optional integer {s!r} gives {v!r}")
        for s in ("", "nan", "1.5", "x", "nonee", "1,2"):
            check(outcome(f, s)[0] == "raise", f"optional integer {s!r} accepted")
        return
    if K == "json":
        f = need(m, "parse_json_dict")

        def val(d):
            k = r.randrange(7 if d else 5)
            return [lambda: r.randrange(-9, 9), lambda: r.random(), lambda: "t" * r.randrange(3), lambda: None, lambda: r.random() < 0.5,
                    lambda: [val(d - 1) for _ in range(r.randrange(3))], lambda: {"k%d" % i: val(d - 1) for i in range(r.randrange(3))}][k]()
        d = {"k%d" % i: val(2) for i in range(r.randrange(4))}
        check(f(json.dumps(d), "x") == d, f"JSON object {d} changed")
        v = val(1)
        if not isinstance(v, dict):
            check(outcome(f, json.dumps(v), "x")[0] == "raise", f"JSON {json.dumps(v)} is not an object but is accepted")
        t = json.dumps(d)[:-1]
        check(outcome(f, t, "x")[0] == "raise", f"invalid JSON {t!r} accepted")
        for e in ("", None, "{}"):
            a, b = f(e, "x"), f(e, "x")
            check(a == {} and a is not b, f"empty options {e!r} give {a!r}")
        return
    tmp = tempfile.mkdtemp(prefix="c23_")
    try:
        p = os.path.join(tmp, "my_mod.py")
        open(p, "w").write("def gen(params, extra):\n    return {'p': params}\nnot_callable = 3\nclass Gen:\n    pass\nother = gen\ndef gen2():\n    return 'two'\n")
        f = need(m, "load_callable")
        if K == "callable":
            import os.path as osp
            g = f("os.path:join", "x")
            check(g is osp.join, "function of a module")
            g = f(p + ":gen", "x")
            check(g(5, {}) == {"p": 5}, "function of a file")
            check(f(p + ":gen2", "x")() == "two", "second function of a file")
            sub = os.path.join(tmp, "12:30 run")
            os.mkdir(sub)
            shutil.copy(p, os.path.join(sub, "gen mod.py"))
            check(f(os.path.join(sub, "gen mod.py") + ":gen2", "x")() == "two", "function of a file whose path contains ':'")
            for s in ("os.path", p, "gen", "os.path:no_such_name", p + ":no_such_name", p + ":not_callable", "os:sep", "no_such_module_x:f", os.path.join(tmp, "missing.py") + ":gen", os.path.join(tmp, "missing") + ":gen"):
                check(outcome(f, s, "x")[0] == "raise", f"function path {s!r} accepted")
            return
        argv = ["prog", "--posterior-path", "p.json", "--data-dict-generator", p + ":gen"]
        e = dict(posterior_path="p.json")
        t, fr = r.choice([(None, 20.0), (-100.5, None), (None, None), (1.0, 2.0)])
        opts = [("--samples", "3:9:2", "samples", [3, 5, 7]), ("--samples", "NONE", "samples", None), ("--save-every", "none", "save_every", None), ("--save-every", "7", "save_every", 7),
                ("--batch-size", "13", "batch_size", 13), ("--method", "Amplitude", "method", "Amplitude"), ("--output-format", "json", "output_format", "json"),
                ("--output-dir", "out", "output_dir", "out"), ("--parameter-columns", "a, b ,c", "parameter_columns", ["a", "b", "c"]),
                ("--gw-eccentricity-kwargs", '{"x": 1}', "gw_eccentricity_kwargs", {"x": 1}), ("--data-dict-generator-extra-kwargs", '{"y": [2]}', "data_dict_generator_extra_kwargs", {"y": [2]})]
        e.update(samples=None, save_every=None, batch_size=100, gw_eccentricity_kwargs={}, data_dict_generator_extra_kwargs={}, parameter_columns=None)
        for o, v, k, w in r.sample(opts, r.randrange(len(opts))):
            argv += [o, v]
            e[k] = w
        if t is not None:
            argv += ["--tref=" + str(t)]
        if fr is not None:
            argv += ["--fref", str(fr)]
        old = sys.argv
        sys.argv = argv
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                o, v = outcome(need(m, "build_config_from_cli"))
        finally:
            sys.argv = old
        if (t is None) == (fr is None):
            check(o == "raise", f"command line with tref={t}, fref={fr} accepted")
            return
        check(o == "ok", f"command line {argv[1:]} refused: {v!r}")
        e.update(tref=t, fref=fr)
        for k in e:
            check(v[k] == e[k], f"command line {argv[1:]}: {k} is {v[k]!r}, not {e[k]!r}")
        check(v["data_dict_generator"](4, {}) == {"p": 4}, "function of the command line")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
