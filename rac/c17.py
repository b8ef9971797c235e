"""C17 on the real code: option merging and messages."""
import copy
import warnings
import numpy as np
from rac.base import *

RULE = "random defaults, random subsets of user options (values None, False, 0, '', arrays, dicts), unknown names; every debug level; non-trivial: all"
VALS = [None, False, 0, "", 3.5, "x", [1, 2], {"p": 1}, True, 0.0]
NAMES = ["a", "b", "c", "width", "k", "degrees"]


def cases(rng, tier):
    for lev in (-3, -2, -1, 0, 1, 2, 3, 4, 10, 100):
        for imp in (True, False):
            for pt in (True, False):
                yield dict(kind="msg", level=lev, important=imp, point=pt)
    for _ in range(400 if tier == "quick" else 4000):
        nd = int(rng.integers(0, len(NAMES) + 1))
        dn = [str(x) for x in rng.permutation(NAMES)[:nd]]
        un = [x for x in dn if rng.random() < 0.5]
        if rng.random() < 0.3:
            un.insert(int(rng.integers(0, len(un) + 1)), str(rng.choice(["zz", "A", "a ", "widths"])))
        yield dict(kind="merge", defaults=[[k, int(rng.integers(len(VALS)))] for k in dn], user=[[k, int(rng.integers(len(VALS)))] for k in un], none=bool(rng.random() < 0.1))
        keys = ["a", "b", "c"]
        yield dict(kind="req", values=[[k, int(rng.integers(len(VALS)))] for k in keys], req=[k for k in keys if rng.random() < 0.6])
    yield dict(kind="fresh")


def run(case):
    from gw_eccentricity import utils
    k = case["kind"]
    if k == "msg":
        f = need(utils, "debug_message")
        lev, imp = case["level"], case["important"]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                f("the message", lev, important=imp, point_to_verbose_output=case["point"])
                raised = None
            except Exception as e:
                raised = e
        if lev not in (-1, 0, 1, 2):
            check(isinstance(raised, ValueError), f"level {lev} accepted")
            return
        check((raised is not None) == (lev == 2), f"level {lev}: raised {raised!r}")
        if raised is not None:
            check("the message" in str(raised), "message lost")
            return
        want = 1 if (lev == 1 or (lev == 0 and imp)) else 0
        check(len(w) == want, f"level {lev}, important={imp}: {len(w)} warnings, expected {want}")
        if want:
            check("the message" in str(w[0].message), "message lost")
    elif k == "merge":
        f = need(utils, "check_kwargs_and_set_defaults")
        dv = {n: VALS[i] for n, i in case["defaults"]}
        d0 = copy.deepcopy(dv)
        if case["none"]:
            r = f(None, dv, "n", "l")
            check(r == d0, "no user options: not the defaults")
            return
        u = {n: VALS[i] for n, i in case["user"]}
        given = dict(u)
        bad = [n for n in u if n not in dv]
        try:
            r = f(u, dv, "n", "l")
        except Exception as e:
            check(bad, f"valid options {given} for {d0} rejected: {e}")
            return
        check(not bad, f"unknown options {bad} accepted")
        check(set(r) == set(d0), f"option names {sorted(r)} expected {sorted(d0)}")
        for n in d0:
            e = given[n] if n in given else d0[n]
            check(type(r[n]) is type(e) and r[n] == e, f"option {n}: {r[n]!r} expected {e!r}")
        check(dv == d0, "defaults modified")
    elif k == "req":
        f = need(utils, "raise_exception_if_none")
        d = {n: VALS[i] for n, i in case["values"]}
        bad = [n for n in case["req"] if d[n] is None]
        try:
            f(d, case["req"], "n", "l")
        except Exception as e:
            check(bad, f"complete options {d} rejected")
            return
        check(not bad, f"missing required option {bad} accepted")
    elif k == "fresh":
        from gw_eccentricity import spin_filter
        from gw_eccentricity.eccDefinitionUsingAmplitude import eccDefinitionUsingAmplitude as E
        fs = [(utils, "get_default_spline_kwargs", []), (utils, "get_default_rational_fit_kwargs", []), (spin_filter, "get_default_kwargs_for_filtering", []),
              (E.__new__(E), "get_default_extra_kwargs", []), (E.__new__(E), "get_default_extrema_finding_kwargs", [17])]
        for o, n, a in fs:
            if not hasattr(o, n):
                continue
            first = getattr(o, n)(*a)
            ref = copy.deepcopy(first)
            for x in first.values():
                if isinstance(x, dict):
                    x["polluted"] = 1
                elif isinstance(x, list):
                    x.append(1)
            for q in list(first):
                first[q] = "overwritten"
            check(getattr(o, n)(*a) == ref, f"defaults of {n} are shared between calls")
