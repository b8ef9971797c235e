"""C28: the consistency checks on random data, against an independent evaluation."""
import re
import warnings
import numpy as np
from rac.base import Skip, check, need

RULE = ("random envelopes, extrema and eccentricity derivatives given to the consistency checks of an object holding random times and phases; the reported values and whether a "
        "message appears are compared with an independent evaluation; cases within rounding of a threshold are set aside")
PARTIAL = True


def cases(rng, tier):
    i = 0
    while True:
        yield dict(kind=["mono", "sep", "alt", "drop", "ecc", "mono_public"][i % 6], seed=int(rng.integers(1 << 30)), level=int(rng.choice([-1, 0, 1, 1, 1, 2])))
        i += 1


def obj(**kw):
    from gw_eccentricity.eccDefinition import eccDefinition
    o = object.__new__(eccDefinition)
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def catch(f, *a, **k):
    """(result or exception, messages)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = f(*a, **k)
        except Exception as e:
            return e, [str(e)]
    return r, [str(x.message) for x in w]


def expect(level, flagged, r, msgs, what):
    if level < 1:
        check(not msgs, f"{what}: message below debug level 1: {msgs[:1]}")
    elif level == 2:
        check(isinstance(r, Exception) == flagged, f"{what}: {'no exception' if flagged else 'exception'} at level 2 {msgs[:1]}")
    else:
        check(not isinstance(r, Exception), f"{what}: raises {r!r}")
        check(bool(msgs) == flagged, f"{what}: {'not reported' if flagged else 'reported: ' + str(msgs[:1])}")


def run(c):
    rng = np.random.default_rng(c["seed"])
    L = c["level"]
    K = c["kind"]
    if K in ("mono", "mono_public"):
        n = int(rng.integers(3, 40))
        dx = rng.uniform(0.1, 3)
        x = np.arange(n) * dx + rng.uniform(-50, 50)
        if rng.random() < 0.5:      # increasing derivative, possibly with a dent
            y = np.cumsum(np.cumsum(rng.uniform(0.1, 1, n))) * rng.choice([1e-3, 1, 50])
            if rng.random() < 0.5:
                y[int(rng.integers(n))] *= 1 + rng.choice([1e-9, 1e-7, 1e-3, 0.3])
        else:
            y = rng.normal(size=n)
        tol = float(rng.choice([1e-5, 1.0, 1e-2]))
        x0, y0 = x.copy(), y.copy()
        f = need(obj(), "check_if_first_derivative_is_not_strictly_monotonic")
        r = f(x, y) if tol == 1e-5 else f(x, y, tol)
        d = np.empty(n)
        d[1:-1] = (y[2:] - y[:-2]) / (2 * (x[1] - x[0]))
        d[0], d[-1] = (y[1] - y[0]) / (x[1] - x[0]), (y[-1] - y[-2]) / (x[1] - x[0])
        q = d[1:] / d[:-1]
        if np.any(np.abs(q - (1 - tol)) < 1e-9) or not np.all(np.isfinite(q)):
            raise Skip("at the threshold")
        e = bool(np.any(q <= 1 - tol))
        check(bool(r) == e, f"nonmonotonic reported {r}, ratios of the derivative give {e} (tol {tol}, min ratio {q.min()})")
        check(np.array_equal(x, x0) and np.array_equal(y, y0), "arguments modified")
        return
    n = int(rng.integers(60, 400))
    t = np.arange(n) * 0.5 + rng.uniform(-1000, 1000)
    ph = np.cumsum(rng.uniform(0.05, 1.2, n)) * rng.uniform(0.3, 2)
    if K == "sep":
        m = int(rng.integers(2, 12))
        X = np.sort(rng.choice(n, m, replace=False))
        always = bool(rng.random() < 0.3)
        o = obj(t=t, phase_gw=ph, debug_level=L)
        d = np.diff(ph[X]) / 2
        q = np.append([0], d[1:] / d[:-1])
        if np.any(np.abs(d - np.pi) < 1e-9) or np.any(np.abs(q - 1.5) < 1e-9) or np.any(np.abs(d - 1.5 * np.pi) < 1e-9):
            raise Skip("at a threshold")
        n_exp = int(np.any(d < np.pi)) + int(np.any(d < 1.5 * np.pi)) + int(np.any(q > 1.5))
        r, msgs = catch(need(o, "check_extrema_separation"), X, "pericenters", always_return=always)
        if L < 1:
            check(not msgs, "message below level 1")
            if not always:
                check(r == (None, None), "something was computed below level 1")
                return
        elif L == 2:
            check(isinstance(r, Exception) == (n_exp > 0), f"level 2: {n_exp} anomalies, result {r!r}")
            if n_exp:
                return
        else:
            check(len(msgs) == n_exp, f"{n_exp} anomalies (phase differences {d}, ratios {q}) but {len(msgs)} messages")
        check(np.allclose(r[0], d, rtol=1e-12, atol=0) and np.allclose(r[1], q, rtol=1e-12, atol=0), f"reported {r}, expected {d}, {q}")
    elif K == "alt":
        m = int(rng.integers(2, 16))
        X = np.sort(rng.choice(n, m, replace=False))
        P, A = X[::2], X[1::2]
        if rng.random() < 0.5:
            P, A = A, P
        alternates = True
        if rng.random() < 0.5:
            i = int(rng.integers(len(X)))
            lab = np.array([k % 2 for k in range(m)])
            u = rng.integers(0, 2, m) if rng.random() < 0.5 else lab.copy()
            if np.array_equal(u, lab):
                u[i] = 1 - u[i]
            P, A = X[u == 0], X[u == 1]
            if len(P) == 0 or len(A) == 0:
                raise Skip("no extrema of a type")
            alternates = bool(np.all(u[1:] != u[:-1]))
        if len(P) == 0 or len(A) == 0:
            raise Skip("no extrema of a type")
        o = obj(t=t, pericenters_location=P, apocenters_location=A, debug_level=L)
        r, msgs = catch(need(o, "check_pericenters_and_apocenters_appear_alternately"))
        expect(L, not alternates, r, msgs, f"pericenters {P.tolist()} apocenters {A.tolist()}")
    elif K == "drop":
        a = int(rng.integers(0, 20))
        b = int(rng.integers(0, a + 1)) if a else 0
        o = obj(debug_level=L)
        r, msgs = catch(need(o, "check_if_dropped_too_many_extrema"), np.arange(a), np.arange(b), "pericenters")
        expect(L, 2 * (a - b) > a, r, msgs, f"{a} extrema, {b} kept")
    else:
        T = t[: int(rng.integers(1, 50))]
        D = -rng.uniform(0.01, 1, len(T))
        pos = rng.choice(len(T), int(rng.integers(0, min(5, len(T)) + 1)), replace=False)
        D[pos] *= -1
        D0 = D.copy()
        lev = int(rng.choice([0, 1]))
        o = obj(t_for_checks=T, decc_dt_for_checks=D if rng.random() < 0.5 else None, d2ecc_dt_for_checks=None, debug_level=lev,
                derivative_of_eccentricity=lambda tt, n=1: D if n == 1 else -np.ones(len(T)))
        r, msgs = catch(need(o, "check_monotonicity_and_convexity"))
        if lev == 0 and not isinstance(r, Exception):
            pass
        check(not isinstance(r, Exception), f"raises {r!r}")
        check(len(msgs) == (1 if len(pos) else 0), f"eccentricity increases at {sorted(pos)}: {len(msgs)} messages")
        check(np.array_equal(D, D0), "the derivative was modified")
        if msgs:
            num = [float(x) for x in re.findall(r"-?\d+\.\d*(?:e[-+]?\d+)?|-?\d+\.", msgs[0].split("\n")[0])]
            ends = [T[pos.min()], T[pos.max()]]
            for e in ends:
                check(any(abs(e - x) <= 1e-6 * max(1, abs(e)) for x in num), lambda: f"reported range {num}, the eccentricity increases between {ends}")
            lo, hi = min(ends), max(ends)
            check(all(lo - 1e-6 * max(1, abs(lo)) <= x <= hi + 1e-6 * max(1, abs(hi)) for x in num), lambda: f"reported range {num} exceeds {ends}")
