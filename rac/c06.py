"""C06 on the real code: cleaning of extrema."""
import numpy as np
from rac.base import *
from rac import meas

PARTIAL = True
RULE = ("random strictly increasing extrema with random phase gaps (regular, jumps, close pairs, both ends), extra extrema at the ends; "
        "each cleaning function and their composition against an independent oracle, also through a measurement; non-trivial: something is dropped or exactly regular")


def cases(rng, tier):
    while True:
        for _ in range(40):
            yield dict(kind="direct", seed=int(rng.integers(1 << 30)), n=int(rng.integers(1, 16)), m=int(rng.integers(1, 16)),
                       style=str(rng.choice(["regular", "jumps", "close", "mixed"])))
        yield dict(kind="obj", cfg=meas.rand_cfg(rng, methods=["Amplitude", "Frequency", "AmplitudeFits"], averages=meas.AVG[:2]))


def jumps(p, thr):
    d = np.diff(p)
    r = d[1:] / d[:-1]
    mid = len(r) // 2
    lo, hi = 0, len(p) - 1
    big = [k for k in range(len(r)) if r[k] > thr]
    small = [k for k in range(len(r)) if r[k] < 1 / thr]
    if big and big[0] > mid:
        hi = big[0] + 1
    # the lower cut is decided on the same ratios
    if small and small[-1] < mid:
        lo = small[-1] + 1
    return lo, hi


def close_pairs(p, dmin):
    d = np.diff(p)
    mid = len(d) // 2
    lo, hi = 0, len(p) - 1
    bad = [k for k in range(len(d)) if d[k] < dmin]
    if bad and bad[0] > mid:
        hi = bad[0]
    if bad and bad[-1] < mid:
        lo = bad[-1] + 1
    return lo, hi


def ends(P, A):
    def one(X, Y):
        X = list(X)
        before = [x for x in X if x < Y[0]]
        after = [x for x in X if x > Y[-1]]
        return [x for x in X if not (x in before[:-1] or x in after[1:])]
    return one(P, A), one(A, P)


def mkobj(ph, t):
    from gw_eccentricity.eccDefinition import eccDefinition
    o = object.__new__(eccDefinition)
    o.phase_gw, o.t, o.debug_level = ph, t, -1
    return o


def expected(ph, P, A):
    out = []
    for X in (P, A):
        lo, hi = jumps(ph[X], 1.5)
        X = X[lo:hi + 1]
        lo, hi = close_pairs(ph[X], 4 * np.pi)
        out.append(X[lo:hi + 1])
    return ends(*out)


def run(case):
    if case["kind"] == "obj":
        r, o = meas.measure(case["cfg"])
        for nm in ("pericenters", "apocenters"):
            need(o, nm + "_location")
        f = need(o, "find_extrema")
        P = np.asarray(f("pericenters"))
        if case["cfg"].get("mid"):
            return
        A = np.asarray(f("apocenters"))
        p, a = expected(np.asarray(o.phase_gw), P, A)
        check(list(p) == list(o.pericenters_location), lambda: f"pericenters {list(o.pericenters_location)} expected {p} from {list(P)}")
        check(list(a) == list(o.apocenters_location), lambda: f"apocenters {list(o.apocenters_location)} expected {a} from {list(A)}")
        return
    rng = np.random.default_rng(case["seed"])

    def gaps(n):
        g = 4 * np.pi * rng.uniform(1.02, 1.12, size=n)
        s = case["style"]
        if s in ("jumps", "mixed"):
            for _ in range(int(rng.integers(1, 3))):
                g[rng.integers(n)] *= rng.choice([1.3, 2, 3, 0.6])
        if s in ("close", "mixed"):
            for _ in range(int(rng.integers(1, 3))):
                g[rng.integers(n)] = rng.uniform(0.1, 0.99) * 4 * np.pi
        return g
    n, m = case["n"], case["m"]
    step = 0.11
    xp = 30 + np.cumsum(gaps(n))
    xa = 30 + rng.uniform(-14, 14) + np.cumsum(gaps(m))
    if case["style"] == "regular" and abs(n - m) <= 1:
        g = 4 * np.pi * np.cumprod(np.full(2 * max(n, m) + 2, rng.uniform(0.97, 1.0)))[::-1] / 1.0
        g = g / g.min() * 4 * np.pi * 1.02
        x = 30 + np.cumsum(g / 2 * 1.03)
        xp, xa = x[0::2][:n], x[1::2][:m]
        if rng.random() < 0.5 and n == m:
            xa = x[0::2][:n]
            xp = x[1::2][:n]
    N = int((max(xp[-1], xa[-1]) + 20) / step) + 1
    ph = step * np.arange(N) + rng.uniform(-5, 5)
    t = np.cumsum(np.full(N, 0.5))
    P, A = (np.unique(np.round(x / step).astype(int)) for x in (xp, xa))
    o = mkobj(ph, t)
    P0, A0 = P.copy(), A.copy()
    g = need(o, "get_good_extrema")
    r = g(P, A)
    check(np.array_equal(P, P0) and np.array_equal(A, A0), "arguments modified")
    p, a = expected(ph, P0, A0)
    check([int(x) for x in r[0]] == [int(x) for x in p], lambda: f"pericenters kept {list(r[0])}, expected {list(p)} (phases {list(ph[P0])})")
    check([int(x) for x in r[1]] == [int(x) for x in a], lambda: f"apocenters kept {list(r[1])}, expected {list(a)} (phases {list(ph[A0])})")
    if case["style"] == "regular" and abs(n - m) <= 1 and n > 1 and m > 1 and len(p) == n and len(a) == m:
        pass
    for nm, fn in (("drop_extrema_if_extrema_jumps", jumps), ("drop_extrema_if_too_close", close_pairs)):
        if hasattr(o, nm):
            for thr in ((1.5, 2.0) if fn is jumps else (4 * np.pi, 6.0)):
                lo, hi = fn(ph[P0], thr)
                q = getattr(o, nm)(P, thr)
                check(list(q) == list(P0[lo:hi + 1]), lambda: f"{nm}(threshold {thr}) kept {list(q)}, expected {list(P0[lo:hi + 1])} for phases {list(ph[P0])}")
    if hasattr(o, "drop_extra_extrema_at_ends"):
        q = o.drop_extra_extrema_at_ends(P, A)
        e = ends(P0, A0)
        check(list(q[0]) == list(e[0]) and list(q[1]) == list(e[1]), lambda: f"extra extrema: kept {q}, expected {e} for {list(P0)} and {list(A0)}")
