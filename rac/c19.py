"""C19: rational fits of random data, against independent evaluations."""
import warnings
import numpy as np
from rac.base import Skip, check, need

RULE = ("random degrees up to 8 and numbers of points for the reduction; random smooth or exactly rational data (with gaps, offsets, far from the origin) fitted and "
        "evaluated on and off the training points; repeated with the abscissa scaled by powers of two")
PARTIAL = True


def cases(rng, tier):
    i = 0
    while True:
        yield dict(kind=["reduce", "exact", "train", "affine", "bad"][i % 5], seed=int(rng.integers(1 << 30)))
        i += 1


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False


def fitted(x, y, deg, **k):
    from gw_eccentricity.utils import get_rational_fit
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return get_rational_fit(x, y, dict(degrees=deg, **k))


def grid(rng, n):
    x = np.cumsum(rng.uniform(0.2, 1.8, n))
    return x * 10 ** rng.uniform(-1, 3) + rng.uniform(-2000, 100)


def exact(rng, n, m, k):
    """values of a ratio of polynomials of degrees (m, k) without poles near the data"""
    x = grid(rng, n)
    s = (x - x[0]) / (x[-1] - x[0]) * 2 - 1
    p = np.polynomial.chebyshev.chebval(s, np.r_[2 + rng.random(), rng.normal(size=m) * 0.4])
    roots = rng.choice([-1, 1], k) * rng.uniform(1.3, 3, k)
    q = np.ones(n)
    for r in roots:
        q = q * (1 - s / r)
    return x, s, p / q, roots


def run(c):
    import gw_eccentricity.rational_fit as rf
    rng = np.random.default_rng(c["seed"])
    K = c["kind"]
    if K == "reduce":
        m, n, N = (int(v) for v in rng.integers(0, 9, 3) * np.array([1, 1, 2]))
        und = lambda a, b: a + b + 1 >= N
        check(bool(need(rf, "is_underdetermined")((m, n), N)) == und(m, n), f"is_underdetermined{(m, n), N}")
        a, b, turn = m, n, 1
        while und(a, b) and (a or b):
            if turn and b or not a:
                b -= 1
            else:
                a -= 1
            turn = not turn
        f = need(rf, "get_reduced_degrees")
        if und(a, b):
            check(raises(f, (m, n), N), f"degrees {(m, n)} with {N} points: a constant cannot be fitted but no error")
        else:
            r = tuple(int(v) for v in f((m, n), N))
            check(r == (a, b), f"degrees {(m, n)} with {N} points reduced to {r}, not {(a, b)}")
        return
    if K == "bad":
        x, y = np.arange(12.), np.arange(12.) ** 2 + 1
        R = rf.RationalFit
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            check(raises(R, x, y[:int(rng.integers(1, 12))], (2, 2)), "mismatched lengths accepted")
            for d in ((2,), (2, 2, 2), 3, "22", None, (-1, 2), (2, -1), np.array([2, 2]), {2: 2, 3: 3}):
                check(raises(R, x, y, d), f"degrees {d!r} accepted")
            check(raises(R(x, y, (2, 2)), 0.5), "evaluated before fitting")
            for k in (12, 11, 10, 5, 4):
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    R(x[:k], y[:k], (4, 5))
                check((len(w) > 0) == (10 >= k), f"underdetermined message for {k} points, degrees (4,5): {len(w)}")
        return
    m, k = (int(v) for v in rng.integers(0 if K == "train" else 1, 5, 2))
    n = int(rng.integers(m + k + 6, m + k + 60))
    x, s, y, roots = exact(rng, n, m, k)
    if K == "exact":
        f = fitted(x, y, (m, k), max_iterations=30)
        e = np.max(np.abs(f(x) - y)) / np.max(np.abs(y))
        check(e < 1e-6, f"exactly rational data of degrees {(m, k)} ({n} points) reproduced only to {e}")
        return
    if K == "train":
        y = y + rng.normal(size=n) * rng.choice([0, 0.01, 0.1])
        it = int(rng.integers(1, 12))
        f = fitted(x, y, (m, k), max_iterations=it)
        v = f(x)
        if not np.all(np.isfinite(v)) or np.max(np.abs(v)) > 1e6:
            raise Skip("pole")
        h = f.history
        check(1 <= len(h) <= it, f"{len(h)} iterations of at most {it}")
        res = np.linalg.norm(v - y)
        best = min(q["res_norm"] for q in h)
        check(abs(res - best) <= 1e-6 * (1 + best) * np.max(np.abs(v)), f"residual at the training points {res}, smallest of the iterations {best} (degrees {(m, k)}, {n} points)")
        j = int(rng.integers(n))
        one = f(x[j])
        check(np.ndim(one) == 0 and not isinstance(one, np.ndarray) and abs(one - v[j]) <= 1e-9 * (1 + abs(v[j])), f"scalar point gives {one!r}, array gives {v[j]}")
        check(np.shape(f(x[j:j + 1])) == (1,), "array of one point gives a scalar")
        p = rng.permutation(n)
        check(np.allclose(f(x[p]), v[p], rtol=1e-9, atol=1e-12), "the value at a point depends on the other points")
        return
    y = y + rng.normal(size=n) * 0.001
    f = fitted(x, y, (m, k), max_iterations=10)
    a = 2.0 ** int(rng.integers(-20, 21))
    g = fitted(x * a, y, (m, k), max_iterations=10)
    z = rng.uniform(x[0], x[-1], 20)
    u, v = f(z), g(z * a)
    if not np.all(np.isfinite(u)) or np.max(np.abs(u)) > 1e3:
        raise Skip("pole")
    check(np.allclose(u, v, rtol=1e-6, atol=1e-8), f"abscissa scaled by {a}: the fit changes by {np.max(np.abs(u - v))}")
