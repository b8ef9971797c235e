"""C27: comparison of two measurements against an independent evaluation."""
from types import SimpleNamespace
import numpy as np
from rac.base import Skip, check

RULE = ("two results (reference times, measurable ranges, eccentricities, wrapped mean anomalies) at random common reference times, with reference times exactly on the limits, "
        "optional limits inside, on and beyond the common range, and results whose times do not coincide; a case counts when the comparison was made or refused as it should be")


def cases(rng, tier):
    i = 0
    while True:
        yield dict(kind=["plain", "plain", "edge", "gap", "other"][i % 5], seed=int(rng.integers(1 << 30)))
        i += 1


def run(c):
    from gw_eccentricity.compare_methods import compute_errors_between_methods
    rng = np.random.default_rng(c["seed"])
    n = int(rng.integers(3, 60))
    ref = np.sort(rng.uniform(-3000, -100, n))
    if np.min(np.diff(ref)) < 1e-3:
        raise Skip("nearly equal times")

    def lim(lo, hi):
        x = rng.uniform(lo, hi)
        return float(ref[int(rng.integers(n))]) if rng.random() < 0.5 or c["kind"] == "edge" else float(x)
    objs = []
    for k in range(2):
        a, b = lim(-3100, -2000), lim(-1200, 0)
        t = ref[(ref >= a) & (ref <= b)]
        objs.append(SimpleNamespace(tref_in=ref.copy(), tmin=a, tmax=b, tref_out=t, eccentricity=rng.uniform(0, 0.5, len(t)),
                                    mean_anomaly=(np.cumsum(rng.uniform(0.1, 2, len(t))) + rng.uniform(0, 6)) % (2 * np.pi)))
    x, y = objs
    kw = {}
    if rng.random() < 0.5:
        kw["tmin"] = lim(-3100, -1000)
    if rng.random() < 0.5:
        kw["tmax"] = lim(-2000, 0)
    if rng.random() < 0.1:
        kw["tmin"] = 10.0
    L, U = max(x.tmin, y.tmin), min(x.tmax, y.tmax)
    refuse = "tmin" in kw and kw["tmin"] > U
    L = max(L, kw.get("tmin", L))
    refuse = refuse or ("tmax" in kw and kw["tmax"] < L)
    U = min(U, kw.get("tmax", U))
    if c["kind"] == "gap" and len(x.tref_out) > 3:
        i = int(rng.integers(len(x.tref_out)))
        for k in ("tref_out", "eccentricity", "mean_anomaly"):
            setattr(x, k, np.delete(getattr(x, k), i))
    if c["kind"] == "other":
        y.tref_in = ref + rng.choice([0, 1e-2])
    i1, i2 = ((o.tref_out >= L) & (o.tref_out < U) for o in (x, y))
    same = i1.sum() == i2.sum() and np.array_equal(x.tref_out[i1], y.tref_out[i2])
    refuse = refuse or not same or not np.array_equal(x.tref_in, y.tref_in)
    keep = {k: getattr(o, a).copy() for k, (o, a) in {(j, a): (o, a) for j, o in enumerate(objs) for a in ("tref_out", "eccentricity", "mean_anomaly", "tref_in")}.items()}
    try:
        r = compute_errors_between_methods(x, y, **kw)
    except Exception as e:
        check(refuse, f"refused ({type(e).__name__}: {str(e)[:80]}) although the times coincide and the limits {kw} are inside")
        return
    check(not refuse, f"accepted although it should be refused: limits {kw}, common range [{L}, {U}), same times {same}")
    for (j, a), v in keep.items():
        check(np.array_equal(getattr(objs[j], a), v), f"{a} was modified")
    m = int(i1.sum())
    check(len(r) == 7 and all(len(v) == m for v in r), lambda: f"lengths {[len(v) for v in r]}, expected {m}")
    exp = [x.tref_out[i1], np.abs(x.eccentricity[i1] - y.eccentricity[i2]), np.abs(np.unwrap(x.mean_anomaly[i1]) - np.unwrap(y.mean_anomaly[i2])),
           x.eccentricity[i1], y.eccentricity[i2], x.mean_anomaly[i1], y.mean_anomaly[i2]]
    for nm, v, e in zip(("times", "eccentricity errors", "mean anomaly errors", "eccentricity 1", "eccentricity 2", "mean anomaly 1", "mean anomaly 2"), r, exp):
        check(np.allclose(v, e, rtol=1e-9, atol=1e-9), lambda: f"{nm}: {v[:5]} expected {e[:5]} (range [{L}, {U}))")
