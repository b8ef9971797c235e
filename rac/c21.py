"""C21: batches with failing samples, with a recorded waveform generator and (mostly) a stand-in for the measurement."""
import logging
import warnings
import numpy as np
from rac.base import Skip, check, need

RULE = ("random posteriors with shuffled and gapped indices, random subsets of samples failing at generation or measurement with random exceptions or returning a wrong type; "
        "results, summaries and frequency ranges are compared with an independent bookkeeping; some cases run the real measurement")
PARTIAL = True
EXC = [ValueError, KeyError, IndexError, TypeError, RuntimeError, ZeroDivisionError, AssertionError, ArithmeticError, NotImplementedError, OSError, Exception]


def cases(rng, tier):
    i = 0
    while True:
        yield dict(kind=["sample", "batch", "bounds", "summary", "columns", "bilby"][i % 6], seed=int(rng.integers(1 << 30)))
        i += 1


class Obj:
    def __init__(self, b):
        self.b = b

    def get_fref_bounds(self):
        return self.b


def run(c):
    logging.disable(logging.CRITICAL)
    import pandas as pd
    import gw_eccentricity.postprocess.core as core
    import gw_eccentricity.postprocess.postprocess as pp
    rng = np.random.default_rng(c["seed"])
    K = c["kind"]
    n = int(rng.integers(1, 9))
    idx = rng.choice(1000, n, replace=False)
    fate = rng.choice([0, 0, 0, 1, 2, 3], n)
    par = rng.random(n)
    df = pd.DataFrame(dict(x=par, y=rng.random(n), k=np.arange(n)), index=idx)
    gen_calls, meas = [], []
    extra, opts = dict(delta=float(rng.random())), dict(extra_kwargs=dict(debug_level=-1))

    def gen(p, ex):
        k = int(p["k"])
        gen_calls.append(k)
        check(p["x"] == par[k] and set(p) == {"x", "y", "k"}, f"parameters {p} are not those of sample {k}")
        check(ex == extra or ex == {}, f"extra options {ex}")
        if fate[k] == 1:
            raise EXC[int(rng.integers(len(EXC)))](f"generation {k}")
        if fate[k] == 2:
            return [1, 2]
        return dict(t=np.arange(3) + par[k], k=k)

    tref, fref = (-100.0, None) if rng.random() < 0.5 else (None, 20.0)

    def measure(tref_in=None, fref_in=None, method="Amplitude", dataDict=None, **kw):
        k = dataDict["k"]
        meas.append(k)
        check(kw == opts, f"options {kw}")
        check(method == "AmplitudeFits", f"method {method}")
        if K == "bounds":
            check(np.array_equal(tref_in, dataDict["t"]) and fref_in is None, "frequency range not measured on the times of the data")
        else:
            check(tref_in == tref and fref_in == fref, f"reference {tref_in}, {fref_in}")
        if fate[k] == 3:
            raise EXC[int(rng.integers(len(EXC)))](f"measurement {k}")
        return dict(eccentricity=par[k] / 3, mean_anomaly=par[k] * 2, gwecc_object=Obj((par[k], 2 + par[k] ** 2)))

    def post(r, k, i):
        check(int(r.sample_index) == int(i), f"entry of sample {i} carries the index {r.sample_index}")
        names, vals = (("fref_min", "fref_max"), (par[k], 2 + par[k] ** 2)) if K == "bounds" else (("egw", "lgw"), (par[k] / 3, par[k] * 2))
        got = [getattr(r, q) for q in names]
        if fate[k]:
            check(r.status == "fail" and got == [None, None], f"failing sample {i}: {r}")
            check(r.error_message and (fate[k] == 2 or f"{'generation' if fate[k] == 1 else 'measurement'} {k}" in r.error_message), f"failing sample {i}: error text {r.error_message!r}")
        else:
            check(r.status == "success" and got == list(vals) and r.error_message is None, f"sample {i}: {r}, expected {vals}")

    def ok(f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise
            check(False, f"a failing sample makes {getattr(f, '__name__', f)} raise {e!r}")

    old = need(core, "measure_eccentricity")
    core.measure_eccentricity = measure
    try:
        if K == "sample":
            f = need(core, "postprocess_sample")
            for a, b in ((None, None), (1.0, 2.0), (0.0, 0.0)):
                try:
                    f(3, {}, a, b, gen)
                except Exception:
                    continue
                check(False, f"tref={a} and fref={b} accepted")
            check(not gen_calls, "evaluated without a valid reference")
            for k in range(n):
                r = ok(f, idx[k], df.iloc[k].to_dict(), tref, fref, gen, data_dict_generator_extra_kwargs=extra, method="AmplitudeFits", gw_eccentricity_kwargs=opts)
                post(r, k, idx[k])
            check(gen_calls == list(range(n)), f"samples evaluated {gen_calls}")
            return
        if K in ("batch", "bounds", "bilby"):
            class P(pp.PostProcess):
                def get_posterior(self, parameter_columns=None):
                    return df
            o = P("file", gen, data_dict_generator_extra_kwargs=extra)
            sel = None if rng.random() < 0.3 else [int(v) for v in rng.permutation(idx)[: int(rng.integers(1, n + 1))]]
            want = list(idx) if sel is None else sel
            pos = {int(v): k for k, v in enumerate(idx)}
            if K == "bounds":
                r = ok(o.get_fref_bounds, samples=sel, method="AmplitudeFits", gw_eccentricity_kwargs=opts, n_jobs=1)
            else:
                for a, b in ((None, None), (1.0, 2.0)):
                    try:
                        o.postprocess(tref=a, fref=b, n_jobs=1)
                    except ValueError:
                        continue
                    check(False, f"tref={a} and fref={b} accepted")
                r = ok(o.postprocess, tref=tref, fref=fref, samples=sel, method="AmplitudeFits", gw_eccentricity_kwargs=opts, n_jobs=1)
            check(len(r.results) == len(want), f"{len(r.results)} entries for {len(want)} samples")
            for e, i in zip(r.results, want):
                post(e, pos[int(i)], i)
            check(sorted(gen_calls) == sorted(pos[int(i)] for i in want), "samples evaluated " + str(gen_calls))
            if K != "bounds":
                s = o.get_gw_eccentricity_posterior()
                good = [pos[int(i)] for i in want if not fate[pos[int(i)]]]
                check(s["egw"] == [par[k] / 3 for k in good] and s["lgw"] == [par[k] * 2 for k in good], f"successful values {s}")
                t = r.to_dataframe()
                check(list(t["sample_index"]) == [int(i) for i in want] and list(t["status"]) == ["fail" if fate[pos[int(i)]] else "success" for i in want], "table")
            return
        if K == "columns":
            cols = list("abcdef")
            have = [q for q in cols if rng.random() < 0.7] or ["a"]
            want = [str(q) for q in rng.permutation([q for q in cols if rng.random() < 0.5])]
            d = pd.DataFrame({q: rng.random(4) for q in have})
            f = need(core, "filter_posterior_columns")
            try:
                r = f(d, want)
            except Exception:
                check(bool(set(want) - set(have)), f"columns {want} of {have} refused")
                return
            check(not set(want) - set(have), f"missing columns {set(want) - set(have)} accepted")
            check(list(r.columns) == want and all(np.array_equal(r[q], d[q]) for q in want), "columns selected")
            return
        F = bool(rng.random() < 0.5)
        val = rng.random((n, 2))
        mk = core.FrefBoundsResult if F else core.PostProcessResult
        res = [mk(int(idx[k]), "fail", None, None, "why") if fate[k] else mk(int(idx[k]), "success", val[k, 0], 2 + val[k, 1]) for k in range(n)]
        R = (core.FrefBoundsResults if F else core.PostProcessResults)(res)
        s = R.get_summary()
        good = [k for k in range(n) if not fate[k]]
        check(s["total_samples"] == n and abs(s["success_percentage"] - 100 * len(good) / n) < 1e-9, f"summary {s} of {n} samples, {len(good)} successful")
        a, b = ("fref_min", "fref_max") if F else ("egw", "lgw")
        check(s[a] == [val[k, 0] for k in good] and s[b] == [2 + val[k, 1] for k in good], f"summary values {s}")
        check([r.sample_index for r in R.success_only()] == [int(idx[k]) for k in good], "successful entries")
        if F:
            try:
                m = R.get_minmax_fref()
            except Exception as e:
                check(not good, f"common range: {e!r}")
                return
            check(bool(good) and m[0] == max(val[k, 0] for k in good) and m[1] == min(2 + val[k, 1] for k in good), f"common range {m}")
    finally:
        core.measure_eccentricity = old
