"""C12 exclusion of the data within N orbits before merger."""
from .common import *
from . import contract
from .c04 import data_world, PDD
from pyvc.npmodel import extreme_idx, unary

IDX = ED + ".get_index_at_num_orbits_earlier_than_merger"
WID = ED + ".get_width_for_peak_finder_from_phase_gw"
FOUR_PI = 4 * to_z3(PI)


def closest(ctx, P, n, idx, target, name):
    """idx is the first sample whose phase is closest to the target."""
    d = lambda i: to_z3(f_abs(ctx, P.at(i) - target))
    ix = to_z3(idx)
    ctx.prove(name + ": a sample", z3.And(ix >= 0, ix < to_z3(n)))
    ctx.prove_all(name + ": no sample is closer", n, lambda i: d(ix) <= d(i))
    ctx.prove_all(name + ": the first such sample", ix, lambda i: d(ix) < d(i))


@contract(on=[IDX])
def index_before_merger(ctx):
    """For any non-negative N and any phase: the first sample whose phase is closest to (phase at merger) - 4 pi N; raises iff that target is below the initial phase."""
    n = ctx.length("n", 1)
    P = ctx.arr("phase", n)
    pm, N = ctx.real("phase_merger"), ctx.real("N")
    ctx.watch(P)
    out = ctx.outcome(IDX, ctx.obj(ED), P, pm, N)
    target = pm - FOUR_PI * N
    if raised(out):
        ctx.prove("raises only if there are fewer than N orbits", target < P.at(0))
        return
    ctx.prove("fewer than N orbits are refused", target >= P.at(0))
    closest(ctx, P, n, out[1], target, "index")
    ctx.frame("phase not modified", P)


@contract(on=[WID])
def minimum_width(ctx):
    """The minimum width is a quarter (integer part) of the number of samples between two and one orbits before merger."""
    n = ctx.length("n", 2)
    t0, dt = ctx.real("t0"), ctx.real("dt")
    ctx.assume(dt > 0)
    t = new_arr((n,), lambda i: t0 + z3.ToReal(to_z3(i)) * dt, "real", "t")
    P, pm = ctx.arr("phase", n), ctx.real("phase_merger")
    got = []

    def idx(c, a, k):
        N = a[3] if len(a) > 3 else k["num_orbits"]
        i = c.int("i", 0)
        c.assume(i < to_z3(n))
        got.append((N, i, a[1], a[2]))
        return i
    ctx.summaries[IDX] = idx
    w = ctx.no_raise("call", WID, ctx.obj(ED), t, P, pm)
    by = {}
    for N, i, ph, m in got:
        by[N] = i
        ctx.prove("phases and merger phase passed on", ph is P and m is pm)
    ctx.prove("two orbits and one orbit before merger", set(by) == {1, 2})
    q = to_z3(w)
    k = ctx.int("samples")
    ctx.assume(k == by[1] - by[2])
    ctx.assume(k >= 0)
    ctx.prove("a quarter of the samples in between", z3.And(4 * q <= k, k < 4 * q + 4),
              using=None)


@contract(on=[PDD], budget=200, lengths=(6,), paths=800)
def consistent_truncation(ctx):
    """The times and the amplitude, phase and frequency of every mode keep exactly the first `index` samples, unchanged; the quasicircular data keep all; without exclusion everything is kept; the index is that of N orbits before the phase at the sample closest to the merger time."""
    n, nz = ctx.length("n", 5), ctx.length("nz", 5)
    t, A, P, W, tm = data_world(ctx, n)
    modes = [(2, 2), (3, 3), (2, 1)][:1 + ctx.choose(2)]
    z = ctx.choose(2) == 1
    q = {k: {m: ctx.arr(f"{k}{m[0]}{m[1]}", n) for m in modes} for k in ("amplm", "phaselm", "omegalm")}
    q["amplm"][(2, 2)], q["phaselm"][(2, 2)], q["omegalm"][(2, 2)] = A, P, W
    data = {"t": t, "hlm": ctx.dict({m: ctx.arr("h", n, "cplx") for m in modes})}
    full = {k: ctx.dict(dict(v)) for k, v in q.items()}
    qz = {}
    if z:
        data["t_zeroecc"] = ctx.arr("t_zeroecc", nz)
        data["hlm_zeroecc"] = ctx.dict({(2, 2): ctx.arr("hz", nz, "cplx")})
        qz = {k: ctx.arr(k + "z", nz) for k in ("amplm", "phaselm", "omegalm")}
        full.update({k + "_zeroecc": ctx.dict({(2, 2): v}) for k, v in qz.items()})
    ctx.summaries[ED + ".get_amp_phase_omega_data"] = lambda c, a, k: PyDict(full)
    width = ctx.int("width", 0)
    ctx.summaries[WID] = lambda c, a, k: width
    got = []

    def idx(c, a, k):
        i = c.int("index", 0)
        c.assume(i < to_z3(n))
        got.append((a[1], a[2], a[3] if len(a) > 3 else k["num_orbits"], i))
        return i
    ctx.summaries[IDX] = idx
    m = extreme_idx(ctx, unary(ctx, lambda v: to_z3(f_abs(ctx, v - tm)), t, "real"), "<")
    ctx.assume(z3.And(P.at(m) >= P.at(0), W.at(m) >= 0))
    given = ctx.choose(2) == 1
    N = ctx.real("N") if given else None
    if given:
        ctx.assume(N >= 0)
    r = ctx.no_raise("valid data", PDD, ctx.obj(ED, precessing=False, frame="inertial", debug_level=0), ctx.dict(data), N, None)
    new, tmg, am, w = r
    ctx.prove("merger time and width passed on", tmg is tm and w is width)
    ctx.prove("amplitude at merger", am == A.at(m))
    keep = n
    if given:
        ctx.prove("one index, from phases, phase at merger and N", len(got) == 1 and got[0][2] is N)
        same_array(ctx, "phases used for the index", got[0][0], P, n)
        ctx.prove("phase at the sample closest to the merger", got[0][1] == P.at(m))
        keep = got[0][3]
    same_array(ctx, "times", new.d["t"], t, keep)
    for k in ("amplm", "phaselm", "omegalm"):
        ctx.prove(f"all modes of {k}", set(new.d[k].d) == set(modes))
        for md in modes:
            same_array(ctx, f"{k} {md}", new.d[k].d[md], q[k][md], keep)
    ctx.prove("quasicircular data iff given", ("t_zeroecc" in new.d) == z)
    if z:
        same_array(ctx, "quasicircular times in full", new.d["t_zeroecc"], data["t_zeroecc"], nz)
        for k in ("amplm", "phaselm", "omegalm"):
            same_array(ctx, f"quasicircular {k} in full", new.d[k + "_zeroecc"].d[(2, 2)], qz[k], nz)
