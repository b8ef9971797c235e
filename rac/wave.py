"""Analytic synthetic eccentric waveforms (no LAL): independent inputs for the
runtime contract checks.  omega22(t) = 2 Omega(t) (1 + 2 e cos l + 5/2 e^2 cos 2l),
amp(t) chirps and peaks at t=0, l(t) = (orbital phase)/k - l0."""
import numpy as np


def eccentric(e0=0.1, n_orb=22, dt=1.0, k=1.06, l0=1.0, t_shift=0.0, amp_scale=1.0,
              ringdown=150.0, T=None, e_slope=0.3, extra_modes=False):
    """returns dict(t, amp, phase, omega) for the (2,2) mode; peak amplitude at t_shift."""
    # averaged orbital frequency Om(t)=c*(tau)^(-3/8), tau = sqrt(t^2+tau0^2)-like near merger
    tau0 = 60.0
    c = 0.35
    # orbital phase from -T to 0 ~ c*8/5*T^(5/8)
    if T is None:
        T = (n_orb * 2 * np.pi * 5 / 8 / c) ** (8 / 5)
    N = int(round((T + ringdown) / dt))
    t = -T + dt * np.arange(N + 1)
    s = np.where(t < 0, -t, 0.0) + tau0
    Om = c * s ** (-3.0 / 8)
    # analytic phase of averaged motion
    ph = np.where(t < 0, -c * 8 / 5 * (s ** (5 / 8.) - tau0 ** (5 / 8.)),
                  c * tau0 ** (-3 / 8.) * t)
    l = ph / k - l0
    # eccentricity decays toward merger and is switched off smoothly around it
    switch = 1.0 / (1.0 + np.exp((t + 120.0) / 20.0))
    e = e0 * (s / (T + tau0)) ** (e_slope) * switch
    dl = 2 * e * np.sin(l) + 1.25 * e * e * np.sin(2 * l)
    phase22 = 2 * (ph + k * dl)
    omega22 = np.gradient(phase22, dt, edge_order=2)
    amp = amp_scale * s ** (-0.25) * (1 + e * np.cos(l) + 0.4 * e * e * np.cos(2 * l))
    amp = np.where(t > 0, amp_scale * tau0 ** (-0.25) * np.exp(-t / 12.0), amp)
    # smooth quadratic-like cap near the peak
    amp = amp * (1 - 0.0)
    return dict(t=t + t_shift, amp=amp, phase=phase22 + 0.3, omega=omega22)


def data_dict(kind="hlm", zeroecc=False, modes=((2, 2),), t_shift_zeroecc=0.0, **kw):
    w = eccentric(**kw)
    d = {"t": w["t"]}
    amplm, phaselm, hlm = {}, {}, {}
    for i, (l, m) in enumerate(modes):
        f = 1.0 / (1 + 3 * i)
        a = w["amp"] * f
        p = w["phase"] * m / 2.0
        amplm[(l, m)] = a
        phaselm[(l, m)] = p
        hlm[(l, m)] = a * np.exp(-1j * p)
    if kind == "hlm":
        d["hlm"] = hlm
    elif kind == "amp":
        d["amplm"] = amplm
        d["phaselm"] = phaselm
    elif kind == "ampomega":
        d["amplm"] = amplm
        d["phaselm"] = phaselm
        d["omegalm"] = {k: np.gradient(v, w["t"]) for k, v in phaselm.items()}
    if zeroecc:
        kz = dict(kw)
        kz["e0"] = 0.0
        base_T = -(w["t"][0] - kw.get("t_shift", 0.0))
        kz["T"] = base_T * 1.02
        kz["t_shift"] = t_shift_zeroecc
        wz = eccentric(**kz)
        d["t_zeroecc"] = wz["t"]
        if kind == "hlm":
            d["hlm_zeroecc"] = {(2, 2): wz["amp"] * np.exp(-1j * wz["phase"])}
        else:
            d["amplm_zeroecc"] = {(2, 2): wz["amp"]}
            d["phaselm_zeroecc"] = {(2, 2): wz["phase"]}
            if kind == "ampomega":
                d["omegalm_zeroecc"] = {(2, 2): np.gradient(wz["phase"], wz["t"])}
    return d
