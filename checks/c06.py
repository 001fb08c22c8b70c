"""C06: RIR high-pass against an independently designed zero-phase filter."""
import copy
import dataclasses

import numpy as np
import torch
from scipy import signal as ss

from vf import gen
from vf.tr import F32, F64, T, cfg, np_, raises, room, simulate_dynamic_rir, simulate_rir
from torchrir.config import SimulationConfig

ID = "C06"
TECH = "online oracle: every filtered RIR recomputed from the unfiltered run with an independently designed zero-phase IIR (scipy), plus a forward/backward recursion written out sample by sample"
NOTE = "Filter design itself is trusted to scipy.signal.iirfilter; application is cross-checked against a hand-written recursion. Sampled families, orders and cutoffs."
RULE = "random scene simulated with the filter off and on (families butter/cheby1/cheby2/ellip/bessel, orders 1-6, cutoffs across (0, fs/2), static/dynamic, float32/64, 'type' or 'ftype' key); class = (family, order, dynamic, dtype, key, fc bucket)"
NEED = {"big_cases": 30, "long_cases": 20, "minutes_long": 15, "assertions": 300, "filtered_rirs": 300}
KINDS = ["oracle", "oracle", "oracle", "default", "manual", "bad", "off", "tail"]
FAMS = ["butter", "cheby1", "cheby2", "ellip", "bessel"]


def cases(tier):
    n = 4000 if tier == "quick" else 800000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def scene(r, dt, big=False, hard=False):
    dim = int(r.choice([2, 3]))
    sz, b = gen.size(r, dim), gen.beta(r, dim)
    fs, c = gen.fs_c(r)
    S, M = int(r.integers(1, 3)), int(r.integers(1, 4))
    dyn = bool(r.integers(2))
    if hard:  # reverberates for a minute or more
        b, dyn, fs, c, M = np.full(2 * dim, 0.9995), False, float(r.choice([8000, 16000, 48000])), 343.0, 1
    n = int(r.integers(2, 4)) if r.uniform() < 0.9 else 1
    if big:
        S, M, n = [(int(r.integers(9, 40)), 1, 1), (1, int(r.integers(9, 40)), 2), (1, 2, int(r.integers(20, 150)))][int(r.integers(3))]
    rm = room(sz, fs, c, beta=b, dt=dt)
    order = int(r.integers(0, 4))
    if dyn:
        st, mt = T([gen.pos(r, sz, S) for _ in range(n)], dt), T([gen.pos(r, sz, M) for _ in range(n)], dt)
        return fs, dyn, lambda **k: simulate_dynamic_rir(room=rm, src_traj=st, mic_traj=mt, max_order=order, **k)
    s, m = T(gen.pos(r, sz, S), dt), T(gen.pos(r, sz, M), dt)
    return fs, dyn, lambda **k: simulate_rir(room=rm, sources=s, mics=m, max_order=order, **k)


def biquads(sos, x, zi):
    """plain-python cascaded direct-form II transposed"""
    y = np.array(x, float)
    for k in range(len(sos)):
        b0, b1, b2, _, a1, a2 = sos[k]
        z0, z1 = zi[k]
        out = np.empty_like(y)
        for i, v in enumerate(y):
            o = b0 * v + z0
            z0 = b1 * v - a1 * o + z1
            z1 = b2 * v - a2 * o
            out[i] = o
        y = out
    return y


def manual(sos, x):
    n = 2 * len(sos) + 1 - min((sos[:, 2] == 0).sum(), (sos[:, 5] == 0).sum())
    pad = min(3 * int(n), len(x) - 1)
    if pad < 1:
        pad, ext = 0, x
    else:
        ext = np.concatenate([2 * x[0] - x[pad:0:-1], x, 2 * x[-1] - x[-2 : -pad - 2 : -1]])
    zi = ss.sosfilt_zi(sos)
    y = biquads(sos, ext, zi * ext[0])
    y = biquads(sos, y[::-1], zi * y[-1])[::-1]
    return y[pad : len(y) - pad]


def zero_phase(sos, x):
    """scipy's forward-backward filter; responses shorter than its padding are padded as far as possible"""
    n = 2 * len(sos) + 1 - min((sos[:, 2] == 0).sum(), (sos[:, 5] == 0).sum())
    return ss.sosfiltfilt(sos, x, axis=-1, padlen=int(max(0, min(3 * n, x.shape[-1] - 1))))


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dt = F32 if r.uniform() < 0.3 else F64
    big = bool(r.uniform() < 0.1) and kind != "manual"
    hard = kind == "tail" and not big and bool(r.uniform() < 0.12)
    fs, dyn, sim = scene(r, dt, big, hard)
    ctx.count("big_cases", int(big))
    ns = int(r.choice([60, 150, 400, 801])) if r.uniform() < 0.9 else int(r.integers(1, 22))
    if kind in ("oracle", "default") and not big and r.uniform() < 0.1:
        ns = int(r.choice([4096, 9001, 33000]))
        ctx.count("long_cases")
    if hard:
        ns = int(r.choice([20011, 65537, 70000, 131100, 262145 + int(r.integers(40000))]))
        ctx.count("minutes_long")
    if kind == "default":
        c_on = SimulationConfig() if r.integers(2) else None
        off = sim(nsample=ns, config=cfg())
        on = sim(nsample=ns, config=c_on)
        sos = ss.iirfilter(2, 2 * 10.0 / fs, btype="highpass", output="sos", rp=5.0, rs=60.0, ftype="butter")
        fam, n, fc, key = "butter", 2, 10.0, "default"
    else:
        fam = str(r.choice(FAMS))
        n = int(r.integers(1, 7))
        fc = float(r.choice([fs * 0.001, fs * 0.01, fs * 0.1, fs * 0.3, fs * 0.45]))
        key = "type" if r.integers(2) else "ftype"
        kw = {key: fam}
        if r.uniform() < 0.9:
            kw["n"] = n
        else:
            n = 2
        rp, rs = float(r.uniform(0.1, 5)), float(r.uniform(20, 70))
        kw["rp"], kw["rs"] = rp, rs
        if kind == "bad":
            fc = float(r.choice([fs / 2, fs * 0.51, fs, fs * 10]))
            ok, e = raises(ValueError, lambda: sim(nsample=ns, config=SimulationConfig(rir_hpf_fc=fc, rir_hpf_kwargs=kw)))
            ctx.expect(ok, "fc-range", f"cutoff {fc} at fs {fs} not rejected: {e!r:.200}", fs=fs, fc=fc)
            for bad in (0.0, -3.0):
                ok, e = raises(ValueError, lambda: sim(nsample=ns, config=SimulationConfig(rir_hpf_fc=bad, rir_hpf_kwargs=kw)))
                ctx.expect(ok, "fc-range", f"cutoff {bad} not rejected", fs=fs, fc=bad)
            # with the filter disabled the same cutoff is irrelevant
            sim(nsample=ns, config=SimulationConfig(rir_hpf_fc=fc, rir_hpf_kwargs=kw, rir_hpf_enable=False))
            ctx.nontrivial(kind, round(fc / fs, 2), dyn)
            return
        if kind == "off":
            a = sim(nsample=ns, config=SimulationConfig(rir_hpf_fc=fc, rir_hpf_kwargs=kw, rir_hpf_enable=False))
            b_ = sim(nsample=ns, config=cfg())
            ctx.expect(torch.equal(a, b_), "off-untouched", "filter parameters influence the RIR although the filter is disabled")
            ctx.nontrivial(kind, fam, dyn, str(dt))
            return
        conf = SimulationConfig(rir_hpf_fc=fc, rir_hpf_kwargs=kw)
        snap_kw, snap = copy.deepcopy(kw), copy.deepcopy(dataclasses.asdict(conf))
        try:
            sos = ss.iirfilter(n, 2 * fc / fs, btype="highpass", output="sos", ftype=fam, rp=rp, rs=rs)
        except Exception:
            raise
        extra = {}
        if kind == "tail":
            extra = dict(tmax=ns / fs, tdiff=(float(r.choice([0.01, 0.02])) if hard else 0.5 * ns / fs))
            if dyn:
                extra = {}
        off = sim(nsample=ns, config=cfg(), **extra)
        on = sim(nsample=ns, config=conf, **extra)
        again = sim(nsample=ns, config=conf, **extra)
        ctx.expect(torch.equal(on, again), "repeat", "second run with the same config object differs")
        ctx.expect(kw == snap_kw and list(kw) == list(snap_kw) and dataclasses.asdict(conf) == snap, "config-mutated", f"config changed: {kw} vs {snap_kw}")
    ctx.expect(on.shape == off.shape and on.dtype == off.dtype and on.device == off.device, "form", f"shape/dtype/device changed: {on.shape} {on.dtype}")
    x = np_(off)
    if kind == "manual":
        flat = x.reshape(-1, ns)
        want = np.array([manual(sos, row) for row in flat[:3]])
        got = np_(on).reshape(-1, ns)[:3]
    else:
        want, got = zero_phase(sos, x), np_(on)
    scale = np.abs(x).max() + 1e-300
    gain = max(1.0, float(np.abs(want).max() / scale))
    # conditioning: how much the filter amplifies a rounding-sized perturbation of its input
    pert = x * (1 + 1e-9 * np.sign(np.sin(np.arange(ns) * 12.9898)))
    amp = np.abs(zero_phase(sos, pert) - zero_phase(sos, x)).max() / (1e-9 * scale)
    tol = (2e-6 if dt == F32 else 1e-9) * scale * gain * max(1.0, amp)
    if not np.isfinite(want).all() or amp > 1e5:
        ctx.count("ill_conditioned_filter_skipped")
        return
    d = np.abs(got - want).max()
    ctx.expect(d <= tol, f"hpf:{fam}", f"filtered RIR differs from the zero-phase {fam}{n} at {fc:.4g}/{fs}: {d:.3g} > {tol:.3g}", family=fam, n=n, fc=fc, fs=fs, dyn=dyn, shape=x.shape, key=key)
    ctx.count("filtered_rirs", int(np.prod(x.shape[:-1])))
    x = x.reshape(-1, ns)[:3] if kind == "manual" else x
    if np.abs(want - x).max() > 1e-3 * scale:
        ctx.nontrivial(kind, fam, n, dyn, str(dt), key, round(fc / fs, 3))
    ctx.sample(dict(family=fam, n=n, fc=fc, fs=fs, dyn=dyn, maxdiff=float(d), effect=float(np.abs(want - x).max())))
