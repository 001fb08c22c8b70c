"""C07: diffuse tail."""
import math

import numpy as np
import torch

from vf import gen, ref
from vf.tr import F32, F64, MicrophoneArray, Source, T, cfg, np_, room, simulate_rir

ID = "C07"
TECH = "online monitor of paired runs (with/without tail) with statistical envelope oracle from the Sabine decay and RNG-state watch"
NOTE = "Envelope judged at 6 sigma on the standardised noise per scene and on early/late halves; seeds and T60 sampled."
RULE = "random scene with walls from absorbing to fully reflective, tdiff at/around sample boundaries, simulated without tail and with tail under several seeds; class = (dim, wall form, tdiff position, seed form)"
NEED = {"big_cases": 15, "assertions": 1500, "tail_samples": 100000}
KINDS = ["envelope", "envelope", "prefix", "edges", "seed", "rng"]


def cases(tier):
    n = 3600 if tier == "quick" else 720000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dt = F32 if r.uniform() < 0.2 else F64
    dim = int(r.choice([2, 3, 3]))
    sz = np.asarray(r.uniform(2, 8, dim))
    fs, c = float(r.choice([8000, 16000, 44100, 1000.5])), 343.0
    form = str(r.choice(["beta", "t60", "none", "one", "zero", "live"]))
    b, kw = np.ones(2 * dim), {}
    if form == "beta":
        b = r.uniform(0.2, 0.97, 2 * dim)
        kw["beta"] = b
    elif form == "live":  # hardly absorbing walls: a T60 of many seconds
        b = 1 - 10.0 ** r.uniform(-4.5, -1.5, 2 * dim if r.integers(2) else 1) * np.ones(2 * dim)
        kw["beta"] = b
        fs = float(r.choice([fs, 250.0, 1000.5]))
    elif form == "one":
        kw["beta"] = b
    elif form == "zero":
        b = np.zeros(2 * dim)
        kw["beta"] = b
    elif form == "t60":
        t60 = float(r.choice([0.1, 0.3, 0.8, 2.0]))
        kw["t60"] = t60
        b = ref.sabine_beta(sz, t60)
    S, M = int(r.integers(1, 3)), int(r.integers(1, 3))
    rm = room(sz, fs, c, dt=dt, **kw)
    src, mic = gen.pos(r, sz, S, mode=9), gen.pos(r, sz, M, mode=9)
    ns = int(r.integers(500, 1500)) if kind == "envelope" else int(r.integers(40, 800))
    if r.uniform() < 0.05:  # long responses, many pairs
        S, M, ns = [(S, M, int(r.integers(5000, 40000))), (int(r.integers(6, 20)), int(r.integers(6, 20)), ns)][int(r.integers(2))]
        src, mic = gen.pos(r, sz, S, mode=9), gen.pos(r, sz, M, mode=9)
        ctx.count("big_cases")
    tmax = ns / fs if r.integers(2) else (ns - 0.5) / fs
    ns = math.ceil(tmax * fs)
    a = dict(room=rm, sources=T(src, dt), mics=T(mic, dt), max_order=int(r.integers(0, 4)))
    give_ns = bool(r.integers(2))
    sim = lambda seed=None, **k: simulate_rir(**{**a, **(dict(nsample=ns) if give_ns else {}), "config": cfg(seed=seed), **k})
    plain = sim(tmax=tmax)
    dist = np.linalg.norm(mic[None] - src[:, None], axis=-1).max()
    lo = min(ns - 5, int(dist / c * fs) + 60)
    if lo < 5:
        lo = 5
    idx = int(r.integers(3, ns - 2)) if kind != "envelope" else int(r.integers(5, max(6, ns // 2)))
    off = float(r.choice([0.25, 0.5, 0.75]))
    tdiff = (idx + off) / fs
    info = dict(dim=dim, form=form, fs=fs, ns=ns, idx=idx, tmax=tmax, tdiff=tdiff, S=S, M=M)
    if kind == "edges":
        for k in (dict(tdiff=None, tmax=tmax), dict(tdiff=tmax, tmax=tmax), dict(tdiff=tmax * 1.5, tmax=tmax)):
            ctx.expect(torch.equal(sim(**k), plain), "no-tail", "a tail appears although tdiff is absent or >= tmax", **info)
        x = simulate_rir(**a, nsample=ns, tdiff=tdiff, tmax=None, config=cfg())
        ctx.expect(torch.equal(x, plain), "no-tail", "a tail appears although tmax is absent", **info)
        x = sim(tmax=tmax, tdiff=0.0)
        ctx.expect(torch.equal(x, plain), "tdiff-zero", "tdiff=0 (no image-source part) changes the RIR", **info)
        x = sim(tmax=tmax, tdiff=off / fs)
        ctx.expect(torch.equal(x, plain), "tdiff-zero", "tdiff below one sample changes the RIR", **info)
        # nsample shorter than tdiff: nothing to replace
        n2 = int(r.integers(2, idx + 1))
        x = simulate_rir(**a, nsample=n2, tdiff=tdiff, tmax=tmax, config=cfg())
        ctx.expect(torch.equal(x, plain[..., :n2]), "short", "tdiff beyond the response changes it", n2=n2, **info)
        # first possible index 1 and last possible index
        for i in (1, ns - 1):
            td = (i + 0.5) / fs
            if td < tmax:
                x = sim(tmax=tmax, tdiff=td)
                ctx.expect(torch.equal(x[..., :i], plain[..., :i]) and not torch.equal(x[..., i:], plain[..., i:]), "edge-index", f"tail from sample {i} wrong", **info)
        # config tmax used as the fallback
        x = simulate_rir(**a, nsample=ns, tdiff=tdiff, config=cfg(tmax=tmax))
        y = sim(tmax=tmax, tdiff=tdiff)
        if tdiff < tmax:
            ctx.expect(torch.equal(x, y), "config-tmax", "tail with tmax from the config differs", **info)
        ctx.nontrivial(kind, dim, form, give_ns)
        return
    if not tdiff < tmax:
        return
    seed = None if r.integers(2) else int(r.integers(0, 2**31))
    s0 = torch.random.get_rng_state()
    out = sim(seed, tmax=tmax, tdiff=tdiff)
    ctx.expect(torch.equal(torch.random.get_rng_state(), s0), "rng-advanced", "global torch RNG state advanced", **info)
    ctx.expect(out.shape == plain.shape and bool(torch.isfinite(out).all()), "form", "shape or non-finite", **info)
    ctx.expect(torch.equal(out[..., :idx], plain[..., :idx]), "prefix", f"samples before {idx} changed", **info)
    if kind == "rng":
        torch.manual_seed(int(r.integers(1, 10**6)))
        torch.rand(3)
        again = sim(seed, tmax=tmax, tdiff=tdiff)
        ctx.expect(torch.equal(again, out), "rng-read", "tail depends on the global RNG", **info)
        h = sim(seed, tmax=tmax, tdiff=tdiff, config=cfg(seed=seed, use_lut=True, image_chunk_size=3))
        ctx.expect(torch.equal(h, sim(seed, tmax=tmax, tdiff=tdiff, config=cfg(seed=seed, use_lut=True, image_chunk_size=3))), "repeat", "not a pure function", **info)
        ctx.nontrivial(kind, dim, form)
        return
    if kind == "seed":
        ctx.expect(torch.equal(sim(None, tmax=tmax, tdiff=tdiff), sim(0, tmax=tmax, tdiff=tdiff)), "seed-none", "no seed is not seed 0", **info)
        outs = [sim(s, tmax=tmax, tdiff=tdiff) for s in (0, 1, 2, 1000, int(r.integers(3, 999)), 2**16, 2**31 - 1, 2**31, 2**32 - 1)]
        for i in range(len(outs)):
            for j in range(i):
                ctx.expect(not torch.equal(outs[i][..., idx:], outs[j][..., idx:]), "seed-distinct", "different seeds give the same tail", **info)
        ctx.nontrivial(kind, dim, form)
        return
    # envelope
    x, p = np_(out), np_(plain)
    t60 = ref.sabine_t60(sz, b)
    t = np.arange(ns - idx) / fs
    with np.errstate(over="ignore", divide="ignore"):
        decay = np.exp(-t * 6.9078 / t60) if math.isfinite(t60) else np.exp(-3 * t)
    # float32 walls of a nominally rigid room may leave a rounding-sized absorption
    scale = np.abs(p[..., idx - 1 : idx]) + 1e-8
    with np.errstate(all="ignore"):
        z = x[..., idx:] / (decay * scale)
    zn = z[..., decay > 1e-30]
    n = zn.size
    ctx.count("tail_samples", n)
    rep = dict(info, t60=t60, n=n)
    if n >= 30:
        for name, part in (("all", zn), ("early", zn[..., : max(1, zn.shape[-1] // 3)]), ("late", zn[..., -max(1, zn.shape[-1] // 3) :])):
            k = part.size
            if k < 20:
                continue
            m, v = float(part.mean()), float((part**2).mean())
            ctx.expect(abs(m) <= 6.5 / math.sqrt(k), "mean", f"{name} tail mean {m:.3g} over {k} samples is not noise", **rep)
            ctx.expect(abs(v - 1) <= 6.5 * math.sqrt(2 / k) + 0.5 * (k < 60), "envelope", f"{name} tail power is {v:.3g} times the Sabine envelope ({k} samples)", **rep)
            if k > 200:
                kur = float((part**4).mean())
                ctx.expect(abs(kur - 3) <= 8 * math.sqrt(96 / k), "gauss", f"{name} tail kurtosis {kur:.3g}", **rep)
            ctx.count("assertions")
        if S * M > 1:
            f = z.reshape(S * M, -1)
            ctx.expect(not np.allclose(f[0], f[1]), "shared-noise", "two pairs share one noise sequence", **rep)
            ctx.expect(len({row[:20].tobytes() for row in f}) == S * M or f.shape[1] < 3, "shared-noise", "two pairs share one noise sequence", **rep)
        lag = zn.reshape(-1, zn.shape[-1])
        if lag.shape[-1] > 100:
            ac = float((lag[:, 1:] * lag[:, :-1]).mean())
            ctx.expect(abs(ac) <= 6.5 / math.sqrt(lag[:, 1:].size), "white", f"lag-1 correlation {ac:.3g}", **rep)
            # noise never repeats: any lag, within a pair and between pairs
            L = lag.shape[-1]
            rows = lag[: min(len(lag), 6)]
            F = np.fft.rfft(rows, 2 * L)
            E = np.cumsum(rows**2, axis=-1)
            for i in range(len(rows)):
                for j in range(i, len(rows)):
                    cc = np.fft.irfft(F[i] * np.conj(F[j]), 2 * L)[1 : L - 80]  # row i shifted by 1.. against row j
                    k = np.arange(1, 1 + len(cc))
                    en = np.sqrt((E[i][-1] - E[i][k - 1]) * E[j][L - 1 - k])
                    rho = np.abs(cc) / np.maximum(en, 1e-300)
                    lim = 9 / np.sqrt(L - k)
                    ok = (rho <= lim) | (lim > 1)
                    ctx.expect(bool(ok.all()), "repeats", f"tail noise of pair {i} shifted by {int(k[np.argmax(rho - lim)])} correlates {float(rho[np.argmax(rho - lim)]):.2f} with pair {j}", **rep)
            ctx.count("lag_pairs", len(rows) * (len(rows) + 1) // 2)
        ctx.nontrivial(kind, dim, form, fs, S, M)
    ctx.sample(rep)
