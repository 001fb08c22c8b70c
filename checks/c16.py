"""C16: dynamic convolution."""
import math

import numpy as np
import torch

import torchrir.signal.dynamic as dynmod
from vf.tr import F32, F64, T, np_, raises
from torchrir.signal import DynamicConvolver, convolve_rir

ID = "C16"
TECH = "online oracle: segment ownership recomputed exactly (rational arithmetic) and every segment convolved directly; conservation relation with constant RIRs; differential run of the accelerator implementation on CPU"
NOTE = "The batched accelerator routine is driven directly on CPU tensors when it exists under its current name; otherwise that differential is skipped and only the public API is judged."
RULE = "random signals, RIR sequences (T 1..40, T>N, T not dividing N), timestamps with repeats and past-the-end steps, hops below/at/above N; class = (mode, form, S, M, T relation, timestamps form, dtype)"
NEED = {"decaying_cases": 50, "big_cases": 40, "scaled_cases": 500, "assertions": 1500, "rounding_sensitive": 100, "far_timestamps": 30}
KINDS = ["traj", "traj", "stamps", "hop", "hop", "constant", "reject", "batched", "forms"]


def cases(tier):
    n = 10800 if tier == "quick" else 1000000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def direct(x, h, starts, out_len):
    """starts: T+1 boundaries"""
    n, S, M, L = h.shape
    out = np.zeros((M, out_len))
    for t in range(n):
        a, b = starts[t], starts[t + 1]
        if b <= a:
            continue
        for m in range(M):
            for s in range(S):
                y = np.convolve(x[s if x.shape[0] > 1 else 0, a:b], h[t, s, m])
                out[m, a : a + y.size] += y
    return out


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dt = F32 if r.uniform() < 0.25 else F64
    eps = 5e-6 if dt == F32 else 1e-12
    N = int(r.choice([1, 2, 7, 64, 100, 257, 500, 1000]))
    n = int(r.choice([1, 2, 3, 5, 8, 9, 13, 17, 40]))
    L = int(r.choice([1, 2, 5, 33, 64, 120]))
    S, M = int(r.integers(1, 4)), int(r.integers(1, 4))
    if r.uniform() < 0.15 and kind in ("traj", "forms"):  # segment starts that floating-point steps miss by one
        while True:
            N, n = int(r.integers(20, 600)), int(r.integers(3, 60))
            if any(t * N // n != int(t * (N / n)) for t in range(n)):
                break
    if r.uniform() < 0.05 and kind != "reject":  # long signals, many steps, many channels
        k = int(r.integers(5))
        if k == 0:
            N, n = int(r.choice([8192, 20000, 48001])), int(r.choice([2, 16, 40]))
        elif k == 1:
            N, n = int(r.choice([1000, 5000])), int(r.choice([128, 300, 600]))
        elif k == 2:
            M = int(r.integers(9, 40))
        elif k == 3:
            S = int(r.integers(9, 40))
        else:
            L = int(r.choice([2000, 5000]))
        ctx.count("big_cases")
    shared = bool(r.integers(2))
    x = r.normal(size=(1 if shared else S, N))
    h = r.normal(size=(n, S, M, L))
    if n > 1 and r.uniform() < 0.3:
        # steps that repeat one another: in all channels, or in some while another still changes
        keep = np.repeat(np.arange(0, n, k := int(r.integers(2, 6))), k)[:n]
        part = int(r.integers(4))
        ss = slice(None) if part in (0, 1) else slice(0, 1) if part == 2 else int(r.integers(S))
        mm = slice(None) if part in (0, 2) else slice(0, 1) if part == 1 else int(r.integers(M))
        if r.uniform() < 0.3:
            ss, mm = 0, 0
        h[:, ss, mm] = h[keep][:, ss, mm]
        if r.uniform() < 0.3:  # one sample apart
            h[1:, :, :, 1:] = h[:1, :, :, 1:]
        ctx.count("repeated_steps")
    if r.uniform() < 0.2:
        x[:, : N // 2] = 0
    if r.uniform() < 0.3:  # decaying responses (weak ends count), late onsets, steps of very different level
        h = h * 10.0 ** np.linspace(0, -float(r.choice([3, 5, 8])), L)[:: int(r.choice([1, -1]))]
        if r.uniform() < 0.5:
            h = h * 10.0 ** -r.uniform(0, 6, (n, S, M, 1))
        ctx.count("decaying_cases")
    if r.uniform() < 0.2:  # loudness is no property of the operation
        x *= 10.0 ** r.uniform(-12, 5)
        h *= 10.0 ** r.uniform(-8, 4)
        ctx.count("scaled_cases")
    xt, ht = T(x, dt), T(h, dt)
    x, h = np_(xt), np_(ht)
    energy = 30 * float(np.linalg.norm(x)) * float(np.linalg.norm(h.reshape(-1, L), axis=1).max()) * S
    info = dict(kind=kind, N=N, T=n, L=L, S=S, M=M, shared=shared, dtype=str(dt))

    def close(got, want, key, msg, **d):
        if M == 1 and want.ndim == 2:
            want = want[0]
        if ctx.expect(tuple(got.shape) == want.shape, key + ":shape", f"{msg}: shape {tuple(got.shape)} != {want.shape}", **info, **d):
            ctx.expect(got.dtype == dt, key + ":dtype", f"dtype {got.dtype}", **info)
            e = float(np.abs(np_(got) - want).max()) if want.size else 0.0
            ctx.expect(e <= eps * (energy + 1e-300), key, f"{msg}: max error {e:.3g}", **info, **d)

    def traj_starts():
        ex = [t * N // n for t in range(n)] + [N]
        if ex[:-1] != [int(t * (N / n)) for t in range(n)]:
            ctx.count("rounding_sensitive")  # t * (N / n) in floating point falls below the integer
        return ex

    snap = xt.clone(), ht.clone()
    if kind == "traj":
        st = traj_starts()
        y = DynamicConvolver()(xt, ht) if r.integers(2) else DynamicConvolver(mode="trajectory").convolve(xt, ht)
        close(y, direct(x, h, st, N + L - 1), "traj", "trajectory output is not the sum of segment convolutions")
        ctx.nontrivial(kind, S, M, shared, n > N, N % n == 0, str(dt), L == 1)
    elif kind in ("stamps", "batched"):
        fs = float(r.choice([1000.0, 16000.0, 44100.0, 1.0]))
        st = np.sort(r.integers(0, N + (N // 3 if r.uniform() < 0.4 else 0) + 1, n))
        if r.uniform() < 0.3 and n > 2:
            st[1 : n // 2 + 1] = st[1]
        st = np.sort(st)
        st[0] = 0
        ts = (st + float(r.choice([0.25, 0.5, 0.75]))) / fs
        ts[0] = 0.0
        if n > 1 and r.uniform() < 0.15:
            # steps long after the signal, beyond what an integer sample index can hold
            k = int(r.integers(1, n))
            ts[k:], st[k:] = float(r.choice([1e6, 1e12, 1e19, 1e300])), N + 1
            ctx.count("far_timestamps")
        bounds = [min(int(v), N) for v in st] + [N]
        want = direct(x, h, bounds, N + L - 1)
        tsf = [T(ts), torch.tensor(ts.tolist(), dtype=torch.float64), ts.tolist(), ts][int(r.integers(4))]
        if kind == "stamps":
            y = DynamicConvolver(mode="trajectory", timestamps=tsf, fs=fs).convolve(xt, ht)
            close(y, want, "stamps", "output with timestamps is not the sum of segment convolutions", starts=st[:20])
        else:
            fn = getattr(dynmod, "_convolve_dynamic_rir_trajectory_batched", None)
            if fn is None:
                ctx.count("batched_absent")
                return
            w = torch.tensor(bounds, dtype=torch.long)
            xx = xt.expand(S, -1) if shared else xt
            try:
                k = {} if r.integers(2) else dict(chunk_size=int(r.choice([1, 2, 3, 8, 100])))
                y = fn(xx, ht, w_ini=w, w_len=w[1:] - w[:-1], **k)
            except TypeError:
                ctx.count("batched_signature_changed")
                return
            close(y, want, "batched", "batched (accelerator) implementation differs from the segment sum", starts=st[:20])
            ctx.count("batched_compared")
        ctx.nontrivial(kind, S, M, shared, bool((np.diff(st) == 0).any()), bool(st[-1] >= N), str(dt), n > 8)
    elif kind == "hop":
        hop = int(r.choice([1, 3, 10, 64, max(1, N - 1), N, N + 1, 2 * N]))
        if N / hop > 120:
            hop = max(hop, N // 60)
        frames = min(math.ceil(N / hop), n)
        st = [min(t * hop, N) for t in range(frames)] + [min(frames * hop, N)]
        want = direct(x, h[:frames], st, hop * frames + L - 1)
        y = DynamicConvolver(mode="hop", hop=hop).convolve(xt, ht)
        close(y, want, "hop", "hop output is not the sum of frame convolutions", hop=hop, frames=frames)
        ctx.nontrivial(kind, S, M, shared, N % hop == 0, frames == n, n * hop < N, str(dt))
    elif kind == "constant":
        one = ht[:1]
        hc = one.expand(n, -1, -1, -1)
        want = np_(convolve_rir(xt, one[0])).reshape(M, -1)
        close(DynamicConvolver().convolve(xt, hc), want, "constant:traj", "constant RIRs do not reproduce static convolution")
        k = int(r.integers(2))
        fs = 1000.0
        ts = np.sort(r.uniform(0, N / fs * 1.2, n))
        ts[0] = 0
        close(DynamicConvolver(timestamps=T(ts), fs=fs).convolve(xt, hc), want, "constant:stamps", "constant RIRs with timestamps do not reproduce static convolution")
        hop = max(1, math.ceil(N / n))
        y = DynamicConvolver(mode="hop", hop=hop).convolve(xt, hc)
        yn = np_(y).reshape(M, -1)
        ctx.expect(float(np.abs(yn[:, want.shape[1]:]).max(initial=0)) <= eps * energy, "constant:hop-tail", "hop output continues after the signal's response", **info)
        w2 = np.zeros_like(yn)
        w2[:, : want.shape[1]] = want[:, : yn.shape[1]]
        ctx.expect(yn.shape[1] >= want.shape[1] and float(np.abs(yn - w2).max()) <= eps * energy, "constant:hop", "constant RIRs in hop mode do not reproduce static convolution", **info)
        # impulse at every ownership boundary: RIR t must be the owner's
        ctx.nontrivial(kind, S, M, shared, n > N, str(dt), k)
    elif kind == "forms":
        st = traj_starts()
        y1 = DynamicConvolver().convolve(xt[0], ht[:, :1])
        y2 = DynamicConvolver().convolve(xt[:1], ht[:, 0])
        y3 = DynamicConvolver().convolve(xt[0], ht[:, 0])
        want = direct(x[:1], h[:, :1], st, N + L - 1)
        for f, y in (("1d+4d", y1), ("2d+3d", y2), ("1d+3d", y3)):
            close(y, want, f"form:{f}", f"form {f} differs")
        y4 = DynamicConvolver().convolve(xt[0], ht[:, 0, 0])
        want = direct(x[:1], h[:, :1, :1], st, N + L - 1)[0]
        ctx.expect(tuple(y4.shape) == want.shape and float(np.abs(np_(y4) - want).max()) <= eps * energy, "form:2d", "form (T, rir_len) differs", **info)
        hop = max(1, N // 3)
        a = DynamicConvolver(mode="hop", hop=hop).convolve(xt[0], ht[:, 0])
        b = DynamicConvolver(mode="hop", hop=hop).convolve(xt[:1], ht[:, :1])
        ctx.expect(torch.equal(a, b), "form:hop", "hop forms differ", **info)
        ctx.nontrivial(kind, M, n > N, str(dt))
    else:
        fs = 1000.0
        good = T(np.arange(n) * (N / n) / fs)
        D = DynamicConvolver
        bads = [("mode", lambda: D(mode=str(r.choice(["hops", "", "Trajectory", "static"]))).convolve(xt, ht)), ("hop-missing", lambda: D(mode="hop").convolve(xt, ht)),
                ("hop-value", lambda: D(mode="hop", hop=int(r.choice([0, -1, -64]))).convolve(xt, ht)), ("fs-missing", lambda: D(timestamps=good).convolve(xt, ht)), ("fs-value", lambda f=float(r.choice([0.0, -fs, math.nan, math.inf])): D(timestamps=good, fs=f).convolve(xt, ht)),
                ("ts-count", lambda: D(timestamps=T(np.arange(n + 1) / fs), fs=fs).convolve(xt, ht)), ("ts-rank", lambda: D(timestamps=good[None], fs=fs).convolve(xt, ht)),
                ("ts-first", lambda: D(timestamps=good + 0.001, fs=fs).convolve(xt, ht)), ("rank", lambda: D().convolve(xt[None], ht)), ("rank", lambda: D().convolve(xt, ht[None])),
                ("rank", lambda: D().convolve(xt, ht[0, 0, 0])), ("rank-hop", lambda: D(mode="hop", hop=4).convolve(xt[None], ht))]
        if n > 1:
            bads.append(("ts-count", lambda: D(timestamps=good[:-1], fs=fs).convolve(xt, ht)))
        if n > 2:
            p = good.clone()
            p[1], p[2] = good[2] + 0.01, good[1]
            bads.append(("ts-order", lambda: D(timestamps=p, fs=fs).convolve(xt, ht)))
        if n > 1:
            q = good.clone()
            q[-1] = float(r.choice([math.nan, math.inf, -1.0]))
            bads.append(("ts-value", lambda: D(timestamps=q, fs=fs).convolve(xt, ht)))
        for k in (S + 1, S + 3):
            if k > 1:
                xx = T(r.normal(size=(k, N)), dt)
                for md in (dict(), dict(mode="hop", hop=max(1, N // 2)), dict(timestamps=good, fs=fs)):
                    bads.append((f"sources-{md.get('mode', 'traj')}", lambda xx=xx, md=md: D(**md).convolve(xx, ht)))
        if S > 2:
            xx = T(r.normal(size=(S - 1, N)), dt)
            for md in (dict(), dict(mode="hop", hop=max(1, N // 2))):
                bads.append((f"sources-{md.get('mode', 'traj')}", lambda xx=xx, md=md: D(**md).convolve(xx, ht)))
        two = T(r.normal(size=(2, N)), dt)
        for md in (dict(), dict(mode="hop", hop=max(1, N // 2))):
            bads.append(("ambiguous-3d", lambda md=md: D(**md).convolve(two, ht[:, 0])))
            bads.append(("ambiguous-2d", lambda md=md: D(**md).convolve(two, ht[:, 0, 0])))
        for nm, fn in bads:
            ok, e = raises(ValueError, fn)
            ctx.expect(ok, f"reject:{nm}", f"{nm} " + ("accepted" if not isinstance(e, Exception) else repr(e)[:150]), **info)
            ctx.nontrivial(kind, nm, S)
    ctx.expect(torch.equal(xt, snap[0]) and torch.equal(ht, snap[1]), "mutated", "inputs modified", **info)
    ctx.sample(info)
