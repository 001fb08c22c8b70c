"""C15: static convolution."""
import numpy as np
from scipy.signal import oaconvolve
import torch

from vf.tr import F32, F64, T, np_, raises
from torchrir.signal import convolve_rir, fft_convolve

ID = "C15"
TECH = "online oracle: direct time-domain summation recomputed for every call, plus linearity/shift/identity relations and argument watch"
NOTE = "Sampled lengths (1..4000, all around powers of two), source/mic counts, ranks and dtypes."
RULE = "random signals/RIRs over all accepted shapes, lengths around FFT-size boundaries, impulses and structured signals; class = (shape form, S, M, length relation, dtype)"
NEED = {"big_cases": 50, "assertions": 1500}
KINDS = ["fft", "rir", "rir", "forms", "reject", "impulse"]


def cases(tier):
    n = 14400 if tier == "quick" else 1000000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def length(r):
    k = int(r.integers(5))
    if k == 0:
        return int(r.integers(1, 6))
    if k == 1:
        return max(1, int(2 ** r.integers(0, 11)) + int(r.integers(-1, 2)))
    return int(r.integers(1, 1500))


def sig(r, *shape):
    k = int(r.integers(5))
    x = r.normal(size=shape)
    if k == 4:  # a strong onset and a weak end, or the reverse
        e = 10.0 ** np.linspace(0, -float(r.choice([3, 5, 8])), shape[-1])
        x = x * (e if r.integers(2) else e[::-1])
    if k == 0:
        x[..., shape[-1] // 2 :] = 0
    elif k == 1:
        x = np.zeros(shape)
        x[..., -1] = 1.0  # end impulse: wrap-around visible
    elif k == 2:
        x = x * 10.0 ** r.integers(-12, 6)
    return x


def lin(a, b):
    return np.convolve(a, b) if min(a.size, b.size) < 1500 else oaconvolve(a, b)


def direct(x, h):
    S, M, L = h.shape
    out = np.zeros((M, x.shape[-1] + L - 1))
    for m in range(M):
        for s in range(S):
            out[m] += lin(x[s if x.shape[0] > 1 else 0], h[s, m])
    return out


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dt = F32 if r.uniform() < 0.3 else F64
    eps = 2e-6 if dt == F32 else 1e-13
    N, L = length(r), length(r)
    S, M = int(r.integers(1, 5)), int(r.integers(1, 5))
    if r.uniform() < 0.06 and kind != "reject":  # long signals and responses, many channels
        k = int(r.integers(4))
        if k == 0:
            N = int(r.choice([16384, 40000, 100001]))
        elif k == 1:
            N, L = int(r.choice([10000, 50000])), int(r.choice([8192, 20001]))
            S, M = min(S, 2), min(M, 2)
        elif k == 2:
            M = int(r.integers(9, 70))
        else:
            S = int(r.integers(9, 40))
        ctx.count("big_cases")

    def close(got, want, key, msg, energy, **d):
        ctx.expect(got.dtype == dt, key + "-dtype", f"dtype {got.dtype}")
        if not ctx.expect(tuple(got.shape) == want.shape, key, f"{msg}: shape {tuple(got.shape)} != {want.shape}", N=N, L=L, S=S, M=M, **d):
            return
        e = float(np.abs(np_(got) - want).max()) if want.size else 0.0
        ctx.expect(e <= eps * (energy + 1e-300), key, f"{msg}: max error {e:.3g} (bound {eps * energy:.3g})", N=N, L=L, S=S, M=M, dtype=str(dt), **d)

    if kind == "fft":
        x, h = T(sig(r, N), dt), T(sig(r, L), dt)
        xb, hb = x.clone(), h.clone()
        y = fft_convolve(x, h)
        close(y, lin(np_(x), np_(h)), "fft", "fft_convolve is not linear convolution", 20 * float(np.linalg.norm(np_(x)) * np.linalg.norm(np_(h))))
        close(fft_convolve(h, x), np_(y), "fft-commutes", "fft_convolve(a, b) != fft_convolve(b, a)", 40 * float(np.linalg.norm(np_(x)) * np.linalg.norm(np_(h))))
        ctx.expect(torch.equal(x, xb) and torch.equal(h, hb), "mutated", "fft_convolve modified its inputs")
    elif kind in ("rir", "impulse", "forms"):
        shared = bool(r.integers(2))
        x = sig(r, 1 if shared else S, N)
        h = sig(r, S, M, L)
        if kind == "impulse":
            h = np.zeros((S, M, L))
            d = r.integers(0, L, (S, M))
            g = r.normal(size=(S, M))
            for s in range(S):
                for m in range(M):
                    h[s, m, d[s, m]] = g[s, m]
        xt, ht = T(x, dt), T(h, dt)
        if r.uniform() < 0.3:  # non-contiguous inputs
            ht = T(np.ascontiguousarray(np.moveaxis(h, 0, 2)), dt).permute(2, 0, 1)
            xt = T(np.repeat(x, 2, -1), dt)[:, ::2]
        if kind == "forms":
            f = str(r.choice(["x1d", "h1d", "h2d", "x1d-h3d"]))
            if f == "x1d":
                xt, ht, S = xt[0], ht[:1], 1
            elif f == "h1d":
                xt, ht, S, M = xt[:1] if r.integers(2) else xt[0], ht[0, 0], 1, 1
            elif f == "h2d":
                xt, ht, S = xt[:1] if r.integers(2) else xt[0], ht[0], 1
            else:
                xt = xt[0]
        else:
            f = "shared" if shared else "full"
        xn, hn = np_(xt).reshape(-1, N), np_(ht).reshape(S, M, L)
        xb, hb = xt.clone(), ht.clone()
        want = direct(xn, hn)
        if M == 1:
            want = want[0]
        en = 20 * sum(float(np.linalg.norm(xn[s if xn.shape[0] > 1 else 0])) * max(float(np.linalg.norm(hn[s, m])) for m in range(M)) for s in range(S))
        y = convolve_rir(xt, ht)
        close(y, want, f"convolve:{f}", "convolve_rir is not the sum over sources of linear convolutions", en, form=f)
        ctx.expect(torch.equal(xt, xb) and torch.equal(ht, hb), "mutated", "convolve_rir modified its inputs")
        y.fill_(0.0)
        ctx.expect(torch.equal(xt, xb) and torch.equal(ht, hb), "alias", "writing to the output changed an input")
        ctx.nontrivial(kind, f, S, M, "N>L" if N > L else "N<=L", str(dt), (N + L - 1) & (N + L - 2) == 0)
    else:
        x, h = T(sig(r, S, N), dt), T(sig(r, S, M, L), dt)
        bads = []
        for k in (2, 3, S + 1, S + 2):
            if k not in (1, S):
                bads.append(("sources", T(sig(r, k, N), dt), h))
        if S > 1:
            bads.append(("sources", x, h[0]))
            bads.append(("sources", x, h[0, 0]))
        bads += [("rank", x[None], h), ("rank", x, h[None]), ("rank", x[0, 0], h), ("rank", x, h[0, 0, 0])]
        for nm, a, b in bads:
            ok, e = raises(ValueError, lambda: convolve_rir(a, b))
            ctx.expect(ok, f"reject:{nm}", f"signal {tuple(a.shape)} with rirs {tuple(b.shape)} " + ("accepted" if not isinstance(e, Exception) else repr(e)[:150]))
        for a, b in ((x, h[0, 0]), (x[0], h[0]), (x, h), (x[0, 0], h[0, 0])):
            ok, e = raises(ValueError, lambda: fft_convolve(a, b))
            ctx.expect(ok, "reject:fft-rank", f"fft_convolve {tuple(a.shape)}, {tuple(b.shape)} accepted")
        ctx.nontrivial(kind, S, M)
    if kind == "fft":
        ctx.nontrivial(kind, str(dt), N > L, (N + L - 1) & (N + L - 2) == 0, min(N, 3), min(L, 3))
    ctx.sample(dict(kind=kind, N=N, L=L, S=S, M=M, dtype=str(dt)))
