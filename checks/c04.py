"""C04: chunking, LUT, batching, length and input-form invariance (metamorphic)."""
import math

import numpy as np
import torch

from checks.c02 import PATS, encode, units
from vf import gen, ref
from vf.tr import F32, F64, MicrophoneArray, Room, Source, T, cfg, room, simulate_dynamic_rir, simulate_rir

ID = "C04"
TECH = "metamorphic monitor over pairs of related simulations"
NOTE = "Relations checked to float64 rounding on sampled scenes; chunk sizes chosen around the image count so boundaries are crossed."
RULE = "random scene simulated twice with one knob/input form changed (chunk sizes 1..>count, LUT granularity, split/permuted entities, lengths, tmax, containers, dtypes); class = (kind, dim, S, M, chunk relation)"
NEED = {"assertions": 700, "big_cases": 80, "chunk_boundaries_crossed": 100}
KINDS = ["chunk", "chunk", "accum", "lut", "split", "perm", "prefix", "tmax", "form", "dtype", "compile"]


def cases(tier):
    n = 6000 if tier == "quick" else 630000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dim = int(r.choice([2, 3, 3]))
    sz, b = gen.size(r, dim), gen.beta(r, dim)
    fs, c = gen.fs_c(r)
    S, M = int(r.integers(1, 4)), int(r.integers(1, 4))
    order = int(r.integers(0, 6))
    box = tuple(int(x) for x in r.integers(0, 4, dim)) if r.uniform() < 0.3 else None
    if r.uniform() < 0.15 and kind != "lut":
        k = int(r.integers(3))
        if k == 0:
            order, box = int(r.integers(7, 16 if dim == 3 else 50)), None
            S = M = 1
        elif k == 1:
            M = int(r.integers(9, 40))
        else:
            S = int(r.integers(9, 40))
        if k and kind == "split":
            order = min(order, 1)
        ctx.count("big_cases")
    src, mic = gen.pos(r, sz, S, mode=9), gen.pos(r, sz, M, mode=9)
    dyn = bool(r.integers(2)) and kind not in ("form",)
    ns = int(r.choice([50, 400, 900]))
    d, ori = "omni", None
    if r.uniform() < 0.5:
        d = (str(r.choice(PATS)), str(r.choice(PATS)))
        ori = (T(units(r, S, dim, False)), T(units(r, M, dim, False)))
    base = dict(use_lut=bool(r.integers(2)), frac_delay_length=int(r.choice([5, 41, 81])))
    rm = room(sz, fs, c, beta=b)
    nT = int(r.integers(1, 4)) if dyn else 1
    st = np.array([gen.pos(r, sz, S, mode=9) for _ in range(nT)]) if dyn else src[None]
    mt = np.array([gen.pos(r, sz, M, mode=9) for _ in range(nT)]) if dyn else mic[None]
    if kind not in ("form", "dtype") and r.uniform() < 0.2:
        for k in range(len(mt)):
            gen.near(r, mt[k], st[k], sz, 1.0)
        mic = mt[0]

    def sim(conf=None, s=None, m=None, ns_=ns, **over):
        s = st if s is None else s
        m = mt if m is None else m
        a = dict(room=rm, max_order=order, nb_img=box, nsample=ns_, directivity=d, orientation=ori, config=cfg(**{**base, **(conf or {})}))
        a.update(over)
        dt = over.get("_dt", F64)
        a.pop("_dt", None)
        if dyn:
            return simulate_dynamic_rir(src_traj=T(s, dt), mic_traj=T(m, dt), **a)
        return simulate_rir(sources=T(s[0], dt), mics=T(m[0], dt), **a)[None]

    nimg = len(ref.image_indices(dim, order, box))
    ref_out = sim()
    scale = float(ref_out.abs().max()) + 1e-12

    def same(x, y, key, msg, tol=1e-10, **kw):
        if x.shape != y.shape:
            ctx.fail(key, f"{msg}: shape {tuple(x.shape)} vs {tuple(y.shape)}", **kw)
            return
        dmax = float((x - y).abs().max()) if x.numel() else 0.0
        ctx.count("assertions")
        if not dmax <= tol * scale:
            near = sum(ref.near_integer_images(sz, st[t, i], mt[t, j], fs, c, order, box, 1e-9) for t in range(nT) for i in range(S) for j in range(M))
            if near and dmax <= 0.5 * scale:
                ctx.count("ambiguous_skipped")
                return
            ctx.fail(key, f"{msg}: max diff {dmax:.3g} (scale {scale:.3g})", dim=dim, S=S, M=M, order=order, box=box, dyn=dyn, images=nimg, **kw)

    if kind in ("chunk", "accum"):
        name = "image_chunk_size" if kind == "chunk" else "accumulate_chunk_size"
        other = "accumulate_chunk_size" if kind == "chunk" else "image_chunk_size"
        ch = int(r.choice([1 + nimg // 300, 2 + nimg // 200, 3 + nimg // 100, max(1, nimg - 1), nimg, nimg + 1, max(1, nimg // 2), 10**6]))
        conf = {name: ch}
        if r.integers(2):
            conf[other] = int(r.choice([1 + nimg // 300, 4 + nimg // 200, 9 + nimg // 100, 10**6]))
        same(sim(conf), ref_out, f"knob:{kind}", f"{conf} changes the RIR")
        ctx.count("chunk_boundaries_crossed", int(ch < nimg))
        ctx.nontrivial(kind, dim, dyn, min(nimg, 200), ch if ch < 10 else "n" + str(np.sign(ch - nimg)))
    elif kind == "lut":
        exact = sim(dict(use_lut=False))
        prev = None
        for g in sorted(int(x) for x in r.choice([1, 3, 10, 20, 50, 200, 400], 3, replace=False)):
            lut = sim(dict(use_lut=True, sinc_lut_granularity=g))
            # per-sample bound: sum over images of |amplitude| * interpolation error
            worst_amp = 0.0
            for t in range(nT):
                for i in range(S):
                    for j in range(M):
                        idx = ref.image_indices(dim, order, box)
                        dist = np.linalg.norm(mt[t, j][None] - ref.image_positions(idx, sz, st[t, i]), axis=1)
                        keep = dist / c * fs < ns + base["frac_delay_length"]
                        worst_amp = max(worst_amp, float(np.sum((ref.wall_products(idx, b) / np.maximum(dist, 1e-6))[keep])))
            bound = 0.4113 / g**2 * worst_amp + 1e-9 * (worst_amp + scale)
            dmax = float((lut - exact).abs().max())
            ctx.expect(dmax <= bound, "lut-error", f"LUT granularity {g}: error {dmax:.3g} exceeds interpolation bound {bound:.3g}", g=g, dim=dim, dyn=dyn, **base)
            ctx.nontrivial(kind, dim, dyn, g, base["frac_delay_length"])
            prev = dmax
    elif kind == "split":
        for i in range(S):
            for j in range(M):
                o = None if ori is None else (ori[0][i : i + 1], ori[1][j : j + 1])
                one = sim(s=st[:, i : i + 1], m=mt[:, j : j + 1], orientation=o)
                same(one[:, 0, 0], ref_out[:, i, j], "batch-split", f"source {i} mic {j} alone differs from the batch", i=i, j=j)
        ctx.nontrivial(kind, dim, dyn, S, M)
    elif kind == "perm":
        ps, pm = r.permutation(S), r.permutation(M)
        o = None if ori is None else (ori[0][ps.tolist()], ori[1][pm.tolist()])
        x = sim(s=st[:, ps], m=mt[:, pm], orientation=o)
        same(x, ref_out[:, ps.tolist()][:, :, pm.tolist()], "batch-perm", "permuting entities does not permute the RIRs")
        ctx.nontrivial(kind, dim, dyn, S, M)
    elif kind == "prefix":
        n2 = int(r.integers(1, ns + 1))
        same(sim(ns_=n2), ref_out[..., :n2], "length-prefix", f"first {n2} samples change when the RIR is longer")
        ctx.nontrivial(kind, dim, dyn, n2 % 7)
    elif kind == "tmax":
        # tmax chosen away from rounding ambiguity of tmax * fs
        q = int(r.integers(2, ns)) + float(r.choice([0.25, 0.5, 0.75, 1e-3, 1e-6, -1e-3, -1e-6]))
        x = sim(ns_=None, tmax=q / fs)
        same(x, ref_out[..., : math.ceil(q)], "tmax", f"tmax={q}/fs is not ceil(tmax*fs) samples")
        x = sim(ns_=ns, tmax=q / fs)
        same(x, ref_out, "nsample-wins", "nsample does not win over tmax")
        ctx.nontrivial(kind, dim, dyn)
    elif kind == "form":
        s0, m0 = st[0], mt[0]
        a = dict(room=rm, max_order=order, nb_img=box, nsample=ns, config=cfg(**base), directivity=d)
        k = str(r.choice(["entity", "list", "mixed", "1d", "roomlist", "nbtensor", "noncontig"]))
        so, mo = ori if ori is not None else (None, None)
        if k == "entity":
            x = simulate_rir(sources=Source.from_positions(T(s0), orientation=so), mics=MicrophoneArray.from_positions(T(m0), orientation=mo), **a)
        elif k == "list":
            x = simulate_rir(sources=Source.from_positions(s0.tolist(), dtype=F64, orientation=None if so is None else so.tolist()),
                             mics=MicrophoneArray.from_positions(m0.tolist(), dtype=F64, orientation=None if mo is None else mo.tolist()), **a)
        elif k == "mixed":
            x = simulate_rir(sources=T(s0), mics=MicrophoneArray(T(m0), mo), orientation=None if so is None else (so, mo), **a)
        elif k == "1d":
            o = None if so is None else (so[0], mo[0])
            x = simulate_rir(sources=T(s0[0]), mics=T(m0[0]), orientation=o, **a)
            same(x[None], ref_out[:, :1, :1], "form:1d", "1-D position differs from the (1, dim) form")
            x = None
        elif k == "roomlist":
            a["room"] = Room.shoebox(sz.tolist(), fs=fs, c=c, beta=b.tolist(), dtype=F64)
            x = simulate_rir(sources=T(s0), mics=T(m0), orientation=ori, **a)
        elif k == "nbtensor":
            if box is not None:
                a["nb_img"] = torch.tensor(box)
            x = simulate_rir(sources=T(s0), mics=T(m0), orientation=ori, **a)
        else:
            big = torch.zeros(S, 2 * dim, dtype=F64)
            big[:, ::2] = T(s0)
            x = simulate_rir(sources=big[:, ::2], mics=T(m0.T).t(), orientation=ori, **a)
        if x is not None:
            same(x[None], ref_out, f"form:{k}", f"input form {k} changes the RIR")
        ctx.nontrivial(kind, k, dim, S, M, d)
    elif kind == "dtype":
        # float32 inputs: same scene up to single precision
        if any(p == "homni" for p in (d if isinstance(d, tuple) else (d,))):
            ctx.count("homni_skipped")
            return
        o32 = None if ori is None else tuple(v.to(F32) for v in ori)
        rm64 = rm
        a = dict(room=room(sz, fs, c, beta=b, dt=F32), orientation=o32)
        x = sim(**a, _dt=F32)
        ctx.expect(x.dtype == F32, "dtype-kept", f"float32 inputs gave {x.dtype}")
        tolf = 5e-3
        near = sum(ref.near_integer_images(sz, st[t, i], mt[t, j], fs, c, order, box, 2e-3) for t in range(nT) for i in range(S) for j in range(M))
        if near == 0:
            same(x.to(F64), ref_out, "float32", "float32 inputs give a different RIR", tol=tolf)
        y = sim(dtype=F32)
        ctx.expect(y.dtype == F32, "dtype-arg", f"dtype=float32 gave {y.dtype}")
        if near == 0:
            same(y.to(F64), ref_out, "float32-arg", "dtype=float32 gives a different RIR", tol=tolf)
        z = sim(dtype=F64, **a, _dt=F32)
        ctx.expect(z.dtype == F64, "dtype-arg", f"dtype=float64 gave {z.dtype}")
        if near == 0:
            same(z, ref_out, "float64-arg", "dtype=float64 from float32 inputs gives a different RIR", tol=tolf)
        ctx.nontrivial(kind, dim, dyn)
        assert rm64 is rm
    else:
        same(sim(dict(use_compile=True)), ref_out, "use_compile", "use_compile changes the RIR on CPU")
        same(sim(dict(mixed_precision=True)), ref_out, "mixed_precision", "mixed_precision changes the RIR on CPU", tol=1e-3)
        ctx.nontrivial(kind, dim, dyn)
    ctx.sample(dict(kind=kind, dim=dim, S=S, M=M, order=order, box=box, dyn=dyn, images=nimg, scale=scale))
