"""C03: dynamic RIRs step by step against static RIRs of the same instant."""
import numpy as np
import torch

from checks.c02 import PATS, encode, units
from vf import gen, ref
from vf.tr import F32, F64, T, cfg, room, simulate_dynamic_rir, simulate_rir

ID = "C03"
TECH = "differential monitor: each dynamic step vs the static simulation of that instant"
NOTE = "Agreement to float64 rounding on sampled trajectories; the static path itself is judged by C01/C02."
RULE = "random trajectories (1-12, also up to 300 steps, 50 entities, order 13, moving/static sides, repeated steps, single-entity 2-D form) under random order/box/directivity/LUT/chunk/HPF; class = (dim, T, S, M, form, patterns)"
NEED = {"assertions": 800, "steps_compared": 1500, "big_cases": 60, "slow_motion": 300}


def cases(tier):
    n = 1800 if tier == "quick" else 92000
    return [{"kind": ["plain", "dir", "single", "hpf", "subset", "big"][i % 6], "i": i} for i in range(n)]


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dim = int(r.choice([2, 3, 3]))
    sz, b = gen.size(r, dim), gen.beta(r, dim)
    fs, c = gen.fs_c(r)
    S, M, n = int(r.integers(1, 4)), int(r.integers(1, 4)), int(r.choice([1, 2, 3, 5, 8, 12]))
    if kind == "single":
        S = M = 1
    order = int(r.integers(0, 4))
    if kind == "big":
        what = str(r.choice(["steps", "mics", "sources", "order"]))
        S, M, n, order = {"steps": (1, 1, int(r.integers(30, 300)), int(r.integers(0, 2))), "mics": (1, int(r.integers(9, 50)), 3, 1), "sources": (int(r.integers(9, 50)), 1, 3, 1),
                          "order": (1, 1, 2, int(r.integers(6, 14)))}[what]
        ctx.count("big_cases")
    box = tuple(int(x) for x in r.integers(0, 3, dim)) if r.uniform() < 0.3 else None
    st = np.array([gen.pos(r, sz, S, mode=9) for _ in range(n)])
    mt = np.array([gen.pos(r, sz, M, mode=9) for _ in range(n)])
    for k in range(n):
        gen.near(r, mt[k], st[k], sz)
    who = str(r.choice(["both", "src", "mic"]))
    if who == "src":
        mt = np.repeat(mt[:1], n, 0)
    if who == "mic":
        st = np.repeat(st[:1], n, 0)
    if n > 2 and r.uniform() < 0.3:
        st[1] = st[0]
        mt[1] = mt[0]
    if n > 1 and r.uniform() < 0.3:  # slow motion: steps from micrometres to centimetres, now and then standing still
        for tr, moves in ((st, who != "mic"), (mt, who != "src")):
            if moves:
                v = r.normal(size=tr.shape) if r.integers(2) else np.repeat(r.normal(size=(1, *tr.shape[1:])), n, 0)
                v *= 10 ** r.uniform(-6, -2) * (r.uniform(size=(n, 1, 1)) < r.choice([0.4, 1.0]))
                tr[:] = np.clip(tr[:1] + np.cumsum(v, 0) - v[:1], 0.001 * sz, 0.999 * sz)
        ctx.count("slow_motion")
    dt = F32 if r.uniform() < 0.15 else F64
    conf = cfg(use_lut=bool(r.integers(2)), frac_delay_length=int(r.choice([1, 21, 81])), image_chunk_size=int(r.choice([1, 7, 2048])),
               accumulate_chunk_size=int(r.choice([3, 50, 4096])), rir_hpf_enable=kind == "hpf")
    d, ori, pats = "omni", None, ("omni", "omni")
    if kind == "dir" or r.uniform() < 0.2:
        pats = (str(r.choice(PATS)), str(r.choice(PATS)))
        d = pats
        s_sh, m_sh = bool(r.integers(2)), bool(r.integers(2))
        so, _ = encode(r, units(r, S, dim, s_sh), dim, s_sh)
        mo, _ = encode(r, units(r, M, dim, m_sh), dim, m_sh)
        if dt == F32:  # a length that single precision can hold
            so, mo = (o / max(1.0, float(o.abs().max()) / 1e30) for o in (so, mo))
        ori = (so.to(dt), mo.to(dt))
    walls = str(r.choice(["beta", "beta", "t60", "none"]))
    rm = room(sz, fs, c, beta=b if walls == "beta" else None, t60=float(r.uniform(0.1, 1.0)) if walls == "t60" else None, dt=dt)
    length = dict(nsample=int(r.choice([40, 300, 600]))) if r.integers(2) else dict(tmax=float(r.uniform(60, 500)) / fs)
    args = dict(room=rm, max_order=order, nb_img=box, directivity=d, orientation=ori, config=conf, **length)
    a, bb = T(st, dt), T(mt, dt)
    if kind == "single":
        dyn = simulate_dynamic_rir(src_traj=a[:, 0], mic_traj=bb[:, 0], **args)
    else:
        dyn = simulate_dynamic_rir(src_traj=a, mic_traj=bb, **args)
    want = torch.stack([simulate_rir(sources=a[t], mics=bb[t], **args) for t in range(n)])
    ctx.count("steps_compared", n)
    if not ctx.expect(dyn.shape == want.shape and dyn.dtype == want.dtype, "shape", f"{tuple(dyn.shape)}/{dyn.dtype} vs {tuple(want.shape)}/{want.dtype}"):
        return
    scale = float(want.abs().max()) + 1e-12
    tol = (1e-9 if dt == F64 else 2e-3) * scale
    diff = (dyn - want).abs().reshape(n, -1).amax(1)
    if not bool(torch.all(diff <= tol)):
        near = sum(ref.near_integer_images(sz, st[t, s], mt[t, m], fs, c, order, box, 1e-9 if dt == F64 else 3e-3)
                   for t in range(n) for s in range(S) for m in range(M))
        homni = "homni" in pats and dt == F32
        if near == 0 and not homni:
            t = int(torch.argmax(diff))
            ctx.fail(f"dynamic-vs-static:{kind}", f"step {t} of {n} differs from its static RIR by {float(diff[t]):.3g} (scale {scale:.3g})", dim=dim, S=S, M=M, who=who, order=order,
                     box=box, directivity=d, walls=walls, length=length)
        else:
            ctx.count("ambiguous_skipped")
    ctx.count("assertions")
    if kind == "subset" and n > 1:
        sel = [int(x) for x in r.permutation(n)[: int(r.integers(1, n + 1))]]
        sub = simulate_dynamic_rir(src_traj=a[sel], mic_traj=bb[sel], **args)
        ctx.expect(float((sub - dyn[sel]).abs().max()) <= tol, "step-independence", "a step's RIR changed when the other steps of the trajectory changed", sel=sel, n=n)
        ctx.nontrivial("subset", dim, n, len(sel))
    ctx.nontrivial(dim, n, S, M, kind, who, pats, box is not None, walls)
    ctx.sample(dict(dim=dim, T=n, S=S, M=M, moving=who, order=order, box=box, directivity=d, max_step_diff=float(diff.max())))
