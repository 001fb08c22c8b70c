"""C18: position sampling, clamping and linear trajectories."""
import math
import random

import numpy as np
import torch

from vf.tr import F32, F64, T, np_, raises
from torchrir.geometry import sampling as S
from torchrir.geometry.trajectories import linear_trajectory

ID = "C18"
TECH = "online monitor on every sample (bounds, z range, distance), global random state snapshots around each call, recording random.Random subclass, numpy reference for clamping and trajectories"
NOTE = "A coverage assertion over 1500 samples per box (miss probability below 1e-12) guards against samplers that ignore part of the room."
RULE = "random rooms (2-D/3-D, float32/float64/int), margins from 0 to nearly half the room, z ranges feasible / single height / infeasible / partly outside, min distances from trivial to impossible, attempts at the exact limit; class = (kind, dim, dtype, z case, distance case)"
NEED = {"assertions": 3000, "octants_checked": 500, "shafts": 50}
KINDS = ["plain", "z", "dist", "dist", "impossible", "clamp", "traj", "coverage", "isolation"]


def cases(tier):
    n = 10800 if tier == "quick" else 790000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def roomt(r, dim):
    v = r.uniform(2.0, 12.0, dim)
    k = int(r.integers(3))
    if k == 0:
        v = np.round(v)
        return v, torch.tensor([int(a) for a in v])
    t = T(v, F32 if k == 1 else F64)
    return np_(t), t


def zcase(r, margin, h):
    lo, hi = margin, h - margin
    k = int(r.integers(5))
    if k == 0:
        return "default", None
    if k == 1:
        a, b = sorted(r.uniform(lo, hi, 2))
        return "inside", (float(a), float(b))
    if k == 2:
        a = float(r.uniform(lo, hi))
        return "single", (a, a)
    if k == 3:
        return "partial", (float(lo - 1.0), float(r.uniform(lo, hi)))
    return "infeasible", (h + 1.0, h + 2.0)


def region(r, size, margin, dim, zr, n):
    """n points spread over the region a sampler may use."""
    q = r.uniform(margin, np.maximum(size - margin, margin), (n, dim))
    if zr is not None and dim == 3:
        lo, hi = max(margin, zr[0]), min(size[2] - margin, zr[1])
        if lo <= hi:
            q[:, 2] = r.uniform(lo, hi, n)
    return q


def states():
    return random.getstate(), np.random.get_state()[1].tobytes(), np.random.get_state()[2], torch.random.get_rng_state().numpy().tobytes()


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dim = 3 if r.uniform() < 0.7 else 2
    size, rt = roomt(r, dim)
    margin = float(r.choice([0.0, 0.1, 0.5, 0.5, 0.45 * size.min()]))
    num = int(r.choice([0, 1, 1, 2, 3, 5, 5, 20, 20, 130, 600]))
    seed = int(r.integers(1 << 30))
    rng = random.Random(seed)
    info = dict(kind=kind, room=size, margin=margin, num=num, dtype=str(rt.dtype))
    g0 = states()
    rt0 = rt.clone()
    mk = dict(margin=margin) if margin != 0.5 or r.integers(2) else {}

    def bounds(p, zr, key):
        if not ctx.expect(tuple(p.shape) == (num, dim), key + ":shape", f"shape {tuple(p.shape)} != {(num, dim)}", **info):
            return
        if not num:
            return
        q = np_(p)
        tol = 1e-6 * (1 + size.max())
        ctx.expect(bool(np.isfinite(q).all()) and (q >= margin - tol).all() and (q <= size - margin + tol).all(), key + ":bounds", "point outside the shrunk room", pts=q, **info)
        if zr is not None and dim == 3:
            lo, hi = max(margin, zr[0]), min(size[2] - margin, zr[1])
            if lo <= hi:
                ctx.expect((q[:, 2] >= lo - tol).all() and (q[:, 2] <= hi + tol).all(), key + ":z", f"z outside {lo:.4f}..{hi:.4f}", zs=q[:, 2], zrange=zr, **info)
                ctx.count("z_checked")

    if kind == "plain":
        bounds(S.sample_positions(num=num, room_size=rt, rng=rng, **mk), None, "plain")
        ctx.nontrivial(kind, dim, str(rt.dtype), margin > 0.6, num)
    elif kind == "z":
        zn, zr = zcase(r, margin, size[-1])
        k = {} if zr is None else dict(z_range=zr)
        info["z"] = zr
        bounds(S.sample_positions_with_z_range(num=num, room_size=rt, rng=rng, **k, **mk), zr or (1.5, 1.8), "z")
        ctx.nontrivial(kind, dim, str(rt.dtype), zn, num)
    elif kind == "dist":
        zn, zr = zcase(r, margin, size[-1])
        k = {} if zr is None else dict(z_range=zr)
        if r.uniform() < 0.2:
            k, zn = dict(z_range=None), "none"
        if r.uniform() < 0.15:
            # a shaft: far enough only along one axis
            size = r.uniform(0.8, 1.5, dim)
            a = int(r.integers(dim))
            size[a] = r.uniform(4, 12)
            rt, margin = T(size, rt.dtype if rt.dtype.is_floating_point else F32), 0.1
            size, mk = np_(rt).astype(float), dict(margin=0.1)
            zr, zn, k = None, "none", dict(z_range=None)
            rt0 = rt.clone()
            info.update(room=size, margin=margin, z=None)
            center = T(size / 2, F64)
            dist = float(size[a] * r.uniform(0.2, 0.4))
            shaft = True
            ctx.count("shafts")
        else:
            shaft = False
            center = T(r.uniform(0, 1, dim) * size, [F32, F64][int(r.integers(2))])
            dist = float(r.choice([0.0, 0.2, 0.5 * size.min(), 0.45 * np.linalg.norm(size)]))
        c0 = center.clone()
        info.update(z=zr, center=center, dist=dist)
        try:
            p = S.sample_positions_min_distance(num=num, room_size=rt, rng=rng, center=center, min_distance=dist, **k, **mk)
        except RuntimeError:
            ctx.count("dist_gave_up")
            # giving up is only right when at most num-1 of 1000 candidates fit: check a trivial request never gives up
            ctx.expect(dist > 0.2 or margin > 0.5, "dist:gave-up", "RuntimeError although nearly every point is far enough", **info)
            f = 1000 * np.mean(np.linalg.norm(region(r, size, margin, dim, None if zn == "none" else (zr or (1.5, 1.8)), 4000) - np_(center), axis=1) >= dist)
            ctx.expect(num > f - 8 * np.sqrt(max(f, 1)) - 10, "dist:gave-up", f"RuntimeError although about {f:.0f} of 1000 points are far enough", **info)
        else:
            bounds(p, None if zn == "none" else (zr or (1.5, 1.8)), "dist")
            if num and p.ndim == 2:
                d = np.linalg.norm(np_(p) - np_(center), axis=1)
                ctx.expect((d >= dist - 2e-6 * (1 + size.max())).all(), "dist:min", f"distance {d.min():.6f} below {dist:.6f}", **info)
                ctx.count("dist_checked")
        ctx.expect(torch.equal(center, c0), "mutated:center", "center modified", **info)
        ctx.nontrivial(kind, dim, zn, dist == 0, dist > 1, num, shaft)
    elif kind == "impossible":
        num = max(num, 1)
        center = T(size / 2)
        ok, e = raises(RuntimeError, lambda: S.sample_positions_min_distance(num=num, room_size=rt, rng=rng, center=center, min_distance=float(np.linalg.norm(size)), max_attempts=int(r.choice([1, 10, 1000])), **mk))
        ctx.expect(ok, "impossible", f"impossible distance gave {e!r}", **info)
        ok, e = raises(ValueError, lambda: S.sample_positions_min_distance(num=num, room_size=rt, rng=rng, center=T(np.ones(5 - dim)), min_distance=0.0, **mk))
        ctx.expect(ok, "center-dim", f"center of the wrong dimension gave {e!r}", **info)
        # exact number of attempts is enough when every point qualifies, one fewer is not
        p = S.sample_positions_min_distance(num=num, room_size=rt, rng=rng, center=center, min_distance=0.0, max_attempts=num, **mk)
        ctx.expect(tuple(p.shape) == (num, dim), "attempts:exact", "attempt limit equal to num failed", **info)
        ok, e = raises(RuntimeError, lambda: S.sample_positions_min_distance(num=num, room_size=rt, rng=rng, center=center, min_distance=0.0, max_attempts=num - 1, **mk))
        ctx.expect(ok, "attempts:short", "more samples than attempts", **info)
        ctx.nontrivial(kind, dim, num)
    elif kind == "clamp":
        m = float(r.choice([0.0, 0.1, 0.3, 0.9]))
        k = dict(margin=m) if m != 0.1 or r.integers(2) else {}
        shape = [(dim,), (4, dim), (3, 5, dim)][int(r.integers(3))]
        dt = [F32, F64][int(r.integers(2))]
        pos = T(r.uniform(-0.5, 1.5, shape) * size, dt)
        edge = r.uniform(size=shape)
        pos = torch.where(T(edge < 0.1).bool(), T(np.broadcast_to(size - m, shape), dt), pos)
        p0 = pos.clone()
        got = S.clamp_positions(pos, rt, **k)
        want = np.clip(np_(pos), m, size - m)
        if ctx.expect(tuple(got.shape) == shape, "clamp:shape", f"shape {tuple(got.shape)}", **info):
            ctx.expect(np.abs(np_(got) - want).max() <= 2e-6 * (1 + size.max()), "clamp", "clamped coordinate is not the nearest inside value", m=m, pos=pos, got=got, **info)
            inside = ((np_(pos) > m + 1e-5) & (np_(pos) < size - m - 1e-5))
            ctx.expect((np_(got)[inside] == np_(pos)[inside]).all(), "clamp:inside", "points already inside moved", **info)
            again = S.clamp_positions(got, rt, **k)
            ctx.expect(torch.equal(again, got), "clamp:idempotent", "clamping twice differs", **info)
        ctx.expect(torch.equal(pos, p0), "mutated:positions", "positions modified", **info)
        ctx.nontrivial(kind, dim, len(shape), str(rt.dtype), str(dt), m)
    elif kind == "traj":
        steps = int(r.choice([1, 2, 3, 4, 7, 10, 33, 100, 1000]))
        dt = [F32, F64][int(r.integers(2))]
        a, b = T(r.uniform(-5, 10, dim), dt), T(r.uniform(-5, 10, dim), dt)
        if r.uniform() < 0.15:
            b = a.clone()
        if r.uniform() < 0.15:
            a, b = a.round().long(), b.round().long()
        a0, b0 = a.clone(), b.clone()
        t = linear_trajectory(a, b, steps)
        x, y = np_(a), np_(b)
        want = x + (y - x) * (np.arange(steps) / max(steps - 1, 1))[:, None]
        tol = 4e-6 if t.dtype == F32 else 1e-14 * 20
        info["steps"] = steps
        if ctx.expect(tuple(t.shape) == (steps, dim), "traj:shape", f"shape {tuple(t.shape)}", **info):
            ctx.expect(t.dtype.is_floating_point and (a.dtype == torch.int64 or t.dtype == dt), "traj:dtype", f"dtype {t.dtype}", **info)
            e = np.abs(np_(t) - want).max()
            ctx.expect(e <= tol * 4, "traj", f"trajectory point error {e:.3g}", got=np_(t)[:5], want=want[:5], **info)
            ctx.expect(np.array_equal(np_(t)[0], x), "traj:start", "does not start at start", **info)
        ctx.expect(torch.equal(a, a0) and torch.equal(b, b0), "mutated:ends", "end points modified", **info)
        for bad in (0, -1, -10):
            ok, e = raises(ValueError, lambda: linear_trajectory(a, b, bad))
            ctx.expect(ok, "traj:reject", f"steps={bad} gave {e!r}", **info)
        ctx.nontrivial(kind, dim, steps, str(a.dtype))
    elif kind == "coverage":
        num = 1500
        zr = (margin, size[2] - margin) if dim == 3 else None
        for nm, fn in (("plain", lambda: S.sample_positions(num=num, room_size=rt, rng=rng, **mk)),
                       ("z", lambda: S.sample_positions_with_z_range(num=num, room_size=rt, rng=rng, z_range=zr or (1.5, 1.8), **mk)),
                       ("dist", lambda: S.sample_positions_min_distance(num=num, room_size=rt, rng=rng, center=T(size / 2), min_distance=0.0, z_range=zr, max_attempts=2000, **mk))):
            q = np_(fn())
            w = size - 2 * margin
            ok = q.shape == (num, dim) and (q.min(0) <= margin + 0.03 * w).all() and (q.max(0) >= size - margin - 0.03 * w).all()
            ctx.expect(ok, f"coverage:{nm}", "samples do not reach all of the allowed region", lo=q.min(0) if q.size else None, hi=q.max(0) if q.size else None, **info)
            if q.shape == (num, dim):
                c = np.corrcoef(q.T)
                ctx.expect(np.abs(c - np.eye(dim)).max() < 0.25, f"coverage:{nm}:independent", "coordinates are correlated", **info)
                ctx.expect(len(np.unique(q[:, 0])) > 0.9 * num, f"coverage:{nm}:distinct", "samples repeat", **info)
        # with a distance: every part of what is left is reached
        center = r.uniform(0.1, 0.9, dim) * size
        dist = float(r.uniform(0.1, 0.45) * size.max())
        ref = region(r, size, margin, dim, zr, 8000)
        ref = ref[np.linalg.norm(ref - center, axis=1) >= dist]
        if len(ref) > 2000:
            q = np_(S.sample_positions_min_distance(num=num, room_size=rt, rng=rng, center=T(center), min_distance=dist, z_range=zr, max_attempts=20000, **mk))
            mid = np.median(ref, axis=0)
            code = lambda p: ((p > mid) @ (1 << np.arange(dim))).astype(int)  # noqa: E731
            share, seen = np.bincount(code(ref), minlength=1 << dim) / len(ref), np.bincount(code(q), minlength=1 << dim)
            ctx.expect(q.shape == (num, dim) and bool(np.all((share < 0.03) | (seen > 0))), "coverage:dist:octants", f"a part holding {share[seen == 0].max() if (seen == 0).any() else 0:.0%} of the allowed region is never reached", centre=center, dist=dist, **info)
            ctx.count("octants_checked", 1 << dim)
        ctx.nontrivial(kind, dim, str(rt.dtype))
    else:
        num = max(num, 2)
        mk = dict(margin=0.1)

        def call(which, g):
            if which == 0:
                return S.sample_positions(num=num, room_size=rt, rng=g, **mk)
            if which == 1:
                return S.sample_positions_with_z_range(num=num, room_size=rt, rng=g, **mk)
            return S.sample_positions_min_distance(num=num, room_size=rt, rng=g, center=T(size / 2), min_distance=0.2, **mk)

        for which in range(3):
            g = random.Random(seed)
            a = call(which, g)
            st = g.getstate()
            random.seed(int(r.integers(1 << 20)))
            np.random.seed(int(r.integers(1 << 20)))
            torch.manual_seed(int(r.integers(1 << 20)))
            s1 = states()
            g = random.Random(seed)
            b = call(which, g)
            ctx.expect(torch.equal(a, b), f"isolation:{which}", "same generator state gives different samples", **info)
            ctx.expect(g.getstate() == st, f"isolation:{which}:consume", "consumption of the generator varies", **info)
            ctx.expect(states() == s1, f"isolation:{which}:global", "global random state used", **info)
            c = call(which, g)
            ctx.expect(not torch.equal(b, c), f"isolation:{which}:advance", "the generator is not advanced", **info)
            d = call(which, random.Random(seed + 1))
            ctx.expect(not torch.equal(b, d), f"isolation:{which}:seed", "the generator's state is ignored", **info)
        g0 = states()
        ctx.nontrivial(kind, dim, num)
    ctx.expect(states() == g0, "global-state", "global random state changed", **info)
    ctx.expect(torch.equal(rt, rt0) and rt.dtype == rt0.dtype, "mutated:room", "room size modified", **info)
    ctx.sample(info)
