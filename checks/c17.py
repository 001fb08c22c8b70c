"""C17: microphone array geometry."""
import itertools
import math

import numpy as np
import torch

from vf.tr import F32, F64, T, np_, raises
from torchrir.geometry import arrays as A

ID = "C17"
TECH = "online oracle: independent numpy geometry (exact positions, pairwise distance spectra, published Eigenmike direction tables); metamorphic relations (translation, scaling, input form, dtype)"
NOTE = "Eigenmike tables are transcribed copies of the directions in the repository at the pinned commit (em32 checked against the published table by hand); handedness of circular arrays about a free normal is not fixed by the property."
RULE = "random centres (2-D/3-D, list/tuple/ndarray/tensor, int/float32/float64, requested dtype), counts 1..40, spacings/radii 1e-4..50, axes, directions, planes, normals incl. axis-aligned, anti-parallel and near-axis; class = (builder, dim, form, dtype, variant)"
NEED = {"assertions": 3000, "extreme_vectors": 100}
KINDS = ["linear", "binaural", "circular", "circular", "poly", "em", "reject"]

EM32 = list(zip(
    [69, 90, 111, 90, 32, 55, 90, 125, 148, 125, 90, 55, 21, 58, 121, 159, 69, 90, 111, 90, 32, 55, 90, 125, 148, 125, 90, 55, 21, 58, 122, 159],
    [0, 32, 0, 328, 0, 45, 69, 45, 0, 315, 291, 315, 91, 90, 90, 89, 180, 212, 180, 148, 180, 225, 249, 225, 180, 135, 111, 135, 269, 270, 270, 271]))
EM64 = list(zip(
    [16.7656, 21.9677, 42.3941, 13.2817, 22.6728, 52.6925, 37.806, 43.3944, 43.9386, 70.3132, 33.2231, 60.0257, 56.4763, 67.4936, 93.2735, 48.423, 78.0793, 62.0685, 38.7171, 63.8004, 70.1946, 96.246, 81.0992, 106.094, 67.7533, 91.7061, 39.9985, 68.7726, 60.8869, 82.2833, 63.0247, 89.794, 137.5166, 139.7604, 135.2133, 160.3628, 162.577, 142.0685, 161.1987, 162.577, 115.536, 86.2594, 116.0164, 95.3313, 90.0637, 111.4549, 85.8671, 130.8398, 102.5775, 142.6375, 117.032, 117.5631, 115.8884, 89.69, 118.4478, 93.9338, 106.3875, 81.0511, 135.9764, 142.6771, 120.6556, 133.8834, 116.3591, 107.464],
    [197.4561, 115.734, 81.911, 313.3592, 43.1785, 46.7324, 335.9958, 14.5398, 204.4547, 206.542, 247.3219, 233.817, 264.5437, 99.6669, 104.6842, 120.9227, 126.513, 148.2368, 162.6381, 178.5498, 21.2715, 25.7834, 47.8607, 55.9075, 71.4285, 78.4921, 293.221, 290.5683, 318.1354, 334.0042, 352.0227, 0.0, 174.0335, 212.7205, 251.9179, 150.6471, 240.8266, 293.0625, 331.0098, 60.8266, 226.9135, 233.9255, 193.6382, 209.6696, 183.169, 163.7105, 156.9524, 139.4318, 135.9729, 102.3273, 112.5511, 83.1464, 307.7078, 309.1392, 278.2519, 282.9735, 253.147, 260.0688, 59.7394, 14.2241, 32.4901, 334.0753, 2.0842, 335.0677]))
assert len(EM32) == 32 and len(EM64) == 64
POLY = {"tetrahedron": (4, 6, math.sqrt(8 / 3)), "cube": (8, 12, 2 / math.sqrt(3)), "octahedron": (6, 12, math.sqrt(2)),
        "dodecahedron": (20, 30, 4 / (math.sqrt(3) * (1 + math.sqrt(5)))), "icosahedron": (12, 30, 1 / math.sin(2 * math.pi / 5))}


def cases(tier):
    n = 21000 if tier == "quick" else 1000000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def extreme(r, dt):
    """a vector length whose square (or the length itself) is at the edge of the float range; 1.0 most of the time"""
    if r.uniform() < 0.7:
        return 1.0
    return float(r.choice([1e-30, 1e-22, 1e-9, 1e12, 1e20, 1e30, 1e37] if dt == F32 else [1e-300, 1e-170, 1e-30, 1e-9, 1e20, 1e160, 1e300]))


def form(r, v):
    """One centre value in a random input form; returns (form name, object, kwargs, result dtype, value used)."""
    k = int(r.integers(8))
    v = np.asarray(v, dtype=float)
    if k == 0:
        return "list", v.tolist(), {}, F32, v
    if k == 1:
        return "tuple64", tuple(v.tolist()), dict(dtype=F64), F64, v
    if k == 2:
        return "t64", T(v), {}, F64, v
    if k == 3:
        return "t32", T(v, F32), {}, F32, np_(T(v, F32))
    w = np.round(v)
    if k == 4:
        return "intlist", [int(a) for a in w], {}, F32, w
    if k == 5:
        return "inttensor", torch.tensor([int(a) for a in w]), {}, F32, w
    if k == 6:
        return "int64cast", [int(a) for a in w], dict(dtype=F64), F64, w
    return "t32to64", T(v, F32), dict(dtype=F64), F64, np_(T(v, F32))


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dim = 3 if r.uniform() < 0.7 else 2
    if kind in ("poly", "em"):
        dim = 3
    c0 = r.uniform(-20, 20, dim) if r.uniform() < 0.85 else np.zeros(dim)
    fname, c, kw, dt, cv = form(r, c0)
    info = dict(kind=kind, form=fname, center=cv)
    snap = c.clone() if torch.is_tensor(c) else None
    eps = 3e-6 if dt == F32 else 1e-13
    size = float(np.exp(r.uniform(np.log(1e-2), np.log(20.0)))) if r.uniform() < 0.5 else float(r.choice([0.042, 0.1, 1.0, 5.0]))
    num = int(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31, 32, 40, 65, 128, 300]))

    def check(got, want, key, scale):
        if ctx.expect(tuple(got.shape) == want.shape, key + ":shape", f"shape {tuple(got.shape)} != {want.shape}", **info):
            ctx.expect(got.dtype == dt, key + ":dtype", f"dtype {got.dtype}, expected {dt}", **info)
            e = float(np.abs(np_(got) - want).max())
            ctx.expect(e <= eps * scale, key, f"position error {e:.3g}", **info, got=got[:6], want=want[:6])

    def relations(fn, key, pname, val):
        """translation and scaling of the same builder"""
        base = np_(fn(T(np.zeros(dim)), val))
        sh = r.uniform(-5, 5, dim)
        a = np_(fn(T(sh), val))
        ctx.expect(np.abs(a - sh - base).max() <= 1e-12 * (10 + val * num), key + ":translate", "geometry depends on the centre", **info)
        f = float(r.choice([0.5, 2.0, 3.7]))
        b = np_(fn(T(np.zeros(dim)), val * f))
        ctx.expect(np.abs(b - f * base).max() <= 1e-12 * (10 + val * num * f), key + ":scale", f"geometry does not scale with {pname}", **info)
        if key == "em":
            return
        ctx.expect(np.abs(base.mean(0)).max() <= 1e-9 * val * num, key + ":centred", "not centred on the given centre", **info)

    S = float(np.abs(cv).max(initial=0) + size * num + 1e-9)
    if kind == "linear":
        mode = int(r.integers(3))
        offs = (np.arange(num) - (num - 1) / 2) * size
        if mode == 0:
            ax = int(r.integers(dim))
            u = np.eye(dim)[ax]
            k2 = dict(axis=ax) if ax or r.integers(2) else {}
        else:
            d = r.normal(size=dim) * float(r.choice([1e-2, 1.0, 300.0])) if r.uniform() < 0.6 else np.eye(dim)[int(r.integers(dim))] * float(r.choice([-1, 1, -3, 2]))
            if r.uniform() < 0.2:
                d = np.round(d * 5)
                d = d if np.any(d) else np.ones(dim)
                arg = [int(v) for v in d]
            else:
                arg = d.tolist() if r.integers(2) else T(d)
            if torch.is_tensor(arg) or isinstance(arg[0], float):
                x = extreme(r, dt)
                if x != 1.0:
                    d = d / np.abs(d).max() * x
                    arg = d.tolist() if r.integers(2) else T(d)
                    ctx.count("extreme_vectors")
            u = d / np.abs(d).max()
            u = u / np.linalg.norm(u)
            k2 = dict(direction=arg)
            if mode == 2:
                k2["axis"] = int(r.integers(dim))
        got = A.linear_array(c, num=num, spacing=size, **k2, **kw)
        check(got, cv + offs[:, None] * u, "linear", S)
        if mode and np.abs(d).max() < 1e30 and np.abs(d).max() > 1e-20:
            k2["direction"] = np.asarray(d).tolist()
        relations(lambda cc, v: A.linear_array(cc, num=num, spacing=v, **k2), "linear", "spacing", size)
        ctx.nontrivial(kind, dim, fname, mode, num)
    elif kind == "binaural":
        off = size if r.uniform() < 0.7 else 0.08
        k2 = dict(offset=off) if off != 0.08 or r.integers(2) else {}
        e = np.zeros(dim)
        e[0] = off
        check(A.binaural_array(c, **k2, **kw), np.stack([cv - e, cv + e]), "binaural", S)
        relations(lambda cc, v: A.binaural_array(cc, offset=v), "binaural", "offset", off)
        ctx.nontrivial(kind, dim, fname, off == 0.08)
    elif kind == "circular":
        th = 2 * math.pi * np.arange(num) / num
        if dim == 2:
            check(A.circular_array(c, num=num, radius=size, **kw), cv + size * np.stack([np.cos(th), np.sin(th)], -1), "circular:2d", S * 4)
            ctx.nontrivial(kind, 2, fname, num)
        elif r.uniform() < 0.45:
            p = str(r.choice(["xy", "xz", "yz", "XY", "Xz"]))
            bx, by = (np.eye(3)["xyz".index(ch)] for ch in p.lower())
            k2 = dict(plane=p) if p != "xy" or r.integers(2) else {}
            check(A.circular_array(c, num=num, radius=size, **k2, **kw), cv + size * (np.cos(th)[:, None] * bx + np.sin(th)[:, None] * by), "circular:plane", S * 4)
            relations(lambda cc, v: A.circular_array(cc, num=num, radius=v, **k2), "circular" if num > 1 else "em", "radius", size)
            ctx.nontrivial(kind, p, fname, num)
        else:
            nk = int(r.integers(5))
            if nk == 0:
                n = r.normal(size=3)
            elif nk == 1:
                n = np.eye(3)[int(r.integers(3))] * float(r.choice([-1, 1, -5, 0.2]))
            elif nk == 2:  # nearly an axis
                n = np.eye(3)[int(r.integers(3))] * float(r.choice([-1, 1])) + r.normal(size=3) * float(r.choice([1e-3, 1e-5, 1e-7, 1e-9]))
            elif nk == 3:
                n = np.round(r.uniform(-3, 3, 3))
                n = n if np.any(n) else np.array([1.0, 1, 0])
            else:
                n = r.normal(size=3) * float(r.choice([1e-4, 1e4]))
            if nk in (0, 1, 4):
                x = extreme(r, dt)
                if x != 1.0:
                    n = n / np.abs(n).max() * x
                    ctx.count("extreme_vectors")
            arg = [n.tolist(), T(n), [int(v) for v in n] if nk == 3 else tuple(n.tolist())][int(r.integers(3))]
            nn = n / np.abs(n).max()
            nn = nn / np.linalg.norm(nn)
            got = A.circular_array(c, num=num, radius=size, normal=arg, plane=str(r.choice(["xy", "xz"])), **kw)
            info["normal"] = n
            if ctx.expect(tuple(got.shape) == (num, 3), "normal:shape", f"shape {tuple(got.shape)}", **info):
                ctx.expect(got.dtype == dt, "normal:dtype", f"dtype {got.dtype}", **info)
                q = np_(got) - cv
                tol = eps * S * 6
                ctx.expect(bool(np.isfinite(q).all()), "normal:finite", "non-finite positions", **info)
                ctx.expect(np.abs(q @ nn).max() <= tol, "normal:perpendicular", "positions leave the plane perpendicular to the normal", **info)
                ctx.expect(np.abs(np.linalg.norm(q, axis=1) - size).max() <= tol, "normal:radius", "positions are not at the radius", **info)
                if num > 1:
                    chord = np.linalg.norm(q - np.roll(q, 1, 0), axis=1)
                    ctx.expect(np.abs(chord - 2 * size * math.sin(math.pi / num)).max() <= tol, "normal:angles", "positions are not at equal angles", **info)
                    ctx.expect(np.abs(q.sum(0)).max() <= tol * num, "normal:centred", "not centred", **info)
            ctx.nontrivial(kind, "normal", nk, fname, num > 2)
    elif kind == "poly":
        k = str(r.choice(sorted(POLY)))
        name = k if r.uniform() < 0.8 else k.upper()
        if k == "tetrahedron" and r.integers(2):
            got = A.polyhedron_array(c, radius=size, **kw)
        else:
            got = A.polyhedron_array(c, kind=name, radius=size, **kw)
        nv, ne, edge = POLY[k]
        info["poly"] = k
        if ctx.expect(tuple(got.shape) == (nv, 3), "poly:shape", f"{k}: shape {tuple(got.shape)}", **info):
            ctx.expect(got.dtype == dt, "poly:dtype", f"dtype {got.dtype}", **info)
            q = (np_(got) - cv) / size
            tol = eps * S / size * 6
            ctx.expect(np.abs(np.linalg.norm(q, axis=1) - 1).max() <= tol, "poly:radius", f"{k}: vertices not at the radius", **info)
            ctx.expect(np.abs(q.mean(0)).max() <= tol, "poly:centred", f"{k}: not centred", **info)
            if tol < 0.05:
                d = np.sort([np.linalg.norm(a - b) for a, b in itertools.combinations(q, 2)])
                ctx.expect(np.abs(d[:ne] - edge).max() <= tol * 2, "poly:edges", f"{k}: edges are not equal to {edge:.4f}", got=d[:ne], **info)
                if len(d) > ne:
                    ctx.expect(d[ne] > edge * 1.05, "poly:edge-count", f"{k}: more than {ne} shortest pairs", **info)
        relations(lambda cc, v: A.polyhedron_array(cc, kind=k, radius=v), "poly", "radius", size)
        ctx.nontrivial(kind, k, fname)
    elif kind == "em":
        fn, tab = (A.eigenmike_em32, EM32) if r.integers(2) else (A.eigenmike_em64, EM64)
        az = float(r.choice([0.0, 90.0, -30.0, 123.4, 360.0]))
        k2 = {}
        rad = 0.042
        if r.uniform() < 0.7:
            rad = size
            k2["radius"] = rad
        if az or r.integers(2):
            k2["azimuth_offset_deg"] = az
        t = np.array(tab, float)
        th, ph = np.deg2rad(t[:, 0]), np.deg2rad(t[:, 1] + az)
        want = cv + rad * np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], -1)
        check(fn(c, **k2, **kw), want, fn.__name__, np.abs(cv).max(initial=0) + rad * 8)
        relations(lambda cc, v: fn(cc, radius=v, azimuth_offset_deg=az), "em", "radius", rad)
        ctx.nontrivial(kind, fn.__name__, az, fname, rad == 0.042)
    else:
        bad_num = int(r.choice([0, -1, -7]))
        bad_len = float(r.choice([0.0, -0.1, -5.0]))
        c2, c3, cx = [1.0, 2.0], [1.0, 2.0, 3.0], [1.0, 2.0, 3.0, 4.0]
        cc = c2 if dim == 2 else c3

        def bad_vec(n):
            v = [0.0] * n
            k = int(r.integers(4))
            if k:
                v[int(r.integers(n))] = [math.nan, math.inf, -math.inf][k - 1]
            return v

        bads = [("linear:num", lambda: A.linear_array(cc, num=bad_num, spacing=0.1)), ("linear:spacing", lambda: A.linear_array(cc, num=3, spacing=bad_len)),
                ("linear:axis", lambda: A.linear_array(cc, num=3, spacing=0.1, axis=int(r.choice([dim, dim + 2, -1, -3])))),
                ("linear:direction", lambda: A.linear_array(cc, num=3, spacing=0.1, direction=[1.0] * (dim + int(r.choice([-1, 1]))))),
                ("circular:num", lambda: A.circular_array(cc, num=bad_num, radius=0.1)), ("circular:radius", lambda: A.circular_array(cc, num=4, radius=bad_len)),
                ("circular:plane", lambda: A.circular_array(c3, num=4, radius=0.1, plane=str(r.choice(["yx", "zx", "x", "", "xyz"])))),
                ("circular:normal", lambda: A.circular_array(c3, num=4, radius=0.1, normal=[1.0, 0.0])), ("circular:normal-value", lambda: A.circular_array(c3, num=4, radius=0.1, normal=bad_vec(3))), ("linear:direction-value", lambda: A.linear_array(cc, num=3, spacing=0.1, direction=bad_vec(dim))),
                ("circular:dim", lambda: A.circular_array(cx, num=4, radius=0.1)),
                ("circular:dim", lambda: A.circular_array([1.0], num=4, radius=0.1)),
                ("poly:kind", lambda: A.polyhedron_array(c3, kind=str(r.choice(["sphere", "", "cubes", "prism"])))), ("poly:radius", lambda: A.polyhedron_array(c3, radius=bad_len)),
                ("poly:dim", lambda: A.polyhedron_array(c2 if r.integers(2) else cx)), ("em32:dim", lambda: A.eigenmike_em32(c2 if r.integers(2) else cx)), ("em64:dim", lambda: A.eigenmike_em64(c2 if r.integers(2) else cx)),
                ("em32:radius", lambda: A.eigenmike_em32(c3, radius=bad_len)), ("em64:radius", lambda: A.eigenmike_em64(c3, radius=bad_len))]
        for nm, fn in bads:
            ok, e = raises(ValueError, fn)
            ctx.expect(ok, f"reject:{nm}", f"{nm}: " + ("accepted" if not isinstance(e, Exception) else repr(e)[:150]), **info)
            ctx.nontrivial(kind, nm, dim)
    if snap is not None:
        ctx.expect(torch.equal(c, snap) and c.dtype == snap.dtype, "mutated", "centre tensor modified", **info)
    ctx.sample(info)
