"""C13: acceptance and rejection of room/entity/scene descriptions."""
import dataclasses
import math
import warnings

import numpy as np
import torch

from vf import gen
from vf.tr import F32, F64, T, raises
from torchrir.models import DynamicScene, MicrophoneArray, Room, Scene, Source, StaticScene

ID = "C13"
TECH = "acceptance monitor: generated valid descriptions with single corruptions from a corruption grammar; every accept/reject verdict and stored value compared with the specification"
NOTE = "Corruptions are applied one at a time and in pairs to sampled valid descriptions."
RULE = "valid description generated, 0-2 corruptions applied; class = (object, corruption, dim, container form)"
NEED = {"rejects_checked": 1500, "accepts_checked": 1000, "big_cases": 50}
KINDS = ["room", "entity", "static", "dynamic", "scene", "replace"]


def cases(tier):
    n = 9000 if tier == "quick" else 1000000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def form(r, a, dt):
    a = np.asarray(a, float)
    k = int(r.integers(3))
    if k == 0:
        return T(a, dt)
    if k == 1:
        return a.tolist()
    return T(a, dt) if a.ndim == 0 else (tuple(map(tuple, a.tolist())) if a.ndim == 2 else tuple(a.tolist()))


def nearly(t, a, dt=None):
    a = np.asarray(a, float)
    if dt is not None:  # stored in the requested dtype, exactly the nearest values
        return torch.is_tensor(t) and t.dtype == dt and torch.equal(t, T(a, dt))
    return tuple(t.shape) == a.shape and np.allclose(t.double().numpy(), a, rtol=1e-6, atol=1e-9)


NONFIN = [math.nan, math.inf, -math.inf]


def good_room(r, dim):
    k = dict(size=r.uniform(0.1, 20, dim), fs=float(r.choice([8000, 1.0, 44100.5])), c=float(r.choice([343.0, 1500.0, 0.1])))
    if r.uniform() < 0.2:  # any positive finite scale is a room
        k["size"] = 10.0 ** r.uniform(-6, 7, dim)
        k["fs"], k["c"] = float(10.0 ** r.uniform(-3, 8)), float(10.0 ** r.uniform(-3, 8))
    m = int(r.integers(3))
    if m == 1:
        k["beta"] = gen.beta(r, dim)
    elif m == 2:
        k["t60"] = float(r.choice([1e-3, 0.5, 20.0, math.inf]))
    return k


def corrupt_room(r, k, dim):
    """-> (name, kwargs) invalid in exactly one way"""
    k = dict(k)
    name = str(r.choice(["size-nonfinite", "size-nonpositive", "size-count", "size-rank", "fs", "c", "t60", "both", "beta-count", "beta-range", "beta-nonfinite"]))
    size = np.array(k["size"])
    if name == "size-nonfinite":
        size[r.integers(dim)] = r.choice(NONFIN)
    elif name == "size-nonpositive":
        size[r.integers(dim)] = r.choice([0.0, -1.0, -1e-9])
    elif name == "size-count":
        size = r.uniform(1, 5, int(r.choice([1, 4, 5])))
        k.pop("beta", None)
    elif name == "size-rank":
        size = size.reshape((1, dim)) if r.integers(2) else np.float64(3.0)
        k.pop("beta", None)
    elif name in ("fs", "c"):
        k[name] = float(r.choice([0.0, -1.0, *NONFIN]))
    elif name == "t60":
        k.pop("beta", None)
        k["t60"] = float(r.choice([0.0, -0.5, math.nan, -math.inf]))
    elif name == "both":
        k["beta"], k["t60"] = gen.beta(r, dim), 0.4
    else:
        k.pop("t60", None)
        b = gen.beta(r, dim)
        if name == "beta-count":
            b = r.uniform(0, 1, int(r.choice([1, 2, 3, 5, 7, 10 - 2 * dim])))
        elif name == "beta-range":
            b[r.integers(b.size)] = r.choice([-1e-6, 1.0001, -1.0, 2.0])
        else:
            b[r.integers(b.size)] = r.choice(NONFIN)
        k["beta"] = b
    k["size"] = size
    return name, k


def make_room(r, k, dt):
    k = dict(k)
    f = int(r.integers(2))
    if f:
        kk = dict(size=form(r, k["size"], dt), fs=k["fs"], c=k["c"])
        if "beta" in k:
            kk["beta"] = form(r, k["beta"], dt)
        if "t60" in k:
            kk["t60"] = k["t60"]
        return Room.shoebox(dtype=dt, **kk)
    return Room(size=T(k["size"], dt), fs=k["fs"], c=k["c"], beta=T(k["beta"], dt) if "beta" in k else None, t60=k.get("t60"))


def good_ori(r, n, dim):
    """valid orientation arrays"""
    opts = [None]
    if dim == 2:
        opts += [r.normal(size=2), r.normal(size=1), np.array(float(r.normal())), r.normal(size=n), r.normal(size=(n, 1)), r.normal(size=(n, 2))]
    else:
        opts += [r.normal(size=3), r.normal(size=2), r.normal(size=(n, 3)), r.normal(size=(n, 2))]
    return opts[int(r.integers(len(opts)))]


def bad_ori(r, n, dim):
    o = None
    while o is None:
        o = good_ori(r, n, dim)
    o = np.array(o, float)
    k = int(r.integers(4))
    if k == 0:
        o.reshape(-1)[r.integers(o.size)] = r.choice(NONFIN)
        return "ori-nonfinite", o
    if k == 1:
        return "ori-rank", r.normal(size=(1, n, dim))
    if k == 2:
        return "ori-count", r.normal(size=(n + int(r.integers(1, 4)), dim))
    if dim == 3:
        return "ori-width", [r.normal(size=1), r.normal(size=4), r.normal(size=(n, 1)), r.normal(size=(n, 4)), np.array(0.3)][int(r.integers(5))]
    m = int(r.integers(3, 9))
    while m == n:
        m += 1
    return "ori-width", [r.normal(size=m), r.normal(size=(n, 3)), r.normal(size=(n, 4))][int(r.integers(3))]


def bad_pos(r, n, dim):
    k = int(r.integers(3))
    p = r.uniform(0, 5, (n, dim))
    if k == 0:
        p[r.integers(n), r.integers(dim)] = r.choice(NONFIN)
        return "pos-nonfinite", p
    if k == 1:
        return "pos-width", r.uniform(0, 5, (n, int(r.choice([1, 4, 6]))))
    return "pos-rank", [r.uniform(0, 5, (1, n, dim)), np.array(1.0), r.uniform(0, 5, 1), r.uniform(0, 5, 4)][int(r.integers(4))]


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dim = int(r.choice([2, 3]))
    dt = F32 if r.uniform() < 0.4 else F64
    big = r.uniform() < 0.08
    S, M = (int(v) for v in (r.integers(100, 1500, 2) if big else r.integers(1, 5, 2)))
    ctx.count("big_cases", int(big))

    def reject(fn, name, what, exc=(ValueError,), **d):
        ok, e = raises(exc, fn)
        ctx.count("rejects_checked")
        ctx.expect(ok, f"{kind}:accepts:{name}", f"{what} with {name} " + ("accepted" if not isinstance(e, Exception) else f"raised {type(e).__name__}: {e}"), dim=dim, **d)
        ctx.nontrivial(kind, name, dim, str(dt))

    rk = good_room(r, dim)
    rm = make_room(r, rk, dt)
    if kind == "room":
        ctx.count("accepts_checked")
        ctx.expect(nearly(rm.size, rk["size"], dt), "room:stored", "room size not stored as given", given=rk["size"], got=rm.size)
        ctx.expect(rm.fs == rk["fs"] and rm.c == rk["c"] and rm.t60 == rk.get("t60"), "room:stored", "room fs/c/t60 not stored as given", **rk)
        ctx.expect((rm.beta is None) == ("beta" not in rk) and (rm.beta is None or nearly(rm.beta, rk["beta"], dt)), "room:stored", "room beta not stored as given", **rk)
        for _ in range(4):
            name, bk = corrupt_room(r, rk, dim)
            reject(lambda: make_room(r, bk, dt), name, "room", **bk)
        ok, e = raises(dataclasses.FrozenInstanceError, lambda: setattr(rm, "fs", 1.0))
        ctx.expect(ok, "room:frozen", "Room is mutable")
        # defaults and edge values
        e = Room.shoebox([1e-3] * dim, fs=1, beta=[0, 1] * dim)
        d = Room(size=T(rk["size"], dt), fs=8000.0)
        ctx.expect(d.c == 343.0 and d.beta is None and d.t60 is None, "room:default", f"Room() defaults are {d}")
        ctx.expect(e.c == 343.0 and e.t60 is None and nearly(e.beta, np.tile([0.0, 1.0], dim)), "room:default", "defaults")
    elif kind == "entity":
        for cls in (Source, MicrophoneArray):
            p, o = r.uniform(-3, 9, (S, dim)), good_ori(r, S, dim)
            single = S == 1 and bool(r.integers(2))
            pp = p[0] if single else p
            if r.integers(2):
                e = cls.from_positions(form(r, pp, dt), orientation=None if o is None else form(r, o, dt), dtype=dt)
            else:
                e = cls(T(pp, dt), None if o is None else T(o, dt))
            ctx.count("accepts_checked")
            ctx.expect(nearly(e.positions, p, dt), "entity:stored", "positions not stored as given", given=p, got=e.positions)
            ctx.expect((e.orientation is None) == (o is None) and (o is None or nearly(e.orientation, o, dt)), "entity:stored", "orientation not stored as given", given=o, got=e.orientation)
            name, bp = bad_pos(r, S, dim)
            reject(lambda: cls(T(bp, dt)), name, cls.__name__, positions=bp)
            reject(lambda: cls.from_positions(form(r, bp, dt)), name, cls.__name__, positions=bp)
            name, bo = bad_ori(r, S, dim)
            reject(lambda: cls(T(p, dt), T(bo, dt)), name, cls.__name__, n=S, orientation=bo)
            reject(lambda: cls.from_positions(p.tolist(), orientation=bo.tolist()), name, cls.__name__, n=S, orientation=bo)
            new_p = r.uniform(0, 4, (S, dim))
            e2 = e.replace(positions=T(new_p, dt))
            ctx.expect(nearly(e2.positions, new_p, dt) and (o is None or nearly(e2.orientation, o, dt)) and nearly(e.positions, p, dt), "entity:replace", "replace changed other fields or the original")
            reject(lambda: e.replace(positions=T(bp, dt)), "replace-pos", cls.__name__) if bp.ndim != 1 or True else None
            reject(lambda: e.replace(orientation=T(bo, dt)), "replace-ori", cls.__name__)
    else:
        n = int(r.integers(1, 6))
        if r.uniform() < 0.05:
            n, S, M = int(r.integers(500, 3000)), int(r.integers(1, 4)), int(r.integers(1, 4))
            ctx.count("big_cases")
        src, mic = Source(T(r.uniform(0, 1, (S, dim)) * rk["size"], dt)), MicrophoneArray(T(r.uniform(0, 1, (M, dim)) * rk["size"], dt))
        st, mt = r.uniform(0, 3, (n, S, dim)), r.uniform(0, 3, (n, M, dim))
        if S == 1 and r.integers(2):
            st = st[:, 0]
        if M == 1 and r.integers(2):
            mt = mt[:, 0]
        if r.uniform() < 0.1:
            # huge but finite: sums and squares of such coordinates overflow
            st, mt = (np.where(r.uniform(size=a.shape) < 0.5, 3e38 * r.choice([-1.0, 1.0, 1.0]), a) for a in (st, mt))
            ctx.count("huge_trajectories")
        od = 5 - dim
        osrc, omic = Source(torch.ones(S, od)), MicrophoneArray(torch.ones(M, od))
        types = [("room-type", lambda m, s, q: m(None, s, q)), ("src-type", lambda m, s, q: m(rm, q, q)), ("src-tensor", lambda m, s, q: m(rm, s.positions, q)), ("mic-type", lambda m, s, q: m(rm, s, s))]
        if kind == "static":
            sc = StaticScene(room=rm, sources=src, mics=mic)
            sc.validate()
            ctx.count("accepts_checked")
            ctx.expect(not sc.is_dynamic() and sc.room is rm and sc.sources is src and sc.mics is mic, "static:stored", "scene parts not stored")
            reject(lambda: StaticScene(rm, osrc, mic), "src-dim", "StaticScene")
            reject(lambda: StaticScene(rm, src, omic), "mic-dim", "StaticScene")
            for nm, f in types:
                reject(lambda: f(StaticScene, src, mic), nm, "StaticScene", (TypeError, ValueError))
        elif kind in ("dynamic", "scene"):
            cls = DynamicScene if kind == "dynamic" else Scene
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                sc = cls(rm, src, mic, T(st, dt), T(mt, dt))
                sc.validate()
                ctx.count("accepts_checked")
                ctx.expect(sc.is_dynamic() and nearly(sc.src_traj, st, dt) and nearly(sc.mic_traj, mt, dt), f"{kind}:stored", "trajectories not stored")
                bads = [("src-dim", (rm, osrc, mic, st, mt)), ("mic-dim", (rm, src, omic, st, mt)), ("steps", (rm, src, mic, st, np.concatenate([mt, mt[:1]]))), ("steps", (rm, src, mic, np.concatenate([st, st]), mt)),
                        ("count", (rm, src, mic, r.uniform(0, 3, (n, S + 1, dim)), mt)), ("count", (rm, src, mic, st, r.uniform(0, 3, (n, M + 2, dim)))),
                        ("width", (rm, src, mic, r.uniform(0, 3, (n, S, od)), mt)), ("width", (rm, src, mic, st, r.uniform(0, 3, (n, M, od)))),
                        ("rank", (rm, src, mic, r.uniform(0, 3, (1, n, S, dim)), mt)), ("rank", (rm, src, mic, st, r.uniform(0, 3, dim)))]
                if S > 1:
                    bads.append(("collapsed", (rm, src, mic, r.uniform(0, 3, (n, dim)), mt)))
                else:
                    bads.append(("width2", (rm, src, mic, r.uniform(0, 3, (n, od)), mt)))
                if M > 1:
                    bads.append(("collapsed", (rm, src, mic, st, r.uniform(0, 3, (n, dim)))))
                for v in NONFIN:
                    s2 = st.copy()
                    s2.reshape(-1)[r.integers(s2.size)] = v
                    bads.append(("nonfinite", (rm, src, mic, s2, mt)))
                    m2 = mt.copy()
                    m2.reshape(-1)[r.integers(m2.size)] = v
                    bads.append(("nonfinite", (rm, src, mic, st, m2)))
                for nm, a in bads:
                    reject(lambda: cls(*a[:3], T(a[3], dt), T(a[4], dt)), nm, cls.__name__, src_traj=a[3].shape, mic_traj=a[4].shape, S=S, M=M)
                for nm, f in types:
                    reject(lambda: f(lambda x, y, z: cls(x, y, z, T(st, dt), T(mt, dt)), src, mic), nm, cls.__name__, (TypeError, ValueError))
                if kind == "scene":
                    reject(lambda: Scene(rm, src, mic, src_traj=T(st, dt)), "one-traj", "Scene")
                    reject(lambda: Scene(rm, src, mic, mic_traj=T(mt, dt)), "one-traj", "Scene")
                    stat = Scene(rm, src, mic)
                    ctx.expect(not stat.is_dynamic() and isinstance(stat.to_static_scene(), StaticScene), "scene:static", "static Scene")
                    reject(stat.to_dynamic_scene, "convert", "static Scene")
                    reject(sc.to_static_scene, "convert", "dynamic Scene")
                    d = sc.to_dynamic_scene()
                    ctx.expect(isinstance(d, DynamicScene) and nearly(d.src_traj, st) and nearly(d.mic_traj, mt) and d.room is rm, "scene:convert", "conversion lost data")
                else:
                    lst = DynamicScene(rm, src, mic, T(st, dt).tolist(), T(mt, dt).tolist())
                    ctx.expect(nearly(lst.src_traj, st), "dynamic:list", "list trajectories not stored")
        else:
            snap = {f.name: (getattr(rm, f.name).clone() if torch.is_tensor(getattr(rm, f.name)) else getattr(rm, f.name)) for f in dataclasses.fields(rm)}
            ch = {}
            if r.integers(2):
                ch["fs"] = 12345.0
            if r.integers(2):
                ch["c"] = 300.0
            if r.integers(2):
                ch["size"] = T(r.uniform(1, 5, dim), dt)
            if r.integers(2):
                ch.update(beta=T(gen.beta(r, dim), dt), t60=None)
            elif r.integers(2):
                ch.update(beta=None, t60=0.7)
            n2 = rm.replace(**ch)
            same = lambda x, y: (x is None and y is None) or (torch.is_tensor(x) and torch.is_tensor(y) and torch.equal(x, y)) or (not torch.is_tensor(x) and x == y)
            for f in snap:
                ctx.expect(same(getattr(n2, f), ch.get(f, snap[f])), "replace:field", f"replace({sorted(ch)}) gave {f}={getattr(n2, f)}", changes=ch)
                ctx.expect(same(getattr(rm, f), snap[f]), "replace:original", f"replace changed the original's {f}")
            ctx.count("accepts_checked")
            name, bk = corrupt_room(r, dict(rk), dim)
            bad = {k: (T(v, dt) if k in ("size", "beta") else v) for k, v in bk.items()}
            bad.setdefault("beta", None)
            bad.setdefault("t60", None)
            reject(lambda: rm.replace(**bad), name, "Room.replace", **bk)
            # naming one of the two damping parameters leaves the other in force
            if rm.t60 is not None:
                other = dict(beta=T(gen.beta(r, dim), dt))
            else:
                other = dict(t60=float(r.uniform(0.05, 2.0))) if rm.beta is not None else None
            if other:
                reject(lambda: rm.replace(**other), "beta-and-t60", "Room.replace", **other)
    ctx.sample(dict(kind=kind, dim=dim, S=S, M=M, room=rk))
