"""C11: ISMSimulator against the direct simulation functions."""
import dataclasses
import warnings

import numpy as np
import torch

from checks.c02 import PATS, units
from vf import gen
from vf.tr import F32, F64, T, cfg, raises, room
from torchrir.config import SimulationConfig
from torchrir.models import DynamicScene, MicrophoneArray, RIRResult, Scene, Source, StaticScene
from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir

ID = "C11"
TECH = "differential monitor: every façade run compared bit-for-bit with the direct simulation call it stands for; conflict/rejection grid"
NOTE = "Sampled scenes and parameter combinations; the direct functions themselves are judged by C01-C08."
RULE = "random static/dynamic/deprecated scenes x simulator parameters x config; class = (scene kind, directivity form, orientation form, length form, config form)"
NEED = {"big_cases": 20, "assertions": 800, "rirs_compared": 200, "one_sided": 60}
KINDS = ["static", "dynamic", "dynamic", "legacy", "reject"]


def cases(tier):
    n = 2700 if tier == "quick" else 180000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dim = int(r.choice([2, 3, 3]))
    dt = F32 if r.uniform() < 0.3 else F64
    sz, b = gen.size(r, dim), gen.beta(r, dim)
    fs, c = gen.fs_c(r)
    S, M, n = int(r.integers(1, 4)), int(r.integers(1, 4)), int(r.integers(1, 4))
    if r.uniform() < 0.06:
        S, M, n = [(int(r.integers(9, 30)), M, 1), (S, int(r.integers(9, 30)), 1), (1, 1, int(r.integers(20, 80)))][int(r.integers(3))]
        ctx.count("big_cases")
    src, mic = T(gen.pos(r, sz, S), dt), T(gen.pos(r, sz, M), dt)
    st = T([gen.pos(r, sz, S) for _ in range(n)], dt)
    mt = T([gen.pos(r, sz, M) for _ in range(n)], dt)
    if S == 1 and r.integers(2):
        st = st[:, 0]
    if M == 1 and r.integers(2):
        mt = mt[:, 0]
    so, mo = T(units(r, S, dim, False), dt), T(units(r, M, dim, False), dt)
    if r.uniform() < 0.3:
        so, mo = so[0], mo[0]
    d = [None, "omni", str(r.choice(PATS)), (str(r.choice(PATS)), str(r.choice(PATS)))][int(r.integers(4))]
    if kind != "reject" and r.uniform() < 0.25:  # only one side, or none, has an orientation
        one = int(r.integers(4))
        pat = str(r.choice([p for p in PATS if p != "omni"]))
        so, mo, d = [(so, None, (pat, "omni")), (None, mo, ("omni", pat)), (None, None, [None, "omni", ("omni", "omni")][int(r.integers(3))]), (so, None, "omni")][one]
        ctx.count("one_sided")
    rm = room(sz, fs, c, beta=b, dt=dt)
    order = int(r.integers(0, 4))
    ns = int(r.choice([1, 2, 64, 300, 300]))
    box = tuple(int(x) for x in r.integers(0, 3, dim)) if r.uniform() < 0.3 else None
    if box is not None and r.uniform() < 0.4:  # far more images along one axis than the order allows
        a = int(r.integers(dim))
        box = tuple(int(r.integers(4, 14)) if i == a else min(x, 1) for i, x in enumerate(box))
    conf_k = dict(seed=[None, 0, 7][int(r.integers(3))], use_lut=bool(r.integers(2)), rir_hpf_enable=bool(r.integers(2)))
    cform = str(r.choice(["none", "plain", "order", "tmax", "directivity", "both"]))
    tmax = ns / fs
    if cform == "order":
        conf_k["max_order"] = order
    elif cform == "tmax":
        conf_k["tmax"] = tmax
    elif cform == "both":
        conf_k.update(max_order=order, tmax=tmax)
    elif cform == "directivity":
        conf_k["directivity"] = d if so is None or mo is None else str(r.choice(PATS))
    conf = None if cform == "none" else SimulationConfig(**conf_k)
    lform = str(r.choice(["tmax", "nsample", "both"]))
    length = {"tmax": dict(tmax=tmax), "nsample": dict(nsample=ns), "both": dict(tmax=tmax, nsample=ns + 3)}[lform]
    sk = dict(max_order=order, directivity=d, nb_img=box, **length)
    if r.uniform() < 0.3:
        sk["dtype"] = F32
    if r.uniform() < 0.4:
        sk["device"] = str(r.choice(["cpu", "cpu", "cuda", "mps"]))
    absent = sk.get("device") in ("cuda", "mps") and not torch.cuda.is_available() and not torch.backends.mps.is_available()
    info = dict(kind=kind, dim=dim, S=S, M=M, T=n, d=d, cform=cform, lform=lform, box=box, conf=conf_k)
    if kind == "reject":
        bads = [dict(max_order=-1), dict(tmax=0.0, nsample=None), dict(tmax=-1.0), dict(nsample=0), dict(nsample=-5), dict(tmax=None, nsample=None)]
        for bad in bads:
            k = {**sk, **bad}
            ok, e = raises(ValueError, lambda: ISMSimulator(**k))
            ctx.expect(ok, f"reject:{sorted(bad)}", f"ISMSimulator({k}) accepted: {e!r:.100}")
        sim = ISMSimulator(**{**dict(max_order=order, tmax=tmax, directivity=d), **(dict(nsample=ns) if r.integers(2) else {}), **(dict(nb_img=box) if r.integers(2) else {})})
        scene = StaticScene(rm, Source(src, so), MicrophoneArray(mic, mo))
        for sc in (scene, DynamicScene(rm, Source(src, so), MicrophoneArray(mic, mo), st, mt)):
            for cc in (SimulationConfig(max_order=order + 1), SimulationConfig(tmax=tmax * 1.5), SimulationConfig(max_order=order, tmax=tmax / 2), SimulationConfig(max_order=order + 3, tmax=tmax)):
                ok, e = raises(ValueError, lambda: sim.simulate(sc, cc))
                ctx.expect(ok, "conflict", f"conflicting config {cc.max_order},{cc.tmax} vs {order},{tmax} accepted: {e!r:.100}")
        pat = str(r.choice([p for p in PATS if p != "omni"]))
        other = str(r.choice(PATS))
        for d2, so2, mo2 in (((other, pat), so, None), ((pat, other), None, mo), (pat, so, None), (pat, None, mo), (pat, None, None)):
            sim2 = ISMSimulator(max_order=order, nsample=ns, directivity=d2)
            for sc in (StaticScene(rm, Source(src, so2), MicrophoneArray(mic, mo2)), DynamicScene(rm, Source(src, so2), MicrophoneArray(mic, mo2), st, mt)):
                ok, e = raises(ValueError, lambda: sim2.simulate(sc))
                ctx.expect(ok, f"missing-orientation:{type(sc).__name__}", f"directivity {d2} without {'source' if so2 is None else 'mic'} orientation accepted: {e!r:.100}")
        if order != 0:
            ok, e = raises(ValueError, lambda: sim.simulate(scene, SimulationConfig(max_order=0)))
            ctx.expect(ok, "conflict", "config max_order=0 conflict accepted")
        for bad in (None, 5, "scene", rm, {"room": rm}):
            ok, e = raises(TypeError, lambda: sim.simulate(bad))
            ctx.expect(ok, "scene-type", f"scene {bad!r:.40} accepted or wrong error: {e!r:.100}")
        bad_conf = dataclasses.replace(SimulationConfig(), image_chunk_size=0)
        ok, e = raises(ValueError, lambda: sim.simulate(scene, bad_conf))
        ctx.expect(ok, "bad-config", "an invalid config is accepted by the simulator")
        ctx.nontrivial(kind, dim, lform)
        return
    sim = ISMSimulator(**sk)
    sources, mics = Source(src, so), MicrophoneArray(mic, mo)
    direct_k = dict(room=rm, config=conf, **{"nsample": None, "tmax": None, **sk})
    legacy = kind == "legacy"
    dynamic = kind == "dynamic" or (legacy and bool(r.integers(2)))
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        if legacy:
            scene = Scene(rm, sources, mics, *((st, mt) if dynamic else ()))
            made = [w for w in log if issubclass(w.category, DeprecationWarning)]
            ctx.expect(len(made) == 1, "scene-warns", f"{len(made)} DeprecationWarnings from Scene()")
        else:
            scene = DynamicScene(rm, sources, mics, st, mt) if dynamic else StaticScene(rm, sources, mics)
        n0 = len(log)
        res = sim.simulate(scene, conf)
        dep = [w for w in log[n0:] if issubclass(w.category, DeprecationWarning)]
        fell = [w for w in log[n0:] if issubclass(w.category, RuntimeWarning)]
        ctx.expect(bool(fell) == absent, "device-warns", f"device {sk.get('device')}: {len(fell)} RuntimeWarnings from simulate", **info)
        ctx.expect(len(dep) == int(legacy), "simulate-warns", f"{len(dep)} DeprecationWarnings from simulate({type(scene).__name__})", **info)
    direct_k["device"] = None if absent else direct_k.get("device")
    if dynamic:
        want = simulate_dynamic_rir(src_traj=st, mic_traj=mt, orientation=(so, mo), **direct_k)
    else:
        want = simulate_rir(sources=src, mics=mic, orientation=(so, mo), **direct_k)
    ctx.count("rirs_compared", S * M)
    if ctx.expect(res.rirs.shape == want.shape and res.rirs.dtype == want.dtype, "form", f"{tuple(res.rirs.shape)} {res.rirs.dtype} vs {tuple(want.shape)} {want.dtype}", **info):
        ctx.expect(torch.allclose(res.rirs, want, rtol=1e-10 if want.dtype == F64 else 1e-5, atol=1e-12 if want.dtype == F64 else 1e-6), f"facade:{'dynamic' if dynamic else 'static'}",
                   f"façade differs from the direct simulation by {float((res.rirs - want).abs().max()):.3g}", **info)
    ctx.expect(isinstance(res, RIRResult), "result-type", f"{type(res)}")
    if conf is not None:
        ctx.expect(res.config == conf and res.seed == conf.seed, "result-config", f"result config/seed {res.seed} are not those used", **info)
    else:
        ctx.expect(isinstance(res.config, SimulationConfig) and res.seed == res.config.seed, "result-config", "default config not reported", **info)
    sc = res.scene
    want_t = DynamicScene if dynamic else StaticScene
    ctx.expect(isinstance(sc, want_t), "result-scene", f"result scene is {type(sc).__name__}", **info)
    ctx.expect(sc.room is rm or torch.equal(sc.room.size, rm.size), "result-scene", "result scene has another room")
    ctx.expect(torch.equal(sc.sources.positions, src) and torch.equal(sc.mics.positions, mic), "result-scene", "result scene has other positions")
    if dynamic:
        ctx.expect(torch.equal(sc.src_traj, st) and torch.equal(sc.mic_traj, mt), "result-scene", "result scene has other trajectories")
    ctx.nontrivial(kind, dynamic, type(d).__name__, None if so is None else so.ndim, mo is None, cform, lform, dim, str(dt))
    ctx.sample(info)
