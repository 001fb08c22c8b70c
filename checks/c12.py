"""C12: precedence of arguments, config and defaults; config validation."""
import copy
import dataclasses
import itertools
import math

import numpy as np
import torch

from vf import gen
from vf.tr import F64, T, cfg, raises, room
from torchrir.config import SimulationConfig, default_config
from torchrir.sim import simulate_dynamic_rir, simulate_rir

ID = "C12"
TECH = "grid monitor: every (argument, config, default) combination of each parameter run and the value in effect identified from the output; validation grid around every field's boundary"
NOTE = "The effective value is inferred by comparing with runs where it is unambiguous, so only observable effects count."
RULE = "all argument/config/default combinations of max_order, tmax, nsample, directivity, device on random scenes; all config fields at boundary values; class = (parameter, combination, static/dynamic)"
NEED = {"assertions": 2000}
KINDS = ["order", "length", "directivity", "device", "validate", "replace", "seed", "missing"]

BAD = dict(fs=[0, -1.0, -48000], max_order=[-1, -100], tmax=[0, 0.0, -0.5], seed=[-1], frac_delay_length=[0, -1, 2, 80, -81], sinc_lut_granularity=[0, -3], image_chunk_size=[0, -1],
           accumulate_chunk_size=[0, -2048], rir_hpf_fc=[0, -10.0], rir_hpf_kwargs=[{"n": 0}, {"n": -2, "type": "butter"}])
GOOD = dict(fs=[1e-3, 8000, 44100.0, None], max_order=[0, 1, 30, None], tmax=[1e-6, 0.5, 10, None], seed=[0, 1, 2**40, None], frac_delay_length=[1, 3, 81, 501], sinc_lut_granularity=[1, 1000],
            image_chunk_size=[1, 10**9], accumulate_chunk_size=[1, 10**9], rir_hpf_fc=[1e-3, 10.0, 7999.0], rir_hpf_kwargs=[{}, {"n": 1}, {"n": 8, "ftype": "bessel"}],
            use_lut=[True, False], mixed_precision=[True, False], use_compile=[True, False], rir_hpf_enable=[True, False], directivity=[None, "omni", ("card", "omni")], device=[None, "cpu", "auto"])


def cases(tier):
    n = 1280 if tier == "quick" else 71000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dim = int(r.choice([2, 3]))
    sz = gen.size(r, dim) + 1.0
    fs = float(r.choice([8000.0, 16000.0]))
    dyn = bool(r.integers(2))
    b = r.uniform(0.5, 0.95, 2 * dim)
    rm = room(sz, fs, 343.0, beta=b)
    s, m = T(gen.pos(r, sz, 1, mode=9)), T(gen.pos(r, sz, 1, mode=9))
    ori = (T(r.normal(size=(1, dim))), T(r.normal(size=(1, dim))))

    def sim(**k):
        conf = k.pop("config", None)
        snap = None if conf is None else (copy.deepcopy(dataclasses.asdict(conf)))
        a = dict(room=rm, config=conf, max_order=1, nsample=400)
        a.update(k)
        if dyn:
            x = simulate_dynamic_rir(src_traj=s[None], mic_traj=m[None], orientation=ori, **a)[0]
        else:
            x = simulate_rir(sources=s, mics=m, orientation=ori, **a)
        if conf is not None:
            ctx.expect(dataclasses.asdict(conf) == snap, "config-mutated", "simulation changed the config object")
        return x

    eq = lambda x, y, key, msg, **d: ctx.expect(x.shape == y.shape and torch.equal(x, y), key, msg, dyn=dyn, **d)
    if kind == "order":
        truth = {o: sim(max_order=o, config=cfg()) for o in range(4)}
        for arg, con in itertools.product([None, 0, 1, 2, 3], [None, 0, 2, 3]):
            if arg is None and con is None:
                ok, e = raises(ValueError, lambda: sim(max_order=None, config=cfg()))
                ctx.expect(ok, "order-missing", f"missing max_order accepted: {e!r:.100}", dyn=dyn)
                continue
            eff = arg if arg is not None else con
            eq(sim(max_order=arg, config=cfg(max_order=con)), truth[eff], "order", f"max_order argument {arg}, config {con}: not order {eff}", arg=arg, con=con)
            ctx.nontrivial(kind, arg, con, dyn)
        ok, e = raises(ValueError, lambda: sim(max_order=-1, config=cfg()))
        ctx.expect(ok, "order-negative", "negative max_order accepted", dyn=dyn)
    elif kind == "length":
        full = sim(nsample=400, config=cfg())
        t1, t2 = (int(x) / fs + 0.3 / fs for x in r.integers(20, 300, 2))
        for nsa, ta, tc in itertools.product([None, 1, 37, 250], [None, t1], [None, t2]):
            if nsa is None and ta is None and tc is None:
                ok, e = raises(ValueError, lambda: sim(nsample=None, config=cfg()))
                ctx.expect(ok, "length-missing", f"missing nsample and tmax accepted: {e!r:.100}", dyn=dyn)
                continue
            eff = nsa if nsa is not None else math.ceil((ta if ta is not None else tc) * fs)
            x = sim(nsample=nsa, tmax=ta, config=cfg(tmax=tc))
            eq(x, full[..., :eff], "length", f"nsample {nsa}, tmax {ta}, config tmax {tc}: {tuple(x.shape)} is not the {eff}-sample response", nsample=nsa, tmax=ta, con=tc)
            ctx.nontrivial(kind, nsa, ta is None, tc is None, dyn)
        for bad in (0, -1):
            ok, e = raises(ValueError, lambda: sim(nsample=bad, tmax=t1, config=cfg()))
            ctx.expect(ok, "nsample-bad", f"nsample={bad} accepted", dyn=dyn)
        for bad, con in itertools.product((-t1, 0.0, 0), (None, t2)):  # an explicit unusable value is an error, never "unset"
            ok, e = raises(ValueError, lambda: sim(nsample=None, tmax=bad, config=cfg(tmax=con)))
            ctx.expect(ok, "tmax-bad", f"tmax={bad} accepted with config tmax {con}", dyn=dyn)
            ok, e = raises(ValueError, lambda: sim(nsample=0, tmax=t1, config=cfg(tmax=con)))
            ctx.expect(ok, "nsample-bad", f"nsample=0 accepted with config tmax {con}", dyn=dyn)
    elif kind == "directivity":
        pats = ["omni", "cardioid", "bidir", ("omni", "hypercardioid"), ("subcardioid", "omni")]
        truth = {str(p): sim(directivity=p, config=cfg()) for p in pats}
        for con in [None, *pats]:
            eq(sim(config=cfg(directivity=con), directivity=None), truth[str(con or "omni")], "directivity-config", f"directivity None with config {con}", con=con)
            for arg in pats:
                eq(sim(directivity=arg, config=cfg(directivity=con)), truth[str(arg)], "directivity-arg", f"directivity {arg} with config {con}", arg=arg, con=con)
                ctx.nontrivial(kind, arg, con, dyn)
        # the parameter's own default is omni
        eq(sim(config=cfg()), truth["omni"], "directivity-default", "default directivity is not omni")
    elif kind == "device":
        base = sim(config=cfg())
        import warnings
        for arg, con in itertools.product([None, "cpu", "CPU", "auto", torch.device("cpu")], [None, "cpu", "auto", torch.device("cpu"), "cuda"]):
            if con == "cuda" and (arg is None):
                if torch.cuda.is_available():
                    continue
                with warnings.catch_warnings(record=True) as log:
                    warnings.simplefilter("always")
                    x = sim(device=arg, config=cfg(device=con))
                ctx.expect(any(issubclass(w.category, RuntimeWarning) for w in log), "device-warning", "no RuntimeWarning for an unavailable config device", dyn=dyn)
            else:
                with warnings.catch_warnings():
                    warnings.simplefilter("error", RuntimeWarning)
                    x = sim(device=arg, config=cfg(device=con))
            eq(x, base, "device", f"device argument {arg}, config {con} changes the result", arg=str(arg), con=str(con))
            ctx.nontrivial(kind, arg, con, dyn)
    elif kind == "validate":
        for f, vals in BAD.items():
            for v in vals:
                c = SimulationConfig(**{f: v})
                ok, e = raises(ValueError, c.validate)
                ctx.expect(ok, f"validate:{f}", f"validate accepts {f}={v!r}: {e!r:.80}")
                ok, e = raises(ValueError, lambda: SimulationConfig().replace(**{f: v}))
                ctx.expect(ok, f"replace:{f}", f"replace accepts {f}={v!r}: {e!r:.80}")
                if r.uniform() < 0.3:
                    ok, e = raises(ValueError, lambda: sim(config=c))
                    ctx.expect(ok, f"simulate:{f}", f"simulation accepts config {f}={v!r}", dyn=dyn)
                ctx.nontrivial(kind, f, v)
        k = {f: v[int(r.integers(len(v)))] for f, v in GOOD.items() if r.uniform() < 0.6}
        c = SimulationConfig(**k)
        c.validate()
        ctx.count("assertions")
        ctx.expect(all(getattr(c, f) == v for f, v in k.items()), "fields", "config fields differ from what was given")
        d = SimulationConfig()
        ctx.expect(all(getattr(d, f) is None for f in ("fs", "max_order", "tmax", "directivity", "device", "seed")), "default:unset", f"an unset field has a default: {d}")
        ctx.expect((d.use_lut, d.mixed_precision, d.use_compile, d.rir_hpf_enable, d.frac_delay_length, d.sinc_lut_granularity, d.rir_hpf_fc) == (True, False, False, True, 81, 20, 10.0), "default:value", f"documented defaults differ: {d}")
        ctx.expect(d.rir_hpf_kwargs.get("n") == 2 and d.rir_hpf_kwargs.get("type") == "butter", "default:hpf", f"documented high-pass differs: {d.rir_hpf_kwargs}")
        d.validate()
        d = default_config()
        ctx.expect(d == SimulationConfig(), "default", "default_config differs from SimulationConfig()")
        ok, e = raises(dataclasses.FrozenInstanceError, lambda: setattr(c, "fs", 1))
        ctx.expect(ok, "frozen", "config is mutable")
    elif kind == "replace":
        k = {f: v[int(r.integers(len(v)))] for f, v in GOOD.items() if r.uniform() < 0.5}
        c = SimulationConfig(**k)
        snap = dataclasses.asdict(c)
        ch = {f: v[int(r.integers(len(v)))] for f, v in GOOD.items() if r.uniform() < 0.3}
        n = c.replace(**ch)
        for f in snap:
            want = ch.get(f, snap[f])
            ctx.expect(getattr(n, f) == want, "replace", f"replace({ch}) left {f}={getattr(n, f)!r}, expected {want!r}")
        ctx.expect(dataclasses.asdict(c) == snap, "replace-original", "replace changed the original")
        ctx.nontrivial(kind, sorted(ch))
        # two default configs never share the mutable kwargs
        a, b2 = SimulationConfig(), SimulationConfig()
        a.rir_hpf_kwargs["n"] = 7
        ctx.expect(b2.rir_hpf_kwargs.get("n") == 2 and default_config().rir_hpf_kwargs.get("n") == 2, "shared-default", "default kwargs shared between configs")
    elif kind == "seed":
        k = dict(nsample=400, tmax=400 / fs, tdiff=200 / fs)
        run_ = lambda **c: simulate_rir(room=rm, sources=s, mics=m, max_order=1, config=cfg(**c), **k)
        a, b0, c1 = run_(), run_(seed=0), run_(seed=int(r.integers(1, 2**31)))
        eq(a, b0, "seed-default", "no seed is not seed 0")
        ctx.expect(not torch.equal(a, c1), "seed-config", "config seed ignored")
        for flag in ("use_lut",):
            x = sim(nsample=3000, config=cfg(**{flag: False}))
            y = sim(nsample=3000, config=cfg(**{flag: True}))
            ctx.expect(not torch.equal(x, y), "config-used", f"config {flag} has no effect")
        x = sim(nsample=3000, config=cfg(frac_delay_length=5))
        ctx.expect(not torch.equal(x, sim(nsample=3000, config=cfg())), "config-used", "config frac_delay_length has no effect")
        eq(sim(config=None), sim(config=SimulationConfig()), "config-none", "config=None differs from the default config")
        ctx.nontrivial(kind, dyn, dim)
    else:
        for bad in ("room", None, 5, {"size": sz}):
            a = dict(max_order=1, nsample=10, config=cfg())
            ok, e = raises(TypeError, lambda: simulate_rir(room=bad, sources=s, mics=m, **a))
            ctx.expect(ok, "room-type", f"room={bad!r:.20} not a TypeError: {e!r:.80}")
            ok, e = raises(TypeError, lambda: simulate_dynamic_rir(room=bad, src_traj=s[None], mic_traj=m[None], **a))
            ctx.expect(ok, "room-type", f"room={bad!r:.20} not a TypeError: {e!r:.80}")
        a = dict(room=rm, max_order=1, nsample=50, config=cfg())
        od = 5 - dim
        for args in (dict(sources=torch.ones(2, od, dtype=F64), mics=m), dict(sources=s, mics=torch.ones(1, od, dtype=F64)), dict(sources=torch.ones(1, 1, dim, dtype=F64), mics=m),
                     dict(sources=s, mics=torch.ones(1, 1, dim, dtype=F64)), dict(sources=s, mics=m, nb_img=(1,) * (dim + 1)), dict(sources=s, mics=m, nb_img=(1,) * (dim - 1))):
            ok, e = raises(ValueError, lambda: simulate_rir(**a, **args))
            ctx.expect(ok, "static-shape", f"bad shapes accepted: { {k: getattr(v, 'shape', v) for k, v in args.items()} } -> {e!r:.80}")
        one = lambda *sh: torch.ones(*sh, dtype=F64)
        for args in (dict(src_traj=one(3, 1, od), mic_traj=one(3, 1, dim)), dict(src_traj=one(3, 1, dim), mic_traj=one(3, 1, od)), dict(src_traj=one(3, 1, dim), mic_traj=one(4, 1, dim)),
                     dict(src_traj=one(1, 1, dim), mic_traj=one(4, 1, dim)), dict(src_traj=one(2, 1, 1, dim), mic_traj=one(2, 1, dim)), dict(src_traj=one(dim), mic_traj=one(1, 1, dim))):
            ok, e = raises(ValueError, lambda: simulate_dynamic_rir(**a, **args))
            ctx.expect(ok, "traj-shape", f"bad shapes accepted: { {k: getattr(v, 'shape', v) for k, v in args.items()} } -> {e!r:.80}")
        ctx.nontrivial(kind, dim)
    ctx.sample(dict(kind=kind, dim=dim, dyn=dyn))
