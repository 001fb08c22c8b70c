"""C08: shape, dtype, device, finiteness of RIR outputs; integer inputs."""
import math

import numpy as np
import torch

from checks.c02 import PATS, units
from vf import gen
from vf.tr import F32, F64, MicrophoneArray, Room, Source, T, cfg, raises, room, simulate_dynamic_rir, simulate_rir

ID = "C08"
TECH = "online monitor asserting the output contract (shape, dtype, device, finite) on every simulation of hostile/degenerate scenes, plus integer/float differential runs"
NOTE = "CPU only; accelerators are absent, so only the CPU side of the device contract is observed. High-pass off for responses shorter than the filter's padding."
RULE = "degenerate scenes (coincident, wall/corner/outside positions, rigid/absorbing walls, order 0, one-sample and long responses, tiny/huge rooms, odd kernels) and integer-typed inputs; class = (kind, degeneracy, dim, dtype, form)"
NEED = {"big_cases": 40, "assertions": 3000}
KINDS = ["degenerate", "degenerate", "degenerate", "integers", "shape", "hpf", "tail", "nonfinite"]


def cases(tier):
    n = 7200 if tier == "quick" else 360000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def check(ctx, out, shape, dt, **info):
    ctx.count("sims")
    ctx.expect(tuple(out.shape) == tuple(shape), "shape", f"shape {tuple(out.shape)} != {tuple(shape)}", **info)
    ctx.expect(out.dtype == dt, "dtype", f"dtype {out.dtype} != {dt}", **info)
    ctx.expect(out.device.type == "cpu", "device", f"device {out.device}", **info)
    fin = bool(torch.isfinite(out).all())
    ctx.expect(fin, "finite", f"{int((~torch.isfinite(out)).sum())} non-finite values", **info)
    return fin


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dim = int(r.choice([2, 3, 3]))
    dt = F32 if r.uniform() < 0.5 else F64
    fs, c = gen.fs_c(r)
    sz = gen.size(r, dim)
    if kind == "degenerate" and r.uniform() < 0.2:
        sz = sz * float(r.choice([1e-3, 1e3]))
    b = r.choice([0.0, 1.0, 0.5, 1e-30], 2 * dim) if r.uniform() < 0.5 else gen.beta(r, dim)
    S, M = int(r.integers(1, 4)), int(r.integers(1, 4))
    n = int(r.integers(1, 5))
    if r.uniform() < 0.05:
        S, M, n = [(int(r.integers(9, 30)), M, 1), (S, int(r.integers(9, 30)), 1), (1, 1, int(r.integers(20, 80)))][int(r.integers(3))]
        ctx.count("big_cases")
    dyn = bool(r.integers(2))
    d = str(r.choice(["omni", *PATS])) if r.integers(2) else (str(r.choice(PATS)), str(r.choice(PATS)))
    order = int(r.integers(0, 5))
    box = tuple(int(x) for x in r.integers(0, 3, dim)) if r.uniform() < 0.2 else None
    deg = str(r.choice(["coincident", "wall", "corner", "outside", "far", "near", "axis", "generic"]))
    st = np.array([gen.pos(r, sz, S) for _ in range(n)])
    mt = np.array([gen.pos(r, sz, M) for _ in range(n)])
    if deg == "coincident":
        mt[:, 0] = st[:, 0]
    elif deg == "corner":
        st[:, 0] = np.where(r.integers(0, 2, dim) > 0, sz, 0.0)
        if r.integers(2):
            mt[:, 0] = st[:, 0]
    elif deg == "wall":
        st[:, 0, 0] = 0.0
        mt[:, 0, -1] = sz[-1]
    elif deg == "outside":
        st = st - 2 * sz
        mt[:, 0] += 3 * sz
    elif deg == "far":
        st = st + 1e6
    elif deg == "near":
        mt[:, 0] = st[:, 0] + 1e-9
    elif deg == "axis":
        mt[:, 0] = st[:, 0]
        mt[:, 0, 0] = st[:, 0, 0] + 0.3
    so, mo = T(units(r, S, dim, False), dt), T(units(r, M, dim, False), dt)
    if r.uniform() < 0.3:  # orientation exactly along the line between the entities
        v = mt[0, 0] - st[0, 0]
        if np.linalg.norm(v) > 0:
            so = T(np.tile(v, (S, 1)), dt)
            mo = T(np.tile(-v, (M, 1)), dt)
    conf = dict(frac_delay_length=int(r.choice([1, 3, 81, 201])), use_lut=bool(r.integers(2)))
    ns = int(r.choice([1, 1, 2, 5, 64, 700])) if r.uniform() < 0.97 else 30000
    info = dict(deg=deg, dim=dim, size=sz, beta=b, d=d, order=order, box=box, dyn=dyn, conf=conf, ns=ns, S=S, M=M, T=n, fs=fs)

    def sim(rm, s, m, length, dyn_=dyn, **k):
        a = dict(room=rm, max_order=order, nb_img=box, directivity=d, orientation=(so, mo), **length)
        a.update(k)
        a.setdefault("config", cfg(**conf))
        if dyn_:
            return simulate_dynamic_rir(src_traj=s, mic_traj=m, **a)
        return simulate_rir(sources=s[0] if s.ndim == 3 else s, mics=m[0] if m.ndim == 3 else m, **a)

    lead = (n,) if dyn else ()
    if kind == "degenerate":
        rm = room(sz, fs, c, beta=b, dt=dt)
        out = sim(rm, T(st, dt), T(mt, dt), dict(nsample=ns))
        check(ctx, out, (*lead, S, M, ns), dt, **info)
        ctx.nontrivial(kind, deg, dim, str(dt), dyn, ns, conf["frac_delay_length"])
    elif kind == "shape":
        rm = room(sz, fs, c, beta=b, dt=dt)
        x = (float(r.uniform(1, 300)) if r.integers(2) else int(r.integers(1, 300)) + float(r.choice([1e-3, -1e-3, 1e-6, -1e-6]))) / fs if r.integers(2) else float(r.choice([0.001, 0.01, 0.0005, 1 / fs, 0.02]))
        length = dict(tmax=x)
        want = math.ceil(x * fs)
        k = {}
        form = str(r.choice(["tensor", "dtype64", "dtype32", "device", "auto", "entity", "config-device", "single"]))
        wdt = dt
        if form.startswith("dtype"):
            wdt = F64 if form == "dtype64" else F32
            k["dtype"] = wdt
        elif form == "device":
            k["device"] = "cpu" if r.integers(2) else torch.device("cpu")
        elif form == "auto":
            k["device"] = "auto"
        elif form == "config-device":
            k["config"] = cfg(device="cpu", **conf)
        s, m = T(st, dt), T(mt, dt)
        if form == "entity" and not dyn:
            out = simulate_rir(room=rm, sources=Source(s[0], so), mics=MicrophoneArray(m[0], mo), max_order=order, nb_img=box, directivity=d, config=cfg(**conf), **length)
            shape = (S, M, want)
        elif form == "single":
            k.update(orientation=(so[:1], mo[:1]))
            if dyn:
                out = sim(rm, s[:, 0], m[:, 0], length, **k)
            else:
                out = sim(rm, s[0, 0], m[0, 0], length, **k)
            shape = (*lead, 1, 1, want)
        else:
            out = sim(rm, s, m, length, **k)
            shape = (*lead, S, M, want)
        check(ctx, out, shape, wdt, form=form, tmax=x, **info)
        # a second length source: config tmax
        out2 = sim(rm, s, m, {}, config=cfg(tmax=x, **conf))
        ctx.expect(out2.shape[-1] == want, "config-length", f"config tmax gave {out2.shape[-1]} samples, not {want}", **info)
        ctx.nontrivial(kind, form, dim, str(dt), dyn)
    elif kind == "integers":
        szi = r.integers(2, 9, dim)
        si = np.stack([r.integers(0, szi + 1, (S, dim)) for _ in range(n)])
        mi = np.stack([r.integers(0, szi + 1, (M, dim)) for _ in range(n)])
        bi = r.integers(0, 2, 2 * dim)
        it = [torch.int64, torch.int32, torch.int16, torch.uint8][int(r.integers(4))]
        dref = torch.get_default_dtype()
        rmf = Room.shoebox(T(szi, dref), fs=16000, beta=T(bi, dref))
        how = str(r.choice(["room", "pos", "beta", "all", "lists", "entity"]))
        rmi = Room.shoebox(torch.tensor(szi, dtype=it), fs=16000, beta=torch.tensor(bi, dtype=it if how != "room" else dref))
        sf, mf = T(si, dref), T(mi, dref)
        a = dict(orientation=(so.to(dref), mo.to(dref)))
        length = dict(nsample=200)
        want = sim(rmf, sf, mf, length, **a)
        st_, mt_ = torch.tensor(si, dtype=it), torch.tensor(mi, dtype=it)
        if how == "room":
            got = sim(rmi, sf, mf, length, **a)
        elif how == "pos":
            got = sim(rmf, st_, mt_, length, **a)
        elif how == "beta":
            got = sim(Room.shoebox(T(szi, dref), fs=16000, beta=torch.tensor(bi, dtype=it)), sf, mf, length, **a)
        elif how == "lists":
            rml = Room.shoebox(szi.tolist(), fs=16000, beta=bi.tolist())
            if dyn:
                got = sim(rml, si.tolist() and torch.tensor(si.tolist()), torch.tensor(mi.tolist()), length, **a)
            else:
                got = simulate_rir(room=rml, sources=Source.from_positions(si[0].tolist()), mics=MicrophoneArray.from_positions(mi[0].tolist()), max_order=order, nb_img=box,
                                   directivity=d, orientation=a["orientation"], config=cfg(**conf), **length)
        elif how == "entity" and not dyn:
            got = simulate_rir(room=rmi, sources=Source(st_[0]), mics=MicrophoneArray(mt_[0]), max_order=order, nb_img=box, directivity=d, orientation=a["orientation"],
                               config=cfg(**conf), **length)
        else:
            got = sim(rmi, st_, mt_, length, **a)
        info = dict(info, how=how, it=str(it), size=szi, src=si, mic=mi, beta=bi)
        if check(ctx, got, want.shape, dref, **info):
            ctx.expect(torch.equal(got, want), f"int-inputs:{how}", f"integer-typed inputs change the RIR by {float((got - want).abs().max()):.3g}", **info)
        ctx.nontrivial(kind, how, dim, str(it), dyn)
    elif kind == "hpf":
        rm = room(sz, fs, c, beta=b, dt=dt)
        ns = int(r.choice([1, 2, 5, 9, 10, 40, 64, 700]))
        from torchrir.config import SimulationConfig
        out = sim(rm, T(st, dt), T(mt, dt), dict(nsample=ns), config=SimulationConfig(**conf))
        check(ctx, out, (*lead, S, M, ns), dt, hpf=True, **info)
        ctx.nontrivial(kind, deg, dim, str(dt), dyn)
    elif kind == "nonfinite":
        # a NaN or infinity anywhere is an error, not a response of NaNs
        rm = room(sz, fs, c, beta=b, dt=dt)
        d = ("cardioid", "cardioid")
        ts, tm, tso, tmo = T(st, dt), T(mt, dt), so.clone(), mo.clone()
        which = str(r.choice(["src", "mic", "src-ori", "mic-ori"]))
        x = {"src": ts, "mic": tm, "src-ori": tso, "mic-ori": tmo}[which]
        val = float(r.choice([float("nan"), float("inf"), float("-inf")]))
        flat = x if dyn or x.ndim < 3 else x[0]  # static calls see the first step only
        flat.view(-1)[int(r.integers(flat.numel()))] = val
        ok, e = raises(ValueError, lambda: sim(rm, ts, tm, dict(nsample=ns), directivity=d, orientation=(tso, tmo)))
        ctx.expect(ok, "nonfinite-input", f"{val} in {which} gave {e!r:.200}", **info)
        ctx.count("nonfinite_rejected")
        ctx.nontrivial(kind, which, dim, str(dt), dyn, str(val))
    else:
        rm = room(sz, fs, c, dt=dt, **({"beta": b} if r.integers(2) else {"t60": float(r.choice([1e-4, 0.3, 50.0]))}))
        ns = int(r.choice([2, 30, 400]))
        td = float(r.uniform(0, 1)) * ns / fs
        out = sim(rm, T(st, dt), T(mt, dt), dict(nsample=ns), dyn_=False, tmax=ns / fs, tdiff=td)
        check(ctx, out, (S, M, ns), dt, tdiff=td, **info)
        ctx.nontrivial(kind, deg, dim, str(dt))
    ctx.sample(info)
