"""C09: purity and history independence."""
import random

import numpy as np
import torch

from vf import ops

ID = "C09"
TECH = "history monitor: long random call sequences in one process, every result compared bit-for-bit with the same call made in a fresh cold process; argument bytes, RNG states and storage aliasing watched around every call"
NOTE = "Sequences sampled over a registry of ~35 API calls x argument seeds, interleaved with grad/inference modes, RNG draws and overwriting of returned results. CPU, one torch thread."
RULE = "each case is a fresh process running a random sequence of 12-40 registry calls; a step is distinct by (op, argument seed, mode, predecessor op)"
NEED = {"steps": 1000, "mutated_results": 200, "inference_steps": 100}
ISOLATE = True
SEEDS = (1, 2)
_BASE = None


def SETUP():
    global _BASE
    import torchrir.datasets  # noqa: F401  (imports only; kernel caches stay cold)
    import torchrir.geometry, torchrir.io, torchrir.models, torchrir.signal, torchrir.sim, torchrir.util  # noqa: F401,E401
    import scipy.signal  # noqa: F401

    ops.warm_torch()
    _BASE = ops.baseline([(n, s) for n in ops.OPS for s in SEEDS])


def cases(tier):
    n = 800 if tier == "quick" else 9700
    return [{"kind": "history", "i": i} for i in range(n)]


def rng_state():
    return torch.random.get_rng_state().numpy().tobytes(), random.getstate(), str(np.random.get_state())


def storages(x):
    return [(t.untyped_storage().data_ptr(), t.untyped_storage().nbytes()) for t in ops.tensors(x) if t.numel()]


def disturb(r, name, ctx):
    """Calls whose own outcome is not judged: failing, under another default dtype, on a meta/odd input, or interrupted."""
    import sys

    call, args = ops.OPS[name](int(r.integers(3, 9)))
    k = int(r.integers(3))
    dt = torch.get_default_dtype()
    try:
        if k == 0:
            torch.set_default_dtype(torch.float64)
            ops.call_quiet(call, args)
        elif k == 1:
            bad = str(r.choice(sorted(args)))
            args[bad] = None if r.integers(2) else torch.full((2, 2, 2, 2, 2), float("nan"))
            ops.call_quiet(call, args)
        else:
            left = [int(r.integers(1, 60))]

            def tracer(frame, event, arg):
                if "/torchrir/" in frame.f_code.co_filename:
                    left[0] -= 1
                    if left[0] <= 0:
                        sys.settrace(None)
                        raise KeyboardInterrupt
                return tracer

            sys.settrace(tracer)
            ops.call_quiet(call, args)
    except (Exception, KeyboardInterrupt):
        ctx.count("disturbing_failures")
    finally:
        sys.settrace(None)
        torch.set_default_dtype(dt)
    ctx.count("disturbances")


def run(spec, ctx):
    r = ctx.rng
    names = sorted(ops.OPS)
    for n in names:  # every op deterministic and working when called alone
        if _BASE[(n, 1)][0] != "ok":
            ctx.fail(f"cold-call:{n}", f"{n} fails in a fresh process: {_BASE[(n, 1)][1]}")
            return
    focus = [names[int(i)] for i in r.choice(len(names), int(r.integers(3, 12)), replace=False)]
    if r.uniform() < 0.5:  # near relatives: same scene, one option apart
        which = str(r.choice(["rir", "rir", "rir", "dyn", "dyn", "conv", "io"]))
        fam = [n for n in names if n.split("_")[0] == which]
        focus = [fam[int(i)] for i in r.choice(len(fam), min(len(fam), int(r.integers(2, 12))), replace=False)]
        if which in ("rir", "dyn") and r.uniform() < 0.4:  # one option in many values
            tok = str(r.choice(["fdl", "fdl", "hpf", "dir", "tail", "nb", "2d", "order", "f32"]))
            fam = [n for n in names if n.split("_")[0] in ("rir", "dyn") and tok in n]
            focus = [fam[int(i)] for i in r.choice(len(fam), min(len(fam), int(r.integers(2, 12))), replace=False)]
    live, prev = [], "start"
    for step in range(int(r.integers(12, 40))):
        name = str(r.choice(focus)) if r.uniform() < 0.85 else str(r.choice(names))
        seed = int(r.choice(SEEDS))
        mode = str(r.choice(["plain", "plain", "no_grad", "inference", "grad"]))
        if mode == "inference" and name == "grad_rir":
            mode = "no_grad"
        if r.uniform() < 0.3:
            torch.manual_seed(int(r.integers(1 << 30)))
            random.seed(int(r.integers(1 << 30)))
            np.random.seed(int(r.integers(1 << 30)))
            torch.rand(3)
        if r.uniform() < 0.25:
            disturb(r, str(r.choice(focus)), ctx)
        call, args = ops.OPS[name](seed)
        before, rs = ops.freeze(args), rng_state()
        vers = [t._version for t in ops.tensors(args)]
        cm = {"plain": torch.enable_grad, "grad": torch.enable_grad, "no_grad": torch.no_grad, "inference": torch.inference_mode}[mode]()
        info = dict(step=step, op=name, seed=seed, mode=mode, previous=prev)
        try:
            with cm:
                res = ops.call_quiet(call, args)
        except Exception as e:  # noqa: BLE001
            ctx.fail(f"history-exception:{name}", f"{name} works alone but fails after other calls: {type(e).__name__}: {e}", **info)
            return
        ctx.count("steps")
        ctx.count("inference_steps", int(mode == "inference"))
        ctx.expect(ops.freeze(args) == before, f"args-mutated:{name}", f"{name} modified its arguments: {ops.describe(before, ops.freeze(args), 'args')}", **info)
        ctx.expect([t._version for t in ops.tensors(args)] == vers, f"args-mutated:{name}", f"{name} wrote in place to an argument", **info)
        ctx.expect(rng_state() == rs, f"rng:{name}", f"{name} advanced global random state", **info)
        got = ("ok", ops.freeze(res))
        if not ctx.expect(got == _BASE[(name, seed)], f"history:{name}", f"{name} differs from its fresh-process result: {ops.describe(_BASE[(name, seed)][1], got[1])}", **info):
            return
        mine = storages(res)
        argst = {p for p, _ in storages(args)}
        for p, nb in mine:
            if p in argst:
                continue  # sharing with the caller's own argument is the caller's business
            for (q, nq), who in live:
                ctx.expect(not (p < q + nq and q < p + nb), f"alias:{name}", f"result of {name} shares memory with an earlier result of {who}", **info)
        if r.uniform() < 0.5:  # the caller scribbles over what it got
            with torch.inference_mode(mode == "inference"), torch.no_grad():
                for t in ops.tensors(res):
                    if t.untyped_storage().data_ptr() not in argst and t.numel():
                        try:
                            t.fill_(float("nan") if t.is_floating_point() else 7)
                            ctx.count("mutated_results")
                        except RuntimeError:
                            pass
        live.extend(((p, nb), name) for p, nb in mine if p not in argst)
        ctx.keep = getattr(ctx, "keep", [])
        ctx.keep.append(res)  # keep alive so that addresses stay meaningful
        ctx.nontrivial(name, seed, mode, prev)
        prev = name
    ctx.sample(dict(steps=step + 1, ops=focus))
