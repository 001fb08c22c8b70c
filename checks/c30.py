"""C30: devices and dtypes resolve predictably with safe fallback."""
import warnings
from contextlib import contextmanager

import numpy as np
import torch

from torchrir.models import MicrophoneArray, Room, Source
from torchrir.sim import simulate_dynamic_rir, simulate_rir
from torchrir.util import DeviceSpec, as_tensor, infer_device_dtype, resolve_device

ID = "C30"
TECH = "environment fault simulation with a monitor: backend availability is toggled underneath the real code over all combinations (and flips between calls), every resolution and warning is recorded and compared with a model; simulations asked for missing accelerators are compared with the CPU result bit by bit"
NOTE = "No accelerator exists here: for backends simulated as available only the returned torch.device is judged, nothing runs on it."
RULE = "all availability combinations x device spellings x preference orders x argument lists with 0..3 tensors of random dtypes/devices; simulations with random small scenes; class = (availability, spelling, argument pattern)"
NEED = {"assertions": 6000, "fallbacks": 500, "simulations": 40}


def cases(tier):
    n = 3600 if tier == "quick" else 210000
    out = [{"kind": "resolve", "i": i} for i in range(n)] + [{"kind": "spec", "i": i} for i in range(n)]
    out += [{"kind": "sim", "i": i} for i in range(250 if tier == "quick" else 4000)]
    return out


@contextmanager
def avail(cuda, mps):
    old = torch.cuda.is_available, torch.backends.mps.is_available
    torch.cuda.is_available = lambda: cuda
    torch.backends.mps.is_available = lambda: mps
    try:
        yield
    finally:
        torch.cuda.is_available, torch.backends.mps.is_available = old


def case_of(r, s):
    k = int(r.integers(4))
    if k == 0:
        return s
    if k == 1:
        return s.upper()
    if k == 2:
        return s.capitalize()
    return "".join(c.upper() if r.integers(2) else c for c in s)


def model(dev, prefer, cuda, mps):
    """(device string, backend warned about or None)"""
    if dev is None:
        return "cpu", None
    if isinstance(dev, torch.device):
        return str(dev), None
    d = dev.lower()
    if d == "auto":
        for b in prefer:
            if (b == "cuda" and cuda) or (b == "mps" and mps) or b == "cpu":
                return b, None
        return "cpu", None
    if d.startswith("cuda"):
        return (d, None) if cuda else ("cpu", "cuda")
    if d.startswith("mps"):
        return (d, None) if mps else ("cpu", "mps")
    return d, None


PREF = [("cuda", "mps", "cpu"), ("mps", "cuda", "cpu"), ("cpu", "cuda"), ("mps",), ("cuda",), (), ("xpu", "mps", "cuda"), ("cuda", "cpu", "mps")]
DEVS = [None, "cpu", "auto", "cuda", "cuda:0", "cuda:3", "mps", "mps:0", "meta", "cpu:0"]
DT = [torch.float32, torch.float64, torch.float16, torch.bfloat16, torch.int64, torch.int32, torch.bool, torch.complex64]


def pick_dev(r):
    d = DEVS[int(r.integers(len(DEVS)))]
    if d is not None:
        d = case_of(r, d)
    if r.uniform() < 0.2:
        d = [torch.device("cpu"), torch.device("meta"), torch.device("cuda:1"), torch.device("mps")][int(r.integers(4))]
    return d


def run(spec, ctx):
    r = ctx.rng
    E = ctx.expect
    kind = spec["kind"]
    if kind in ("resolve", "spec"):
        for _ in range(8):
            cuda, mps = bool(r.integers(2)), bool(r.integers(2))
            dev = pick_dev(r)
            use_p = bool(r.integers(2))
            prefer = PREF[int(r.integers(len(PREF)))] if use_p else PREF[0]
            kw = dict(prefer=prefer) if use_p else {}
            info = dict(dev=str(dev), prefer=prefer, cuda=cuda, mps=mps)
            with avail(cuda, mps), warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                if kind == "resolve":
                    got = resolve_device(dev, **kw)
                    want, warned = model(dev, prefer, cuda, mps)
                    E(isinstance(got, torch.device) and str(got) == want, "resolve", f"{dev!r} with cuda={cuda}, mps={mps} gave {got}, expected {want}", **info)
                    if isinstance(dev, torch.device):
                        E(got == dev, "resolve-device", f"{dev} became {got}")
                    pat = ""
                else:
                    args, td, tt, pat = [], None, None, ""
                    for _ in range(int(r.integers(0, 5))):
                        c = int(r.integers(5))
                        if c == 0:
                            args.append([1, 2.0])
                        elif c == 1:
                            args.append(None)
                        elif c == 2:
                            args.append(np.zeros(2))
                        else:
                            dd, tp = ["cpu", "meta"][int(r.integers(2))], DT[int(r.integers(len(DT)))]
                            args.append(torch.zeros(2, dtype=tp, device=dd))
                            if td is None:
                                td, tt = torch.device(dd), tp
                        pat += "nvat"[min(c, 3)]
                    dt = DT[int(r.integers(len(DT)))] if r.integers(2) else None
                    if use_p or r.integers(2):
                        d, t = DeviceSpec(device=dev, dtype=dt, prefer=prefer).resolve(*args)
                    else:
                        a = {}
                        if dev is not None or r.integers(2):
                            a["device"] = dev
                        if dt is not None or r.integers(2):
                            a["dtype"] = dt
                        d, t = infer_device_dtype(*args, **a)
                    want, warned = model(dev, prefer, cuda, mps)
                    if td is not None and (dev is None or (isinstance(dev, str) and dev.lower() == "auto")):
                        want, warned = str(td), None
                    E(str(d) == want, "spec-device", f"device {d}, expected {want}", args=pat, **info)
                    E(t == (dt or tt or torch.float32), "spec-dtype", f"dtype {t}, expected {dt or tt or torch.float32}", args=pat, **info)
            rt = [x for x in w if issubclass(x.category, RuntimeWarning)]
            if warned:
                E(len(rt) == 1 and warned in str(rt[0].message).lower() and "cpu" in str(rt[0].message).lower(), f"{kind}-warning", f"falling back from {dev!r} gave warnings {[str(x.message) for x in w]}", **info)
                ctx.count("fallbacks")
            else:
                E(not w, f"{kind}-noise", f"{dev!r} gave warnings {[str(x.message) for x in w]}", **info)
            ctx.nontrivial(kind, cuda, mps, str(dev).lower(), prefer, pat[:2])
        if kind == "resolve":
            for bad in ("gpu", "tpu0", "c p u", "", "autox"):
                try:
                    v = resolve_device(bad)
                    E(False, "unknown", f"unknown device {bad!r} resolved to {v}")
                except (RuntimeError, ValueError):
                    E(True, "unknown", "")
            with avail(False, False), warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                x = as_tensor([1.0, 2.0], device=case_of(r, "cuda"))
                E(x.device.type == "cpu" and len(w) == 1, "as_tensor", f"{x.device}, {len(w)} warnings")
        return
    # simulations asked for a missing accelerator
    dim = int(r.integers(2, 4))
    size = r.uniform(2, 5, dim)
    fs = 8000
    ns, nm = int(r.integers(1, 3)), int(r.integers(1, 3))
    dt = [torch.float32, torch.float64][int(r.integers(2))]
    mk = lambda n: torch.tensor(r.uniform(0.1, 0.9, (n, dim)) * size, dtype=dt)  # noqa: E731
    room = Room.shoebox(torch.tensor(size, dtype=dt), fs=fs, beta=[0.6] * (2 * dim))
    S, M = mk(ns), mk(nm)
    dyn = bool(r.integers(2))
    st = torch.stack([S, mk(ns)]) if dyn else None
    mt = torch.stack([M, mk(nm)]) if dyn else None
    a = dict(max_order=int(r.integers(0, 3)), nsample=256)

    def sim(device):
        if dyn:
            return simulate_dynamic_rir(room=room, src_traj=st, mic_traj=mt, device=device, **a)
        return simulate_rir(room=room, sources=Source.from_positions(S), mics=MicrophoneArray.from_positions(M), device=device, **a)

    ref = sim("cpu")
    dev = case_of(r, ["cuda", "cuda:1", "mps", "auto"][int(r.integers(4))])
    if r.integers(3) == 0 and dev.lower() == "auto":
        dev = "cuda"
    with avail(False, False), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = sim(dev)
    rt = [x for x in w if issubclass(x.category, RuntimeWarning)]
    E(out.device.type == "cpu" and out.dtype == ref.dtype and torch.equal(out, ref), "sim", f"device {dev!r} without an accelerator gave {out.device}, {out.dtype}, difference {(out - ref).abs().max() if out.shape == ref.shape else out.shape}", dev=dev)
    E(bool(rt) == (dev.lower() != "auto"), "sim-warning", f"device {dev!r} gave {len(rt)} fallback warnings", dev=dev)
    ctx.count("simulations")
    ctx.nontrivial("sim", dyn, dev.lower(), dim, str(dt))
    ctx.sample(dict(dev=dev, dyn=dyn))
