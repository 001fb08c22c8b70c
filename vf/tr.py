"""Small helpers around torchrir's public API."""
from __future__ import annotations

import numpy as np
import torch

import torchrir  # noqa: F401
from torchrir.config import SimulationConfig
from torchrir.models import DynamicScene, MicrophoneArray, Room, Source, StaticScene  # noqa: F401
from torchrir.sim import simulate_dynamic_rir, simulate_rir

F64, F32 = torch.float64, torch.float32


def T(x, dt=F64):
    return torch.tensor(np.asarray(x), dtype=dt)


def cfg(**k):
    k.setdefault("rir_hpf_enable", False)
    return SimulationConfig(**k)


def room(size, fs, c=343.0, beta=None, t60=None, dt=F64):
    return Room.shoebox(T(size, dt), fs=fs, c=c, beta=None if beta is None else T(beta, dt), t60=t60)


def raises(exc, fn):
    """-> (True, msg) if fn raises one of exc; (False, value/other exception) otherwise."""
    try:
        v = fn()
    except exc as e:
        return True, e
    except Exception as e:  # noqa: BLE001
        return False, e
    return False, v


def np_(t):
    return t.detach().cpu().numpy().astype(float)


def worst(diff, tol):
    """index and values of the worst excess of |diff| over tol"""
    d = np.abs(diff) - tol
    d = np.where(np.isfinite(d), d, np.inf)
    i = np.unravel_index(int(np.argmax(d)), d.shape)
    return i, float(np.abs(diff)[i]), float(np.broadcast_to(tol, d.shape)[i])
