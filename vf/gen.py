"""Scene generators (plain python/numpy data; tensors are made by the checks)."""
from __future__ import annotations

import numpy as np

SIZES = [
    lambda r, d: r.uniform(2.0, 9.0, d),
    lambda r, d: r.uniform(1.0, 3.0, d),
    lambda r, d: np.full(d, float(r.integers(2, 7))),
    lambda r, d: np.round(r.uniform(2, 10, d)),
    lambda r, d: np.array([r.uniform(8, 20), r.uniform(1, 2), r.uniform(2, 4)])[:d],
    lambda r, d: r.choice([0.5, 2.0, 3.5, 12.0], d),
]


def size(r, dim):
    return np.asarray(SIZES[int(r.integers(len(SIZES)))](r, dim), float)


def beta(r, dim):
    n = 2 * dim
    k = int(r.integers(8))
    if k == 0:
        return np.full(n, float(r.uniform(0.2, 0.95)))
    if k == 7:  # some walls hard, or soft, to within a little
        b = r.uniform(0.1, 0.99, n)
        hit = r.uniform(size=n) < 0.5
        e = 10 ** r.uniform(-6, -1.5, n)
        b[hit] = np.where(r.uniform(size=n) < 0.7, 1 - e, e)[hit]
        return b
    if k == 5 and r.integers(2):  # all walls alike, to within a little
        return np.clip(r.uniform(0.3, 0.97) * (1 + 10 ** r.uniform(-9, -3) * r.uniform(-1, 1, n)), 0, 1)
    if k == 1:
        b = r.uniform(0.1, 0.95, n)
        b[r.integers(n)] = 0.0
        return b
    if k == 2:
        b = r.uniform(0.1, 0.95, n)
        b[r.integers(n)] = 1.0
        return b
    if k == 3:
        b = np.zeros(n)
        b[r.integers(n)] = r.uniform(0.3, 1.0)
        return b
    if k == 4:
        return r.choice([0.0, 1.0, 0.5], n).astype(float)
    return r.uniform(0.05, 0.99, n)


def pos(r, sz, n=1, mode=None):
    sz = np.asarray(sz, float)
    d = sz.size
    out = []
    for _ in range(n):
        k = int(r.integers(10)) if mode is None else mode
        u = r.uniform(0.02, 0.98, d)
        if k == 0:
            p = np.round(u * sz * 4) / 4
        elif k == 1:
            p = sz / 2
        elif k == 2:
            p = u * sz
            p[r.integers(d)] = 0.0
        elif k == 3:
            p = u * sz
            j = r.integers(d)
            p[j] = sz[j]
        elif k == 4:
            p = np.where(r.uniform(size=d) < 0.5, 0.01, 0.99) * sz
        else:
            p = u * sz
        out.append(p)
    return np.array(out)


def fs_c(r):
    fs = float(r.choice([8000, 16000, 16000, 44100, 48000, 11025, 1000.5]))
    c = float(r.choice([343.0, 343.0, 340.0, 331.3, 1480.0]))
    return fs, c


def orient(r, dim):
    k = int(r.integers(4))
    v = r.normal(size=dim)
    if k == 0:
        v = np.zeros(dim)
        v[r.integers(dim)] = r.choice([-1.0, 1.0])
    elif k == 1:
        v = v / np.linalg.norm(v) * r.choice([1e-3, 0.5, 7.0, 250.0])
    return v


def near(r, pos, other, sz, p=0.25):
    """with probability p move one row of `pos` to within 1 mm .. 10 cm of a row of `other` (in place, inside the room)"""
    if r.uniform() < p:
        sz = np.asarray(sz, float)
        v = r.normal(size=sz.size)
        d = v / np.linalg.norm(v) * 10 ** r.uniform(-3, -1)
        pos[int(r.integers(len(pos)))] = np.clip(other[int(r.integers(len(other)))] + d, 0.001 * sz, 0.999 * sz)
    return pos
