"""Independent float64 reference models (numpy only) used as oracles."""
from __future__ import annotations

import itertools
import math

import numpy as np


def image_indices(dim, order=None, box=None):
    if box is not None:
        rng = [range(-int(b), int(b) + 1) for b in box]
        return np.array(list(itertools.product(*rng)), dtype=np.int64).reshape(-1, dim)
    out = [v for v in itertools.product(range(-order, order + 1), repeat=dim) if sum(map(abs, v)) <= order]
    return np.array(out, dtype=np.int64).reshape(-1, dim)


def image_path(n, beta):
    """Walk the mirror sequence of image index n along one axis: wall hits (low, high)."""
    # even n: translated by n*L; odd n: mirrored. Positive n meets the high wall first.
    lo = hi = 0
    k = abs(int(n))
    wall_high = n > 0
    for _ in range(k):
        if wall_high:
            hi += 1
        else:
            lo += 1
        wall_high = not wall_high
    return lo, hi


def image_coord(n, L, x):
    """Position of image n of coordinate x in [0, L] by repeated mirroring."""
    n = int(n)
    if n % 2 == 0:
        return n * L + x
    return (n + 1) * L - x


def wall_products(idx, beta):
    dim = idx.shape[1]
    b = np.asarray(beta, float).reshape(dim, 2)
    out = np.ones(len(idx))
    for d in range(dim):
        for n in np.unique(idx[:, d]):
            lo, hi = image_path(n, b)
            out[idx[:, d] == n] *= (b[d, 0] ** lo) * (b[d, 1] ** hi)
    return out


def image_positions(idx, size, src):
    out = np.empty(idx.shape)
    for d in range(idx.shape[1]):
        for n in np.unique(idx[:, d]):
            out[idx[:, d] == n, d] = image_coord(n, size[d], src[d])
    return out


GAINS = {
    "omni": lambda c: np.ones_like(c),
    "homni": lambda c: (c > 0).astype(float),
    "subcardioid": lambda c: 0.75 + 0.25 * c,
    "cardioid": lambda c: 0.5 + 0.5 * c,
    "hypercardioid": lambda c: 0.25 + 0.75 * c,
    "bidir": lambda c: c,
}
ALIASES = {
    "omni": ["omni", "omnidirectional"],
    "homni": ["homni", "halfomni", "half-omni"],
    "subcardioid": ["subcardioid", "subcard"],
    "cardioid": ["cardioid", "card"],
    "hypercardioid": ["hypercardioid", "hypcard"],
    "bidir": ["bidir", "bidirectional", "figure8", "figure-8"],
}


def hann(L):
    if L == 1:
        return np.ones(1)
    n = np.arange(L)
    return 0.5 - 0.5 * np.cos(2 * np.pi * n / (L - 1))


def sabine_beta(size, t60):
    size = [float(s) for s in size]
    if len(size) == 2:
        V, S, nb = size[0] * size[1], 2 * (size[0] + size[1]), 4
    else:
        x, y, z = size
        V, S, nb = x * y * z, 2 * (x * y + y * z + x * z), 6
    a = min(max(0.161 * V / (t60 * S), 0.0), 0.999)
    return np.full(nb, math.sqrt(1 - a))


def sabine_t60(size, beta):
    size = [float(s) for s in size]
    b = np.asarray(beta, float)
    if len(size) == 2:
        V = size[0] * size[1]
        A = np.array([size[1], size[1], size[0], size[0]])
    else:
        x, y, z = size
        V = x * y * z
        A = np.array([y * z, y * z, x * z, x * z, x * y, x * y])
    tot = float(np.sum(A * (1 - b**2)))
    return math.inf if tot <= 0 else 0.161 * V / tot


def unit(v, dim):
    """Reference decoding of one entity's orientation: vector or angle(s)."""
    v = np.atleast_1d(np.asarray(v, float))
    if dim == 2 and v.size == 1:
        return np.array([math.cos(v[0]), math.sin(v[0])])
    if dim == 3 and v.size == 2:
        az, el = v
        return np.array([math.cos(el) * math.cos(az), math.cos(el) * math.sin(az), math.sin(el)])
    return v / np.linalg.norm(v)


def rir(size, beta, src, mic, fs, c, nsample, fdl, order=None, box=None, spat="omni", mpat="omni", sdir=None, mdir=None, lut_gran=None,
        eps=1e-13):
    """Reference RIR. Returns (rir, tol): |implementation - rir| <= tol elementwise.

    eps: relative precision of the sample-position arithmetic of the implementation's dtype.
    tol accounts for rounding of the delay (slope of the kernel), for the ambiguity of floor() when the
    delay is within rounding of an integer, for linear interpolation when lut_gran is given, and for
    direction-dependent gains at zero distance (undefined) and at a pattern's discontinuity.
    """
    size, src, mic = (np.asarray(a, float) for a in (size, src, mic))
    dim = size.size
    idx = image_indices(dim, order, box)
    refl = wall_products(idx, beta)
    img = image_positions(idx, size, src)
    vec = mic[None, :] - img
    dist0 = np.linalg.norm(vec, axis=1)
    dist = np.maximum(dist0, 1e-6)
    gain = refl.copy()
    gslack = np.zeros_like(gain)
    # absolute rounding error of a distance/vector component, image by image
    derr = eps * 8 * (np.max(2.0 * size[None, :] * np.abs(np.floor_divide(idx + 1, 2)), axis=1) + np.max(np.abs(src)) + np.max(np.abs(mic)) + 1e-3)
    for pat, d, sgn in ((spat, sdir, 1.0), (mpat, mdir, -1.0)):
        if pat == "omni":
            continue
        with np.errstate(invalid="ignore", divide="ignore"):
            cos = np.where(dist0 > 0, (sgn * vec @ d) / dist0, 0.0)
        cerr = np.minimum(2.0, 3 * derr / np.maximum(dist0, 1e-300))
        g = GAINS[pat](cos)
        if pat == "homni":
            gs = np.where(np.abs(cos) <= cerr + 8 * eps, 1.0, 0.0)
        else:
            gs = cerr + 4 * eps
        gslack = gslack * (np.abs(g) + gs) + np.abs(gain) * gs
        gain = gain * g
    amp = gain / dist
    aerr = gslack / dist + np.abs(amp) * (derr / dist + 16 * eps)
    fdl2 = (fdl - 1) // 2
    pos = dist / c * fs + fdl2
    perr = derr / c * fs + 16 * eps * np.abs(pos)
    out = np.zeros(nsample)
    tol = np.zeros(nsample)
    w = hann(fdl)
    k = np.arange(fdl)
    i0 = np.floor(pos)
    frac = pos - i0

    def taps(base, fr):
        t = k[None, :] - fdl2 - fr[:, None]
        f = np.sinc(t) * w[None, :]
        tg = base[:, None].astype(np.int64) + (k - fdl2)[None, :]
        return f, tg

    def put(arr, tg, val):
        ok = (tg >= 0) & (tg < nsample)
        np.add.at(arr, tg[ok], val[ok])

    f, tg = taps(i0, frac)
    put(out, tg, amp[:, None] * f)
    lerr = 0.0 if lut_gran is None else 0.4113 / lut_gran**2
    # kernel slope is at most ~1.3 per sample; rounding of delay moves each tap by <= 1.5*perr
    per = np.abs(amp)[:, None] * ((1.5 * perr)[:, None] * w[None, :] + lerr * w[None, :]) + aerr[:, None] * (np.abs(f) + lerr)
    put(tol, tg, per + np.zeros_like(f))
    for near, b2, fr2 in ((frac <= perr, i0 - 1, frac + 1.0), (1.0 - frac <= perr, i0 + 1, frac - 1.0)):
        if near.any():
            f2, tg2 = taps(b2[near], fr2[near])
            a = np.abs(amp[near])[:, None]
            # both placements are legitimate: allow the difference, and the rounding of the delay around either
            put(tol, tg2, a * ((1.5 * perr[near])[:, None] + lerr) * w[None, :] + aerr[near][:, None] * (np.abs(f2) + lerr))
            for r in range(f2.shape[0]):
                buf = np.zeros(nsample)
                m2 = (tg2[r] >= 0) & (tg2[r] < nsample)
                buf[tg2[r][m2]] += f2[r][m2]
                m1 = (tg[near][r] >= 0) & (tg[near][r] < nsample)
                buf[tg[near][r][m1]] -= f[near][r][m1]
                tol += np.abs(buf) * a[r]
    return out, tol


def near_integer_images(size, src, mic, fs, c, order=None, box=None, tol=1e-9):
    size, src, mic = (np.asarray(a, float) for a in (size, src, mic))
    idx = image_indices(size.size, order, box)
    d = np.linalg.norm(mic[None] - image_positions(idx, size, src), axis=1) / c * fs
    fr = d - np.floor(d)
    return int(np.sum((fr < tol) | (1 - fr < tol)))


def direct_convolve(x, h):
    return np.convolve(np.asarray(x, float), np.asarray(h, float))
