"""C14: acoustic formulas."""
import math

import numpy as np
import torch

from vf import gen, ref
from vf.tr import F32, F64, T, raises
from torchrir.util import attenuation_db_to_time_sabine, estimate_beta_from_t60, estimate_image_counts_from_tmax, estimate_t60_from_beta

ID = "C14"
TECH = "online oracle: independent float64 Sabine formulas evaluated next to every call, plus inverse and integer/float relations"
NOTE = "Sampled rooms, coefficients and decay times, including limited absorption and rigid/fully absorbing walls."
RULE = "random room/coefficients/T60 incl. boundary values, containers and dtypes; class = (function, dim, form, regime)"
NEED = {"assertions": 4000, "exact_counts": 200, "whole_room_counts": 150}
KINDS = ["beta", "t60", "inverse", "simple", "integers", "reject"]


def cases(tier):
    n = 19200 if tier == "quick" else 1000000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dim = int(r.choice([2, 3]))
    dt = F32 if r.uniform() < 0.3 else F64
    eps = 3e-6 if dt == F32 else 1e-12
    sz = gen.size(r, dim) * float(r.choice([1, 1, 1, 0.01, 30]))
    if dt == F32:
        sz = sz.astype(np.float32).astype(float)
    lst = bool(r.integers(2)) and dt == F64
    S = (sz.tolist() if r.integers(2) else tuple(sz.tolist())) if lst else T(sz, dt)
    kw = dict(dtype=dt) if lst else {}
    if kind == "beta":
        t60 = float(r.choice([1e-4, 0.01, 0.1, 0.3, 1.0, 5.0, 1e3])) * float(r.uniform(0.5, 2))
        got = estimate_beta_from_t60(S, t60, **kw)
        want = ref.sabine_beta(sz, t60)
        ctx.expect(tuple(got.shape) == want.shape and got.dtype == dt, "beta-form", f"{tuple(got.shape)} {got.dtype}")
        ctx.expect(np.allclose(got.double().numpy(), want, rtol=0, atol=eps), "beta", f"beta {got.tolist()} != {want.tolist()}", size=sz, t60=t60)
        ctx.nontrivial(kind, dim, lst, str(dt), "limited" if want[0] < 0.0317 else round(float(want[0]), 1))
    elif kind == "t60":
        b = gen.beta(r, dim)
        k = int(r.integers(5))
        if k == 0:
            b = np.ones(2 * dim)
        elif k == 1:
            b = np.zeros(2 * dim)
        elif k == 2:  # exactly one absorbing wall: order of walls observable
            b = np.ones(2 * dim)
            b[r.integers(2 * dim)] = r.choice([0.0, 0.5])
        B = b.tolist() if r.integers(2) else T(b, dt)
        got = estimate_t60_from_beta(S, B, **kw)
        if dt == F32:
            b = b.astype(np.float32).astype(float)
        want = ref.sabine_t60(sz, b)
        ctx.expect(isinstance(got, float), "t60-type", f"{type(got)}")
        ok = (got == want) if math.isinf(want) else math.isclose(got, want, rel_tol=eps * 50 * max(1.0, 1.0 / max(1e-9, float(np.mean(1 - b**2)))))
        ctx.expect(ok, "t60", f"T60 {got} != {want}", size=sz, beta=b)
        ctx.nontrivial(kind, dim, lst, str(dt), k)
    elif kind == "inverse":
        smin = sz
        V = float(np.prod(smin))
        # choose T60 so that alpha is not limited
        full = ref.sabine_t60(sz, np.zeros(2 * dim))
        t60 = full * float(r.uniform(1.01, 50))
        back = estimate_t60_from_beta(S, estimate_beta_from_t60(S, t60, **kw), **kw)
        ctx.expect(math.isclose(back, t60, rel_tol=(1e-3 if dt == F32 else 1e-9)), "inverse-t60", f"T60 {t60} -> beta -> {back}", size=sz, V=V)
        b0 = float(r.uniform(0.05, 0.99))
        t = estimate_t60_from_beta(S, torch.full((2 * dim,), b0, dtype=dt), **kw)
        bb = estimate_beta_from_t60(S, t, **kw)
        ctx.expect(np.allclose(bb.double().numpy(), b0, atol=1e-4 if dt == F32 else 1e-9), "inverse-beta", f"beta {b0} -> T60 -> {bb.tolist()}", size=sz)
        ctx.nontrivial(kind, dim, lst, str(dt), round(t60 / full))
    elif kind == "simple":
        att, t60 = float(r.uniform(0.1, 120)), float(r.uniform(0.01, 5))
        ctx.expect(math.isclose(attenuation_db_to_time_sabine(att, t60), att * t60 / 60, rel_tol=1e-12), "att2t", f"att {att} t60 {t60}")
        tmax, c = float(r.uniform(0.001, 2)), float(r.choice([343.0, 340.0, 1480.0]))
        use_default = bool(r.integers(2))
        c = 343.0 if use_default else c
        got = estimate_image_counts_from_tmax(tmax, S) if use_default else estimate_image_counts_from_tmax(tmax, S, c)
        q = tmax * c / sz
        near = np.abs(q - np.round(q)) < 1e-5 * np.maximum(q, 1)
        want = np.ceil(q)
        ctx.expect(tuple(got.shape) == (dim,) and got.dtype == torch.int64, "t2n-form", f"{tuple(got.shape)} {got.dtype}")
        ctx.expect(bool(np.all((got.numpy() == want) | near)), "t2n", f"counts {got.tolist()} != {want.tolist()}", size=sz, tmax=tmax, c=c)
        # whole numbers of room lengths (powers of two, so that any way of dividing is exact): the count is that number
        ex = 2.0 ** r.integers(-2, 5, dim)
        p = float(ex.max() * r.integers(1, 40))
        two = float(r.choice([0.5, 0.25, 1.0, 2.0]))
        got = estimate_image_counts_from_tmax(two, T(ex, dt) if r.integers(2) or dt == F32 else ex.tolist(), p / two)
        ctx.expect(got.tolist() == (p / ex).tolist(), "t2n-exact", f"counts {got.tolist()} != {(p / ex).tolist()} for a path of exactly that many rooms", size=ex, path=p)
        ctx.count("exact_counts")
        # the same for whole-metre walls, where a rounded reciprocal is not exact
        ex = r.choice([3, 5, 6, 7, 9, 11, 12, 13, 14, 15, 20, 21, 28, 35], dim).astype(float)
        p = float(np.lcm.reduce(ex.astype(int)) * r.integers(1, 40))
        if p < 2**20:
            form = int(r.integers(3))
            arg = T(ex, dt) if form == 0 else torch.tensor(ex.astype(int)) if form == 1 else [int(v) for v in ex]
            got = estimate_image_counts_from_tmax(two, arg, p / two)
            ctx.expect(got.tolist() == (p / ex).tolist(), "t2n-whole", f"counts {got.tolist()} != {(p / ex).tolist()} for a path of exactly that many rooms", size=ex, path=p, form=form)
            ctx.count("whole_room_counts")
        ctx.nontrivial(kind, dim, lst, use_default)
    elif kind == "integers":
        si = r.integers(1, 12, dim)
        it = [torch.int64, torch.int32, torch.uint8][int(r.integers(3))]
        t60 = float(r.uniform(0.2, 2))
        for form in (si.tolist(), torch.tensor(si, dtype=it)):
            a, b = estimate_beta_from_t60(form, t60), estimate_beta_from_t60(torch.tensor(si, dtype=torch.get_default_dtype()), t60)
            ctx.expect(a.dtype.is_floating_point and torch.equal(a, b), "int-beta", f"integer size {si.tolist()}: {a.tolist()} != {b.tolist()}")
            be = r.uniform(0, 1, 2 * dim)
            x, y = estimate_t60_from_beta(form, T(be, F32)), estimate_t60_from_beta(torch.tensor(si, dtype=torch.get_default_dtype()), T(be, F32))
            ctx.expect(x == y, "int-t60", f"integer size {si.tolist()}: {x} != {y}", beta=be)
            bi = r.integers(0, 2, 2 * dim)
            x, y = estimate_t60_from_beta(form, bi.tolist()), ref.sabine_t60(si, bi)
            ctx.expect(x == y or math.isclose(x, y, rel_tol=1e-5), "int-t60", f"integer beta {bi.tolist()}: {x} != {y}")
            n1 = estimate_image_counts_from_tmax(0.3001, form)
            ctx.expect(n1.tolist() == np.ceil(0.3001 * 343.0 / si).astype(int).tolist(), "int-t2n", f"{n1.tolist()}")
        ctx.nontrivial(kind, dim, str(it))
    else:
        for bad in (0.0, -0.3, -1e-9):
            for fn in (lambda: estimate_beta_from_t60(S, bad, **kw), lambda: attenuation_db_to_time_sabine(30.0, bad), lambda: attenuation_db_to_time_sabine(bad, 0.5), lambda: estimate_image_counts_from_tmax(bad, S)):
                ok, e = raises(ValueError, fn)
                ctx.expect(ok, "reject-nonpositive", f"{bad} accepted: {e!r:.80}")
        for n in (1, 2, 3, 5, 7, 10 - 2 * dim):
            ok, e = raises(ValueError, lambda: estimate_t60_from_beta(S, T(np.full(n, 0.5), dt), **kw))
            ctx.expect(ok, "reject-count", f"{n} coefficients for {dim}-D accepted: {e!r:.80}")
        for badsize in (T([3.0], dt), T([3.0, 2, 1, 1], dt), T([[3.0, 2.0, 2.0]], dt)):
            for fn in (lambda: estimate_beta_from_t60(badsize, 0.4), lambda: estimate_t60_from_beta(badsize, T(np.full(6, 0.5), dt)), lambda: estimate_image_counts_from_tmax(0.3, badsize)):
                ok, e = raises(ValueError, fn)
                ctx.expect(ok, "reject-size", f"size {tuple(badsize.shape)} accepted: {e!r:.80}")
        ctx.nontrivial(kind, dim, lst)
    ctx.sample(dict(kind=kind, size=sz, dtype=str(dt), list=lst))
