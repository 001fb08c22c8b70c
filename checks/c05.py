"""C05: physical symmetries of shoebox RIRs (metamorphic, no reference model of the answer)."""
import numpy as np
import torch

from checks.c02 import PATS, units
from vf import gen, ref
from vf.tr import T, cfg, np_, room, simulate_dynamic_rir, simulate_rir

ID = "C05"
TECH = "metamorphic monitor: symmetry-transformed scenes must give the transformed RIR"
NOTE = "Symmetries checked to float64 rounding on sampled scenes, kernel-boundary ambiguity allowed for explicitly."
RULE = "random asymmetric scene and its image under reciprocity / mirror / axis permutation / scaling / wall removal, static and dynamic; class = (relation, dim, axis, walls, order)"
NEED = {"big_cases": 50, "at_wall": 200, "assertions": 1000}
KINDS = ["recip", "mirror", "perm", "scale", "wall", "mirror_dir", "perm_dir"]


def cases(tier):
    n = 8400 if tier == "quick" else 1000000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dim = int(r.choice([2, 3, 3]))
    sz = r.uniform(1.5, 9.0, dim)
    b = gen.beta(r, dim) if r.uniform() < 0.3 else r.uniform(0.1, 0.99, 2 * dim)
    fs, c = gen.fs_c(r)
    order = int(r.integers(1, 6))
    box = tuple(int(x) for x in r.integers(0, 4, dim)) if r.uniform() < 0.3 else None
    ns = int(r.choice([300, 800]))
    conf = dict(use_lut=bool(r.integers(2)), frac_delay_length=int(r.choice([5, 41, 81])))
    dyn = bool(r.integers(2))
    n = int(r.integers(1, 4)) if dyn else 1
    S, M = int(r.integers(1, 3)), int(r.integers(1, 3))
    if r.uniform() < 0.08:  # many entities, images or steps
        S, M, n, order = [(int(r.integers(9, 30)), 2, 1, 1), (2, int(r.integers(9, 30)), 1, 1), (1, 1, 1, int(r.integers(8, 16))), (1, 1, int(r.integers(20, 80)) if dyn else 1, 1)][int(r.integers(4))]
        ctx.count("big_cases")
    st = np.array([gen.pos(r, sz, S, mode=9) for _ in range(n)])
    mt = np.array([gen.pos(r, sz, M, mode=9) for _ in range(n)])
    for k in range(n):
        gen.near(r, mt[k], st[k], sz)
    if r.uniform() < 0.15:  # on a wall, or within a millimetre of one (either end, or both)
        for tr in [(st,), (mt,), (st, mt)][int(r.integers(3))]:
            ax, off = int(r.integers(dim)), float(r.choice([0.0, 10 ** r.uniform(-9, -3)]))
            tr[..., ax] = off if r.integers(2) else sz[ax] - off
        ctx.count("at_wall")
    d, so, mo = "omni", None, None
    sp = mp = "omni"
    if kind.endswith("_dir"):
        sp, mp = str(r.choice(PATS)), str(r.choice(PATS))
        d = (sp, mp)
        so, mo = units(r, S, dim, False), units(r, M, dim, False)

    def sim(sz, b, st, mt, so=None, mo=None, c=c, box=box):
        a = dict(room=room(sz, fs, c, beta=b), max_order=order, nb_img=box, nsample=ns, config=cfg(**conf), directivity=d,
                 orientation=None if so is None else (T(so), T(mo)))
        if dyn:
            return np_(simulate_dynamic_rir(src_traj=T(st), mic_traj=T(mt), **a))
        return np_(simulate_rir(sources=T(st[0]), mics=T(mt[0]), **a))[None]

    A = sim(sz, b, st, mt, so, mo)
    gain = 1.0
    if kind == "recip":
        B = sim(sz, b, mt, st).swapaxes(1, 2)
        what = "swapping source and mic"
        tag = ()
    elif kind.startswith("mirror"):
        ax = int(r.integers(dim))
        f = np.ones(dim)
        f[ax] = -1
        off = np.zeros(dim)
        off[ax] = sz[ax]
        b2 = b.reshape(dim, 2).copy()
        b2[ax] = b2[ax, ::-1]
        B = sim(sz, b2.reshape(-1), off + f * st, off + f * mt, None if so is None else so * f, None if mo is None else mo * f)
        what = f"mirroring axis {ax}"
        tag = (ax,)
    elif kind.startswith("perm"):
        p = r.permutation(dim)
        b2 = b.reshape(dim, 2)[p].reshape(-1)
        B = sim(sz[p], b2, st[..., p], mt[..., p], None if so is None else so[:, p], None if mo is None else mo[:, p], box=None if box is None else tuple(box[i] for i in p))
        what = f"permuting axes {p.tolist()}"
        tag = tuple(p.tolist())
    elif kind == "scale":
        k = float(r.choice([0.5, 2.0, 3.7, 0.31]))
        B = sim(sz * k, b, st * k, mt * k, c=c * k) * k
        what = f"scaling by {k}"
        tag = (k,)
    else:
        # zero one wall: samples before the first image touching it must not change
        w = int(r.integers(2 * dim))
        ax, hi = divmod(w, 2)
        b2 = b.copy()
        b2[w] = 0.0 if r.integers(2) else b2[w] * 0.5
        B = sim(sz, b2, st, mt)
        idx = ref.image_indices(dim, order, box)
        touch = np.array([ref.image_path(v[ax], None)[hi] > 0 for v in idx])
        fdl2 = (conf["frac_delay_length"] - 1) // 2
        what = f"changing wall {w}"
        tag = (w,)
        keepmask = np.zeros_like(A, dtype=bool)
        for t in range(n):
            for s in range(S):
                for m in range(M):
                    dist = np.linalg.norm(mt[t, m][None] - ref.image_positions(idx[touch], sz, st[t, s]), axis=1) if touch.any() else np.array([np.inf])
                    first = np.floor(dist.min() / c * fs - 1e-6) if np.isfinite(dist.min()) else ns
                    keepmask[t, s, m, : max(0, int(min(first, ns)))] = True
        A = np.where(keepmask, A, 0)
        B = np.where(keepmask, B, 0)
        ctx.count("wall_protected_samples", int(keepmask.sum()))
    # tolerance: explicit rounding/kernel-boundary budget of both evaluations
    for t in range(n):
        for s in range(S):
            for m in range(M):
                ctx.count("assertions")
                diff = A[t, s, m] - B[t, s, m]
                base = 1e-10 * (np.abs(A[t, s, m]).max() + 1e-9)
                if np.all(np.abs(diff) <= base):
                    continue
                _, tol = ref.rir(sz, b, st[t, s], mt[t, m], fs, c, ns, conf["frac_delay_length"], order=order, box=box, spat=sp, mpat=mp,
                                 sdir=None if so is None else so[s], mdir=None if mo is None else mo[m], eps=3e-15)
                # the LUT is symmetric only up to its interpolation error in general; same delays give same values
                tol = 2 * tol + base
                if not np.all(np.abs(diff) <= tol):
                    j = int(np.argmax(np.abs(diff) - tol))
                    ctx.fail(f"symmetry:{kind}", f"{what} changes the RIR: sample {j} {A[t, s, m][j]:.6g} vs {B[t, s, m][j]:.6g}", size=sz, beta=b, src=st[t, s], mic=mt[t, m], order=order,
                             box=box, dyn=dyn, directivity=d)
    ctx.nontrivial(kind, dim, tag, order if box is None else box, dyn, sp, mp)
    ctx.sample(dict(relation=what, dim=dim, order=order, box=box, dyn=dyn, peak=float(np.abs(A).max())))
