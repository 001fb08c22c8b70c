"""C01: static RIR against an independent image-source reference model."""
import numpy as np

from vf import gen, ref
from vf.tr import F32, F64, T, cfg, np_, room, simulate_rir, worst

ID = "C01"
RULE = ("random 2-D/3-D shoeboxes (asymmetric walls, grid-aligned/wall/corner/generic positions, order 0-6 or nb_img boxes, kernel length 1-101, "
        "odd fs/c, also orders to 60, 70 entities, 40000 samples and kernels to 1023, with and without LUT, beta/t60/default walls, float64/float32); a case is non-trivial when at least 2 images land inside the "
        "response and its (dim, form, walls, order, kernel, lut, dtype) class is new")
NEED = {"assertions": 500, "images_inside": 5000, "big_cases": 100, "near_pairs": 300}


def cases(tier):
    n = 12000 if tier == "quick" else 550000
    return [{"kind": ["exact", "exact", "lut", "f32", "exact", "box", "walls", "big"][i % 8], "i": i} for i in range(n)]


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    dim = int(r.choice([2, 3, 3]))
    sz = gen.size(r, dim)
    fs, c = gen.fs_c(r)
    dt = F32 if kind == "f32" else F64
    form = "beta"
    kw = {}
    if kind == "walls":
        form = str(r.choice(["t60", "none", "beta"]))
    b = gen.beta(r, dim)
    if form == "beta":
        kw["beta"] = b
    elif form == "t60":
        t60 = float(r.choice([0.05, 0.2, 0.4, 1.0, 3.0]))
        kw["t60"] = t60
        b = ref.sabine_beta(sz, t60)
    else:
        b = np.ones(2 * dim)
    order = int(r.integers(0, 7 if dim == 3 else 9))
    box = None
    if kind == "box" or (kind == "lut" and r.uniform() < 0.3):
        box = tuple(int(v) for v in r.integers(0, 5, dim))
    fdl = int(r.choice([1, 3, 5, 7, 21, 41, 81, 81, 81, 101]))
    gran = None
    conf = dict(frac_delay_length=fdl, use_lut=False)
    if kind in ("lut",) or (kind == "f32" and r.uniform() < 0.5):
        gran = int(r.choice([1, 2, 7, 20, 20, 100]))
        conf.update(use_lut=True, sinc_lut_granularity=gran)
    S = int(r.integers(1, 4))
    M = int(r.integers(1, 4))
    src, mic = gen.pos(r, sz, S), gen.pos(r, sz, M)
    if r.uniform() < 0.04:
        mic[0] = src[0]
    elif kind == "f32" and r.integers(2):
        # centimetres apart in a large room: most digits of the coordinates cancel in the direct path
        sz = sz * float(r.choice([1.0, 4.0, 10.0]))
        src = r.uniform(0.5, 0.98, (S, dim)) * sz
        mic = src[r.integers(0, S, M)] + r.choice([0.01, 0.05, 0.2]) * r.normal(size=(M, dim))
        fs = float(r.choice([fs, 44100.0, 48000.0]))
        ctx.count("near_pairs")
    ns = int(r.choice([1, 17, 200, 600, 1500]))
    if kind == "big":
        # one dimension of the problem far beyond the usual: many images, entities, samples, a long kernel
        what = str(r.choice(["images", "box", "mics", "sources", "long", "kernel", "both"]))
        order, box, S, M = int(r.integers(0, 3)), None, 1, 1
        if what == "images":
            order = int(r.integers(9, 20 if dim == 3 else 60))
        elif what == "box":
            box = tuple(int(v) for v in r.integers(*((4, 13) if dim == 3 else (10, 50)), dim))
            if r.integers(2):
                # one axis far beyond the others: a corridor between two hard walls close together
                a = int(r.integers(dim))
                box = tuple(int(r.integers(100, 330)) if i == a else int(r.integers(0, 2)) for i in range(dim))
                sz[a] = r.uniform(0.3, 1.0)
                form, kw = "beta", {}
                b = gen.beta(r, dim)
                b[2 * a : 2 * a + 2] = r.uniform(0.97, 0.9995, 2)
                kw["beta"] = b
                fs = float(r.choice([4000.0, 8000.0, 16000.0]))
                ctx.count("corridors")
        elif what == "mics":
            M = int(r.integers(9, 70))
        elif what == "sources":
            S = int(r.integers(9, 70))
        elif what == "both":
            S, M = int(r.integers(5, 12)), int(r.integers(5, 12))
        elif what == "long":
            order = int(r.integers(3, 9))
        else:
            fdl = int(r.choice([201, 401, 1023]))
        conf.update(frac_delay_length=fdl)
        if r.integers(2):
            gran = int(r.choice([1, 20, 50]))
            conf.update(use_lut=True, sinc_lut_granularity=gran)
        src, mic = gen.pos(r, sz, S), gen.pos(r, sz, M)
        ns = int(np.clip(2.2 * max(box) * sz.max() / c * fs, 600, 12000)) if what == "box" and max(box) >= 100 else int(r.choice([4097, 8192, 20011, 40000])) if what == "long" else int(r.choice([600, 1500, 4097]))
        ctx.count("big_cases")
    if kind == "f32":
        # what the implementation sees after rounding the inputs to float32
        sz, b, src, mic = (np.asarray(a, np.float32).astype(float) for a in (sz, b, src, mic))
        if form == "beta":
            kw["beta"] = b
    out = simulate_rir(room=room(sz, fs, c, dt=dt, **kw), sources=T(src, dt), mics=T(mic, dt), max_order=order, nb_img=box, nsample=ns, config=cfg(**conf))
    ctx.expect(tuple(out.shape) == (S, M, ns), "shape", f"shape {tuple(out.shape)} != {(S, M, ns)}", spec=spec)
    eps = 1.2e-7 if kind == "f32" else 2.3e-16
    got = np_(out)
    inside = 0
    for s in range(S):
        for m in range(M):
            want, tol = ref.rir(sz, b, src[s], mic[m], fs, c, ns, fdl, order=order, box=box, lut_gran=gran, eps=eps)
            if kind == "f32" and form == "t60":
                tol = tol + 1e-5 * np.max(np.abs(want) + 1e-9)
            tol = tol + 1e-12 * (1 + np.abs(want))
            diff = got[s, m] - want
            bad = ~(np.abs(diff) <= tol)
            ctx.count("rirs_compared")
            ctx.count("samples_compared", ns)
            if bad.any():
                j, d, t = worst(diff, tol)
                ctx.fail(f"ism-sum:{kind}", f"RIR differs from the image-source sum at sample {j}: |diff|={d:.3g} > tol {t:.3g}", size=sz, beta=b, form=form,
                         src=src[s], mic=mic[m], fs=fs, c=c, order=order, box=box, fdl=fdl, gran=gran, nsample=ns, got=float(got[s, m][j]), want=float(want[j]))
            ctx.count("assertions")
            idx = ref.image_indices(dim, order, box)
            dist = np.linalg.norm(mic[m][None] - ref.image_positions(idx, sz, src[s]), axis=1)
            inside += int(np.sum((dist / c * fs < ns) & (ref.wall_products(idx, b) > 0)))
    ctx.count("images_inside", inside)
    if inside >= 2:
        ctx.nontrivial(dim, kind, what if kind == "big" else "", form, order if box is None else ("box", box), fdl, gran, S, M, int(np.sum(b == 0)), int(np.sum(b == 1)))
    ctx.sample(dict(size=sz, beta=b, src=src, mic=mic, fs=fs, c=c, order=order, box=box, fdl=fdl, lut=gran, nsample=ns, images_inside=inside))
