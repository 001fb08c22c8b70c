"""C02: directivity patterns, orientation encodings and entity assignment against the reference model."""
import numpy as np
import torch

from vf import gen, ref
from vf.tr import (F64, MicrophoneArray, Source, T, cfg, np_, raises, room, simulate_dynamic_rir, simulate_rir, worst)

ID = "C02"
TECH = "reference-model monitor (directional image-source sum) over generated scenes, plus expected-error oracle"
NOTE = "Every generated directional RIR compared in float64 with an independent model; only sampled scenes, CPU."
RULE = ("random scenes with source/mic patterns (all aliases and letter cases), orientation given as vector/angle/azimuth-elevation, shared or per entity, via "
        "entities, tuple or single argument, static and dynamic; non-trivial class = (dim, patterns, encodings, counts, path)")
NEED = {"big_cases": 60, "assertions": 500, "error_cases": 60, "directional_rirs": 500, "rows_for_both_ends": 50}
PATS = list(ref.GAINS)


def cases(tier):
    n = 9600 if tier == "quick" else 850000
    return [{"kind": ["static", "static", "dynamic", "static", "single", "error"][i % 6], "i": i} for i in range(n)]


def spell(r, pat):
    name = str(r.choice(ref.ALIASES[pat]))
    k = int(r.integers(4))
    return name.upper() if k == 0 else name.capitalize() if k == 1 else name


def length(r):
    """any length: mostly everyday ones, sometimes at the edge of the float range (float64)"""
    return float(r.choice([1e-300, 1e-160, 1e-30, 1e-12, 1e-7, 1e20, 1e160, 1e300])) if r.uniform() < 0.15 else float(r.uniform(0.1, 9))


def encode(r, vecs, dim, shared):
    """Encode unit directions (n, dim) in a random accepted form. Returns (tensor, form)."""
    n = len(vecs)
    turns = lambda *sh: 2 * np.pi * (r.integers(-3, 4, sh) if r.uniform() < 0.5 else np.zeros(sh))  # any angle, not just one turn
    if dim == 2:
        ang = np.arctan2(vecs[:, 1], vecs[:, 0])
        ang = ang + (turns(1) if shared else turns(n))
        if shared:
            k = int(r.integers(3))
            if k == 0:
                return torch.tensor(float(ang[0]), dtype=F64), "angle0d"
            if k == 1:
                return T([ang[0]]), "angle1"
            return T(vecs[0] * length(r)), "vec"
        k = int(r.integers(3))
        if k == 0 and n != 2:
            return T(ang), "angles1d"
        if k == 1:
            return T(ang[:, None]), "angles2d"
        return T(vecs * np.array([[length(r)] for _ in range(n)])), "vecs"
    az = np.arctan2(vecs[:, 1], vecs[:, 0])
    el = np.arcsin(np.clip(vecs[:, 2], -1, 1))
    if r.uniform() < 0.3:  # beyond the pole: the same direction from the other side
        az, el = az + np.pi, np.pi - el
    ae = np.stack([az, el], 1) + (turns(1, 2) if shared else turns(n, 2))
    if shared:
        if r.uniform() < 0.5:
            return T(ae[0]), "azel"
        return T(vecs[0] * length(r)), "vec"
    if r.uniform() < 0.5:
        return T(ae), "azels"
    return T(vecs * np.array([[length(r)] for _ in range(n)])), "vecs"


def units(r, n, dim, shared):
    v = np.array([gen.orient(r, dim) for _ in range(n)])
    v = v / np.linalg.norm(v, axis=1, keepdims=True)
    if shared:
        v = np.repeat(v[:1], n, axis=0)
    return v


def run(spec, ctx):
    r = ctx.rng
    if spec["kind"] == "error":
        return errors(spec, ctx)
    kind = spec["kind"]
    dim = int(r.choice([2, 3, 3]))
    sz, b = gen.size(r, dim), gen.beta(r, dim)
    fs, c = gen.fs_c(r)
    S, M = int(r.integers(1, 5)), int(r.integers(1, 5))
    order = int(r.integers(0, 4))
    if r.uniform() < 0.08:  # many entities, or many images
        S, M, order = [(int(r.integers(9, 40)), 1, 1), (1, int(r.integers(9, 40)), 1), (1, 1, int(r.integers(6, 14)))][int(r.integers(3))]
        ctx.count("big_cases")
    sp, mp = str(r.choice(PATS)), str(r.choice(PATS))
    single_name = kind == "single"
    if single_name:
        mp = sp
    s_sh, m_sh = bool(r.integers(2)), bool(r.integers(2))
    sd, md = units(r, S, dim, s_sh), units(r, M, dim, m_sh)
    one_tensor = single_name and r.uniform() < 0.5
    if one_tensor and S < 9 and M < 9 and r.uniform() < 0.5:  # one row per entity, for both ends at once
        M = S
        s_sh = m_sh = False
        sd = units(r, S, dim, False)
        md = sd.copy()
        ctx.count("rows_for_both_ends", int(S > 1))
    elif one_tensor:
        s_sh = m_sh = True
        md = np.repeat(sd[:1], M, axis=0)
        sd = np.repeat(sd[:1], S, axis=0)
    so, sform = encode(r, sd, dim, s_sh)
    mo, mform = encode(r, md, dim, m_sh)
    if one_tensor:
        mo, mform = so, sform
    if single_name:
        d = spell(r, sp)
    else:
        d = (spell(r, sp), spell(r, mp))
        if r.uniform() < 0.2:
            d = list(d)
    src, mic = gen.pos(r, sz, S), gen.pos(r, sz, M)
    ns = int(r.choice([64, 300, 700]))
    conf = cfg(use_lut=False, frac_delay_length=int(r.choice([5, 21, 41])))
    rm = room(sz, fs, c, beta=b)
    args = dict(room=rm, max_order=order, nsample=ns, directivity=d, config=conf)
    T_ = 1
    if kind == "dynamic":
        T_ = int(r.integers(1, 4))
        st = np.array([gen.pos(r, sz, S) for _ in range(T_)])
        mt = np.array([gen.pos(r, sz, M) for _ in range(T_)])
        ori = so if one_tensor else (so, mo)
        path = "dyn"
        if not one_tensor and r.uniform() < 0.3:  # plain numbers: exact in the requested dtype
            ori, path, args["dtype"] = (so.tolist(), mo.tolist()), "dyn-list", F64
        out = np_(simulate_dynamic_rir(src_traj=T(st), mic_traj=T(mt), orientation=ori, **args))
    else:
        st, mt = src[None], mic[None]
        path = str(r.choice(["entity", "arg", "override", "list"]))
        if path == "entity" and not one_tensor:
            out = simulate_rir(sources=Source.from_positions(T(src), orientation=so), mics=MicrophoneArray.from_positions(T(mic), orientation=mo), **args)
        elif path == "override":
            # the argument takes precedence over what the entities carry
            wrong = T(units(r, 1, dim, True)[0])
            ori = so if one_tensor else (so, mo)
            out = simulate_rir(sources=Source.from_positions(T(src), orientation=wrong), mics=MicrophoneArray.from_positions(T(mic), orientation=wrong), orientation=ori, **args)
        elif path == "list" and not one_tensor:
            out = simulate_rir(sources=src.tolist(), mics=mic.tolist(), orientation=(so.tolist(), mo.tolist()), dtype=F64, **args)
        else:
            ori = so if one_tensor else (so, mo)
            out = simulate_rir(sources=T(src), mics=T(mic), orientation=ori, **args)
        out = np_(out)[None]
    if out.shape != (T_, S, M, ns):
        ctx.fail("shape", f"{out.shape}")
        return
    # reference directions decoded from the encoded form (angles are rounded once)
    for t in range(T_):
        for s in range(S):
            for m in range(M):
                want, tol = ref.rir(sz, b, st[t, s], mt[t, m], fs, c, ns, conf.frac_delay_length, order=order, spat=sp, mpat=mp, sdir=sd[s], mdir=md[m], eps=6e-15)
                tol = tol + 1e-11 * (1 + np.abs(want))
                diff = out[t, s, m] - want
                ctx.count("assertions")
                ctx.count("directional_rirs", int(sp != "omni" or mp != "omni"))
                if not np.all(np.abs(diff) <= tol):
                    j, dd, tt = worst(diff, tol)
                    ctx.fail(f"directivity:{kind}", f"directional RIR wrong at t={t} s={s} m={m} sample {j}: |diff|={dd:.3g} > {tt:.3g}", directivity=d, dim=dim, sform=sform, mform=mform,
                             path=path, size=sz, beta=b, src=st[t, s], mic=mt[t, m], sdir=sd[s], mdir=md[m], order=order, S=S, M=M)
    ctx.nontrivial(dim, sp, mp, sform, mform, min(S, 3), min(M, 3), path)
    ctx.sample(dict(directivity=d, dim=dim, src_form=sform, mic_form=mform, path=path, S=S, M=M, order=order, T=T_))


def errors(spec, ctx):
    r = ctx.rng
    dim = int(r.choice([2, 3]))
    sz = gen.size(r, dim)
    S, M = int(r.integers(1, 4)), int(r.integers(1, 4))
    src, mic = gen.pos(r, sz, S), gen.pos(r, sz, M)
    pat = str(r.choice([p for p in PATS if p != "omni"]))
    other = str(r.choice(PATS))
    rm = room(sz, 8000.0, beta=gen.beta(r, dim))
    dyn = bool(r.integers(2))
    so, mo = T(units(r, S, dim, False)), T(units(r, M, dim, False))

    def sim(directivity, orientation):
        a = dict(room=rm, max_order=1, nsample=64, directivity=directivity, orientation=orientation, config=cfg())
        if dyn:
            return simulate_dynamic_rir(src_traj=T(src[None]), mic_traj=T(mic[None]), **a)
        return simulate_rir(sources=T(src), mics=T(mic), **a)

    k = str(r.choice(["unknown", "missing_src", "missing_mic", "count_src", "count_mic", "tuple_len", "width", "ok_omni"]))
    if k == "unknown":
        bad = str(r.choice(["cardiod", "supercardioid", "", "omni ", "figure_8", "xx"]))
        d = bad if r.integers(2) else (bad, "omni") if r.integers(2) else ("omni", bad)
        fn = lambda: sim(d, (so, mo))
    elif k == "missing_src":
        fn = lambda: sim((pat, "omni"), None)
    elif k == "missing_mic":
        fn = lambda: sim(("omni", pat), None)
    elif k == "count_src":
        n = S + int(r.choice([1, 2])) if r.integers(2) or S < 3 else S - 1
        bad = T(units(r, n, dim, False))
        fn = lambda: sim((pat, other), (bad, mo))
    elif k == "count_mic":
        n = M + int(r.choice([1, 2])) if r.integers(2) or M < 3 else M - 1
        bad = T(units(r, n, dim, False))
        fn = lambda: sim((other, pat), (so, bad))
    elif k == "tuple_len":
        fn = lambda: sim((pat, other, "omni"), (so, mo))
    elif k == "width":
        w = 4 if dim == 3 else 3
        fn = lambda: sim((pat, pat), (T(r.normal(size=(S, w))), T(r.normal(size=(M, w)))))
    else:
        name = str(r.choice(["omni", "OMNI", "omnidirectional", "Omnidirectional"]))
        out = sim(name if r.integers(2) else (name, "omni"), None)
        base = sim("omni", None)
        ctx.expect(torch.equal(out, base), "omni-alias", f"directivity={name!r} without orientation differs from omni")
        ctx.count("error_cases")
        ctx.nontrivial("err", k, dim, dyn)
        return
    ok, e = raises(ValueError, fn)
    ctx.count("error_cases")
    ctx.nontrivial("err", k, dim, dyn)
    ctx.expect(ok, f"no-valueerror:{k}", f"{k}: expected ValueError, got {e if isinstance(e, Exception) else 'a result'!r}"[:300], dim=dim, S=S, M=M, dyn=dyn, pat=pat)
