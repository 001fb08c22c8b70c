"""C20: scene metadata and attribution."""
import json
import logging
import math
from dataclasses import asdict, dataclass
from pathlib import Path

import numpy as np
import torch

from vf.tr import F32, F64, MicrophoneArray, Room, Source, T, np_, raises
import torchrir.io as tio
from torchrir.datasets import DatasetAttribution, attribution_for, default_modification_notes

ID = "C20"
TECH = "online oracle: metadata rebuilt independently in numpy from the same inputs (world-frame atan2 per source/mic/step, brute-force spacing), the JSON file re-parsed strictly and compared with the returned value; attribution file parsed line by line"
NOTE = "JSON fidelity is judged for extras made of tensors, paths, string-keyed dicts, lists/tuples and plain scalars."
RULE = "random rooms (2-D/3-D), 1..4 sources, 1..64 mics incl. tightly spaced arrays far from the origin, static / moving sources / moving mics / both / single step, T x dim and T x N x dim trajectories, timestamps given/derived/absent, orientations, beta/t60, nested extras; class = (kind, dim, mics, motion, timestamps, dtype)"
NEED = {"assertions": 3000}
KINDS = ["meta", "meta", "meta", "reject", "attr", "attr"]


def cases(tier):
    n = 3600 if tier == "quick" else 150000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def tolist(x):
    return None if x is None else x.detach().cpu().tolist()


def plain(x):
    if torch.is_tensor(x):
        return x.detach().tolist()
    if isinstance(x, Path):
        return str(x)
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def extra(r, depth=0):
    k = int(r.integers(9 if depth < 3 else 6))
    if k == 0:
        return float(r.normal())
    if k == 1:
        return int(r.integers(-5, 100))
    if k == 2:
        return str(r.choice(["a", "spk é", "日本", '"quoted"\n', ""]))
    if k == 3:
        return [None, True, False][int(r.integers(3))]
    if k == 4:
        return T(r.normal(size=[(), (2,), (2, 3)][int(r.integers(3))]), [F32, F64][int(r.integers(2))])
    if k == 5:
        return Path("/data/x") / str(int(r.integers(100)))
    if k == 6:
        return {f"k{i}": extra(r, depth + 1) for i in range(int(r.integers(4)))}
    v = [extra(r, depth + 1) for _ in range(int(r.integers(4)))]
    return tuple(v) if k == 7 else v


def run_meta(r, ctx, d):
    dim = 3 if r.uniform() < 0.75 else 2
    dt = [F32, F64][int(r.integers(2))]
    size = r.uniform(3, 12, dim)
    fs = float(r.choice([8000, 16000, 44100, 22050.5]))
    kw = {}
    if r.uniform() < 0.5:
        kw["beta"] = T(r.uniform(0, 1, 2 * dim), dt)
    elif r.uniform() < 0.5:
        kw["t60"] = float(r.uniform(0.1, 1))
    c = float(r.choice([343.0, 340.0, 1500.0]))
    room = Room.shoebox(T(size, dt), fs=fs, c=c, **kw)
    S = int(r.integers(1, 5))
    M = int(r.choice([1, 2, 3, 8, 25, 26, 32, 64, 200]))
    if r.uniform() < 0.05:
        S = int(r.integers(10, 60))
    sp = r.uniform(0, 1, (S, dim)) * size
    if r.uniform() < 0.5:
        mp = r.uniform(0, 1, (M, dim)) * size
    else:  # tight array far from the origin
        mp = size * 0.9 + np.arange(M)[:, None] * float(r.choice([0.004, 0.02, 0.04])) * np.eye(dim)[0] * np.array([-1.0] + [0] * (dim - 1))
    so = T(r.normal(size=(S, dim)), dt) if r.uniform() < 0.3 else None
    mo = T(r.normal(size=(M, dim) if r.integers(2) else (dim,)), dt) if r.uniform() < 0.3 else None
    src = Source.from_positions(T(sp, dt), orientation=so)
    mic = MicrophoneArray.from_positions(T(mp, dt), orientation=mo)
    motion = str(r.choice(["static", "src", "mic", "both", "one", "mixed1"]))
    n = int(r.choice([2, 3, 7, 20, 20, 7] + ([1000] if M < 9 and S < 9 else [50])))
    st = mt = None

    def traj(base, k, steps):
        # steps that go nowhere, tiny ones and ones that come back are a trajectory like any other
        how = float(r.choice([0.4, 0.4, 0.4, 0.0, 1e-6, -1.0]))
        d = r.normal(scale=abs(how), size=(steps,) + base.shape)
        if how < 0:
            d[-1] = d[0] = 0
        q = T(np.clip(base[None] + d, 0, size), dt)
        return q[:, 0] if k == 1 and r.integers(2) else q

    if motion in ("src", "both", "mixed1"):
        st = traj(sp, S, n)
    if motion in ("mic", "both"):
        mt = traj(mp, M, n)
    if motion == "mixed1":
        mt = traj(mp, M, 1)
    if motion == "one":
        st = traj(sp, S, 1)
        n = 1
    if motion == "static":
        n = 1
    L = int(r.choice([1, 16, 500, 4096])) if n < 500 else 16
    if n < 8 and M < 9 and S < 9 and r.uniform() < 0.1:
        L = 50000
    L = max(1, min(L, int(6e6) // (S * M * n)))
    shape = (S, M, L) if n == 1 else (n, S, M, L)
    rirs = torch.zeros(shape, dtype=dt)
    ts, sl = None, None
    tk = int(r.integers(4))
    if tk == 1:
        ts = T(np.sort(r.uniform(0, 3, n)), [F32, F64][int(r.integers(2))])
    if tk in (2, 3):
        sl = int(r.choice([0, 1, 16000, 123457]))
        if tk == 3 and r.integers(2):
            ts = T(np.sort(r.uniform(0, 3, n)))
    si = extra(r) if r.uniform() < 0.6 else None
    ex = {f"e{i}": extra(r) for i in range(int(r.integers(4)))} if r.uniform() < 0.6 else None
    before = plain([si, ex])
    args = dict(room=room, sources=src, mics=mic, rirs=rirs, src_traj=st, mic_traj=mt, timestamps=ts, signal_len=sl, source_info=si, extra=ex)
    if r.integers(2):
        args = {k: v for k, v in args.items() if v is not None}
    snaps = [(k, v.clone()) for k, v in args.items() if torch.is_tensor(v)]
    info = dict(dim=dim, S=S, M=M, motion=motion, T=n, L=L, dtype=str(dt), ts=tk, sl=sl, fs=fs)
    how = int(r.integers(3))
    path = d / "sub" / "m.json"
    if r.uniform() < 0.4:  # an earlier scene's statement is already there
        path.parent.mkdir(parents=True, exist_ok=True)
        tio.save_metadata_json(path, {"room": {"fs": 1.0}, "stale": ["x" * 40] * int(r.choice([1, 4000]))})
    if how == 0:
        m = tio.build_metadata(**args)
        tio.save_metadata_json(path, m)
    else:
        m = tio.save_scene_metadata(out_dir=path.parent, metadata_name=path.name, logger=logging.getLogger("vf") if how == 2 else None, **args)
    text = path.read_text(encoding="utf-8")

    def bad_const(v):
        raise ValueError(v)

    try:
        back = json.loads(text, parse_constant=bad_const)
    except ValueError as e:
        ctx.fail("json", f"metadata file is not strict JSON: {e}", **info)
        return
    ctx.expect(back == m, "json:roundtrip", "metadata read back differs from the metadata returned", **info)
    g = m.get
    want = dict(size=tolist(room.size), c=c, beta=tolist(kw.get("beta")), t60=kw.get("t60"), fs=fs)
    got = g("room") or {}
    if kw.get("t60") is not None:
        want.pop("beta")
    for k, v in want.items():
        ctx.expect(k in got and (got[k] == v or (k == "t60" and v is not None and abs(got[k] - v) < 1e-6)), f"room:{k}", f"room.{k} is {got.get(k)!r}, given {v!r}", **info)
    ctx.expect(m["sources"]["positions"] == tolist(src.positions) and m["sources"]["orientation"] == tolist(so), "sources", "source positions/orientation not as given", **info)
    ctx.expect(m["mics"]["positions"] == tolist(mic.positions) and m["mics"]["orientation"] == tolist(mo), "mics", "mic positions/orientation not as given", **info)
    ctx.expect(m["rirs_shape"] == list(shape), "rirs_shape", f"rirs_shape {m['rirs_shape']}", **info)
    ctx.expect(m["dynamic"] is (n > 1), "dynamic", f"dynamic={m['dynamic']} with {n} steps", **info)
    ta = m["time_axis"]
    ctx.expect(ta["fs"] == fs and ta["nsample"] == L and len(ta["t"]) == L, "time_axis", "time axis does not match the RIR length", **info)
    if len(ta["t"]) == L:
        ctx.expect(np.abs(np.array(ta["t"]) - np.arange(L) / fs).max() <= 1e-6 * L / fs, "time_axis:t", "time axis values wrong", **info)
    sn = np_(src.positions)[None] if st is None else np_(st).reshape(st.shape[0], -1, dim)
    mn = np_(mic.positions)[None] if mt is None else np_(mt).reshape(mt.shape[0], -1, dim)
    sn, mn = np.broadcast_to(sn, (n,) + sn.shape[1:]), np.broadcast_to(mn, (n,) + mn.shape[1:])
    if n > 1:
        for nm, w in (("sources", sn), ("mics", mn)):
            q = np.array(m["trajectories"][nm], float) if m["trajectories"][nm] is not None else np.zeros(0)
            ctx.expect(q.shape == w.shape and np.array_equal(q, w), f"trajectories:{nm}", f"{nm} trajectory not as simulated", **info)
    else:
        ctx.expect(m["trajectories"]["sources"] is None and m["trajectories"]["mics"] is None, "trajectories:static", "static scene with trajectories", **info)
    v = sn[:, :, None] - mn[:, None]
    az, el = np.array(m["doa"]["azimuth"]), np.array(m["doa"]["elevation"])
    if ctx.expect(az.shape == v.shape[:-1] == el.shape, "doa:shape", f"doa shape {az.shape}, expected {v.shape[:-1]}", **info):
        e = 2e-7 if dt == F32 else 1e-15
        rxy = np.hypot(v[..., 0], v[..., 1])
        tol = 1e-9 * 0 + 4 * e * (size.max() * 4) / np.maximum(rxy, 1e-30) + 4 * e * 4
        da = np.angle(np.exp(1j * (az - np.arctan2(v[..., 1], v[..., 0]))))
        ok = (np.abs(da) <= tol) | (tol > 0.5)
        ctx.expect(ok.all(), "doa:azimuth", f"azimuth error {np.abs(da)[~ok].max() if (~ok).any() else 0:.3g}", **info)
        ctx.count("doa_angles", int(az.size))
        want_el = np.arctan2(v[..., 2], rxy) if dim == 3 else np.zeros_like(rxy)
        rr = np.linalg.norm(v, axis=-1)
        tol = 4 * e * size.max() * 4 / np.maximum(rr, 1e-30) + 16 * e
        ok = (np.abs(el - want_el) <= tol) | (tol > 0.5)
        ctx.expect(ok.all(), "doa:elevation", f"elevation error {np.abs(el - want_el)[~ok].max() if (~ok).any() else 0:.3g}", **info)
    ctx.expect(m["doa"].get("frame") == "world" and m["doa"].get("unit") == "radians", "doa:frame", "frame/unit", **info)
    tm = m["timestamps"]
    if ts is not None:
        ctx.expect(tm == tolist(ts), "timestamps:given", "timestamps not as given", **info)
    elif n > 1 and sl is not None:
        w = np.linspace(0, max(0.0, (sl - 1) / fs), n)
        ctx.expect(tm is not None and len(tm) == n and np.abs(np.array(tm) - w).max() <= 1e-6 * (1 + w[-1]), "timestamps:derived", f"derived timestamps wrong: {tm and tm[:5]}", **info)
    else:
        ctx.expect(tm is None, "timestamps:absent", f"timestamps invented: {tm}", **info)
    a = m["array"]
    q = np_(mic.positions)
    ctx.expect(a["positions"] == tolist(mic.positions) and a["orientation"] == tolist(mo), "array", "array positions/orientation", **info)
    ctx.expect(np.abs(np.array(a["center"]) - q.mean(0)).max() <= (3e-6 if dt == F32 else 1e-12) * size.max(), "array:center", "array centre wrong", **info)
    if M == 1:
        ctx.expect(a["spacing"] is None, "array:spacing", "spacing for a single mic", **info)
    else:
        dd = np.linalg.norm(q[:, None] - q[None], axis=-1)[np.triu_indices(M, 1)].min()
        ctx.expect(a["spacing"] is not None and abs(a["spacing"] - dd) <= (2e-6 if dt == F32 else 1e-12) * size.max(), "array:spacing", f"spacing {a['spacing']} but closest mics are {dd:.6f} apart", **info)
    if si is not None:
        ctx.expect(m["source_info"] == plain(si), "source_info", "source_info changed", **info)
    else:
        ctx.expect("source_info" not in m, "source_info:absent", "source_info invented", **info)
    if ex:
        ctx.expect(m["extra"] == plain(ex), "extra", "extra changed", **info)
    ctx.expect(plain([si, ex]) == before and all(torch.equal(args[k], v) for k, v in snaps), "mutated", "inputs modified", **info)
    ctx.nontrivial("meta", dim, M > 25, M == 1, motion, tk, str(dt), how, so is not None, mo is not None)
    ctx.sample(info)


@dataclass
class Own:
    dataset: str
    source: str
    license_name: str
    license_url: str
    required_attribution: str
    subset: str | None = None


class HasDict:
    def __init__(self, d):
        self.d = d

    def to_dict(self):
        return dict(self.d)


def run(spec, ctx):
    r = ctx.rng
    d = ctx.tmp()
    kind = spec["kind"]
    if kind == "meta":
        run_meta(r, ctx, d)
    elif kind == "reject":
        dim = int(r.choice([2, 3]))
        room = Room.shoebox(T(np.full(dim, 5.0)), fs=16000.0, beta=T(np.full(2 * dim, 0.5)))
        src, mic = Source.from_positions(T(r.uniform(1, 4, (2, dim)))), MicrophoneArray.from_positions(T(r.uniform(1, 4, (3, dim))))
        base = dict(room=room, sources=src, mics=mic, rirs=torch.zeros(2, 3, 8))
        o = 5 - dim
        bads = [("steps", dict(src_traj=T(np.ones((4, 2, dim))), mic_traj=T(np.ones((5, 3, dim))))), ("dim3", dict(src_traj=T(np.ones((4, 2, o))))), ("dim2", dict(mic_traj=T(np.ones((4, o))))),
                ("rank1", dict(src_traj=T(np.ones(dim)))), ("rank4", dict(mic_traj=T(np.ones((1, 4, 3, dim))))),
                ("pos-dim", dict(sources=Source.from_positions(T(np.ones((2, o))))))]
        for nm, k in bads:
            ok, e = raises(ValueError, lambda: tio.save_scene_metadata(out_dir=d, metadata_name="m.json", **{**base, **k}))
            ctx.expect(ok, f"reject:{nm}", f"{nm}: " + ("accepted" if not isinstance(e, Exception) else repr(e)[:200]))
            ctx.nontrivial(kind, nm, dim)
        ok, e = raises(TypeError, lambda: tio.build_metadata(**base, src_traj=[[1.0] * dim]))
        ctx.expect(ok, "reject:type", f"list trajectory: {e!r}"[:200])
        ctx.expect(not (d / "m.json").exists(), "reject:file", "a rejected call wrote a metadata file")
    else:
        ds = str(r.choice(["cmu_arctic", "librispeech", "CMU_ARCTIC", "LibriSpeech"]))
        sub = str(r.choice(["train-clean-100", "dev-clean"])) if r.integers(2) else None
        info = attribution_for(ds, subset=sub) if sub or r.integers(2) else attribution_for(ds)
        lib = ds.lower() == "librispeech"
        ctx.expect(isinstance(info, DatasetAttribution) and info.dataset_key == ds.lower(), "attr:key", f"{info}")
        ctx.expect(all(isinstance(getattr(info, f), str) and getattr(info, f).strip() for f in ("dataset", "source", "license_name", "license_url", "required_attribution")), "attr:fields", f"empty required field in {info}")
        ctx.expect(("CMU ARCTIC" in info.dataset and "Carnegie Mellon" in info.required_attribution and "festvox" in info.source) if not lib else ("LibriSpeech" in info.dataset and "CC BY 4.0" in info.license_name and "Panayotov" in info.required_attribution and "openslr.org/12" in info.source), "attr:content", f"{info}")
        ctx.expect(info.attribution_required is True, "attr:required", "attribution not marked as required")
        if lib:
            ctx.expect(info.subset == sub, "attr:subset", f"subset {info.subset} != {sub}")
        ctx.expect(info.to_dict() == asdict(info) and json.loads(json.dumps(info.to_dict())) == info.to_dict(), "attr:dict", "to_dict")
        ok, e = raises(ValueError, lambda: attribution_for(str(r.choice(["timit", "", "cmu", "libri"]))))
        ctx.expect(ok, "attr:unknown", f"unknown dataset gave {e!r}")
        dyn = bool(r.integers(2))
        notes = default_modification_notes(dynamic=dyn)
        ctx.expect(any(("ynamic" in x) for x in notes) == dyn and any("tatic" in x for x in notes) == (not dyn) and len(notes) >= 3, "attr:notes", f"{notes}")
        mods = notes + [f"note {i} é" for i in range(int(r.integers(0, 4)))] if r.integers(2) else [f"only {int(r.integers(99))}"] * int(r.integers(0, 3))
        dd = info.to_dict()
        form = int(r.integers(5))
        if form == 1:
            obj = dd
        elif form == 2:
            obj = HasDict(dd)
        elif form == 3:
            dd = {k: f"v-{k}-{int(r.integers(1000))}" for k in ("dataset", "source", "license_name", "license_url", "required_attribution")}
            dd["subset"] = "sub-x" if r.integers(2) else None
            obj = Own(**dd)
        elif form == 4:
            dd = {k: f"w-{k}" for k in ("required_attribution", "license_url", "license_name", "source", "dataset")}
            obj = dd
        else:
            obj = info
        out = d / "o" if r.integers(2) else d
        nm = str(r.choice(["ATTRIBUTION.txt", "LICENSE-data.txt"]))
        k = {} if nm == "ATTRIBUTION.txt" and r.integers(2) else dict(attribution_name=nm)
        keep = list(mods)
        if r.uniform() < 0.5:  # an earlier notice is already there: the same corpus, other subset and notes, or another file
            if r.integers(3):
                old = {**dd, "subset": str(r.choice(["dev-clean", "sub-old"]))} if r.integers(2) else {**dd, "license_name": "old", "required_attribution": "nobody"}
                tio.save_attribution_file(out_dir=out, dataset_attribution=old, modifications=["an earlier note"] * int(r.integers(1, 30)), attribution_name=nm)
            else:
                out.mkdir(parents=True, exist_ok=True)
                (out / nm).write_text("- stale\n" * int(r.choice([1, 500])), encoding="utf-8")
        p = tio.save_attribution_file(out_dir=out, dataset_attribution=obj, modifications=mods, logger=logging.getLogger("vf") if r.integers(2) else None, **k)
        ctx.expect(p == out / nm and p.is_file(), "file:path", f"returned {p}")
        lines = p.read_text(encoding="utf-8").splitlines()
        for f in ("dataset", "source", "license_name", "license_url", "required_attribution"):
            ctx.expect(any(str(dd[f]) in x and ":" in x for x in lines), f"file:{f}", f"{f} missing from the attribution file")
        for a, b in (("Dataset:", "dataset"), ("Source:", "source"), ("License:", "license_name"), ("License URL:", "license_url"), ("Required attribution:", "required_attribution")):
            ctx.expect(f"{a} {dd[b]}" in lines, f"file:label:{b}", f"line '{a} ...' is wrong")
        if dd.get("subset") is not None:
            ctx.expect(any(str(dd["subset"]) in x for x in lines), "file:subset", "subset missing")
        else:
            ctx.expect(not any(x.lower().startswith("subset") for x in lines), "file:subset:absent", "subset invented")
        got = [x[2:] for x in lines if x.startswith("- ")]
        ctx.expect(got == keep and mods == keep, "file:mods", f"modification notes {got} != {keep}")
        miss = dict(dd)
        miss.pop(str(r.choice(["dataset", "source", "license_name", "license_url", "required_attribution"])))
        q = d / "miss"
        for o in (miss, HasDict(miss)):
            ok, e = raises(ValueError, lambda: tio.save_attribution_file(out_dir=q, dataset_attribution=o, modifications=mods))
            ctx.expect(ok and not (q / "ATTRIBUTION.txt").exists(), "file:missing", f"missing field: {e!r}"[:200])
        ok, e = raises(TypeError, lambda: tio.save_attribution_file(out_dir=q, dataset_attribution=42, modifications=mods))
        ctx.expect(ok, "file:type", f"non-mapping: {e!r}"[:200])
        ctx.nontrivial(kind, ds, form, sub, dyn, len(mods), nm)
