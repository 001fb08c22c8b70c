"""C26: reproducibility, isolation and overwrite safety of dataset generation."""
import logging
import os
import random
import shutil
import subprocess
import sys

import numpy as np
import soundfile as sf
import torch

from vf import dyn, fsmon
from vf.core import REPO
from vf.tr import raises
from torchrir.datasets import build_dynamic_cmu_arctic_dataset as build

ID = "C26"
TECH = "history monitor: the same request is built under many process histories (disturbed global random state, earlier builds, failed builds, other directories, threads, fresh interpreters with other hash seeds and locales) and the output trees compared byte for byte; file-system snapshots around the output directory, random-state monitors and injected write faults"
NOTE = "Byte identity is claimed for the audio and JSON files; rendered images and videos are left out."
RULE = "random feasible requests x histories {same process, after other builds, after a failing build, other location/cwd, disturbed or seeded global RNGs, existing dataset overwritten, write fault at the k-th file then rebuild, fresh process}, and existing trees (files, nested, symlinks out, read-only) with overwrite on/off/rejected; class = (kind, history, sources, scenes)"
NEED = {"assertions": 1200, "trees_compared": 250, "fresh_processes": 3, "faults_injected": 15}
TIMEOUT = {"quick": 500, "thorough": 850}
HIST = ["again", "rng", "after-other", "after-failure", "moved", "overwrite", "sizes"]


def cases(tier):
    n = 60 if tier == "quick" else 2100
    out = [{"kind": "history", "h": h, "i": i} for i in range(n) for h in HIST]
    out += [{"kind": "fault", "i": i} for i in range(n)]
    out += [{"kind": "existing", "i": i} for i in range(n * 2)]
    out += [{"kind": "seeds", "i": i} for i in range(n // 2)]
    out += [{"kind": "fresh", "i": i} for i in range(6 if tier == "quick" else 60)]
    return out


def states():
    return random.getstate(), np.random.get_state()[1].tobytes() + bytes([np.random.get_state()[2] % 256]), torch.get_rng_state().numpy().tobytes(), torch.get_default_dtype(), os.getcwd()


def disturb(r):
    random.seed(int(r.integers(1 << 30)))
    np.random.seed(int(r.integers(1 << 30)))
    torch.manual_seed(int(r.integers(1 << 30)))


def quiet():
    lg = logging.getLogger("vf.quiet")
    lg.setLevel(100)
    return lg


def plain(kw):
    return {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in kw.items()}


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    t = ctx.tmp()
    fs = int(r.choice([2000, 8000]))
    cmu = t / "corpora" / "cmu"
    utts = dyn.corpus(r, cmu, fs, n=int(r.integers(2, 6)))
    kw = dyn.request(r, list(utts), fs, small=True)
    lg = quiet()
    info = dict(kind=kind, h=spec.get("h"), kw=plain({k: v for k, v in kw.items() if not k.startswith("save")}))

    def make(out, root=cmu, **over):
        st = states()
        build(cmu_root=root, dataset_root=out, logger=lg, **{**kw, **over})
        ctx.expect(st == states(), f"{kind}:rng", "global random state, default dtype or working directory changed", **info)

    def same(a, b, key, msg):
        x, y = fsmon.tree(a), fsmon.tree(b)
        bad = sorted(k for k in set(x) | set(y) if x.get(k) != y.get(k))
        ctx.expect(not bad, key, f"{msg}: {bad[:4]} differ", **info)
        ctx.count("trees_compared")

    (t / "out").mkdir()
    write = {"a/keep.txt": b"1", "a/scene_0000/mixture.wav": b"2", "b.txt": b"3"}
    fsmon.write_tree(t / "neighbour", write)
    if kind == "history":
        h = spec["h"]
        ref = t / "out" / "ref"
        make(ref)
        if h == "rng":
            disturb(r)
            random.random(), np.random.rand(int(r.integers(1, 900))), torch.rand(int(r.integers(1, 9)))
        elif h == "after-other":
            for k in range(int(r.integers(1, 3))):
                other = dyn.request(r, list(utts), fs, small=True)
                build(cmu_root=cmu, dataset_root=t / "out" / f"o{k}", logger=lg, **other)
        elif h == "after-failure":
            raises(Exception, lambda: make(t / "out" / "f", rt60=-1.0))
            raises(Exception, lambda: make(t / "out" / "g", speakers=["slp"], n_sources=1, n_moving_sources=0))
        snap = fsmon.snapshot(t, exclude=[t / "out"])
        if h == "moved":
            r2 = t / "elsewhere" / "deep" / "cmu copy"
            shutil.copytree(cmu, r2)
            old = os.getcwd()
            os.chdir(t / "elsewhere")
            try:
                from pathlib import Path

                make(Path("deep/../out two"), root=Path("deep") / "cmu copy")
                same(ref, t / "elsewhere" / "out two", "location", "corpus or output location changes the dataset")
            finally:
                os.chdir(old)
            ctx.expect(sorted(p.name for p in (t / "elsewhere").iterdir()) == ["deep", "out two"], "outside", "other files created", **info)
        elif h == "overwrite":
            tgt = t / "out" / "tgt"
            make(tgt, seed=kw["seed"] + 1, n_scenes=3)
            (tgt / "junk").mkdir()
            (tgt / "junk" / "old.wav").write_bytes(b"x")
            os.symlink(t / "neighbour", tgt / "link")
            os.symlink(t / "neighbour/b.txt", tgt / "scene_0000" / "linkfile")
            make(tgt, overwrite=True)
            same(ref, tgt, "overwrite", "overwriting gives a different dataset than a new build")
            ctx.expect(not fsmon.specials(tgt) and not (tgt / "junk").exists(), "leftover", "something of the old dataset remains", **info)
        elif h == "sizes":
            make(t / "out" / "again", speakers=tuple(kw["speakers"]), room_size=np.array(kw["room_size"], dtype=np.float64), source_margin=tuple(float(v) for v in kw["source_margin"]))
            same(ref, t / "out" / "again", "forms", "list, tuple and array arguments give different datasets")
        else:
            make(t / "out" / "again")
            same(ref, t / "out" / "again", "repeat", f"the same request gives different files ({h})")
        if h != "moved":
            d = fsmon.diff(snap, fsmon.snapshot(t, exclude=[t / "out"]))
            ctx.expect(not d, "outside", f"files outside the output changed: {d[:3]}", **info)
        ctx.nontrivial(kind, h, kw["n_sources"], kw["n_scenes"])
    elif kind == "fault":
        ref, tgt = t / "out" / "ref", t / "out" / "tgt"
        make(ref)
        snap = fsmon.snapshot(t, exclude=[t / "out"])
        total = len([f for f in fsmon.tree(ref) if f.endswith(".wav")])
        at = int(r.integers(total))
        real, seen = sf.write, [0]

        def bad(file, *a, **k):
            seen[0] += 1
            if seen[0] == at + 1:
                if r.integers(2):
                    real(file, *a, **k)
                raise OSError(28, "No space left on device")
            return real(file, *a, **k)

        st = states()
        sf.write = bad
        try:
            ok, e = raises(OSError, lambda: build(cmu_root=cmu, dataset_root=tgt, logger=lg, **kw))
        finally:
            sf.write = real
        if seen[0] > at:
            ctx.count("faults_injected")
            ctx.expect(ok, "fault:error", f"a failing write gave {e!r}", **info)
            ctx.expect(st == states(), "fault:rng", "global state changed by a failing build", **info)
            if tgt.exists():
                p = fsmon.snapshot(t / "out")
                ok, e = raises(FileExistsError, lambda: make(tgt))
                ctx.expect(ok and p == fsmon.snapshot(t / "out"), "fault:exists", f"a partial dataset was silently continued: {e!r}", **info)
                make(tgt, overwrite=True)
            else:
                make(tgt)
            same(ref, tgt, "fault:rebuild", "after a failed build the rebuilt dataset differs")
        d = fsmon.diff(snap, fsmon.snapshot(t, exclude=[t / "out"]))
        ctx.expect(not d, "outside", f"files outside the output changed: {d[:3]}", **info)
        ctx.nontrivial(kind, at, total)
    elif kind == "existing":
        tgt = t / "out" / "tgt"
        fsmon.write_tree(tgt, {"scene_0000/mixture.wav": b"old", "scene_0099/metadata.json": b"{}", ".hidden": b"h", "deep/er/file": b"f"})
        os.symlink(t / "neighbour", tgt / "deep" / "out")
        os.symlink(cmu, tgt / "cmu")
        if r.integers(2):
            os.chmod(tgt / "deep", 0o555)
        what = int(r.integers(4))
        snap = fsmon.snapshot(t)
        ext = fsmon.snapshot(t, exclude=[t / "out"])
        if what == 0:
            ok, e = raises(FileExistsError, lambda: make(tgt))
            ctx.expect(ok, "existing:error", f"existing dataset without overwrite gave {e!r}", **info)
            d = fsmon.diff(snap, fsmon.snapshot(t))
            ctx.expect(not d, "existing:touched", f"existing dataset changed without overwrite: {d[:3]}", **info)
        elif what == 1:
            make(tgt, overwrite=True)
            ctx.expect(sorted(p.name for p in tgt.iterdir()) == [f"scene_{i:04d}" for i in range(kw["n_scenes"])], "existing:leftover", f"{sorted(p.name for p in tgt.iterdir())}", **info)
            ctx.expect(not fsmon.specials(tgt), "existing:leftover", "links of the old dataset remain", **info)
        else:
            bad = [dict(n_sources=99), dict(rt60=0.0), dict(speakers=["nobody"], n_sources=1, n_moving_sources=0), dict(room_size=[3.0, 3.0, 3.0]), dict(duration_sec=-1.0), dict(octa_edge_m=-1.0), dict(move_start_ratio=0.9, move_end_ratio=0.2), dict(trajectory_steps=0)][int(r.integers(8))]
            ok, e = raises((ValueError, FileNotFoundError), lambda: make(tgt, overwrite=what == 2, **bad))
            ctx.expect(ok or isinstance(e, FileExistsError), "existing:reject", f"{bad} gave {e!r}", **info)
            d = fsmon.diff(snap, fsmon.snapshot(t))
            ctx.expect(not d, "existing:rejected-touched", f"rejected request {bad} changed the existing dataset: {d[:3]}", **info)
        d = fsmon.diff(ext, fsmon.snapshot(t, exclude=[t / "out"]))
        ctx.expect(not d, "outside", f"files outside the output changed: {d[:3]}", **info)
        ctx.nontrivial(kind, what)
    elif kind == "seeds":
        trees = []
        kw.update(duration_sec=0.3, rir_samples=400)
        info["kw"] = plain(kw)
        # seeds that differ little, or only in their high bits
        far = 2 ** int(r.choice([8, 10, 15, 16, 20, 24, 30, 31, 32, 48, 63, 64]))
        for k in range(3):
            make(t / "out" / str(k), seed=kw["seed"] + (0, int(r.choice([1, 977])), far)[k])
            trees.append(fsmon.tree(t / "out" / str(k)))
        for a in range(3):
            for b in range(a):
                ctx.expect(trees[a]["scene_0000/metadata.json"] != trees[b]["scene_0000/metadata.json"] and trees[a]["scene_0000/mixture.wav"] != trees[b]["scene_0000/mixture.wav"], "seeds", "different seeds give the same scene", **info)
        if kw["n_scenes"] > 1:
            ctx.expect(trees[0]["scene_0000/mixture.wav"] != trees[0]["scene_0001/mixture.wav"], "scenes-equal", "two scenes of a dataset are the same", **info)
        ctx.nontrivial(kind, kw["n_sources"], kw["n_scenes"])
    else:
        ref = t / "out" / "ref"
        make(ref)
        tgt = t / "out" / "fresh"
        code = f"""
import sys, logging; sys.path.insert(0, {str(REPO / 'src')!r})
import torch; torch.set_num_threads(1)
from pathlib import Path
import torchrir
assert torchrir.__file__.startswith({str(REPO)!r})
from torchrir.datasets import build_dynamic_cmu_arctic_dataset as b
b(cmu_root=Path({str(cmu)!r}), dataset_root=Path({str(tgt)!r}), **{plain(kw)!r})
"""
        env = dict(os.environ, PYTHONHASHSEED=str(int(r.integers(1, 9999))), LC_ALL=["C", "C.UTF-8", "tr_TR.UTF-8"][int(r.integers(3))], TZ=["UTC", "Asia/Tokyo"][int(r.integers(2))], HOME=str(t))
        p = subprocess.run([sys.executable, "-c", code], env=env, cwd=t / "neighbour", capture_output=True, text=True, timeout=300)
        ctx.expect(p.returncode == 0, "fresh:fails", f"fresh process failed: {p.stderr[-500:]}", **info)
        if p.returncode == 0:
            same(ref, tgt, "fresh", "a fresh process builds different files")
        ctx.count("fresh_processes")
        ctx.nontrivial(kind, kw["n_sources"])
    ctx.expect({k: v for k, v in fsmon.tree(t / "neighbour").items() if "cache" not in k.lower() and "matplotlib" not in k} == write, "neighbour", "neighbouring files changed", **info)
    ctx.sample(info)
