"""C25: internal consistency of every generated scene."""
import json
import logging
import sys

import numpy as np
import torch

from vf import dyn, fsmon
from vf.tr import raises
import torchrir.datasets.dynamic_cmu_arctic as cli
from torchrir.datasets import build_dynamic_cmu_arctic_dataset as build

ID = "C25"
TECH = "offline checker over generated datasets: every scene directory is read back with an independent reader and checked against a reference model of the request (geometry, motion profile, metadata, file set), and its audio against the dry utterances named in it sent through the stated room and trajectories; file-system monitor for rejected requests"
NOTE = "Corpora are generated stand-ins for CMU ARCTIC; the reverberation reference uses torchrir's own simulate_dynamic_rir and DynamicConvolver, which C01-C16 decide. With a fixed mic centre the array may leave the room if the caller asks for it."
RULE = "random feasible requests (rooms, margins, centres fixed/random, edges, 1..6 sources, 0..all moving, speeds, profiles, 1..21 steps, loud and quiet corpora, list/array arguments, API or command line) and single-fault infeasible ones over an existing or absent dataset; class = (entry, sources, moving, steps, random centre, scaled)"
NEED = {"assertions": 6000, "scenes_checked": 300, "audible_scenes": 150, "moving_sources": 200, "scaled_scenes": 10, "big_cases": 10, "stem_over_mixture": 3, "quiet_mixture": 3, "tiny_audible": 8}
TIMEOUT = {"quick": 400, "thorough": 850}

NAN, INF = float("nan"), float("inf")


def cases(tier):
    n = 570 if tier == "quick" else 17000
    return [{"kind": "api", "i": i} for i in range(n)] + [{"kind": "cli", "i": i} for i in range(n // 8)] + [{"kind": "api", "i": i, "big": b} for i in range(max(3, n // 80)) for b in ("scenes", "steps", "length", "rir")] + [{"kind": "api", "i": i, "big": "tiny"} for i in range(n // 12)] + [{"kind": "api", "i": i, "big": "loud"} for i in range(n // 16)] + [{"kind": "api", "i": i, "big": "cancel"} for i in range(n // 16)] + [{"kind": "reject", "i": i, "f": f} for i in range(max(1, n // 60)) for f in range(len(FAULTS))]


FAULTS = [
    ("n_scenes", 0), ("n_scenes", -3), ("n_sources", 0), ("n_sources", -1), ("n_moving_sources", -1), ("n_moving_sources", "over"), ("n_sources", "over-speakers"), ("n_sources", "over-mics"),
    ("trajectory_steps", 0), ("trajectory_steps", -2), ("duration_sec", 0.0), ("duration_sec", -1.0), ("duration_sec", 1e-9), ("rir_samples", 0), ("rir_samples", -5), ("max_order", -1),
    ("room_size", [8.0, 6.0]), ("room_size", [8.0, 6.0, 3.0, 2.0]), ("room_size", [8.0, -6.0, 3.0]), ("room_size", [0.0, 6.0, 3.0]), ("room_size", [2.0, 2.0, 2.0]), ("mic_center", [1.0, 2.0]), ("source_margin", [0.5]),
    ("rt60", 0.0), ("rt60", -0.2), ("sound_speed", 0.0), ("sound_speed", -340.0), ("octa_edge_m", 0.0), ("octa_edge_m", -1.0), ("octa_edge_m", 100.0), ("move_start_ratio", -0.1), ("move_end_ratio", 1.1), ("ratios", (0.6, 0.4)), ("ratios", (0.5, 0.5)),
    ("moving_speed_min", 0.0), ("moving_speed_min", -1.0), ("speeds", (2.0, 1.0)), ("source_margin", [3.0, 3.0, 0.1]), ("source_margin", "z"), ("mic_center", "wall"), ("speakers", "unknown"), ("speakers", "missing"), ("speakers", "rate"), ("speakers", "empty"), ("speakers", "none"),
    *[(k, v) for k in ("n_scenes", "n_sources", "n_moving_sources", "trajectory_steps", "rir_samples", "max_order") for v in (1.5,)], ("duration_sec", NAN), ("duration_sec", INF), ("rt60", NAN), ("sound_speed", NAN), ("sound_speed", INF), ("octa_edge_m", NAN), ("octa_edge_m", INF),
    ("room_size", [8.0, 6.0, NAN]), ("room_size", [INF, 6.0, 3.0]), ("mic_center", [4.0, NAN, 1.5]), ("mic_center", [4.0, 3.0, NAN]), ("mic_center", [4.0, 3.0, INF]), ("source_margin", [NAN, 0.2, 0.2]), ("source_margin", [0.2, 0.2, NAN]),
    ("moving_speed_min", NAN), ("moving_speed_max", NAN), ("moving_speed_max", INF), ("move_start_ratio", NAN), ("move_end_ratio", NAN), ("seed", -1), ("speakers", "silent"), ("speakers", "twice"),
]


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    t = ctx.tmp()
    fs = int(r.choice([2000, 4000, 8000]))
    utts = dyn.corpus(r, t / "cmu", fs, n=2 if spec.get("big") == "cancel" else int(r.integers(1, 8)), amp=0.95 if spec.get("big") == "tiny" else float(r.uniform(0.12, 0.3)) if spec.get("big") == "cancel" else float(r.choice([0.02, 0.4, 0.95])), **(dict(loud=spec["big"] == "loud" or "cancel", lo=fs // 2, hi=fs) if spec.get("big") in ("loud", "cancel") else dict(lo=1 if r.uniform() < 0.2 else 60)))
    kw = dyn.request(r, list(utts), fs, big=spec.get("big"))
    ctx.count("big_cases", int("big" in spec))
    out = t / "data" / "set"
    lg = logging.getLogger("vf.quiet")
    lg.setLevel(100)
    info = dict(kind=kind, fs=fs, kw={k: v for k, v in kw.items() if not k.startswith("save")})
    if kind == "api":
        snap = fsmon.snapshot(t / "cmu")
        ret = build(cmu_root=t / "cmu", dataset_root=out, logger=lg, **kw)
        ctx.expect(tuple(ret) == (fs, 6), "return", f"returned {ret}", **info)
        ctx.expect(not fsmon.diff(snap, fsmon.snapshot(t / "cmu")), "corpus-changed", "corpus changed", **info)
    elif kind == "cli":
        for k in dyn.DEF:
            kw.pop(k, None)
        kw.setdefault("mic_center", [4.0, 3.0, 1.5])
        j = lambda v: ",".join(repr(float(a)) for a in v)  # noqa: E731
        argv = ["x", "--cmu-root", str(t / "cmu"), "--dataset-root", str(out), "--speakers", *kw["speakers"], "--room-size", j(kw["room_size"]), "--mic-center", j(kw["mic_center"]), "--source-margin", j(kw["source_margin"])]
        for k in ("n_scenes", "n_sources", "n_moving_sources", "duration_sec", "octa_edge_m", "trajectory_steps", "rir_samples", "rt60", "sound_speed", "max_order", "seed"):
            argv += ["--" + k.replace("_", "-"), repr(kw[k])]
        argv += ["--randomize-mic-center" if kw["randomize_mic_center"] else "--no-randomize-mic-center", "--no-save-layout-mp4", "--no-save-layout-images", "--no-download-cmu", "--log-level", "ERROR"]
        old = sys.argv
        sys.argv = argv
        try:
            cli.main()
        finally:
            sys.argv = old
        api = t / "api"
        build(cmu_root=t / "cmu", dataset_root=api, logger=lg, **kw)
        ctx.expect(fsmon.tree(out) == fsmon.tree(api), "cli", "the command line builds a different dataset than the API with the same options", **info)
        sys.argv = argv
        try:
            ok, e = raises(FileExistsError, cli.main)
            ctx.expect(ok, "cli:exists", f"existing dataset gave {e!r}", **info)
            (out / "old.txt").write_text("x")
            sys.argv = argv + ["--overwrite-dataset"]
            cli.main()
        finally:
            sys.argv = old
        ctx.expect(fsmon.tree(out) == fsmon.tree(api), "cli:overwrite", "--overwrite-dataset gives a different dataset", **info)
    else:
        k, v = FAULTS[spec["f"]]
        if len(utts) < 2:
            utts = dyn.corpus(r, t / "cmu", fs, n=3)
        kw.update(speakers=list(utts))
        if k == "ratios":
            kw["move_start_ratio"], kw["move_end_ratio"] = v
        elif k == "move_start_ratio":
            kw[k], kw["move_end_ratio"] = v, 0.65
        elif k == "move_end_ratio":
            kw[k], kw["move_start_ratio"] = v, 0.35
        elif k == "speeds":
            kw["moving_speed_min"], kw["moving_speed_max"] = v
        elif k in ("moving_speed_min", "moving_speed_max"):
            kw.update({"moving_speed_min": 0.4, "moving_speed_max": 1.0, k: v})
            kw["n_moving_sources"] = max(1, kw["n_moving_sources"])
        elif k == "mic_center" and isinstance(v, list) and len(v) == 3:
            kw.update(mic_center=v, randomize_mic_center=False)
        elif v == "twice":
            kw.update(speakers=[kw["speakers"][0]] * 3, n_sources=2, n_moving_sources=0)
        elif k == "n_sources" and v == 1.5:
            kw.update(n_sources=v, n_moving_sources=0)
        elif k == "n_moving_sources" and v == 1.5:
            kw.update(n_sources=2, n_moving_sources=v)
        elif v == "over":
            kw[k] = kw["n_sources"] + 1
        elif v == "over-speakers":
            kw[k] = len(utts) + 1
        elif v == "over-mics":
            for s in dyn.SPK:
                if s not in utts:
                    f, _ = fsmon.cmu_files(r, s, n=2, fs=fs)
                    fsmon.write_tree(t / "cmu/ARCTIC", f)
            kw.update(speakers=dyn.SPK, n_sources=7)
        elif v == "z":
            kw["source_margin"] = [0.2, 0.2, float(kw["room_size"][2]) / 2 + 0.01]
        elif v == "wall":
            kw.update(mic_center=[0.2, float(kw["room_size"][1]) / 2, 1.0], randomize_mic_center=False)
        elif k == "octa_edge_m" and v == 100.0:
            kw.update(octa_edge_m=v, randomize_mic_center=True)
        elif v == "unknown":
            kw["speakers"] = kw["speakers"] + ["nobody"]
        elif v == "missing":
            kw["speakers"] = kw["speakers"] + ["slp"]
        elif v in ("rate", "empty", "silent"):
            f, _ = fsmon.cmu_files(r, "slp", n=2, fs=fs * 2) if v != "silent" else fsmon.cmu_files(r, "slp", n=2, fs=fs, lo=0, hi=1)
            if v == "empty":
                f = {a: b for a, b in f.items() if not a.endswith(".wav")} | {"cmu_us_slp_arctic/wav/readme": b""}
            fsmon.write_tree(t / "cmu/ARCTIC", f)
            kw["speakers"] = kw["speakers"] + ["slp"]
        elif v == "none":
            kw["speakers"] = []
        else:
            kw[k] = v
        mode = int(r.integers(3))
        if mode:
            fsmon.write_tree(out, {"scene_0000/mixture.wav": b"old", "scene_0007/metadata.json": b"{}", "notes.txt": b"keep"})
        snap = fsmon.snapshot(t)
        info = dict(fault=f"{k}={v}", existing=bool(mode))
        ok, e = raises((ValueError, TypeError, ArithmeticError, FileNotFoundError, RuntimeError), lambda: build(cmu_root=t / "cmu", dataset_root=out, logger=lg, overwrite=bool(mode) or bool(r.integers(2)), **kw))
        ctx.expect(ok, f"reject:{k}", f"{k}={v} gave {e!r}", **info)
        if v not in ("missing", "empty", "none", "silent"):
            ctx.expect(not isinstance(e, (FileNotFoundError, RuntimeError)) or not ok, f"reject-type:{k}", f"{k}={v} gave {e!r}", **info)
        d = fsmon.diff(snap, fsmon.snapshot(t))
        ctx.expect(not d, f"reject-wrote:{k}", f"rejected request ({k}={v}) changed the disk: {d[:4]}", **info)
        ctx.nontrivial(kind, k, v, bool(mode))
        ctx.count("rejected")
        return
    names = sorted(p.name for p in out.iterdir())
    ctx.expect(names == [f"scene_{i:04d}" for i in range(kw["n_scenes"])], "scenes", f"{names} for {kw['n_scenes']} scenes", **info)
    for p in sorted(out.iterdir()):
        extra = sorted(f.name for f in p.iterdir() if f.suffix != ".wav")
        ctx.expect(extra == ["metadata.json", "source_info.json"], "files", f"unexpected files {extra}", **info)
        dyn.check_scene(ctx, p, kw, utts, fs, info)
    if kw["n_scenes"] > 1:
        a, b = (fsmon.tree(out / f"scene_000{i}") for i in range(2))
        ctx.expect(json.loads(a["metadata.json"])["sources"] != json.loads(b["metadata.json"])["sources"], "same-scenes", "two scenes have the same source positions", **info)
    ctx.nontrivial(kind, kw["n_sources"], kw["n_moving_sources"], kw["trajectory_steps"], kw["randomize_mic_center"], spec.get("big"), bool(ctx.counts.get("scaled_scenes")))
    ctx.sample(info)
