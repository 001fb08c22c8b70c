"""C32: the example programs, end to end."""
import contextlib
import json
import os
import random
import runpy
import subprocess
import sys
import urllib.request

import numpy as np
import soundfile as sf
import torch

from vf import fsmon
from vf.core import REPO
from vf.tr import raises
from torchrir import MicrophoneArray, Room, Source
from torchrir.datasets import attribution_for, cmu_arctic_speakers
from torchrir.sim import simulate_rir

ID = "C32"
TECH = "end-to-end monitor: the example programs run with random command lines over generated corpora (network calls trapped); an offline checker reads everything they wrote with an independent reader and rebuilds it from the metadata alone (dry utterances, one static simulation per time step, numpy convolution of each segment), reruns compare the files byte for byte"
NOTE = "Corpora are generated stand-ins. The room response itself comes from torchrir's simulate_rir (decided by C01, C06, C12); the assembly into time steps, convolution, mixing, files and statements is the check's own. Pictures are only checked to be there and readable (C27, C28 look into them)."
RULE = "random command lines of every example program (CMU ARCTIC and LibriSpeech stand-ins, 2-D/3-D rooms, 1..4 sources, 1..5 mics, 2..9 steps, 0..all moving, plots and GIFs now and then), saved and reloaded JSON/YAML configurations with overrides, reruns in this and a fresh process, missing corpora; class = (program, dim, sources, mics, steps, plot, rerun)"
NEED = {"assertions": 2500, "runs": 150, "audio_compared": 250, "reruns": 40, "configs_reloaded": 10, "plots_seen": 20, "fresh_processes": 3}
TIMEOUT = {"quick": 500, "thorough": 850}
EX = REPO / "examples"
LSB = 1 / 32768
PROGS = ["cli:static", "cli:dynamic_src", "cli:dynamic_mic", "static", "dynamic_src", "dynamic_mic", "build:cmu_arctic", "build:librispeech"]


def cases(tier):
    n = 36 if tier == "quick" else 900
    out = [{"kind": "run", "prog": p, "i": i} for i in range(n) for p in PROGS]
    out += [{"kind": "missing", "prog": p, "i": i} for i in range(max(1, n // 20)) for p in PROGS]
    out += [{"kind": "fresh", "prog": p, "i": i} for i in range(max(1, n // 40)) for p in PROGS[2:6:3] + PROGS[-1:]]
    return [{"kind": "start", "prog": "getting_started", "i": i} for i in range(1 if tier == "quick" else 3)] + out


class Net(AssertionError):
    pass


@contextlib.contextmanager
def guarded():
    """No network; process-wide settings come back."""
    import matplotlib.pyplot as plt

    old, argv, cwd, path = urllib.request.urlopen, sys.argv, os.getcwd(), list(sys.path)
    det = torch.are_deterministic_algorithms_enabled()
    st = torch.get_rng_state()

    def no(*a, **k):
        raise Net(f"network access: {a[:1]}")

    urllib.request.urlopen = urllib.request.urlretrieve = no
    try:
        yield
    finally:
        urllib.request.urlopen = old
        urllib.request.urlretrieve = RETRIEVE
        sys.argv, sys.path[:] = argv, path
        os.chdir(cwd)
        torch.use_deterministic_algorithms(det)
        torch.set_rng_state(st)
        plt.close("all")


RETRIEVE = urllib.request.urlretrieve


def launch(name, argv):
    with guarded():
        sys.argv = [f"{name}.py", *argv]
        runpy.run_path(str(EX / f"{name}.py"), run_name="__main__")


def corpus(r, root, libri, subset):
    """-> {speaker: {utterance: float samples}}"""
    out = {}
    amp = float(r.choice([0.05, 0.5, 0.95]))
    if libri:
        f, utts = fsmon.libri_files(r, subset, speakers=int(r.integers(4, 7)), lo=300, hi=2500)
        fsmon.write_tree(root, f)
        for u, _, s, _, x in utts:
            out.setdefault(s, {})[u] = x / 32768
        return out
    for s in cmu_arctic_speakers():
        f, utts = fsmon.cmu_files(r, s, n=int(r.integers(1, 4)), lo=300, hi=2500, amp=amp)
        fsmon.write_tree(root / "ARCTIC", f)
        out[s] = {u: x / 32768 for u, _, x in utts}
    return out


def options(r, prog):
    """-> (program file, arguments as a dict)"""
    name, _, mode = prog.partition(":")
    dim = int(r.choice([2, 3, 3]))
    o = dict(
        num_sources=int(r.integers(1, 5)), duration=float(r.choice([0.05, 0.1, 0.25, round(float(r.uniform(0.02, 0.4)), 4)])), seed=int(r.choice([0, 1, 7, *r.integers(0, 1 << 31, 5)])),
        room=[round(float(v), 3) for v in r.uniform(4.5, 9, 2)] + ([round(float(r.uniform(2.6, 4.5)), 3)] if dim == 3 else []),
        order=int(r.integers(0, 4)), tmax=float(r.choice([0.01, 0.02, 0.0333, 0.05])),
    )
    if name == "cli":
        o["mode"] = mode
    else:
        o["num_mics"] = int(r.choice([1, 2, 2, 3, 5]))
    if name != "static" and mode != "static":
        o["steps"] = int(r.choice([2, 3, 4, 5, 9]))
    if name == "dynamic_src" or name == "build":
        o["num_moving_sources"] = int(r.integers(0, o["num_sources"] + 1))
    if name == "build":
        o["num_scenes"] = int(r.integers(1, 4))
        o["dataset"] = mode
        if mode == "librispeech":
            o["subset"] = str(r.choice(["train-clean-100", "dev-clean"]))
    return {"build": "build_dynamic_dataset"}.get(name, name), o


def flags(o):
    out = []
    for k, v in o.items():
        k = "--" + k.replace("_", "-")
        if v is True:
            out.append(k)
        elif isinstance(v, list):
            out += [k, *map(repr, v)]
        else:
            out += [k, v if isinstance(v, str) else repr(v)]
    return out


def near(a, b, tol=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def straight(p, tol=2e-4):
    """p (T, dim) moves evenly along a line"""
    return near(p, p[0] + np.linspace(0, 1, len(p))[:, None] * (p[-1] - p[0]), tol)


def check_scene(ctx, out, base, o, name, utts, plot, gif, info):
    """One mixture with its statements; base is the file name stem. -> names of its files"""
    E = lambda c, k, m, **x: ctx.expect(c, k, m, **info, **x)  # noqa: E731
    mode = o.get("mode", name)
    S, dim = o["num_sources"], len(o["room"])
    M = o.get("num_mics", 2)
    dyn = "steps" in o
    T = o["steps"] if dyn else 1
    meta_name = f"{base}_metadata.json"
    if not E((out / meta_name).is_file() and (out / f"{base}.wav").is_file(), "files", f"{base}.wav or {meta_name} not written"):
        return set()
    m = json.loads((out / meta_name).read_text())
    x = m["extra"]
    fs, L = 16000, int(np.ceil(o["tmax"] * 16000 - 1e-9))
    # statements
    E(near(m["room"]["size"], o["room"]) and near(m["room"]["beta"], [0.9] * (2 * dim), 1e-6) and m["room"]["fs"] == fs and m["room"]["t60"] is None, "room", f"room stated as {m['room']}")
    E(m["rirs_shape"] == ([T] if dyn else []) + [S, M, L] and m["dynamic"] is (T > 1) and m["time_axis"]["nsample"] == L, "shape", f"rirs_shape {m['rirs_shape']} dynamic {m['dynamic']} for T={T} S={S} M={M} L={L}")
    spk = [s for s, _ in m["source_info"]]
    E(len(spk) == S and len(set(spk)) == S and set(spk) <= set(utts), "speakers", f"speakers {spk}")
    ds = o.get("dataset", "cmu_arctic")
    lic = attribution_for(ds, o.get("subset") if ds == "librispeech" else None).to_dict()
    E(x["dataset_license"] == lic and x["attribution_file"] == "ATTRIBUTION.txt" and x["modifications"], "license", f"license {x.get('dataset_license')}")
    att = (out / "ATTRIBUTION.txt").read_text()
    E(all(str(v) in att for v in (lic["dataset"], lic["license_name"], lic["required_attribution"], *x["modifications"])), "attribution", "attribution file does not state the licence and every modification")
    E(x["mode"] == ("dynamic_dataset" if name == "build_dynamic_dataset" else mode), "mode", f"mode {x['mode']}")
    if "args" in x:
        E(all(x["args"][k] == v for k, v in o.items()), "args", f"arguments {x['args']}")
    # geometry
    src0, mic0 = np.array(m["sources"]["positions"], float), np.array(m["mics"]["positions"], float)
    if dyn:
        src, mic = np.array(m["trajectories"]["sources"], float), np.array(m["trajectories"]["mics"], float)
    else:
        src, mic = src0[None], mic0[None]
    if not E(src.shape == (T, S, dim) and mic.shape == (T, M, dim), "traj-shape", f"trajectories {src.shape} {mic.shape}"):
        return {meta_name, f"{base}.wav"}
    E(near(src[0], src0) and near(mic[0], mic0), "start", "positions are not where the trajectories start")
    size = np.array(o["room"])
    E(bool((src > 0).all() and (src < size).all() and (mic > 0).all() and (mic < size).all()), "inside", "an entity is outside the room")
    ctr = mic.mean(1)
    E(bool((np.linalg.norm(src0 - ctr[0], axis=-1) >= 1.5 - 1e-4).all()), "distance", "a source starts nearer than 1.5 m to the array")
    off = mic - ctr[:, None]
    want = (np.arange(M) - (M - 1) / 2) * (0.08 * (2 if M == 2 else 1))
    E(near(off[..., 1:], np.zeros_like(off[..., 1:])) and near(np.sort(off[..., 0], axis=1), np.tile(want, (T, 1))), "array", f"array offsets {off[0].tolist()}")
    if mode == "dynamic_mic":
        E(straight(ctr) and bool(np.ptp(ctr, axis=0).max() > 0), "mic-path", "the array does not move along a line")
        E(bool((src == src[:1]).all()), "src-still", "fixed sources move")
    elif dyn:
        E(bool((mic == mic[:1]).all()), "mic-still", "the fixed array moves")
        moving = [i for i in range(S) if np.ptp(src[:, i], axis=0).max() > 0]
        n = S if name == "cli" else min(S, max(1, o["num_moving_sources"])) if name == "dynamic_src" else o["num_moving_sources"]
        E(len(moving) == n, "moving", f"{len(moving)} sources move, asked for {n}")
        if name == "build_dynamic_dataset":
            E(x["moving_sources"] == moving and all((x["motion_modes"][i] == "static") == (i not in moving) for i in range(S)), "moving-stated", f"{x['moving_sources']} {x['motion_modes']}, moving {moving}")
        for i in moving:
            if name != "build_dynamic_dataset" or x["motion_modes"][i] == "linear":
                E(straight(src[:, i]), "src-path", f"source {i} does not move along a line")
            else:
                k = max(2, T // 2) - 1  # the mid point is where the second leg starts
                E(straight(src[: k + 1, i]) and straight(src[k:, i]), "src-path", f"source {i} does not zigzag through one mid point")
    # audio
    N = int(o["duration"] * fs)
    dry = []
    for s, us in m["source_info"]:
        if not E(bool(us) and set(us) <= set(utts.get(s, ())), "utterances", f"{us} are not all of speaker {s}"):
            return {meta_name, f"{base}.wav"}
        z = np.concatenate([utts[s][u] for u in us])
        E(len(z) >= N > len(z) - len(utts[s][us[-1]]), "utterances", f"{len(z)} samples of {us} for {N}")
        dry.append(z[:N])
    room = Room.shoebox(o["room"], fs=float(fs), beta=[0.9] * (2 * dim))
    stems = np.zeros((S, M, N + L - 1))
    for t in range(T):
        h = simulate_rir(room=room, sources=Source.from_positions(src[t].tolist()), mics=MicrophoneArray.from_positions(mic[t].tolist()), max_order=o["order"], nsample=L).numpy().astype(float)
        a, b = t * N // T, (t + 1) * N // T
        for i in range(S):
            for j in range(M):
                if b > a:
                    stems[i, j, a : b + L - 1] += np.convolve(dry[i][a:b], h[i, j])
    names = {meta_name, f"{base}.wav"}

    def audio(f, ref):
        names.add(f)
        if not E((out / f).is_file(), "files", f"{f} not written"):
            return
        y, rate = sf.read(out / f, always_2d=True)
        if E(rate == fs and y.T.shape == ref.shape, "audio-shape", f"{f}: {y.T.shape} at {rate}, want {ref.shape}"):
            pk = float(np.abs(ref).max())  # files are saved with their peak at full scale
            e = float(np.abs(y.T - ref / (pk or 1.0)).max())
            E(e <= 1.1 * LSB + (1e-5 if pk else 0), "audio", f"{f} is not the dry speech through the stated room and positions, at full scale ({e / LSB:.2f} LSB off)")
            ctx.count("audio_compared")
            ctx.count("audible", pk > 0)

    audio(f"{base}.wav", stems.sum(0))
    if name != "cli":
        want = [dict(index=i, filename=f"{base}_ref{i + 1:02d}.wav", speaker=spk[i], utterances=m["source_info"][i][1], kind="convolved") for i in range(S)]
        E(x["reference_audio"] == want, "references", f"reference_audio {x['reference_audio']}")
        for i in range(S):
            audio(f"{base}_ref{i + 1:02d}.wav", stems[i])
    # pictures
    prefix = mode if name == "cli" else base
    if plot:
        names |= {f"{prefix}_static_{d}d.png" for d in ((2, 3) if dim == 3 else (2,))}
        if dyn:
            names |= {f"{prefix}_dynamic_{d}d.png" for d in ((2, 3) if dim == 3 else (2,))}
    if gif and not (name == "cli" and not dyn):
        names |= {f"{prefix}.gif"} | ({f"{prefix}_3d.gif"} if dim == 3 else set())
    return names


def verify(ctx, out, o, name, utts, plot, gif, info):
    if name == "build_dynamic_dataset":
        bases = [f"scene_{i:03d}" for i in range(o["num_scenes"])]
    elif name == "cli":
        bases = [f"{o['mode']}_binaural"]
    else:
        bases = [name]
    names = {"ATTRIBUTION.txt"}
    for b in bases:
        names |= check_scene(ctx, out, b, o, name, utts, plot, gif, info)
    if name == "build_dynamic_dataset":
        mics = {json.dumps(json.loads((out / f"{b}_metadata.json").read_text())["mics"]) for b in bases if (out / f"{b}_metadata.json").is_file()}
        ctx.expect(len(mics) == 1, "one-array", "the microphones differ between the scenes of one dataset", **info)
    have = {str(p.relative_to(out)) for p in out.rglob("*")}
    ctx.expect(have == names, "file-set", f"files not promised: {sorted(have - names)}, promised but missing: {sorted(names - have)}", **info)
    for p in out.rglob("*"):
        if p.suffix in (".png", ".gif"):
            from PIL import Image

            with Image.open(p) as im:
                im.load()
                ctx.expect(im.size[0] > 50 and im.size[1] > 50, "picture", f"{p.name} is {im.size}", **info)
            ctx.count("plots_seen")


def same_but_place(ctx, a, b, key, msg, **info):
    """The trees hold the same bytes, metadata apart from the output directory."""
    ta, tb = fsmon.tree(a), fsmon.tree(b)
    pic = lambda t: {k: v for k, v in t.items() if not k.endswith((".png", ".gif"))}  # noqa: E731
    ta, tb = pic(ta), pic(tb)

    def norm(k, v):
        if not k.endswith(".json"):
            return v
        d = json.loads(v)
        for n in ("out_dir", "plot", "gif", "show", "num_scenes", "download"):
            d.get("extra", {}).get("args", {}).pop(n, None)
        return d

    bad = [k for k in sorted(set(ta) | set(tb)) if k not in ta or k not in tb or norm(k, ta[k]) != norm(k, tb[k])]
    ctx.expect(not bad, key, f"{msg}: {bad[:5]}", **info)
    ctx.count("reruns")


def getting_started(ctx, r, t):
    """The documented first program: what it computed (its variables) and what it stored."""
    utts = corpus(r, t / "datasets/cmu_arctic", False, "")
    with guarded():
        os.chdir(t)
        sys.argv = ["getting_started.py"]
        with contextlib.redirect_stdout(open(os.devnull, "w")):
            v = runpy.run_path(str(EX / "getting_started.py"), run_name="__main__")
    d = t / "docs/assets/getting-started"
    if not {"signals", "fs", "source_info", "steps", "src_traj", "mic_traj", "rirs_dynamic", "rirs_static", "room", "src_pos", "mic_pos"} <= set(v):
        ctx.count("start_opaque")
        return
    sig, fs = v["signals"].numpy().astype(float), v["fs"]
    for (s, us), z in zip(v["source_info"], sig):
        w = np.concatenate([utts[s][u] for u in us])[: len(z)]
        ctx.expect(len(z) == 10 * fs and near(z, w, 1e-6), "start:signals", f"speaker {s} is not the utterances named")
    T = v["steps"]
    src, mic = v["src_traj"], v["mic_traj"]
    rd, rs = v["rirs_dynamic"].numpy().astype(float), v["rirs_static"].numpy().astype(float)
    kw = dict(room=v["room"], max_order=6, tmax=0.4)
    ctx.expect(near(rs, simulate_rir(sources=Source.from_positions(v["src_pos"]), mics=MicrophoneArray.from_positions(v["mic_pos"]), **kw), 1e-6), "start:static", "static RIRs are not those of the positions")
    for k in sorted({0, T - 1, *r.integers(0, T, 4)}):
        h = simulate_rir(sources=Source.from_positions(src[k]), mics=MicrophoneArray.from_positions(mic[k]), **kw)
        ctx.expect(near(rd[k], h, 1e-5 * float(h.abs().max())), "start:dynamic", f"step {k} is not the RIR of the positions at that step")
    N, L = sig.shape[1], rd.shape[-1]
    still, move = np.zeros((2, N + L - 1)), np.zeros((2, N + L - 1))
    n = 1 << int(np.ceil(np.log2(N + L)))
    for i in range(2):
        still += np.fft.irfft(np.fft.rfft(sig[i], n) * np.fft.rfft(rs[i], n), n)[:, : N + L - 1]
        for k in range(T):
            a, b = k * N // T, (k + 1) * N // T
            for j in range(2):
                move[j, a : b + L - 1] += np.convolve(sig[i, a:b], rd[k, i, j])
    want = {f"{m}_original_src{i + 1:02d}.wav": sig[i : i + 1] for m in ("static", "dynamic") for i in range(2)} | {"static_convolved.wav": still, "dynamic_convolved.wav": move}
    for f, ref in want.items():
        y, rate = sf.read(d / f, always_2d=True)
        ok = rate == fs and y.T.shape == ref.shape and np.abs(y.T - ref / np.abs(ref).max()).max() <= 1.1 * LSB + 3e-5
        ctx.expect(ok, "start:audio", f"{f} is not the program's signal through its RIRs, at full scale")
        ctx.count("audio_compared")
    pics = {"layout_static.png", "layout_dynamic.gif"} | {f"{a}_{b}_pair.png" for a in ("static", "dynamic") for b in ("original_src01", "original_src02", "convolved_mic1", "convolved_mic2")}
    have = {p.name for p in d.rglob("*")}
    ctx.expect(have == set(want) | pics, "start:file-set", f"missing {sorted((set(want) | pics) - have)}, extra {sorted(have - set(want) - pics)}")
    from PIL import Image

    with Image.open(d / "layout_dynamic.gif") as im:
        ctx.expect(im.n_frames >= 2, "start:gif", f"{im.n_frames} frames")
    ctx.count("plots_seen", len(pics))
    ctx.count("runs")
    ctx.nontrivial("getting_started")


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    t = ctx.tmp()
    if kind == "start":
        getting_started(ctx, r, t)
        return
    name, o = options(r, spec["prog"])
    libri = o.get("dataset") == "librispeech"
    root = t / "corpus"
    info = dict(kind=kind, prog=spec["prog"], options=o)
    lvl = ["--log-level", "ERROR"]
    if kind == "missing":
        root.mkdir()
        trap = ["--no-download"] if name != "build_dynamic_dataset" else []
        for extra in (trap, []) if trap else ([],):
            out = t / f"out{len(extra)}"
            ok, e = raises((FileNotFoundError, RuntimeError, ValueError, OSError, Net), lambda: launch(name, flags(o) + ["--dataset-dir", str(root), "--out-dir", str(out), *extra, *lvl]))
            ctx.expect(ok, "missing", f"no corpus and no network gave {e!r}", **info)
            if extra:
                ctx.expect(isinstance(e, FileNotFoundError), "missing:error", f"a missing corpus with --no-download gave {e!r}", **info)
                ctx.expect(not list(root.rglob("*")), "missing:disk", "--no-download wrote into the corpus folder", **info)
            wrote = [p.name for p in out.rglob("*") if p.suffix in (".wav", ".json")]
            ctx.expect(not wrote, "missing:output", f"a run without corpus wrote {wrote}", **info)
        ctx.nontrivial(kind, spec["prog"])
        return
    utts = corpus(r, root, libri, o.get("subset", ""))
    snap = fsmon.snapshot(root)
    plot = bool(r.uniform() < 0.12) and kind == "run"
    gif = plot if name != "cli" else bool(r.uniform() < 0.06) and kind == "run"
    if plot or gif:
        o["num_sources"] = min(o["num_sources"], 3)
        if "num_moving_sources" in o:
            o["num_moving_sources"] = min(o["num_moving_sources"], o["num_sources"])
        if "num_scenes" in o:
            o["num_scenes"] = 1
        if "steps" in o:
            o["steps"] = min(o["steps"], 3)
    extra = (["--plot"] if plot else []) + (["--gif"] if gif and name == "cli" else []) + lvl
    if name != "build_dynamic_dataset":
        extra += ["--no-download"] if r.integers(2) else []
    elif r.integers(2):
        extra += ["--download"]
    if name == "cli" and r.uniform() < 0.2:
        extra += ["--deterministic"]
    argv = flags(o) + ["--dataset-dir", str(root), *extra]
    out = t / str(r.choice(["out", "out", "run.v2", "a b/c.d-0.5", "ergebnis ü"]))
    if name == "cli" and r.uniform() < 0.6:
        # the whole run comes from a file another run wrote, or that file with some options overridden
        ext = str(r.choice([".json", ".yaml", ".yml"]))
        over = {k: v for k, v in o.items() if r.integers(2) and k != "mode"}
        first = {**o, **({k: v for k, v in options(r, spec["prog"])[1].items() if k in over})}
        launch(name, flags(first) + ["--dataset-dir", str(root), *extra, "--out-dir", str(t / "first"), "--config-out", str(t / f"cfg/a{ext}")])
        launch(name, ["--config-in", str(t / f"cfg/a{ext}"), *flags(over), "--out-dir", str(out), "--config-out", str(t / "cfg/b.json")])
        ref = t / "direct"
        launch(name, argv + ["--out-dir", str(ref)])
        same_but_place(ctx, out, ref, "config", "a run from a saved configuration differs from the same options given directly", **info)
        launch(name, ["--config-in", str(t / "cfg/b.json"), "--out-dir", str(t / "again")])
        same_but_place(ctx, out, t / "again", "config-again", "a saved configuration does not repeat the run that wrote it", **info)
        ctx.count("configs_reloaded")
    else:
        launch(name, argv + ["--out-dir", str(out)])
    ctx.count("runs")
    verify(ctx, out, o, name, utts, plot, gif, info)
    ctx.expect(not fsmon.diff(snap, fsmon.snapshot(root)), "corpus-changed", "the run changed the corpus", **info)
    if kind == "fresh":
        again = t / "fresh"
        env = {**os.environ, "PYTHONHASHSEED": str(int(r.integers(1, 1000))), "MPLBACKEND": "Agg"}
        p = subprocess.run([sys.executable, str(EX / f"{name}.py"), *argv, "--out-dir", str(again)], env=env, cwd=t, capture_output=True, text=True, timeout=200)
        if ctx.expect(p.returncode == 0, "fresh:exit", f"exit {p.returncode}: {p.stderr[-300:]}", **info):
            same_but_place(ctx, out, again, "fresh", "a fresh process writes something else", **info)
        ctx.count("fresh_processes")
    elif r.uniform() < 0.35:
        random.seed(int(r.integers(1 << 30)))
        torch.manual_seed(int(r.integers(1 << 30)))
        argv = [a for a in argv if a not in ("--plot", "--gif")]
        if "num_scenes" in o and r.integers(2):
            more = argv[:]
            more[more.index("--num-scenes") + 1] = repr(o["num_scenes"] + 2)
            launch(name, more + ["--out-dir", str(t / "again")])
            for p in (t / "again").glob("scene_*"):
                if int(p.name[6:9]) >= o["num_scenes"]:
                    p.unlink()
            same_but_place(ctx, out, t / "again", "prefix", "asking for more scenes changes the first ones", **info)
        elif r.integers(2):
            launch(name, argv + ["--out-dir", str(out)])
            verify(ctx, out, o, name, utts, plot, gif, info)
            ctx.count("reruns")
        else:
            launch(name, argv + ["--out-dir", str(t / "again")])
            same_but_place(ctx, out, t / "again", "again", "the same command writes something else the second time", **info)
    ctx.nontrivial(spec["prog"], kind, len(o["room"]), o["num_sources"], o.get("num_mics"), o.get("steps"), plot)
    ctx.sample(dict(prog=spec["prog"], options=o, plot=plot))
