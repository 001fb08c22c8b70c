"""C31: the public surface is stable, deprecated names keep working, imports have no side effects."""
import importlib
import io as _io
import json
import os
import random
import signal
import subprocess
import sys
import threading
import logging
import warnings
from pathlib import Path

import numpy as np
import scipy.signal  # noqa: F401
import soundfile as sf
import torch

from vf.core import SRC

ID = "C31"
ISOLATE = True
FRESH = True
TECH = "runtime monitoring of fresh processes: every case starts from an interpreter in which torchrir was never imported; an audit hook and before/after snapshots of process state watch the imports in random orders, and deprecated entry points run side by side with their replacements under a warning recorder"
NOTE = "Which third-party packages get imported, and how long it takes, is not judged."
RULE = "every public module and every internal module as the first import, random import orders and forms (import, from-import, star), random wav/flac files and arguments for the shims, random static/dynamic scenes for Scene; class = (kind, first module, form / entry, outcome)"
NEED = {"assertions": 6000, "fresh_imports": 150, "shim_calls": 300}

PUBLIC = {
    "torchrir": "DynamicScene MicrophoneArray RIRResult Room Scene Source StaticScene load save",
    "torchrir.config": "SimulationConfig default_config",
    "torchrir.datasets": "BaseDataset CmuArcticDataset CmuArcticSentence CollateBatch DatasetAttribution DatasetItem LibriSpeechDataset LibriSpeechSentence SentenceLike attribution_for build_dynamic_cmu_arctic_dataset choose_speakers cmu_arctic_speakers collate_dataset_items default_modification_notes load load_dataset_sources save",
    "torchrir.experimental": "FDTDSimulator RayTracingSimulator TemplateDataset TemplateSentence",
    "torchrir.geometry": "binaural_array circular_array clamp_positions eigenmike_em32 eigenmike_em64 linear_array linear_trajectory polyhedron_array sample_positions sample_positions_min_distance",
    "torchrir.io": "AudioBackend AudioData AudioInfo build_metadata get_audio_backend info info_audio info_wav list_audio_backends load load_audio load_audio_data load_wav save save_attribution_file save_audio save_audio_data save_metadata_json save_scene_audio save_scene_metadata save_wav set_audio_backend",
    "torchrir.logging": "LoggingConfig get_logger setup_logging",
    "torchrir.models": "DynamicScene MicrophoneArray RIRResult Room Scene SceneLike Source StaticScene",
    "torchrir.signal": "DynamicConvolver convolve_rir fft_convolve",
    "torchrir.sim": "ISMSimulator RIRSimulator directivity_gain simulate_dynamic_rir simulate_rir split_directivity",
    "torchrir.util": "DeviceSpec add_output_args as_tensor attenuation_db_to_time_sabine ensure_dim estimate_beta_from_t60 estimate_image_counts_from_tmax estimate_t60_from_beta extend_size infer_device_dtype normalize_orientation orientation_to_unit resolve_device",
    "torchrir.viz": "animate_scene_gif animate_scene_mp4 plot_scene_dynamic plot_scene_static render_scene_plots save_scene_gifs save_scene_layout_images save_scene_plots save_scene_videos",
    "torchrir.io.audio": "AudioData AudioInfo info_audio load load_audio load_audio_data save save_audio save_audio_data",
    "torchrir.sim.ism": "simulate_dynamic_rir simulate_rir",
}
PUBLIC = {m: v.split() for m, v in PUBLIC.items()}
ATTRS = {"torchrir": ["io"]}
SAME = [("torchrir", "torchrir.models", n) for n in "DynamicScene MicrophoneArray RIRResult Room Scene Source StaticScene".split()] + [("torchrir.sim", "torchrir.sim.ism", "simulate_rir"), ("torchrir.sim", "torchrir.sim.ism", "simulate_dynamic_rir"), ("torchrir.io", "torchrir.io.audio", "AudioData"), ("torchrir.io", "torchrir.io.audio", "AudioInfo")]


def all_modules():
    out = []
    root = Path(SRC)
    for p in root.rglob("*.py"):
        n = "torchrir." + ".".join(p.relative_to(root).with_suffix("").parts)
        n = n.removesuffix(".__init__")
        if n == "torchrir.__init__":
            n = "torchrir"
        out.append(n)
    return sorted(set(out) - {n for n in out if n.endswith("__main__")})


def cases(tier):
    n = 80 if tier == "quick" else 1500
    out = [{"kind": "first", "mod": m} for m in all_modules()]
    out += [{"kind": "first", "mod": m} for m in PUBLIC if m not in {c["mod"] for c in out}]
    out += [{"kind": "order", "i": i} for i in range(n * 2)]
    out += [{"kind": "shim", "i": i} for i in range(n * 3)]
    out += [{"kind": "scene", "i": i} for i in range(n * 2)]
    out += [{"kind": "experimental", "i": i} for i in range(n // 2)]
    out += [{"kind": "process", "i": i} for i in range(4 if tier == "quick" else 40)]
    return out


def state():
    lg = logging.getLogger()
    tl = logging.getLogger("torchrir")
    s = {
        "handlers": [repr(h) for h in lg.handlers],
        "root level": lg.level,
        "torchrir handlers": [type(h).__name__ for h in tl.handlers if not isinstance(h, logging.NullHandler)],
        "torchrir level": (tl.level, tl.propagate, tl.disabled),
        "logging.disable": logging.root.manager.disable,
        "filters": [repr(f) for f in warnings.filters],
        "cwd": os.getcwd(),
        "env": dict(os.environ),
        "path": list(sys.path),
        "random": repr(random.getstate())[:400],
        "numpy": repr(np.random.get_state()[1][:8].tolist()) + str(np.random.get_state()[2]),
        "torch": torch.get_rng_state().numpy().tobytes()[:64].hex() + str(torch.initial_seed()),
        "dtype": str(torch.get_default_dtype()),
        "device": str(torch.get_default_device()),
        "threads": (torch.get_num_threads(), torch.get_num_interop_threads()),
        "grad": torch.is_grad_enabled(),
        "deterministic": (torch.are_deterministic_algorithms_enabled(), torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic),
        "matmul": torch.get_float32_matmul_precision(),
        "seterr": np.geterr(),
        "printopts": str(np.get_printoptions()["precision"]),
        "signals": [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)],
        "python threads": threading.active_count(),
        "recursion": sys.getrecursionlimit(),
        "excepthook": repr(sys.excepthook),
    }
    if "matplotlib" in sys.modules:
        s["rcparams"] = str(dict(sys.modules["matplotlib"].rcParams))
    return s


EVENTS = []
ARMED = [False]
BADEV = ("socket.", "subprocess.Popen", "os.system", "os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.symlink", "os.link", "os.chmod", "os.truncate", "os.fork", "os.exec", "os.posix_spawn", "shutil.", "urllib.Request", "tempfile.mk", "os.putenv", "webbrowser.open")


def hook(ev, args):
    if not ARMED[0]:
        return
    if ev == "open":
        path, mode, flags = (list(args) + [None] * 3)[:3]
        w = isinstance(mode, str) and any(c in mode for c in "wax+")
        w = w or (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if w and str(path) != "/dev/null":
            EVENTS.append(f"open {path} {mode}")
    elif ev.startswith(BADEV):
        EVENTS.append(f"{ev} {str(args)[:120]}")


def watched(ctx, key, fn):
    """run fn; judge events, process state, warnings and output"""
    sys.addaudithook(hook)
    before = state()
    out, err = _io.StringIO(), _io.StringIO()
    so, se = sys.stdout, sys.stderr
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        before["filters"] = [repr(f) for f in warnings.filters]
        sys.stdout, sys.stderr = out, err
        ARMED[0] = True
        try:
            fn()
        finally:
            ARMED[0] = False
            sys.stdout, sys.stderr = so, se
        after = state()
    ch = sorted(k for k in before if before[k] != after.get(k))
    ctx.expect(not ch, f"{key}:state", f"importing changed process state: {[(k, before[k], after.get(k)) for k in ch][:2]}", changed=ch)
    ctx.expect(not EVENTS, f"{key}:effects", f"importing did {EVENTS[:4]}")
    ctx.expect(not out.getvalue() and not err.getvalue(), f"{key}:output", f"importing printed {(out.getvalue() + err.getvalue())[:200]!r}")
    mine = [str(x.message) for x in w if "torchrir" in str(x.filename) or "deprecated" in str(x.message).lower() and "torchrir" in str(x.message)]
    ctx.expect(not mine, f"{key}:warnings", f"importing warned {mine[:2]}")


def check_names(ctx, key):
    for m, names in PUBLIC.items():
        M = importlib.import_module(m)
        al = getattr(M, "__all__", None)
        for n in names:
            ok = hasattr(M, n)
            ctx.expect(ok, f"{key}:missing", f"{m}.{n} is missing")
            if al is not None and m not in ("torchrir.io.audio", "torchrir.sim.ism"):
                ctx.expect(n in al, f"{key}:not-in-all", f"{n} is not in {m}.__all__")
        for n in al or []:
            ctx.expect(hasattr(M, n), f"{key}:all", f"{m}.__all__ lists {n}, which does not exist")
        ns = {}
        exec(f"from {m} import *", ns)
        for n in names:
            if al is not None and n in al:
                ctx.expect(ns.get(n) is getattr(M, n), f"{key}:star", f"from {m} import * lacks {n}")
    for m, names in ATTRS.items():
        for n in names:
            ctx.expect(hasattr(sys.modules[m], n), f"{key}:attr", f"{m}.{n} is missing")
    for a, b, n in SAME:
        ctx.expect(getattr(sys.modules[a], n) is getattr(sys.modules[b], n), f"{key}:identity", f"{a}.{n} is not {b}.{n}")


def outcome(f):
    """(kind, value, warnings) of a call"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            v = ("value", f())
        except Exception as e:  # noqa: BLE001
            v = ("raises", type(e))
    dep = [x for x in w if issubclass(x.category, DeprecationWarning)]
    oth = sorted((x.category.__name__, str(x.message).split("received")[-1]) for x in w if not issubclass(x.category, DeprecationWarning))
    return v, dep, oth


def same(a, b):
    if type(a) is not type(b):
        return False
    if torch.is_tensor(a):
        return a.dtype == b.dtype and torch.equal(a, b) and getattr(a, "_torchrir_subtype", None) == getattr(b, "_torchrir_subtype", None)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def samefile(a, b):
    """equal audio, format and subtype (float wav headers carry a time stamp)"""
    x, y = sf.info(str(a)), sf.info(str(b))
    return (x.format, x.subtype, x.samplerate, x.channels) == (y.format, y.subtype, y.samplerate, y.channels) and np.array_equal(sf.read(a)[0], sf.read(b)[0])


USER = "<user code calling torchrir>"


def user_code():
    """a caller with a file name of its own, so that a warning shows which frame it points at"""
    ns = {}
    exec(compile("def at(fn, *a, **k):\n    return fn(*a, **k)\n", USER, "exec"), ns)
    return ns["at"]


def run(spec, ctx):
    r = ctx.rng
    E = ctx.expect
    kind = spec["kind"]
    E("torchrir" not in sys.modules, "harness", "not fresh")
    if kind == "first":
        m = spec["mod"]
        watched(ctx, "first", lambda: importlib.import_module(m))
        if m in PUBLIC:
            M = sys.modules[m]
            for n in PUBLIC[m]:
                E(hasattr(M, n), "first:missing", f"{m}.{n} is missing when {m} is imported first")
        check_names(ctx, "first")
        ctx.count("fresh_imports")
        ctx.nontrivial(kind, m)
    elif kind == "order":
        mods = all_modules()
        stm = []
        for _ in range(int(r.integers(2, 9))):
            if r.uniform() < 0.5:
                stm.append(f"import {mods[int(r.integers(len(mods)))]}")
            else:
                m = list(PUBLIC)[int(r.integers(len(PUBLIC)))]
                n = PUBLIC[m][int(r.integers(len(PUBLIC[m])))]
                stm.append(f"from {m} import {n}" if r.uniform() < 0.7 else f"from {m} import *")
        watched(ctx, "order", lambda: exec("\n".join(stm), {}))
        check_names(ctx, "order")
        ctx.count("fresh_imports")
        ctx.nontrivial(kind, stm[0])
        ctx.sample(stm)
    elif kind == "process":
        m = list(PUBLIC)[int(r.integers(len(PUBLIC)))]
        t = ctx.tmp()
        code = f"import sys, json; from {m} import {', '.join(PUBLIC[m])}; import logging; print(json.dumps([len(logging.getLogger('torchrir').handlers), len(logging.getLogger().handlers)]))"
        p = subprocess.run([sys.executable, "-B", "-P", "-W", "error::DeprecationWarning:torchrir", "-c", code], cwd=t, env={**os.environ, "HOME": str(t), "TMPDIR": str(t)}, capture_output=True, text=True, timeout=200)
        E(p.returncode == 0, "process:import", f"importing from {m} failed: {p.stderr[-300:]}")
        if p.returncode == 0:
            E(json.loads(p.stdout) == [0, 0], "process:handlers", p.stdout)
        left = sorted(str(x.relative_to(t)) for x in t.rglob("*") if x.is_file() and "torchinductor" not in str(x))
        E(not left, "process:files", f"importing {m} wrote {left}")
        ctx.count("fresh_imports")
        ctx.nontrivial(kind, m)
    elif kind == "shim":
        import torchrir
        from torchrir import datasets, io

        t = ctx.tmp()
        for j in range(4):
            fs = int(r.choice([8000, 16000, 44100]))
            nch = int(r.choice([1, 1, 2, 3]))
            x = r.uniform(-0.9, 0.9, (int(r.integers(0, 60)) if r.uniform() < 0.2 else int(r.integers(20, 200)), nch))
            name = ["a.wav", "b.WAV", "c.wave", "d.flac", "e", "f.txt", "none.wav"][int(r.integers(7))]
            p = t / f"{j}{name}"
            st = ["PCM_16", "PCM_24", "FLOAT"][int(r.integers(3))]
            if not name.startswith("none"):
                flac = name.endswith("flac")
                sf.write(p, x, fs, format="FLAC" if flac else "WAV", subtype="PCM_16" if flac else st)
            kw = {}
            if r.uniform() < 0.3:
                kw["backend"] = ["soundfile", None, "nope"][int(r.integers(3))]
            if r.uniform() < 0.3:
                kw["format"] = ["wav", "WAV", "wave", "flac", None][int(r.integers(5))]
            here, at = USER, user_code()
            for nm, old, new in (("io.load", lambda: at(io.load, p, **kw), lambda: io.load_wav(p, **kw)), ("io.info", lambda: at(io.info, p, **kw), lambda: io.info_wav(p, **kw)), ("torchrir.load", lambda: at(torchrir.load, p, **kw), lambda: io.load_wav(p, **kw))):
                a, d, o = outcome(old)
                b, d2, o2 = outcome(new)
                E(a[0] == b[0] and same(a[1], b[1]), f"{nm}:result", f"{nm}({p.name}, {kw}) gave {a}, its replacement {b}", fs=fs, nch=nch)
                E(len(d) == 1 and not d2, f"{nm}:warned", f"{nm} gave {len(d)} DeprecationWarnings, its replacement {len(d2)}")
                E(o == o2, f"{nm}:other-warnings", f"{nm} warned {o}, its replacement {o2}")
                for x_ in d:
                    E(x_.filename == here, f"{nm}:where", f"warning points at {x_.filename}")
                ctx.count("shim_calls")
                ctx.nontrivial(nm, name, str(kw.get("format")), a[0])
            if "format" not in kw and "backend" not in kw and p.suffix.lower() == ".wav":
                a, d, o = outcome(lambda: datasets.load(p))
                b, _, o2 = outcome(lambda: io.load_wav(p))
                E(a[0] == b[0] and same(a[1], b[1]) and o == o2, "datasets.load:result", f"datasets.load gave {a}, load_wav {b}")
            y = torch.tensor(r.uniform(-1.5, 1.5, (int(r.integers(1, 4)), 50)), dtype=[torch.float32, torch.float64][int(r.integers(2))])
            if r.integers(2):
                y = y[0]
            sk = dict(kw)
            if r.integers(2):
                sk["normalize"] = bool(r.integers(2))
            if r.uniform() < 0.4:
                sk["peak"] = float(r.choice([0.5, 1.0, 0.0, -1.0]))
            if r.uniform() < 0.4:
                sk["subtype"] = ["PCM_24", "FLOAT", "PCM_16", "BOGUS"][int(r.integers(4))]
            for nm, old in (("io.save", io.save), ("torchrir.save", torchrir.save)):
                pa, pb = t / f"{j}{nm}A" / name, t / f"{j}{nm}B" / name
                pa.parent.mkdir()
                pb.parent.mkdir()
                a, d, o = outcome(lambda: at(old, pa, y, fs, **sk))
                b, d2, o2 = outcome(lambda: io.save_wav(pb, y, fs, **sk))
                ea, eb = pa.exists(), pb.exists()
                E(a == b and ea == eb and (not ea or samefile(pa, pb)), f"{nm}:result", f"{nm}({name}, {sk}) gave {a}, {ea}; its replacement {b}, {eb}, or the files differ")
                E(len(d) == 1 and not d2, f"{nm}:warned", f"{nm} gave {len(d)} DeprecationWarnings, its replacement {len(d2)}")
                E(o == o2, f"{nm}:other-warnings", f"{nm} warned {o}, its replacement {o2}")
                for x_ in d:
                    E(x_.filename == here, f"{nm}:where", f"warning points at {x_.filename}")
                ctx.count("shim_calls")
                ctx.nontrivial(nm, name, str(sk.get("subtype")), a[0])
    elif kind == "scene":
        from torchrir import DynamicScene, MicrophoneArray, Room, Scene, Source, StaticScene
        from torchrir.sim import ISMSimulator

        dim = int(r.integers(2, 4))
        size = r.uniform(2, 5, dim)
        ns, nm = int(r.integers(1, 3)), int(r.integers(1, 3))
        mk = lambda *s: torch.tensor(r.uniform(0.1, 0.9, (*s, dim)) * size, dtype=torch.float32)  # noqa: E731
        room = Room.shoebox(size.tolist(), fs=8000, beta=[0.5] * (2 * dim))
        S, M = Source.from_positions(mk(ns)), MicrophoneArray.from_positions(mk(nm))
        T = int(r.integers(1, 4))
        mode = ["static", "dynamic", "dynamic", "onlysrc", "onlymic", "steps", "dim", "count", "nan", "entdim", "type"][int(r.integers(11))]
        st, mt = mk(T, ns), mk(T, nm)
        if mode == "steps":
            mt = mk(T + 1, nm)
        elif mode == "dim":
            st = st[..., :1]
        elif mode == "count":
            mt = mk(T, nm + 1)
        elif mode == "nan":
            st[0, 0, 0] = float("nan")
        elif mode == "entdim":
            M = MicrophoneArray.from_positions(torch.ones(nm, 5 - dim))
            mode = "entdim"
        elif mode == "type":
            S = "source"
        kw = {}
        if mode not in ("static", "onlymic"):
            kw["src_traj"] = st
        if mode not in ("static", "onlysrc"):
            kw["mic_traj"] = mt
        at = user_code()
        a, d, _ = outcome(lambda: at(Scene, room=room, sources=S, mics=M, **kw))
        if mode == "static":
            b, d2, _ = outcome(lambda: StaticScene(room=room, sources=S, mics=M))
        elif mode in ("onlysrc", "onlymic"):
            b, d2 = ("raises", ValueError), []
        else:
            b, d2, _ = outcome(lambda: DynamicScene(room=room, sources=S, mics=M, **kw))
        E(a[0] == b[0] and (a[0] == "value" or a[1] is b[1]), "scene:accepts", f"Scene gave {a[0]} {a[1] if a[0] == 'raises' else ''}, its replacement {b[0]} {b[1] if b[0] == 'raises' else ''}", mode=mode)
        E(len(d) == 1 and not d2, "scene:warned", f"Scene gave {len(d)} DeprecationWarnings, its replacement {len(d2)}")
        for x_ in d:
            E(x_.filename == USER, "scene:where", f"the warning of Scene points at {x_.filename}")
        if a[0] == "value" and b[0] == "value":
            sc, new = a[1], b[1]
            v, dv, _ = outcome(sc.validate)
            E(v == ("value", None) and not dv, "scene:validate", f"validating a valid Scene gave {v} and {len(dv)} DeprecationWarnings")
            E(sc.is_dynamic() == new.is_dynamic() == (mode != "static"), "scene:dynamic", f"is_dynamic {sc.is_dynamic()}")
            sim = ISMSimulator(max_order=int(r.integers(0, 3)), nsample=256)
            x, dx, _ = outcome(lambda: at(sim.simulate, sc))
            y, dy, _ = outcome(lambda: sim.simulate(new))
            E(x[0] == y[0] == "value" and torch.equal(x[1].rirs, y[1].rirs), "scene:simulate", f"Scene simulated to {x}, its replacement {y}")
            for x_ in dx:
                E(x_.filename == USER, "scene:simulate-where", f"the warning of simulate(Scene) points at {x_.filename}")
            E(len(dx) <= 1 and not dy, "scene:again", f"simulating a Scene warned {len(dx)} times, its replacement {len(dy)}")
            ok = ("to_static_scene", "to_dynamic_scene")
            conv, dc, _ = outcome(getattr(sc, ok[mode != "static"]))
            E(conv[0] == "value" and type(conv[1]) is type(new), "scene:convert", f"conversion gave {conv}")
            if conv[0] == "value":
                E(all(same(getattr(conv[1], f), getattr(new, f)) or getattr(conv[1], f) is getattr(new, f) for f in ("room", "sources", "mics") + (("src_traj", "mic_traj") if mode != "static" else ())), "scene:converted", "converted scene differs")
            wrong, _, _ = outcome(getattr(sc, ok[mode == "static"]))
            E(wrong == ("raises", ValueError), "scene:wrong-way", f"impossible conversion gave {wrong}")
        ctx.nontrivial(kind, mode, dim, T)
    else:
        from torchrir import MicrophoneArray, Room, Source, StaticScene
        from torchrir import experimental as ex
        from torchrir.config import default_config

        room = Room.shoebox([3.0, 3.0], fs=8000)
        sc = StaticScene(room=room, sources=Source.from_positions([[1.0, 1.0]]), mics=MicrophoneArray.from_positions([[2.0, 1.0]]))
        for cls in (ex.RayTracingSimulator, ex.FDTDSimulator):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                o = cls()
            E(any("not implemented" in str(x.message) for x in w), "experimental:warned", f"{cls.__name__} gave no warning")
            for a in ((sc,), (sc, default_config()), (None,)):
                v, _, _ = outcome(lambda: o.simulate(*a))
                E(v == ("raises", NotImplementedError), "experimental:simulate", f"{cls.__name__}.simulate gave {v}")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            o = ex.TemplateDataset()
        E(len(w) >= 1, "experimental:warned", "TemplateDataset gave no warning")
        for f in (lambda: len(o), lambda: o[int(r.integers(-2, 3))], lambda: list(o)):
            v, _, _ = outcome(f)
            E(v == ("raises", NotImplementedError), "experimental:dataset", f"TemplateDataset gave {v}")
        s = ex.TemplateSentence(utterance_id="u", speaker="s", text="t", wav_path=Path("x.wav"))
        E((s.utterance_id, s.speaker, s.text, s.wav_path) == ("u", "s", "t", Path("x.wav")), "experimental:sentence", repr(s))
        ctx.nontrivial(kind)
