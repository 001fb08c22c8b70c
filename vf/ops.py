"""Registry of deterministic torchrir calls used by the history (C09) and concurrency (C10) checks.

Each op is make(seed) -> (call, args) where args is a dict of plain objects/tensors (built fresh from the seed)
and call(args) returns a (nested) result. Nothing here draws on global random state.
"""
from __future__ import annotations

import random
import warnings

import numpy as np
import torch

from vf.tr import F32, F64, T

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def _g(seed):
    return np.random.default_rng([seed, 77])


def _scene(r, dim, dt, S=2, M=2, n=3):
    sz = r.uniform(3, 7, dim)
    b = r.uniform(0.3, 0.9, 2 * dim)
    u = lambda *s: r.uniform(0.1, 0.9, (*s, dim)) * sz
    return dict(sz=sz, b=b, src=T(u(S), dt), mic=T(u(M), dt), st=T(u(n, S), dt), mt=T(u(n, M), dt), so=T(r.normal(size=(S, dim)), dt), mo=T(r.normal(size=(M, dim)), dt))


def _static(**over):
    def make(seed):
        r = _g(seed)
        dt = over.get("dt", F64)
        s = _scene(r, over.get("dim", 3), dt)

        def call(a):
            from torchrir.config import SimulationConfig
            from torchrir.models import Room
            from torchrir.sim import simulate_dynamic_rir, simulate_rir

            conf = SimulationConfig(**a["conf"])
            rm = Room.shoebox(a["size"], fs=a["fs"], c=a["c"], **(dict(beta=a["beta"]) if a["t60"] is None else dict(t60=a["t60"])))
            k = dict(room=rm, max_order=a["order"], nsample=a["ns"], directivity=a["d"], orientation=a["ori"], config=conf)
            if a["nb"] is not None:
                k["nb_img"] = a["nb"]
            if a["dyn"]:
                return simulate_dynamic_rir(src_traj=a["src"], mic_traj=a["mic"], **k)
            return simulate_rir(sources=a["src"], mics=a["mic"], tdiff=a["tdiff"], tmax=a["tmax"], **k)

        dyn = over.get("dyn", False)
        args = dict(size=T(s["sz"], dt), beta=T(s["b"], dt), src=s["st"] if dyn else s["src"], mic=s["mt"] if dyn else s["mic"],
                    order=over.get("order", 2), ns=over.get("ns", 300), d=over.get("d", "omni"),
                    ori=over["ori"](s) if "ori" in over else (s["so"], s["mo"]) if over.get("d") else None, dyn=dyn,
                    fs=over.get("fs", 16000), c=over.get("c", 343.0), t60=over.get("t60"), nb=over.get("nb"), tdiff=over.get("tdiff"), tmax=over.get("tmax"),
                    conf={**dict(rir_hpf_enable=False), **over.get("conf", {})})
        return call, args

    return make


for name, over in {
    "rir_default": dict(conf=dict(rir_hpf_enable=True)),
    "rir_lut20": dict(),
    "rir_lut7": dict(conf=dict(sinc_lut_granularity=7)),
    "rir_nolut": dict(conf=dict(use_lut=False)),
    "rir_fdl21": dict(conf=dict(frac_delay_length=21)),
    "rir_fdl21_nolut": dict(conf=dict(frac_delay_length=21, use_lut=False)),
    "rir_fdl101_g7": dict(conf=dict(frac_delay_length=101, sinc_lut_granularity=7)),
    "rir_f32": dict(dt=F32),
    "rir_f32_fdl21": dict(dt=F32, conf=dict(frac_delay_length=21)),
    "rir_2d": dict(dim=2, d=("cardioid", "bidir")),
    "rir_dir": dict(d="hypercardioid"),
    "rir_tail": dict(tdiff=0.01, tmax=0.019, ns=304),
    "rir_tail_seed": dict(tdiff=0.01, tmax=0.019, ns=304, conf=dict(seed=99)),
    "rir_chunk": dict(conf=dict(image_chunk_size=3, accumulate_chunk_size=2)),
    "rir_hpf": dict(conf=dict(rir_hpf_enable=True, rir_hpf_fc=300.0)),
    "dyn_default": dict(dyn=True),
    "dyn_f32": dict(dyn=True, dt=F32),
    "dyn_dir_2d": dict(dyn=True, dim=2, d=("card", "omni"), conf=dict(use_lut=False)),
    "dyn_hpf": dict(dyn=True, conf=dict(rir_hpf_enable=True)),
    "dyn_fdl5": dict(dyn=True, conf=dict(frac_delay_length=5, sinc_lut_granularity=3)),
    # twins: the same scene as the calls above, one option different
    "rir_order1": dict(order=1),
    "rir_order3": dict(order=3),
    "rir_nb": dict(nb=(1, 2, 0)),
    "rir_nb_order1": dict(order=1, nb=(2, 0, 1)),
    "rir_nb_2d": dict(dim=2, nb=(1, 3)),
    "rir_order2_2d": dict(dim=2),
    "rir_fs8k": dict(fs=8000),
    "rir_c320": dict(c=320.0),
    "rir_t60": dict(t60=0.3),
    "rir_t60b": dict(t60=0.5),
    "rir_ns150": dict(ns=150),
    "rir_dir_swapped": dict(d=("omni", "hypercardioid")),
    "rir_dir_half": dict(d=("hypercardioid", "omni")),
    "rir_dir_card": dict(d="cardioid"),
    "rir_dir_flip": dict(d="hypercardioid", ori=lambda s: (-s["so"], s["mo"])),
    "rir_dir_azel": dict(d="hypercardioid", ori=lambda s: (s["so"][:, :2].contiguous(), s["mo"][0, :2].clone())),
    "rir_hpf_n4": dict(conf=dict(rir_hpf_enable=True, rir_hpf_fc=300.0, rir_hpf_kwargs={"n": 4})),
    "rir_hpf_bessel": dict(conf=dict(rir_hpf_enable=True, rir_hpf_fc=300.0, rir_hpf_kwargs={"n": 2, "ftype": "bessel"})),
    "rir_hpf_cheby": dict(conf=dict(rir_hpf_enable=True, rir_hpf_fc=300.0, rir_hpf_kwargs={"n": 2, "type": "cheby1", "rp": 3.0})),
    "rir_hpf_cheby_rp": dict(conf=dict(rir_hpf_enable=True, rir_hpf_fc=300.0, rir_hpf_kwargs={"n": 2, "type": "cheby1", "rp": 1.0})),
    "rir_hpf_fs8k": dict(fs=8000, conf=dict(rir_hpf_enable=True, rir_hpf_fc=300.0)),
    "rir_hpf_fc": dict(conf=dict(rir_hpf_enable=True, rir_hpf_fc=310.0)),
    "rir_tail_later": dict(tdiff=0.012, tmax=0.019, ns=304),
    "rir_tail_t60": dict(t60=0.3, tdiff=0.01, tmax=0.019, ns=304),
    "rir_mixed": dict(conf=dict(mixed_precision=True)),
    "rir_f32_nolut": dict(dt=F32, conf=dict(use_lut=False)),
    # kernel tables of equal size, equal product or equal sum but another layout
    "rir_fdl19_g40": dict(conf=dict(frac_delay_length=19, sinc_lut_granularity=40)),
    "rir_fdl39_g20": dict(conf=dict(frac_delay_length=39, sinc_lut_granularity=20)),
    "rir_fdl21_g15": dict(conf=dict(frac_delay_length=21, sinc_lut_granularity=15)),
    "rir_fdl15_g21": dict(conf=dict(frac_delay_length=15, sinc_lut_granularity=21)),
    "rir_fdl11_g20": dict(conf=dict(frac_delay_length=11, sinc_lut_granularity=20)),
    "rir_fdl21_g10": dict(conf=dict(frac_delay_length=21, sinc_lut_granularity=10)),
    "rir_fdl31_g10": dict(conf=dict(frac_delay_length=31, sinc_lut_granularity=10)),
    "rir_fdl39_f32": dict(dt=F32, conf=dict(frac_delay_length=39, sinc_lut_granularity=20)),
    "rir_fdl19_f32": dict(dt=F32, conf=dict(frac_delay_length=19, sinc_lut_granularity=40)),
    "dyn_fdl19_g40": dict(dyn=True, conf=dict(frac_delay_length=19, sinc_lut_granularity=40)),
    "dyn_order1": dict(dyn=True, order=1),
    "dyn_order3": dict(dyn=True, order=3, conf=dict(image_chunk_size=50)),
    "dyn_fs8k": dict(dyn=True, fs=8000),
    "dyn_c320": dict(dyn=True, c=320.0),
    "dyn_t60": dict(dyn=True, t60=0.3),
    "dyn_dir_flip_2d": dict(dyn=True, dim=2, d=("card", "omni"), conf=dict(use_lut=False), ori=lambda s: (-s["so"], s["mo"])),
    "dyn_dir_swapped_2d": dict(dyn=True, dim=2, d=("omni", "card"), conf=dict(use_lut=False)),
    "dyn_hpf_n4": dict(dyn=True, conf=dict(rir_hpf_enable=True, rir_hpf_kwargs={"n": 4, "type": "butter"})),
}.items():
    OPS[name] = _static(**over)


@op
def facade(seed):
    r = _g(seed)
    s = _scene(r, 3, F64)

    def call(a):
        from torchrir.config import SimulationConfig
        from torchrir.models import DynamicScene, MicrophoneArray, Room, Source, StaticScene
        from torchrir.sim import ISMSimulator

        rm = Room.shoebox(a["size"], fs=8000, beta=a["beta"])
        so, mo = Source(a["src"], a["so"]), MicrophoneArray(a["mic"], a["mo"])
        x = ISMSimulator(max_order=2, nsample=150, directivity="cardioid").simulate(StaticScene(rm, so, mo), SimulationConfig(rir_hpf_enable=False))
        y = ISMSimulator(max_order=1, nsample=150).simulate(DynamicScene(rm, so, mo, a["st"], a["mt"]))
        return x.rirs, y.rirs

    return call, dict(size=T(s["sz"]), beta=T(s["b"]), **{k: s[k] for k in ("src", "mic", "so", "mo", "st", "mt")})


def _sig(r, *shape, dt=F64):
    return T(r.normal(size=shape), dt)


@op
def conv_static(seed):
    r = _g(seed)

    def call(a):
        from torchrir.signal import convolve_rir

        return convolve_rir(a["x"], a["h"])

    return call, dict(x=_sig(r, 2, 301), h=_sig(r, 2, 3, 57))


@op
def conv_single(seed):
    r = _g(seed)

    def call(a):
        from torchrir.signal import convolve_rir, fft_convolve

        return convolve_rir(a["x"], a["h"]), fft_convolve(a["x"], a["h"])

    return call, dict(x=_sig(r, 200, dt=F32), h=_sig(r, 31, dt=F32))


@op
def conv_dyn(seed):
    r = _g(seed)

    def call(a):
        from torchrir.signal import DynamicConvolver

        return (DynamicConvolver().convolve(a["x"], a["h"]), DynamicConvolver(mode="hop", hop=64)(a["x"], a["h"]),
                DynamicConvolver(timestamps=a["ts"], fs=1000.0).convolve(a["x"], a["h"]))

    return call, dict(x=_sig(r, 2, 250), h=_sig(r, 4, 2, 2, 33), ts=T([0.0, 0.05 + 0.01 * (seed % 3), 0.1 + 0.02 * (seed % 2), 0.2]))


@op
def conv_dyn_options(seed):
    """the same signal and responses, other segmentations"""
    r = _g(1)

    def call(a):
        from torchrir.signal import DynamicConvolver

        return (DynamicConvolver(mode="hop", hop=50 + 7 * a["k"])(a["x"], a["h"]), DynamicConvolver(timestamps=a["ts"], fs=1000.0 + 100 * a["k"]).convolve(a["x"], a["h"]),
                DynamicConvolver().convolve(a["x"][:, : 250 - a["k"]], a["h"]), DynamicConvolver().convolve(a["x"], a["h"][: 4 - a["k"] % 2]))

    return call, dict(x=_sig(r, 2, 250), h=_sig(r, 4, 2, 2, 33), ts=T([0.0, 0.05, 0.1, 0.2]), k=int(seed % 5))


@op
def conv_degenerate(seed):
    """one-tap, zero and unit responses, one step, one sample"""
    r = _g(seed)

    def call(a):
        from torchrir.signal import DynamicConvolver, convolve_rir, fft_convolve

        x, h = a["x"], a["h"]
        one = x.new_ones(1)
        return (fft_convolve(x, one).clone(), convolve_rir(x, h[:1]), convolve_rir(x[None].repeat(2, 1), x.new_zeros(2, 1, 3)), fft_convolve(x[:1], h),
                DynamicConvolver().convolve(x, h[None]), DynamicConvolver(mode="hop", hop=500).convolve(x, h[None, :1]))

    return call, dict(x=_sig(r, 64), h=_sig(r, 9))


@op
def conv_same_shapes(seed):
    """other contents, other dtypes, other lengths of the same responses"""
    r = _g(seed)

    def call(a):
        from torchrir.signal import convolve_rir, fft_convolve

        return convolve_rir(a["x"], a["h"][:, None]), fft_convolve(a["x"][0], a["h"][0]), convolve_rir(a["x"][0].float(), a["h"].float()), fft_convolve(a["x"][1], a["h"][1][: 20 + a["k"]])

    return call, dict(x=_sig(r, 2, 128), h=_sig(r, 2, 33), k=int(seed % 5))


def _file(name):
    import os
    import threading
    from pathlib import Path

    from vf.core import scratch_root

    d = os.path.join(scratch_root(), f"ops-{os.getpid()}-{threading.get_ident()}")
    os.makedirs(d, exist_ok=True)
    return Path(d) / name


@op
def io_audio(seed):
    """the same path written again and again"""
    r = _g(seed)

    def call(a):
        from torchrir import io

        p = _file("x.wav")
        io.save_wav(p, a["x"], a["fs"], subtype=a["sub"])
        i = io.info_audio(p)
        y, fs = io.load_audio(p)
        d = io.load_audio_data(p)
        return y, fs, i.sample_rate, i.num_frames, i.num_channels, i.subtype, i.duration, d.audio, d.subtype, d.sample_rate

    return call, dict(x=_sig(r, 60 + 10 * (seed % 4)) * 0.1, fs=8000 * (1 + seed % 2), sub=["PCM_16", "PCM_24", "FLOAT"][seed % 3])


@op
def io_metadata(seed):
    r = _g(seed)

    def call(a):
        from torchrir.io import save_metadata_json

        p = _file("m.json")
        save_metadata_json(p, {"a": a["a"], "t": a["t"].tolist()})
        return p.read_bytes()

    return call, dict(a=int(seed), t=_sig(r, 3))


@op
def io_corpus(seed):
    """a corpus folder whose contents change between calls"""
    from vf import fsmon

    r = _g(seed)
    files, utts = fsmon.cmu_files(r, "bdl", n=2 + seed % 3, fs=16000, lo=20, hi=90)
    files = {f"ARCTIC/{k}": v for k, v in files.items()}

    def call(a):
        import shutil

        from torchrir.datasets import CmuArcticDataset

        root = _file("corpus")
        shutil.rmtree(root, ignore_errors=True)
        fsmon.write_tree(root, a["files"])
        ds = CmuArcticDataset(root, speaker="bdl")
        return [(s.utterance_id, s.text) for s in ds.available_sentences()], [(ds[i].audio, ds[i].text, ds[i].sample_rate) for i in range(len(ds))]

    return call, dict(files=files)


@op
def geometry(seed):
    r = _g(seed)

    def call(a):
        from torchrir import geometry as g

        rng = random.Random(a["seed"])
        k = a["seed"] % 3
        return (g.binaural_array(a["c"]), g.linear_array(a["c"], num=5 + k, spacing=0.1, direction=a["n"]), g.circular_array(a["c"], num=6 + k, radius=0.2, normal=a["n"]),
                g.polyhedron_array(a["c"], kind=["dodecahedron", "icosahedron", "tetrahedron"][k]), g.polyhedron_array(a["c"], kind="octahedron", radius=0.1 + 0.01 * k),
                g.eigenmike_em32(a["c"]), g.eigenmike_em64(a["c"], azimuth_offset_deg=10.0 + k), g.eigenmike_em32(a["c"].float()), g.eigenmike_em64(a["c"]),
                g.sample_positions(num=4, room_size=a["size"], rng=rng), g.sample_positions_min_distance(num=3, room_size=a["size"], rng=rng, center=a["c"], min_distance=0.5),
                g.clamp_positions(a["p"], a["size"]), g.linear_trajectory(a["c"], a["n"], 5))

    return call, dict(c=_sig(r, 3).abs() + 1, n=_sig(r, 3), size=T([6.0, 5.0, 4.0]), p=_sig(r, 7, 3) * 5, seed=int(seed))


@op
def acoustics(seed):
    r = _g(seed)

    def call(a):
        from torchrir import util as u

        b = u.estimate_beta_from_t60(a["size"], a["t60"])
        return (b, u.estimate_t60_from_beta(a["size"], a["beta"]), u.estimate_image_counts_from_tmax(a["t60"] / 2, a["size"]), u.orientation_to_unit(a["ori"], 3), u.normalize_orientation(a["ori"]),
                u.estimate_image_counts_from_tmax(0.2, a["size"], 300.0 + 10 * a["t60"]), u.estimate_beta_from_t60(a["size"][:2], 0.4), u.estimate_beta_from_t60([4.0, 3.0], a["t60"]))

    return call, dict(t60=0.3 + 0.1 * (seed % 3), size=T(r.uniform(3, 6, 3)), beta=T(r.uniform(0.2, 0.9, 6)), ori=_sig(r, 3, 3))


@op
def metadata(seed):
    r = _g(seed)
    s = _scene(r, 3, F64)

    def call(a):
        from torchrir.io import build_metadata
        from torchrir.models import MicrophoneArray, Room, Source

        rm = Room.shoebox(a["size"], fs=16000, beta=a["beta"])
        return build_metadata(room=rm, sources=Source(a["src"], a["so"]), mics=MicrophoneArray(a["mic"]), rirs=a["rirs"], src_traj=a["st"], mic_traj=a["mt"], signal_len=1000, extra=a["extra"])

    return call, dict(size=T(s["sz"]), beta=T(s["b"]), rirs=_sig(r, 3, 2, 2, 9), extra={"a": [1, 2], "t": _sig(r, 2)}, **{k: s[k] for k in ("src", "mic", "so", "st", "mt")})


@op
def models(seed):
    r = _g(seed)
    s = _scene(r, 3, F64)

    def call(a):
        from torchrir.models import DynamicScene, MicrophoneArray, Room, Source

        rm = Room.shoebox(a["size"], fs=16000, beta=a["beta"])
        sc = DynamicScene(rm, Source(a["src"], a["so"]), MicrophoneArray(a["mic"]), a["st"], a["mt"])
        sc.validate()
        r2 = rm.replace(beta=None, t60=0.5)
        return [v.clone() for v in (rm.size, rm.beta, sc.src_traj, r2.size, sc.sources.positions)]

    return call, dict(size=T(s["sz"]), beta=T(s["b"]), **{k: s[k] for k in ("src", "mic", "so", "st", "mt")})


@op
def grad_rir(seed):
    """gradient of the RIR energy w.r.t. the source position"""
    r = _g(seed)
    s = _scene(r, 3, F64)

    def call(a):
        from torchrir.config import SimulationConfig
        from torchrir.models import Room
        from torchrir.sim import simulate_rir

        with torch.inference_mode(False), torch.enable_grad():
            p = a["src"].clone().requires_grad_(True)
            x = simulate_rir(room=Room.shoebox(a["size"].clone(), fs=16000, beta=a["beta"].clone()), sources=p, mics=a["mic"].clone(), max_order=1, nsample=300, config=SimulationConfig(**a["conf"]))
            if not x.requires_grad:
                return x
            (x**2).sum().backward()
            return x.detach(), p.grad

    return call, dict(size=T(s["sz"]), beta=T(s["b"]), src=s["src"], mic=s["mic"], conf=dict(rir_hpf_enable=False, use_lut=bool(seed % 2)))


@op
def collate(seed):
    r = _g(seed)

    def call(a):
        from torchrir.datasets import collate_dataset_items as collate_dataset
        from torchrir.datasets.base import DatasetItem

        items = [DatasetItem(audio=x, sample_rate=16000, utterance_id=f"u{i}", text=f"t{i}", speaker=f"s{i}") for i, x in enumerate(a["xs"])]
        b = collate_dataset(items)
        return b.audio, b.lengths, list(b.texts or [])

    return call, dict(xs=[_sig(r, int(k), dt=F32) for k in (5, 9, 2)])


# ---- comparison helpers -------------------------------------------------------------------------

def freeze(x):
    """Nested result -> comparable structure of numpy bytes."""
    if torch.is_tensor(x):
        y = x.detach().cpu().contiguous()
        return ("T", str(y.dtype), tuple(y.shape), y.clone().numpy().tobytes())
    if isinstance(x, np.ndarray):
        return ("N", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, dict):
        return ("D", tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return ("L", type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, float):
        return ("F", repr(x))
    return ("O", repr(x))


def tensors(x):
    if torch.is_tensor(x):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from tensors(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from tensors(v)


def describe(a, b, path="result"):
    if a == b:
        return ""
    if a[0] != b[0] or a[0] in ("O", "F"):
        return f"{path}: {str(a)[:80]} != {str(b)[:80]}"
    if a[0] in ("L", "D"):
        xs, ys = a[-1], b[-1]
        if len(xs) != len(ys):
            return f"{path}: length {len(xs)} != {len(ys)}"
        for i, (u, v) in enumerate(zip(xs, ys)):
            if u != v:
                return describe(u[1] if a[0] == "D" else u, v[1] if a[0] == "D" else v, f"{path}[{u[0] if a[0] == 'D' else i}]")
    if a[1:3] != b[1:3]:
        return f"{path}: {a[1:3]} != {b[1:3]}"
    u = np.frombuffer(a[3], dtype=a[1].split(".")[-1]).astype(float)
    v = np.frombuffer(b[3], dtype=b[1].split(".")[-1]).astype(float)
    return f"{path}: max |diff| {np.nanmax(np.abs(u - v)):.3g} over {u.size} values"


def call_quiet(call, args):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return call(args)


def warm_torch():
    """First use of torch's own vector maths, which is not thread-safe: several threads calling e.g. torch.hann_window
    (float64) for the first time in a process can get values ~1e-9 off.  No torchrir code, none of its caches."""
    for dt in (F32, F64):
        for n in (3, 21, 800):
            x = torch.linspace(0.01, 0.99, n, dtype=dt)
            for f in ("cos", "sin", "tan", "sinc", "exp", "log", "sqrt", "acos", "asin", "atan", "tanh", "floor", "ceil", "round", "trunc", "abs", "log1p", "expm1", "erf", "rsqrt", "reciprocal", "log10", "log2", "sinh", "cosh"):
                getattr(torch, f)(x)
            torch.pow(x, 1.5), torch.pow(x, x), torch.atan2(x, x), torch.hann_window(n, periodic=False, dtype=dt), torch.fft.irfft(torch.fft.rfft(x, 2 * n), 2 * n), torch.linalg.norm(x), x @ x
            torch.randn(n, dtype=dt, generator=torch.Generator().manual_seed(1))


def baseline(names_seeds):
    """Result of every (op, seed) in its own cold forked child; dict."""
    import os
    import pickle

    out = {}
    for name, seed in names_seeds:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                call, args = OPS[name](seed)
                try:
                    res = ("ok", freeze(call_quiet(call, args)))
                except Exception as e:  # noqa: BLE001
                    res = ("exc", f"{type(e).__name__}: {e}")
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        out[(name, seed)] = pickle.loads(data) if data else ("exc", "child died")
    return out
