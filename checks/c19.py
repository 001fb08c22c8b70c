"""C19: audio file round trips."""
import logging
import struct
import warnings

import numpy as np
import soundfile as sf
import torch

from vf.core import Skip
from vf.tr import F32, F64, T, raises
import torchrir.io as tio
import torchrir.io.audio as taudio

ID = "C19"
TECH = "online oracle: every written file is re-read by an independent reader (soundfile directly, plus a hand-written RIFF header parser for wav) and compared sample by sample; directory and input snapshots around each call"
NOTE = "Lossy codecs (Vorbis, mu-law) are judged on shape, rate and format only. Sample tolerance is 1.5 steps of the subtype (libsndfile scales by 2^(n-1)-1 on write and 2^(n-1) on read)."
RULE = "random audio (mono, channel-first/-last with 1..40 channels, float32/64/int16, silence, empty, out of range, non-contiguous, requires_grad), rates, subtypes, formats, entry points; class = (kind, entry, layout, subtype, format, normalize, dtype)"
NEED = {"assertions": 3000, "overwritten": 500}
KINDS = ["save", "save", "save", "load", "data", "reject", "scene"]
STEP = {"PCM_U8": 1 / 128, "PCM_S8": 1 / 128, "PCM_16": 1 / 32768, "PCM_24": 2.0**-23, "PCM_32": 2.0**-31, "FLOAT": 0.0, "DOUBLE": 0.0}
EXT = {"wav": ["PCM_U8", "PCM_16", "PCM_24", "PCM_32", "FLOAT", "DOUBLE"], "flac": ["PCM_S8", "PCM_16", "PCM_24"], "aiff": ["PCM_16", "PCM_24", "FLOAT"], "au": ["PCM_16", "FLOAT"], "w64": ["PCM_16", "FLOAT"], "caf": ["PCM_16", "FLOAT"]}
DEFAULT = {"wav": "PCM_16", "flac": "PCM_16", "aiff": "PCM_16", "au": "PCM_16", "w64": "PCM_16", "caf": "PCM_16"}
RATES = [8000, 11025, 16000, 22050, 44100, 48000, 96000]


def cases(tier):
    n = 11200 if tier == "quick" else 550000
    return [{"kind": KINDS[i % len(KINDS)], "i": i} for i in range(n)]


def riff(path):
    """(channels, rate, bits, frames) straight from the RIFF header."""
    b = path.read_bytes()
    if b[:4] != b"RIFF" or b[8:12] != b"WAVE":
        return None
    i, fmt, data = 12, None, None
    while i + 8 <= len(b):
        cid, n = b[i : i + 4], struct.unpack("<I", b[i + 4 : i + 8])[0]
        if cid == b"fmt ":
            tag, ch, rate, _, align, bits = struct.unpack("<HHIIHH", b[i + 8 : i + 24])
            fmt = (ch, rate, bits, align)
        elif cid == b"data":
            data = n
        i += 8 + n + (n & 1)
    return fmt[0], fmt[1], fmt[2], data // fmt[3]


def make(r, big=False):
    """-> (tensor, reference float64 (frames, channels), layout)"""
    ch = int(r.choice([1, 2, 3, 8, 9, 12, 32, 40]))
    n = int(r.choice([50, 64, 97, 200, 333]))
    if r.uniform() < 0.04:
        n = int(r.choice([4097, 65537, 200001])) if ch < 9 else 5000
    amp = float(r.choice([0.0, 0.05, 0.5, 0.98, 1.0, 10 ** r.uniform(-9, -2), 10 ** r.uniform(-44, -9)])) if not big else float(r.choice([1.3, 3.0, 30.0]))
    lay = str(r.choice(["mono", "cf", "cl"]))
    small = r.uniform()
    if small < 0.08 and lay == "cf":  # as many channels as frames, or more
        ch = int(r.integers(2, 41))
        n = ch if r.integers(2) or ch > 8 else int(r.integers(1, ch))
    elif small < 0.08:
        n = int(r.integers(9, 60))
        ch = int(r.integers(1, n))
    if lay == "mono":
        ch = 1
        n = int(r.choice([0, 1, 2, 7, 8, 9, 100, 333] * 4 + [70000, 1 << 20]))
    x = r.uniform(-1, 1, (n, ch))
    if n and amp:
        x = x / np.abs(x).max()
    x = x * amp
    dt = [F32, F64, torch.int16][int(r.choice([0, 0, 1, 2]))]
    if dt == torch.int16:
        x = np.round(x * 900)
    if n > 4000:
        x[int(r.integers(n // 2, n)), int(r.integers(ch))] += 0.001 if dt != torch.int16 else 3  # the peak may sit anywhere
    ref = x.astype(np.float32).astype(float)
    t = T(x, dt)
    if lay == "mono":
        t = t[:, 0]
    elif lay == "cf":
        t = t.T if r.integers(2) else t.T.contiguous()
    if dt != torch.int16 and r.uniform() < 0.15:
        t = t.clone().requires_grad_(True)
    return t, ref, lay, ch, n, dt


def read_all(path):
    d, fs = sf.read(str(path), dtype="float64", always_2d=True)
    return d, fs, sf.info(str(path))


def same(ctx, got, want, sub, key, info):
    if sub not in STEP:
        return
    if ctx.expect(got.shape == want.shape, key + ":frames", f"stored (frames, channels)={got.shape}, expected {want.shape}", **info):
        lim = 1 - STEP[sub] if sub.startswith("PCM") else 1e9
        want = np.clip(want, -lim, lim) if sub.startswith("PCM") else want
        tol = 1.6 * STEP[sub] + 3e-7 * np.abs(want)
        e = np.abs(got - want) - tol
        ctx.expect(not (e > 0).any() if e.size else True, key + ":samples", f"sample error {float((np.abs(got - want)).max()) if e.size else 0:.3g} for {sub}", **info)


def earlier(r, path, ctx):
    """Some other audio was stored at this path before, and has been read: nothing of it may survive."""
    try:
        sf.write(str(path), r.uniform(-0.3, 0.3, (int(r.integers(1, 400)), int(r.integers(1, 4)))), int(r.choice([7000, 12345])), format=None if path.suffix.lower() not in (".wave", ".dat", ".raw1", "") else "WAV")
    except Exception:
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for fn in (tio.info_audio, tio.load_audio, tio.load_audio_data, taudio.load_audio, tio.load_wav, tio.info_wav):
            try:
                fn(path)
            except ValueError:
                pass
    ctx.count("overwritten")


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    d = ctx.tmp()
    fs = int(r.choice(RATES))
    if kind in ("save", "data"):
        norm = bool(r.integers(2))
        t, ref, lay, ch, n, dt = make(r, big=r.uniform() < (0.5 if norm else 0.2))
        if dt == torch.int16 and not norm:
            t = t.to(F32).div(1000.0)
            ref, dt = (ref.astype(np.float32) / np.float32(1000)).astype(float), F32
        ext = str(r.choice(["wav", "wav", "wav"] + list(EXT)))
        if ch > 8 and ext == "flac":
            ext = "wav"
        if n == 0 and ext != "wav":
            ext = "wav"
        sub = str(r.choice(EXT[ext])) if r.uniform() < 0.7 else None
        peak = float(r.choice([1.0, 0.5, 0.9, 0.1]))
        k = {}
        if not norm or r.integers(2):
            k["normalize"] = norm
        if norm and peak != 1.0:
            k["peak"] = peak
        elif norm:
            peak = 1.0
        if sub:
            k["subtype"] = sub
        snap = t.detach().clone()
        want = ref
        mx = np.abs(ref).max(initial=0)
        if norm and mx > 0:
            want = ref / mx * (peak if "peak" in k else 1.0)
        over = not norm and mx > 1
        path = d / f"x.{ext}"
        if r.uniform() < 0.4:
            earlier(r, path, ctx)
        if kind == "save":
            entries = ["io.save_audio", "audio.save_audio"] + (["io.save_wav", "audio.save", "io.save_wav:wave", "io.save_wav:format"] if ext == "wav" else [])
            e = str(r.choice(entries))
            if e == "io.save_wav":
                tio.save_wav(path, t, fs, **k)
            elif e == "audio.save":
                taudio.save(path, t, fs, **k)
            elif e == "io.save_wav:wave":
                path.unlink(missing_ok=True)
                path = d / "x.WAVE" if r.integers(2) else d / "x.wave"
                if r.integers(2):
                    earlier(r, path, ctx)
                tio.save_wav(path, t, fs, **k)
            elif e == "io.save_wav:format":
                path.unlink(missing_ok=True)
                path = d / str(r.choice(["x", "x.dat", "x.raw1"]))
                tio.save_wav(path, t, fs, format=str(r.choice(["wav", "WAV"])), **k)
            elif e == "io.save_audio":
                tio.save_audio(path, t, fs, **(k if r.integers(2) else dict(k, backend="soundfile")))
            else:
                taudio.save_audio(path, t, fs, **k)
        else:
            e = "data"
            k.pop("subtype", None)
            stored = sub
            data = taudio.AudioData(audio=t, sample_rate=fs, format=ext.upper(), subtype=stored)
            if r.uniform() < 0.3:
                sub = str(r.choice(EXT[ext]))
                k["subtype"] = sub
            tio.save_audio_data(path, data, **k)
            ctx.expect(data.subtype == stored and data.sample_rate == fs and data.audio is t, "data:mutated", "AudioData modified")
        info = dict(kind=kind, entry=e, layout=lay, channels=ch, frames=n, ext=ext, sub=sub, norm=norm, peak=peak, dtype=str(dt), over=over)
        got, gfs, meta = read_all(path)
        esub = sub or DEFAULT[ext]
        if over and sub is None:
            # unscaled and unclipped for wav; other containers have no documented fallback
            if ext != "wav":
                raise Skip("out of range audio in a non-wav container without subtype")
            if ctx.expect(got.shape == want.shape, "unscaled:frames", f"stored {got.shape}, expected {want.shape}", **info):
                ctx.expect(np.abs(got - want).max() <= 1e-6 * mx, "unscaled:out-of-range", f"values outside [-1, 1] were changed with normalize=False (max stored {np.abs(got).max():.3g} of {mx:.3g})", **info)
        else:
            ctx.expect(meta.subtype == esub, "subtype", f"stored as {meta.subtype}, asked for {esub}", **info)
            same(ctx, got, want, esub, "save", info)
        ctx.expect(gfs == fs, "rate", f"stored rate {gfs} != {fs}", **info)
        if ext == "wav":
            ctx.expect(meta.format in ("WAV", "WAVEX"), "format", f"stored as {meta.format}", **info)
            h = riff(path)
            ctx.expect(h is not None and h[0] == ref.shape[1] and h[1] == fs and h[3] == ref.shape[0], "riff", f"RIFF header says {h}", **info)
        # what the library itself loads and reports
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            a, afs = tio.load_audio(path)
            i = tio.info_audio(path)
            dd = tio.load_audio_data(path)
        rt = [w for w in ws if issubclass(w.category, RuntimeWarning)]
        ctx.expect(tuple(a.shape) == (got.shape[0],) and afs == fs and a.dtype == F32, "load:shape", f"loaded {tuple(a.shape)} at {afs}", **info)
        if a.shape == (got.shape[0],):
            ctx.expect(np.abs(a.numpy() - got[:, 0]).max(initial=0) <= 1e-7 * max(1.0, np.abs(got).max(initial=0)), "load:channel0", "loaded audio is not channel 0 of the file", **info)
        ctx.expect((len(rt) > 0) == (ch > 1), "load:warning", f"{len(rt)} channel warnings for {ch} channels", **info)
        ctx.expect(torch.equal(dd.audio, a) and dd.sample_rate == fs and dd.format == meta.format and dd.subtype == meta.subtype, "load_audio_data", "AudioData does not describe the file", **info)
        ctx.expect((i.sample_rate, i.num_frames, i.num_channels, i.format, i.subtype) == (fs, got.shape[0], got.shape[1], meta.format, meta.subtype) and abs(i.duration - got.shape[0] / fs) < 1e-9, "info", f"info reports {i}", **info)
        ctx.expect(torch.equal(t.detach(), snap), "mutated", "input audio modified", **info)
        ctx.expect([p.name for p in d.iterdir()] == [path.name], "files", "other files written", **info)
        ctx.nontrivial(kind, e, lay, ch > 8, esub, ext, norm, str(dt), over, n == 0, mx == 0)
        ctx.sample(info)
    elif kind == "load":
        ext = str(r.choice(list(EXT)))
        sub = str(r.choice(EXT[ext]))
        ch, n = int(r.choice([1, 1, 2, 6])), int(r.choice([1, 10, 500, 70001]))
        x = r.uniform(-0.9, 0.9, (n, ch))
        path = d / f"in.{ext}"
        if r.uniform() < 0.4:
            earlier(r, path, ctx)
        sf.write(str(path), x, fs, subtype=sub)
        raw = path.read_bytes()
        got, _, meta = read_all(path)
        info = dict(kind=kind, ext=ext, sub=sub, channels=ch, frames=n)
        fns = [("io.load_audio", tio.load_audio), ("audio.load_audio", taudio.load_audio), ("io.load_audio_data", lambda p: (lambda q: (q.audio, q.sample_rate))(tio.load_audio_data(p)))]
        if ext == "wav":
            fns += [("io.load_wav", tio.load_wav), ("audio.load", taudio.load), ("io.load_wav:format", lambda p: tio.load_wav(p, format="wav", backend="soundfile"))]
            # every spelling of "a wav file": suffixes and the format argument
            alt = d / f"alt.{r.choice(['wave', 'WAV', 'Wave'])}"
            alt.write_bytes(raw)
            f = str(r.choice(["wav", "wave", "WAV", "Wave"]))
            fns += [("io.load_wav:suffix", lambda p: tio.load_wav(alt)), ("audio.load:suffix", lambda p: taudio.load(alt)), (f"io.load_wav:{f}", lambda p: tio.load_wav(p, format=f))]
            want = (fs, n, ch, meta.format, sub)
            for nm, fn in (("info_wav", lambda: tio.info_wav(path)), ("info_wav:suffix", lambda: tio.info_wav(alt)), ("info_wav:format", lambda: tio.info_wav(path, format=f)), ("info_wav:backend", lambda: tio.info_wav(alt, backend="soundfile")), ("audio.info_audio", lambda: taudio.info_audio(path))):
                i = fn()
                ctx.expect((i.sample_rate, i.num_frames, i.num_channels, i.format, i.subtype) == want and abs(i.duration - n / fs) < 1e-9, "info", f"{nm} reports {i}", **info)
                ctx.nontrivial(kind, nm, sub)
        for nm, fn in fns:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                a, afs = fn(path)
            ctx.expect(tuple(a.shape) == (n,) and afs == fs and np.abs(a.numpy() - got[:, 0]).max() <= 1e-7, "load", f"{nm}: wrong audio", **info)
            ctx.expect(any(issubclass(w.category, RuntimeWarning) for w in ws) == (ch > 1), "load:warning", f"{nm}: channel warning wrong", **info)
            ctx.nontrivial(kind, nm, ext, sub, ch)
        # keep the stored subtype through AudioData
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            q = tio.load_audio_data(path)
        out = d / f"out.{ext}"
        tio.save_audio_data(out, q, normalize=False)
        g2, f2, m2 = read_all(out)
        ctx.expect(m2.subtype == meta.subtype and m2.format == meta.format and f2 == fs, "roundtrip:subtype", f"{meta.subtype} became {m2.subtype}", **info)
        same(ctx, g2, got[:, :1], sub, "roundtrip", info)
        ctx.expect(path.read_bytes() == raw, "load:mutated", "reading changed the file", **info)
    elif kind == "scene":
        t, ref, lay, ch, n, dt = make(r, big=bool(r.integers(2)))
        out = d / "a" / "b" if r.integers(2) else d
        lg = logging.getLogger("vf.scene") if r.integers(2) else None
        p = tio.save_scene_audio(out_dir=out, audio=t, fs=fs, audio_name="mix.wav", logger=lg)
        info = dict(kind=kind, layout=lay, channels=ch, frames=n, dtype=str(dt))
        ctx.expect(p == out / "mix.wav" and p.is_file(), "scene:path", f"returned {p}", **info)
        got, gfs, meta = read_all(p)
        mx = np.abs(ref).max(initial=0)
        same(ctx, got, ref / mx if mx else ref, "PCM_16", "scene", info)
        ctx.expect(gfs == fs, "scene:rate", "rate", **info)
        ctx.nontrivial(kind, lay, ch > 8, str(dt), mx == 0)
    else:
        t = T(r.uniform(-1, 1, 50), F32)
        good = d / "good.wav"
        sf.write(str(good), np.zeros(10), fs)
        flac = d / "good.flac"
        sf.write(str(flac), np.zeros(10), fs)
        before = {p.name: p.read_bytes() for p in d.iterdir()}
        non = d / str(r.choice(["y.flac", "y.ogg", "y.mp3", "y.wavx", "y.aiff"]))
        noext = d / "y"
        bb = str(r.choice(["sox", "Soundfile", "ffmpeg"]))
        bads = [("save_wav", lambda: tio.save_wav(non, t, fs)), ("audio.save", lambda: taudio.save(non, t, fs)), ("audio.save", lambda: taudio.save(noext, t, fs)),
                ("save_wav:noext", lambda: tio.save_wav(noext, t, fs)), ("save_wav:format", lambda: tio.save_wav(d / "y.wav", t, fs, format=str(r.choice(["flac", "mp3"])))),
                ("load_wav", lambda: tio.load_wav(flac)), ("audio.load", lambda: taudio.load(flac)), ("load_wav:format", lambda: tio.load_wav(good, format="flac")), ("load_wav:noext", lambda: tio.load_wav(noext)),
                ("info_wav", lambda: tio.info_wav(flac)), ("info_wav:format", lambda: tio.info_wav(good, format="flac")), ("info_wav:noext", lambda: tio.info_wav(noext)),
                ("peak", lambda: tio.save_wav(d / "y.wav", t, fs, peak=float(r.choice([0.0, -1.0])))), ("peak", lambda: tio.save_audio(d / "y.flac", t, fs, peak=-0.5)),
                ("backend", lambda: tio.save_wav(d / "y.wav", t, fs, backend=bb)), ("backend", lambda: tio.save_audio(d / "y.flac", t, fs, backend=bb)),
                ("backend", lambda: tio.load_wav(good, backend=bb)), ("backend", lambda: tio.load_audio(good, backend=bb)), ("backend", lambda: tio.info_wav(good, backend=bb)), ("backend", lambda: tio.info_audio(good, backend=bb)),
                ("set_backend", lambda: tio.set_audio_backend(bb)),
                ("subtype", lambda: tio.save_wav(d / "y.wav", t, fs, subtype="NOPE"))]
        if r.integers(2):
            tio.set_audio_backend("soundfile")
        for nm, fn in bads:
            ok, e = raises(ValueError, fn)
            if nm == "subtype":
                ok = isinstance(e, Exception)
                for p in d.iterdir():
                    if p.name not in before and p.stat().st_size == 0:
                        p.unlink()
            ctx.expect(ok, f"reject:{nm}", f"{nm}: " + ("accepted" if not isinstance(e, Exception) else repr(e)[:150]))
            ctx.nontrivial(kind, nm)
        after = {p.name: p.read_bytes() for p in d.iterdir()}
        ctx.expect(after == before, "reject:files", f"a rejected call changed files: {sorted(set(after) ^ set(before))}")
        ctx.expect(tio.get_audio_backend() in tio.list_audio_backends(), "backend:list", "default backend not listed")
