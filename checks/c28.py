"""C28: visualisation leaves nothing behind and contains its failures."""
import errno
import logging
import os
import stat
import tempfile
from contextlib import ExitStack, contextmanager
from pathlib import Path

import matplotlib as mplib
import numpy as np
import soundfile as sf
import torch
from matplotlib.axes import Axes
from matplotlib.figure import Figure

from vf import mpl
from vf.mpl import plt
from torchrir import viz

ID = "C28"
TECH = "fault injection with state monitors: drawing, saving, encoding, muxing and disk calls are made to fail at every position while monitors compare open figures, rcParams, the output/temporary/working directories, the video bytes and the log records before and after, over histories of mixed successful and failing calls"
NOTE = "Encoders are recording stand-ins (no ffmpeg here); the pillow writer and savefig also run for real in some histories."
RULE = "histories of 3..7 calls over the nine plotting/exporting entry points, each with a fault of a random kind at a random position or none; 2-D/3-D scenes; class = (entry, fault kind, position, dim)"
NEED = {"assertions": 5000, "faults_hit": 150, "contained": 40, "mux_faults": 25, "switches": 200}
TIMEOUT = {"quick": 400, "thorough": 850}


def SETUP():
    f = plt.figure()
    f.add_subplot(111, projection="3d")
    plt.close(f)


ENTRIES = ["static", "dynamic", "render", "layout", "plots", "gifs", "videos", "gif", "mp4"]
SAVE = {"layout", "plots", "gifs", "videos"}
FAULTS = ["none", "none", "savefig", "layoutcall", "legend", "text", "title", "scatter", "frame", "outfile", "badtraj", "badroom", "step0", "mux", "noff", "nomix", "badmix", "audiodisk", "replace", "badbin", "finish", "mixlink"]


def cases(tier):
    n = 30 if tier == "quick" else 900
    out = [{"kind": "history", "entry": e, "i": i} for i in range(n) for e in ENTRIES]
    out += [{"kind": "style", "i": i} for i in range(6 if tier == "quick" else 40)]
    out += [{"kind": "leak", "entry": e} for e in ENTRIES]
    return out


class Injected(Exception):
    pass


@contextmanager
def failing(cls, name, at, exc, hits):
    real = getattr(cls, name)
    n = [0]

    def f(self, *a, **k):
        n[0] += 1
        if n[0] == at:
            hits.append(name)
            raise exc
        return real(self, *a, **k)

    setattr(cls, name, f)
    try:
        yield
    finally:
        setattr(cls, name, real)


@contextmanager
def failing_fn(mod, name, at, exc, hits, partial=False):
    real = getattr(mod, name)
    n = [0]

    def f(*a, **k):
        n[0] += 1
        if n[0] == at:
            if partial:
                Path(a[0]).write_bytes(b"RIFFpartial")
            hits.append(name)
            raise exc
        return real(*a, **k)

    setattr(mod, name, f)
    try:
        yield
    finally:
        setattr(mod, name, real)


def names(p):
    return sorted(str(x.relative_to(p)) for x in p.rglob("*") if not x.is_dir())


def call(ctx, r, entry, fault, base, lg, msgs, pkg):
    """one call under one fault; checks everything that must hold after it"""
    d = int(r.integers(2, 4))
    T = int(r.integers(2, 5))
    size = np.round(r.uniform(2, 6, d), 2)
    ns, nm = int(r.integers(1, 4)), int(r.integers(1, 3))
    src, mic = r.uniform(0.1, 0.9, (ns, d)) * size, r.uniform(0.1, 0.9, (nm, d)) * size
    st, mt = np.repeat(src[None], T, 0) + r.uniform(0, 0.01, (T, ns, d)), np.repeat(mic[None], T, 0)
    room, S, M = size.tolist(), src.tolist(), mic.tolist()
    ST, MT = torch.tensor(st), torch.tensor(mt)
    step = 1
    work = base / f"w{r.integers(1 << 30)}"
    work.mkdir()
    out = work / "out" / "deep"
    tmpd = work / "tmp"
    tmpd.mkdir()
    cwd = work / "cwd"
    cwd.mkdir()
    mix = work / "mix.wav"
    sf.write(mix, r.uniform(-0.5, 0.5, (100, int(r.integers(1, 4)))), 8000, subtype="FLOAT")
    use_mix = bool(r.integers(2)) or fault in ("mux", "nomix", "badmix", "audiodisk", "replace", "badbin", "noff", "mixlink")
    exc = [OSError(errno.ENOSPC, "No space left on device (injected)"), ValueError("injected"), RuntimeError("injected"), MemoryError("injected")][int(r.integers(4))]
    if fault == "savefig" and r.uniform() < 0.15:
        exc = KeyboardInterrupt()
    at = int(r.integers(1, 5))
    hits = []
    mode = "ok"
    E = lambda c, k, m, **x: ctx.expect(c, f"{entry}:{k}", m, entry=entry, fault=fault, at=at, dim=d, exc=type(exc).__name__, **x)  # noqa: E731
    before_figs = list(plt.get_fignums())
    switch = bool(before_figs) and r.uniform() < 0.5
    mine = before_figs[int(r.integers(len(before_figs)))] if before_figs else None

    def tick():
        """the user's code looks at one of its own figures while the call runs"""
        ctx.count("switches")
        plt.figure(mine)

    before_axes = {n: len(plt.figure(n).axes) for n in before_figs}
    rc = dict(mplib.rcParams)
    msgs.clear()
    pkg.clear()
    shown = []
    own = None
    stack = ExitStack()
    mixb = None
    with stack:
        show = plt.show
        stack.callback(setattr, plt, "show", show)
        plt.show = lambda *a, **k: shown.append(a)
        if fault == "savefig":
            stack.enter_context(failing(Figure, "savefig", at, exc, hits))
        elif fault == "layoutcall":
            stack.enter_context(failing(Figure, "tight_layout", at, exc, hits))
        elif fault == "legend":
            stack.enter_context(failing(Axes, "legend", at, exc, hits))
        elif fault == "text":
            stack.enter_context(failing(Axes, "text", at, exc, hits))
        elif fault == "title":
            stack.enter_context(failing(Axes, "set_title", at, exc, hits))
        elif fault == "scatter":
            stack.enter_context(failing(Axes, "scatter", at, exc, hits))
        elif fault == "outfile":
            out.parent.write_text("a file") if not out.parent.exists() else None
            if entry not in ("static", "dynamic"):
                hits.append("outfile")
        elif fault == "badtraj":
            ST = [torch.tensor(src), torch.tensor(st)[:, :, :1], torch.tensor(st)[None]][int(r.integers(3))]
        elif fault == "badroom":
            room = [[1.0], [[2.0, 3.0]], ["a", "b"]][int(r.integers(3))]
        elif fault == "step0":
            step = 0
        elif fault == "nomix":
            mix.unlink()
        elif fault == "badmix":
            mix.write_bytes(b"not audio at all")
        elif fault == "mixlink":
            mix.unlink()
            mix.mkdir()
        elif fault == "audiodisk":
            stack.enter_context(failing_fn(sf, "write", 1 if r.integers(2) else at, exc, hits, partial=True))
        elif fault == "replace":
            stack.enter_context(failing_fn(os, "replace", 1, OSError(errno.EACCES, "injected"), hits))
            stack.enter_context(failing_fn(os, "rename", 1, OSError(errno.EACCES, "injected"), hits))
        if fault == "noff":
            stack.enter_context(mpl.no_ffmpeg(work))
        else:
            mode = ["fail", "partial", "silent"][int(r.integers(3))] if fault == "mux" else "ok"
            ff = stack.enter_context(mpl.fake_ffmpeg(work / "ff", mux=mode))
            if fault == "badbin":
                b = work / "ff" / "bin" / "ffmpeg"
                b.write_bytes(b"\x00\x01\x02garbage")
                b.chmod(b.stat().st_mode | stat.S_IEXEC)
        if mix.is_file():
            mixb = mix.read_bytes()
        real_gif = entry in ("gif", "gifs") and fault == "none" and r.uniform() < 0.2
        real_save = entry in ("render", "layout", "plots") and fault not in ("savefig",) and r.uniform() < 0.15
        if not real_save and not real_gif and fault != "savefig":
            stack.enter_context(mpl.record_saves(hook=(lambda k: tick()) if switch else None))
        R = None
        if not real_gif:
            R = stack.enter_context(mpl.record_movies())
            R.tick = tick if switch else None
            if fault == "frame":
                R.fail_at = at - 1
            if fault == "finish":
                stack.enter_context(failing(R, "finish", 1 if r.integers(2) else 2, exc, hits))
        old_tmp, old_cwd, old_td = os.environ.get("TMPDIR"), os.getcwd(), tempfile.tempdir
        os.environ["TMPDIR"] = str(tmpd)
        tempfile.tempdir = None
        os.chdir(cwd)
        raised = None
        ret = None
        traj = dict(src_traj=ST, mic_traj=MT)
        com = dict(room=room, sources=S, mics=M)
        pre = "p"
        try:
            if entry == "static":
                ret = viz.plot_scene_static(**com, title="t")
            elif entry == "dynamic":
                ret = viz.plot_scene_dynamic(room=room, step=step, title="t", **traj)
            elif entry == "render":
                ret = viz.render_scene_plots(out_dir=out, prefix=pre, step=step, **com, **traj)
            elif entry == "layout":
                viz.save_scene_layout_images(out_dir=out, logger=lg, **com, **traj)
            elif entry == "plots":
                viz.save_scene_plots(out_dir=out, prefix=pre, show=False, logger=lg, **com, **traj)
            elif entry == "gifs":
                viz.save_scene_gifs(out_dir=out, prefix=pre, signal_len=8000, fs=8000, gif_fps=5, logger=lg, **com, **traj)
            elif entry == "videos":
                viz.save_scene_videos(out_dir=out, signal_len=8000, fs=8000, logger=lg, mixture_path=mix if use_mix else None, **com, **traj)
            elif entry == "gif":
                viz.animate_scene_gif(out_path=out / "a.gif", step=step, plot_2d=d == 2, plot_3d=d == 3, **com, **traj)
            else:
                viz.animate_scene_mp4(out_path=out / "a.mp4", step=step, plot_2d=d == 2, plot_3d=d == 3, mixture_path=mix if use_mix else None, **com, **traj)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, (SystemExit,)):
                raise
            raised = e
        finally:
            os.chdir(old_cwd)
            tempfile.tempdir = old_td
            if old_tmp is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = old_tmp
    if fault == "frame" and R is not None and R.hit:
        hits.append("frame")
    # figures
    own_fig = ret.figure.number if entry in ("static", "dynamic") and raised is None else None
    now = [n for n in plt.get_fignums() if n != own_fig]
    E(set(now) <= set(before_figs), "figures", f"figures {sorted(set(now) - set(before_figs))} left open")
    E(set(before_figs) <= set(now), "user-figures", "a figure opened by the user was closed")
    E(all(len(plt.figure(n).axes) == k for n, k in before_axes.items() if plt.fignum_exists(n)), "user-axes", "a figure of the user was drawn into")
    if own_fig is not None:
        plt.close(own_fig)
    ch = {k for k in rc if mplib.rcParams[k] != rc[k]}
    E(not ch, "rcparams", f"settings changed: {sorted(ch)[:6]}")
    E(not shown, "shown", "plt.show was called without being asked")
    # files
    E(names(tmpd) == [], "tmp", f"temporary files left: {names(tmpd)}")
    E(names(cwd) == [], "cwd", f"files in the working directory: {names(cwd)}")
    promised = {"static": [], "dynamic": [], "render": [f"{pre}_{k}_{v}d.png" for k in ("static", "dynamic") for v in (2, 3)], "layout": ["room_layout_2d.png", "room_layout_3d.png"], "gifs": [f"{pre}.gif", f"{pre}_3d.gif"], "videos": ["room_layout_2d.mp4", "room_layout_3d.mp4"], "gif": ["a.gif"], "mp4": ["a.mp4"]}
    promised["plots"] = promised["render"]
    have = names(out) if out.is_dir() else []
    E(set(have) <= set(promised[entry]), "files", f"unpromised files {sorted(set(have) - set(promised[entry]))}")
    side = [n for n in names(work) if not n.startswith(("out/", "ff/", "emptybin/")) and n not in ("mix.wav", "out")]
    E(not side, "files-beside", f"files beside the output: {side}")
    if mixb is not None and fault != "badmix":
        E(mix.is_file() and mix.read_bytes() == mixb, "mixture", "mixture file changed")
    if fault == "outfile":
        E((work / "out").read_text() == "a file", "outfile", "existing file replaced")
    warn = [m for lv, m in msgs if lv >= logging.WARNING]
    saved = [m for lv, m in msgs if lv == logging.INFO and m.startswith("saved: ")]
    if entry in SAVE:
        bad = raised is not None and not isinstance(raised, KeyboardInterrupt)
        E(not bad, "escaped", f"{type(raised).__name__}: {raised} escaped a contained helper")
        miss = [m for m in saved if not Path(m[7:]).exists()]
        E(not miss, "saved", f"reported but missing: {miss}")
        failed = [h for h in hits if h not in ("write", "replace", "rename")]
        if failed and raised is None:
            E(bool(warn), "silent", f"failure ({failed}) not logged")
            ctx.count("contained")
        want = [n for n in promised[entry] if d == 3 or "3d" not in n]
        if not hits and fault in ("none", "noff", "mux", "nomix") and mode != "silent" and not bad and raised is None:
            E(have == sorted(want) and sorted(Path(m[7:]).name for m in saved) == sorted(want), "outputs", f"files {have}, reported {saved}, promised {want}")
            if fault == "none":
                E(not warn, "noise", f"warnings on success: {warn}")
    else:
        if fault == "none":
            E(raised is None, "raised", f"{type(raised).__name__}: {raised}")
        if hits and entry in ("static", "dynamic", "render", "gif"):
            E(raised is not None, "swallowed", f"failure ({hits}) gave a normal return")
    # videos survive a failed mux
    if entry in ("videos", "mp4") and use_mix and R is not None and fault in ("mux", "noff", "nomix", "badmix", "audiodisk", "replace", "badbin", "mixlink") and out.is_dir():
        good = {b"movie"} if fault in ("mux", "noff", "nomix", "badmix", "badbin", "mixlink") else {b"movie", b"MUXED movie"}
        for x in R.log:
            p = Path(x["path"])
            E(p.exists() and p.read_bytes() in good, "video-lost", f"{p.name} is {p.read_bytes() if p.exists() else None!r} after the mux failed")
            ctx.count("mux_faults")
        if R.log and (mode in ("fail", "partial") or fault == "noff"):
            E(bool(warn or pkg), "mux-silent", "the failed audio mux is not reported by any warning")
    if entry in ("videos", "mp4") and fault == "none" and use_mix and raised is None:
        for x in R.log:
            E(Path(x["path"]).read_bytes() == b"MUXED movie", "unmuxed", "audio was not added")
    if hits:
        ctx.count("faults_hit", len(hits))
    ctx.count("calls")
    ctx.nontrivial(entry, fault, at if hits else 0, d, mode)


def run(spec, ctx):
    r = ctx.rng
    lg = logging.getLogger("vf.viz28")
    lg.setLevel(logging.INFO)
    lg.propagate = False
    msgs = []

    class H(logging.Handler):
        def emit(self, rec):
            msgs.append((rec.levelno, rec.getMessage()))

    lg.handlers[:] = [H()]
    tl = logging.getLogger("torchrir")
    pkg = []

    class P(logging.Handler):
        def emit(self, rec):
            if rec.levelno >= logging.WARNING:
                pkg.append(rec.getMessage())

    quiet = P()
    tl.addHandler(quiet)
    prop, tl.propagate = tl.propagate, False
    plt.close("all")
    try:
        plt.figure()
        plt.subplots()
        _warm(ctx)
        base = ctx.tmp()
        if spec["kind"] == "history":
            for k in range(int(r.integers(3, 6))):
                entry = spec["entry"] if k % 2 == 0 else ENTRIES[int(r.integers(len(ENTRIES)))]
                fs = FAULTS if entry in ("mp4", "videos") else [f for f in FAULTS if f not in ("mux", "noff", "nomix", "badmix", "audiodisk", "replace", "badbin", "mixlink")]
                call(ctx, r, entry, fs[int(r.integers(len(fs)))], base, lg, msgs, pkg)
        elif spec["kind"] == "leak":
            for k in range(25):
                call(ctx, r, spec["entry"], "none", base, lg, msgs, pkg)
            ctx.expect(len(plt.get_fignums()) == 2, f"{spec['entry']}:leak", f"{len(plt.get_fignums())} figures after 25 calls")
        else:
            with mplib.rc_context():
                mplib.rcParams["lines.linewidth"] = 7.5
                mplib.rcParams["axes.grid"] = False
                mplib.rcParams["figure.dpi"] = 37.0
                mplib.rcParams["font.size"] = 5.0
                for k in range(4):
                    if r.uniform() < 0.4:
                        plt.close("all")
                    call(ctx, r, ENTRIES[int(r.integers(len(ENTRIES)))], "none", base, lg, msgs, pkg)
            ctx.nontrivial("style")
    finally:
        plt.close("all")
        tl.removeHandler(quiet)
        tl.propagate = prop
    ctx.sample(spec)


def _warm(ctx):
    """the documented one-time default style is applied by the first plot"""
    ax = viz.plot_scene_static(room=[2.0, 2.0], sources=[[1.0, 1.0]], mics=[[0.5, 1.0]])
    plt.close(ax.figure)
