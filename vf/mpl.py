"""Reading back what matplotlib was asked to draw, and stand-ins for encoders."""
from __future__ import annotations

import os
import stat
from contextlib import contextmanager
from pathlib import Path

import matplotlib

matplotlib.use("Agg")
import matplotlib.animation as man  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
from matplotlib.figure import Figure  # noqa: E402


def is3d(ax):
    return hasattr(ax, "get_zlim")


def points(coll):
    """(n, dim) positions of a scatter collection"""
    o = getattr(coll, "_offsets3d", None)
    if o is not None:
        v = [np.atleast_1d(np.ma.filled(np.ma.asarray(np.asarray(a, dtype=float)), np.nan)) for a in o]
        return np.stack(v, -1)
    return np.asarray(np.ma.filled(np.ma.asarray(coll.get_offsets()), np.nan), float).reshape(-1, 2)


def poly(line):
    """(n, dim) vertices of a line"""
    d = line.get_data_3d() if hasattr(line, "get_data_3d") else line.get_data()
    return np.stack([np.asarray(v, dtype=float).reshape(-1) for v in d], -1)


def snap(ax):
    """What an axes shows, as plain data."""
    import matplotlib.collections as mc
    import matplotlib.patches as mp

    segs = []
    for p in ax.patches:
        if isinstance(p, mp.Patch) and p is not ax.patch:
            v = p.get_path().transformed(p.get_patch_transform()).vertices
            segs.append(np.asarray(v, float))
    scat = [(c.get_label(), points(c)) for c in ax.collections if isinstance(c, mc.PathCollection)]
    segs += [np.asarray(s, float) for c in ax.collections if isinstance(c, mc.LineCollection) for s in (getattr(c, "_segments3d", None) if getattr(c, "_segments3d", None) is not None else c.get_segments())]
    lines = [(ln.get_label(), poly(ln)) for ln in ax.lines]
    texts = []
    for t in ax.texts:
        pos = t.get_position_3d() if hasattr(t, "get_position_3d") else t.get_position()
        texts.append((t.get_text(), np.array([float(v) for v in pos]), t.get_transform() == ax.transAxes))
    leg = ax.get_legend()
    lim = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if is3d(ax) else [])
    return dict(dim=3 if is3d(ax) else 2, scat=scat, lines=lines, segs=segs, texts=texts, legend=sorted(t.get_text() for t in leg.get_texts()) if leg else None, lim=np.array(lim, float), title=ax.get_title(), labels=[ax.get_xlabel(), ax.get_ylabel()] + ([ax.get_zlabel()] if is3d(ax) else []))


class Recorder(man.AbstractMovieWriter):
    """Movie writer that records the axes at every frame instead of encoding."""

    log: list = []
    fail_at = None
    hit = False
    tick = None

    @classmethod
    def isAvailable(cls):
        return True

    def setup(self, fig, outfile, dpi=None):
        super().setup(fig, outfile, dpi)
        self.rec = dict(path=Path(outfile), fps=self.fps, frames=[], size=tuple(fig.get_size_inches()), dpi=dpi)
        Recorder.log.append(self.rec)

    def grab_frame(self, **kw):
        if Recorder.fail_at is not None and len(self.rec["frames"]) == Recorder.fail_at:
            Recorder.hit = True
            raise OSError(28, "No space left on device (injected)")
        self.rec["frames"].append(snap(self.fig.axes[0]))
        if Recorder.tick:
            Recorder.tick()

    def finish(self):
        Path(self.rec["path"]).write_bytes(b"movie")


@contextmanager
def record_movies():
    """Route the pillow and ffmpeg writers to Recorder."""
    Recorder.log = []
    Recorder.fail_at = None
    Recorder.hit = False
    Recorder.tick = None
    reg = dict(man.writers._registered)
    old = man.PillowWriter, man.FFMpegWriter, man.FFMpegFileWriter
    man.writers._registered.update(pillow=Recorder, ffmpeg=Recorder, ffmpeg_file=Recorder)
    man.PillowWriter = man.FFMpegWriter = man.FFMpegFileWriter = Recorder
    try:
        yield Recorder
    finally:
        man.PillowWriter, man.FFMpegWriter, man.FFMpegFileWriter = old
        man.writers._registered.clear()
        man.writers._registered.update(reg)
        Recorder.fail_at = None
        Recorder.tick = None


@contextmanager
def record_saves(hook=None):
    """Figure.savefig records the axes and writes a small file. hook(k) may raise."""
    log = []
    real = Figure.savefig

    def save(self, fname, *a, **k):
        if hook:
            hook(len(log))
        log.append((Path(fname), snap(self.axes[0]), len(self.axes)))
        Path(fname).write_bytes(b"png")

    Figure.savefig = save
    try:
        yield log
    finally:
        Figure.savefig = real


FF = """#!/bin/sh
out=""; n=0; a1=""; a2=""; prev=""
for a in "$@"; do
  if [ "$prev" = "-i" ]; then n=$((n+1)); if [ $n = 1 ]; then a1="$a"; else a2="$a"; fi; fi
  prev="$a"; out="$a"
done
echo "$n $out" >> "$FF_DIR/calls"
if [ $n -lt 2 ]; then
  bytes=$(wc -c)
  case "$FF_RENDER" in
    fail) exit 3;;
    partial) printf 'PART' > "$out"; exit 4;;
  esac
  printf 'VIDEO %s' "$bytes" > "$out"
  exit 0
fi
cp "$a2" "$FF_DIR/audio.$(ls "$FF_DIR" | wc -l).wav"
case "$FF_MUX" in
  fail) echo "mux failed" >&2; exit 1;;
  partial) printf 'BROK' > "$out"; exit 1;;
  silent) exit 0;;
esac
{ printf 'MUXED '; cat "$a1"; } > "$out"
exit 0
"""


@contextmanager
def fake_ffmpeg(d: Path, render="ok", mux="ok"):
    """An `ffmpeg` on PATH that records its calls below d."""
    b = d / "bin"
    b.mkdir(parents=True, exist_ok=True)
    (d / "log").mkdir(exist_ok=True)
    p = b / "ffmpeg"
    p.write_text(FF)
    p.chmod(p.stat().st_mode | stat.S_IEXEC)
    old = {k: os.environ.get(k) for k in ("PATH", "FF_DIR", "FF_RENDER", "FF_MUX")}
    os.environ.update(PATH=f"{b}:{os.environ['PATH']}", FF_DIR=str(d / "log"), FF_RENDER=render, FF_MUX=mux)
    try:
        yield d / "log"
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


@contextmanager
def no_ffmpeg(d: Path):
    """PATH without any ffmpeg."""
    e = d / "emptybin"
    e.mkdir(parents=True, exist_ok=True)
    old = os.environ["PATH"]
    os.environ["PATH"] = str(e)
    try:
        yield
    finally:
        os.environ["PATH"] = old
