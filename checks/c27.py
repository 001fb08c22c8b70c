"""C27: plots and animations draw the scene they are given."""
import logging
from pathlib import Path

import numpy as np
import soundfile as sf
import torch

from vf import mpl
from vf.mpl import plt
from vf.tr import raises
from torchrir import viz
from torchrir.models import MicrophoneArray, Room, Source

ID = "C27"
TECH = "monitor on the drawing back end: every artist matplotlib holds (points, lines, outlines, texts, limits, legend) is read back after each call and at every movie frame through a recording movie writer, and compared with the scene; savefig and ffmpeg are observed through recording stand-ins, a few cases use the real encoders"
NOTE = "What is drawn is judged, not how it looks (colours, fonts and marker shapes are free)."
RULE = "random 2-D/3-D rooms, 1..5 sources and mics, static/moving/mixed trajectories of 1..9 steps, every step/fps/duration option, entities or raw tensors/lists/integers, single positions, annotations on/off, own or given axes; class = (entry, dim, view, moving kind, step, input form)"
NEED = {"assertions": 8000, "frames_checked": 600, "plots_checked": 300}
TIMEOUT = {"quick": 400, "thorough": 850}


def SETUP():
    f = plt.figure()
    f.add_subplot(111, projection="3d")
    plt.close(f)


def cases(tier):
    n = 150 if tier == "quick" else 1800
    out = [{"kind": k, "i": i} for i in range(n) for k in ("static", "dynamic", "movie", "movie", "render", "layout")]
    out += [{"kind": k, "i": i} for i in range(n // 4) for k in ("gifs", "videos", "mux", "reject")]
    out += [{"kind": "real", "i": i} for i in range(4 if tier == "quick" else 40)]
    return out


def scene(r, dim=None, T=None, big=False):
    dim = dim or int(r.integers(2, 4))
    ns, nm = int(r.integers(1, 6)), int(r.integers(1, 5))
    T = T or int(r.integers(1, 10))
    if big and r.integers(2):
        ns, nm = int(r.integers(8, 30)), int(r.choice([8, 33, 64]))
    elif big:
        T = int(r.choice([70, 300]))
    size = np.round(r.uniform(2, 9, dim), 3)
    mk = lambda n: np.round(r.uniform(0.1, 0.9, (n, dim)) * size, 4)  # noqa: E731
    src, mic = mk(ns), mk(nm)

    def traj(p, how):
        t = np.repeat(p[None], T, 0)
        if how == 0 or T == 1:
            return t
        end = mk(len(p))
        if tiny:  # movements of 0.1 mm to 1 cm are movements
            end = p + (end - p) * tiny
        a = np.linspace(0, 1, T)[:, None, None]
        m = t + a * (end - p)
        if loops and T > 2:  # back where it began
            m = p + np.sin(np.pi * a) * (end - p)
            m[-1] = p
            if loops == 2:  # several equal steps in between: still a movement
                m[T // 2 :] = p
        if how == 2:
            m[:, 0] = p[0]
        return m

    hs, hm = int(r.integers(3)), int(r.choice([0, 0, 1, 2]))
    loops = int(r.choice([0, 0, 0, 1, 2]))
    tiny = float(r.choice([0, 0, 0, 0, 0, 1e-4, 1e-3, 3e-3]))
    return dict(dim=dim, T=T, size=size, src=src, mic=mic, st=traj(src, hs), mt=traj(mic, hm), how=(hs, hm))


def form(r, x):
    k = int(r.integers(4))
    if k == 0:
        return x.tolist()
    if k == 1:
        return torch.tensor(x, dtype=torch.float32)
    if k == 2:
        return torch.tensor(x, dtype=torch.float64)
    return torch.tensor(x, dtype=torch.float64).requires_grad_(bool(r.integers(2)))[..., :]


def ent(r, cls, x):
    k = int(r.integers(4))
    if k == 0:
        return cls.from_positions(x.tolist())
    if k == 1 and len(x) == 1:
        return x[0].tolist()
    return form(r, x)


TOL = 2e-5


def has(rows, p):
    return len(rows) > 0 and bool(np.any(np.all(np.abs(rows - p) < TOL, -1)))


def eq(a, b):
    return a.shape == np.shape(b) and bool(np.all(np.abs(a - b) < TOL))


def room_ok(s, size):
    """all box edges are drawn"""
    d = len(size)
    segs = [x for x in s["segs"]] + [x for _, x in s["lines"]]
    pairs = [(a, b) for x in segs if x.shape[-1] == d for a, b in zip(x[:-1], x[1:])]
    from itertools import product

    for c in product(*[(0, v) for v in size]):
        for ax in range(d):
            if c[ax] == 0:
                e = list(c)
                e[ax] = size[ax]
                if not any((np.all(abs(a - c) < TOL) and np.all(abs(b - e) < TOL)) or (np.all(abs(a - e) < TOL) and np.all(abs(b - c) < TOL)) for a, b in pairs):
                    return False
    return True


def allpts(s, dim):
    v = [p for _, p in s["scat"] if p.shape[-1] == dim and len(p)]
    return np.concatenate(v) if v else np.zeros((0, dim))


def texts_ok(E, key, s, src, ann, notes, d):
    idx = {t: p for t, p, fixed in s["texts"] if not fixed}
    if ann:
        E(set(idx) == {f"S{i}" for i in range(len(src))}, f"{key}:labels", f"labels {sorted(idx)} for {len(src)} sources")
        for i, p in enumerate(src):
            if f"S{i}" in idx:
                q = idx[f"S{i}"]
                E(bool(np.all(np.abs(q[:d] - p[:d]) < TOL)), f"{key}:label-at", f"S{i} at {q}, source at {p}")
    else:
        E(not idx, f"{key}:labels", f"labels {sorted(idx)} though switched off")
    fixed = [t for t, _, f in s["texts"] if f]
    want = [n.strip() for n in (notes or []) if n.strip()]
    E(("\n".join(fixed).split("\n") if fixed else []) == want, f"{key}:notes", f"annotation {fixed}, asked {want}")


def common(E, key, s, size, d):
    E(s["dim"] == d and len(size) == d, f"{key}:view", f"{s['dim']}-D axes for a {d}-D view")
    E(eq(s["lim"], np.stack([np.zeros(d), size], -1)), f"{key}:limits", f"limits {s['lim'].tolist()} for room {size}")
    E(s["legend"] == ["mics", "sources"], f"{key}:legend", f"legend {s['legend']}")


def check_static(E, key, s, size, src, mic, ann, notes, title=None):
    d = len(size)
    common(E, key, s, size, d)
    E(room_ok(s, size), f"{key}:room", f"room outline of {size} not drawn")
    lab = {}
    for n, p in s["scat"]:
        lab.setdefault(n, []).append(p)
    for n, want in (("sources", src), ("mics", mic)):
        got = np.concatenate(lab.get(n, [np.zeros((0, d))]))
        E(eq(got, want), f"{key}:{n}", f"{n} drawn at {got.tolist()}, are at {want.tolist()}")
    pts = allpts(s, d)
    E(all(has(np.concatenate([src, mic]), p) for p in pts), f"{key}:extra", "a point is drawn where nothing is")
    if title is not None:
        E(s["title"] == title, f"{key}:title", f"title {s['title']!r}")
    texts_ok(E, key, s, src, ann, notes, d)


def check_dynamic(E, key, s, size, st, mt, sp, mp, step, ann, notes, title=None):
    d = len(size)
    common(E, key, s, size, d)
    E(room_ok(s, size), f"{key}:room", f"room outline of {size} not drawn")
    pts = allpts(s, d)
    for n, t, p, other in (("sources", st, sp, mt), ("mics", mt, mp, st)):
        moving = bool(np.any(np.linalg.norm(t - p[None], axis=-1) > 1e-5))
        marg = bool(np.any(np.linalg.norm(t - p[None], axis=-1) > 1e-7))
        for q in p:
            E(has(pts, q), f"{key}:{n}", f"{n[:-1]} at {q} not drawn")
        if moving:
            for i in range(t.shape[1]):
                E(any(eq(x, t[::step, i]) for _, x in s["lines"]), f"{key}:{n}-path", f"path of {n[:-1]} {i} not drawn with step {step}")
        named = [x for m, x in s["scat"] if m == n] + [x for m, x in s["lines"] if m == n]
        E(bool(named) and all(has(np.concatenate([p, t.reshape(-1, d)]), q) for x in named for q in x), f"{key}:{n}-legend", f"the {n} legend entry stands for other points")
        if not moving and not marg:
            for i in range(t.shape[1]):
                E(not any(len(x) > 1 and eq(x, t[::step, i]) and not any(eq(x, other[::step, j]) for j in range(other.shape[1])) for _, x in s["lines"]), f"{key}:{n}-still", f"a path is drawn for motionless {n}")
    E(all(has(np.concatenate([sp, mp]), p) for p in pts), f"{key}:extra", "a point is drawn where nothing is")
    paths = [x for _, x in s["lines"] if len(x) and not all(np.all((np.abs(q) < TOL) | (np.abs(q - size) < TOL)) for q in x)]
    ok = [t[::step, i] for t in (st, mt) for i in range(t.shape[1])]
    E(all(any(eq(x, w) for w in ok) for x in paths), f"{key}:extra-path", "a line is drawn that is no trajectory")
    if title is not None:
        E(s["title"] == title, f"{key}:title", f"title {s['title']!r}")
    texts_ok(E, key, s, sp, ann, notes, d)


def check_movie(ctx, E, key, rec, sc, view, step, fps, dur, ann, notes):
    st, mt = sc["st"][:, :, :view], sc["mt"][:, :, :view]
    T = len(st)
    n = max(1, -(-T // step))
    E(len(rec["frames"]) == n, f"{key}:frames", f"{len(rec['frames'])} frames for {T} steps with step {step}")
    if fps is not None and fps > 0:
        want = fps
    elif dur:
        want = n / dur
    else:
        want = 6.0
    E(abs(rec["fps"] - max(1, want)) <= 0.5 + 1e-9 and rec["fps"] >= 1, f"{key}:fps", f"{rec['fps']} frames per second, expected {want}")
    for i, s in enumerate(rec["frames"]):
        k = min(i * step, T - 1)
        common(E, key, s, sc["size"][:view], view)
        lab = {}
        for nme, p in s["scat"]:
            lab.setdefault(nme, []).append(p)
        for nme, t in (("sources", st), ("mics", mt)):
            got = np.concatenate(lab.get(nme, [np.zeros((0, view))]))
            E(eq(got, t[k]), f"{key}:{nme}", f"frame {i}: {nme} at {got.tolist()}, at step {k} they are at {t[k].tolist()}")
            for j in range(t.shape[1]):
                E(any(eq(x, t[: k + 1, j]) for _, x in s["lines"]), f"{key}:{nme}-trail", f"frame {i}: trail of {nme[:-1]} {j} is not its path so far")
        ok = [t[: k + 1, j] for t in (st, mt) for j in range(t.shape[1])]
        E(all(any(eq(x, w) for w in ok) for _, x in s["lines"]), f"{key}:extra-trail", f"frame {i}: a line is drawn that is no trail")
        if dur and T > 1:
            import re

            m = re.search(r"([-\d.]+) s", s["title"])
            E(m is not None and abs(float(m.group(1)) - k / (T - 1) * dur) < 0.0051, f"{key}:time", f"frame {i} titled {s['title']!r}, time is {k / (T - 1) * dur:.3f}")
        texts_ok(E, key, s, st[k], ann, notes, view)
        ctx.count("frames_checked")


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    big = kind in ("static", "dynamic") and r.uniform() < 0.1 or kind == "movie" and r.uniform() < 0.02
    sc = scene(r, big=big)
    long = kind == "movie" and r.uniform() < 0.06  # many steps, few of them drawn
    if long:
        sc = scene(r, T=int(r.integers(129, 1400)))
        ctx.count("long_movies")
    ctx.count("big_cases", int(big))
    d = sc["dim"]
    size, src, mic, st, mt = sc["size"], sc["src"], sc["mic"], sc["st"], sc["mt"]
    ann = bool(r.integers(2))
    notes = [None, [], ["scene:x", " speed: 1 ", ""]][int(r.integers(3))]
    info = dict(kind=kind, dim=d, T=sc["T"], n=(len(src), len(mic)), how=sc["how"], ann=ann, notes=notes)
    E = lambda c, k, m, **x: ctx.expect(c, k, m, **info, **x)  # noqa: E731
    kw = dict(annotate_sources=ann) if r.uniform() < 0.8 or not ann else {}
    if notes is not None:
        kw["annotation_lines"] = notes
    lg = logging.getLogger("vf.viz")
    lg.setLevel(logging.INFO)
    lg.propagate = False
    msgs = []

    class H(logging.Handler):
        def emit(self, rec):
            msgs.append((rec.levelname, rec.getMessage()))

    lg.handlers[:] = [H()]
    fm = lambda x: form(r, x)  # noqa: E731
    plt.close("all")
    keep = plt.figure()
    try:
        if kind == "static":
            room = Room.shoebox(size.tolist(), fs=8000) if r.uniform() < 0.4 else fm(size)
            if r.uniform() < 0.2:
                size = np.ceil(size)
                src, mic = np.round(src), np.round(mic)
                room, s_in, m_in = [int(v) for v in size], src.astype(int).tolist(), torch.tensor(mic).long()
            else:
                s_in, m_in = ent(r, Source, src), ent(r, MicrophoneArray, mic)
            raw = [x.clone() if torch.is_tensor(x) else None for x in (room, s_in, m_in)]
            title = [None, "A title"][int(r.integers(2))]
            own = None
            if r.uniform() < 0.4:
                f = plt.figure()
                own = f.add_subplot(111, projection="3d") if d == 3 else f.add_subplot(111)
            nf = len(plt.get_fignums())
            ax = viz.plot_scene_static(room=room, sources=s_in, mics=m_in, **kw, **({"title": title} if title else {}), **({"ax": own} if own is not None else {}))
            if own is not None:
                E(ax is own and len(plt.get_fignums()) == nf, "static:axes", "given axes not used")
            check_static(E, "static", mpl.snap(ax), size, src, mic, ann, notes, title)
            E(all(b is None or torch.equal(a, b) for a, b in zip((room, s_in, m_in), raw)), "static:mutated", "inputs modified")
            ctx.count("plots_checked")
            ctx.nontrivial(kind, d, own is not None, type(s_in).__name__, type(room).__name__, ann)
        elif kind == "dynamic":
            step = int(r.choice([1, 1, 2, 3, 20]))
            room = Room.shoebox(size.tolist(), fs=8000) if r.uniform() < 0.4 else fm(size)
            a = dict(room=room, src_traj=fm(st), mic_traj=fm(mt))
            if step > 1 or r.integers(2):
                a["step"] = step
            sp, mp_ = st[0], mt[0]
            if r.uniform() < 0.3:
                sp = src if r.integers(2) else np.round(r.uniform(0.1, 0.9, src.shape) * size, 4)
                a["src_pos"] = fm(sp) if r.integers(2) else Source.from_positions(sp.tolist())
            if r.uniform() < 0.3:
                mp_ = mic
                a["mic_pos"] = fm(mp_)
            if r.uniform() < 0.15:
                size = np.ceil(size)
                st, mt = np.round(st), np.round(mt)
                sp, mp_ = st[0], mt[0]
                a = dict(room=[int(v) for v in size], src_traj=st.astype(int).tolist(), mic_traj=torch.tensor(mt).long(), step=step)
            raw = {k: v.clone() for k, v in a.items() if torch.is_tensor(v)}
            ax = viz.plot_scene_dynamic(**a, **kw, title="T2")
            check_dynamic(E, "dynamic", mpl.snap(ax), size, st, mt, sp, mp_, step, ann, notes, "T2")
            E(all(torch.equal(a[k], v) for k, v in raw.items()), "dynamic:mutated", "inputs modified")
            ctx.count("plots_checked")
            ctx.nontrivial(kind, d, sc["how"], step, "src_pos" in a, sc["T"])
        elif kind == "movie":
            mp4 = bool(r.integers(2))
            step = int(r.choice([97, 150, 400] if long else [1, 1, 2, 3, 12]))
            view = int(r.integers(2, d + 1))
            a = {}
            if step > 1 or r.integers(2):
                a["step"] = step
            fps = [None, 0, 5, 12.4, 0.3][int(r.integers(5))]
            if fps is not None:
                a["fps"] = fps
            dur = None
            c = int(r.integers(4))
            if c == 1:
                dur = float(r.choice([0.5, 3.0, 40.0]))
                a["duration_s"] = dur
            elif c == 2:
                n, fs = int(r.choice([4000, 16000, 99999])), float(r.choice([8000, 16000]))
                a.update(signal_len=n, fs=fs)
                dur = n / fs
            elif c == 3:
                a.update(signal_len=100, fs=50.0, duration_s=7.0)
                dur = 7.0
            which = int(r.integers(4))
            if which == 1:
                sc["mt"] = np.repeat(mic[None], sc["T"], 0)
            elif which == 2:
                sc["st"] = np.repeat(src[None], sc["T"], 0)
            tr = {}
            if which != 2:
                tr["src_traj"] = fm(sc["st"])
            if which != 1:
                tr["mic_traj"] = fm(sc["mt"])
            raw = {k: v.clone() for k, v in tr.items() if torch.is_tensor(v)}
            out = ctx.tmp() / "sub dir" / ("m.mp4" if mp4 else "m.gif")
            with mpl.record_movies() as R:
                f = viz.animate_scene_mp4 if mp4 else viz.animate_scene_gif
                ret = f(out_path=out if r.integers(2) else str(out), room=fm(size), sources=ent(r, Source, src), mics=ent(r, MicrophoneArray, mic), plot_2d=view == 2, plot_3d=view == 3, **tr, **a, **kw)
                log = R.log
            E(Path(ret) == out and out.exists(), "movie:path", f"returned {ret}")
            E(len(log) == 1 and log[0]["path"] == out, "movie:file", f"wrote {[x['path'] for x in log]}")
            check_movie(ctx, E, "movie", log[0], sc, view, step, fps, dur, ann, notes)
            if mp4:
                E(eq(np.array(log[0]["size"]) * log[0]["dpi"], [1280, 720]), "movie:canvas", f"{log[0]['size']} at {log[0]['dpi']}")
            E(all(torch.equal(tr[k], v) for k, v in raw.items()), "movie:mutated", "inputs modified")
            ctx.nontrivial(kind, mp4, d, view, sc["how"], step, fps, c, which)
        elif kind in ("render", "layout"):
            which = int(r.integers(4))  # 0 none, 1 src, 2 mic, 3 both
            tr = {}
            st_, mt_ = np.repeat(src[None], sc["T"], 0), np.repeat(mic[None], sc["T"], 0)
            if which & 1:
                tr["src_traj"], st_ = fm(st), st
            if which & 2:
                tr["mic_traj"], mt_ = fm(mt), mt
            on2, on3 = bool(r.uniform() < 0.8), bool(r.uniform() < 0.8)
            out = ctx.tmp() / "o" / "p"
            views = ([2] if on2 else []) + ([3] if on3 and d == 3 else [])
            pre = str(r.choice(["scene", "a.b", "x_1"]))
            step = int(r.choice([1, 2]))
            base = dict(out_dir=out, room=fm(size), sources=ent(r, Source, src), mics=ent(r, MicrophoneArray, mic), **tr, **kw)
            with mpl.record_saves() as log:
                if kind == "render":
                    step_used = step
                    if r.integers(2):
                        ret = viz.render_scene_plots(prefix=pre, step=step, plot_2d=on2, plot_3d=on3, **base)
                    else:
                        viz.save_scene_plots(prefix=pre, show=False, logger=lg, plot_2d=on2, plot_3d=on3, **base)
                        ret, step_used = None, 1
                else:
                    viz.save_scene_layout_images(logger=lg, save_2d=on2, save_3d=on3, **base)
            if kind == "render":
                stat = [out / f"{pre}_static_{v}d.png" for v in views]
                dyn = [out / f"{pre}_dynamic_{v}d.png" for v in views] if which else []
                if ret is not None:
                    E([list(map(Path, x)) for x in ret] == [stat, dyn], "render:paths", f"returned {ret}")
                want = set(stat + dyn)
            else:
                step_used = 1
                want = {out / f"room_layout_{v}d.png" for v in views}
            E({p for p, _, _ in log} == want and len(log) == len(want) and set(out.iterdir() if out.exists() else []) == want, f"{kind}:files", f"wrote {[p.name for p, _, _ in log]}, promised {sorted(p.name for p in want)}", which=which)
            if kind == "layout" or ret is None:
                E([m for _, m in msgs if m.startswith("saved")] and len(msgs) == len(want) and all(l_ == "INFO" for l_, _ in msgs) if want else not msgs, f"{kind}:log", f"{msgs}")
            for p, s, _ in log:
                v = 3 if "3d" in p.name else 2
                args = (size[:v], st_[:, :, :v], mt_[:, :, :v], src[:, :v], mic[:, :v], step_used, ann, notes)
                if "dynamic" in p.name or (kind == "layout" and which):
                    check_dynamic(E, f"{kind}-dynamic", s, *args)
                else:
                    check_static(E, f"{kind}-static", s, size[:v], src[:, :v], mic[:, :v], ann, notes)
                ctx.count("plots_checked")
            ctx.nontrivial(kind, d, which, on2, on3, sc["how"])
        elif kind in ("gifs", "videos"):
            N, fs = int(r.choice([800, 16000])), int(r.choice([8000, 16000]))
            out = ctx.tmp() / "v"
            out.mkdir()
            base = dict(out_dir=out, room=fm(size), sources=ent(r, Source, src), mics=ent(r, MicrophoneArray, mic), src_traj=fm(st), mic_traj=fm(mt), signal_len=N, fs=fs, logger=lg, **kw)
            with mpl.record_movies() as R:
                if kind == "gifs":
                    fps = int(r.choice([-1, 0, 7]))
                    viz.save_scene_gifs(prefix="pre", gif_fps=fps, **base)
                    want = [("pre.gif", 2)] + ([("pre_3d.gif", 3)] if d == 3 else [])
                else:
                    fps = [None, 9.0][int(r.integers(2))]
                    s3 = bool(r.integers(2))
                    viz.save_scene_videos(mp4_fps=fps, save_3d=s3, **base)
                    want = [("room_layout_2d.mp4", 2)] + ([("room_layout_3d.mp4", 3)] if d == 3 and s3 else [])
                log = R.log
            E([x["path"] for x in log] == [out / n for n, _ in want] and sorted(p.name for p in out.iterdir()) == sorted(n for n, _ in want), f"{kind}:files", f"wrote {[x['path'].name for x in log]}", msgs=msgs)
            for x, (n, v) in zip(log, want):
                check_movie(ctx, E, kind, x, sc, v, 1, fps, N / fs, ann, notes)
            E(len(msgs) == len(want) and all(l_ == "INFO" for l_, _ in msgs), f"{kind}:log", f"{msgs}")
            ctx.nontrivial(kind, d, fps, len(want))
        elif kind == "mux":
            t = ctx.tmp()
            nch = int(r.integers(1, 7))
            fs = int(r.choice([8000, 16000]))
            x = np.round(r.uniform(-0.9, 0.9, (int(r.integers(50, 400)), nch)) * 32767) / 32768
            sf.write(t / "mix.wav", x, fs, subtype="PCM_16")
            before = (t / "mix.wav").read_bytes()
            ch = (int(r.integers(-2, 7)), int(r.integers(-2, 7)))
            given = bool(r.integers(2))
            if not given:
                ch = (0, 1)
            T = 2
            with mpl.fake_ffmpeg(t / "ff") as lgdir, mpl.record_movies():
                viz.animate_scene_mp4(out_path=t / "v.mp4", room=fm(size), sources=fm(src), mics=fm(mic), src_traj=fm(st[:T]), mixture_path=t / "mix.wav", **({"audio_channels": ch} if given else {}))
            audio = sorted(lgdir.glob("audio*"))
            if not E(len(audio) == 1, "mux:calls", f"{len(audio)} mux calls"):
                return
            y, rate = sf.read(audio[0], always_2d=True)
            if nch == 1:
                want = np.repeat(x, 2, 1)
            elif 0 <= ch[0] < nch and 0 <= ch[1] < nch:
                want = x[:, list(ch)]
            else:
                want = x[:, :2]
            E(rate == fs and y.shape == want.shape and np.abs(y - want).max() < 1.1 / 32768, "mux:audio", f"muxed audio is not channels {ch} of {nch}", given=given)
            E((t / "v.mp4").read_bytes() == b"MUXED movie", "mux:video", f"video is {(t / 'v.mp4').read_bytes()!r}")
            E((t / "mix.wav").read_bytes() == before, "mux:mixture", "mixture file changed")
            E(sorted(p.name for p in t.iterdir()) == ["ff", "mix.wav", "v.mp4"], "mux:files", f"{sorted(p.name for p in t.iterdir())}")
            ctx.nontrivial(kind, nch, ch, given)
        elif kind == "reject":
            for bad in ([1.0], [1.0, 2.0, 3.0, 4.0], [[2.0, 2.0]]):
                for f, a in ((viz.plot_scene_static, dict(sources=src.tolist(), mics=mic.tolist())), (viz.plot_scene_dynamic, dict(src_traj=st.tolist(), mic_traj=mt.tolist()))):
                    ok, e = raises(ValueError, lambda: f(room=bad, **a))
                    E(ok, "reject:room", f"room {bad} gave {e!r}")
            for a in (dict(src_traj=src.tolist(), mic_traj=mt.tolist()), dict(src_traj=st.tolist(), mic_traj=mic.tolist()), dict(src_traj=[st.tolist()], mic_traj=mt.tolist())):
                ok, e = raises(ValueError, lambda: viz.plot_scene_dynamic(room=size.tolist(), **a))
                E(ok, "reject:traj", f"trajectory of wrong rank gave {e!r}")
                with mpl.record_movies():
                    for f in (viz.animate_scene_gif, viz.animate_scene_mp4):
                        ok, e = raises(ValueError, lambda: f(out_path=ctx.tmp() / "x.gif", room=size.tolist(), sources=src.tolist(), mics=mic.tolist(), **a))
                        E(ok, "reject:movie-traj", f"{f.__name__}: trajectory of wrong rank gave {e!r}")
                with mpl.record_saves():
                    ok, e = raises(ValueError, lambda: viz.render_scene_plots(out_dir=ctx.tmp() / "r", room=size.tolist(), sources=src.tolist(), mics=mic.tolist(), **a))
                    E(ok, "reject:render-traj", f"trajectory of wrong rank gave {e!r}")
            with mpl.record_movies():
                for f in (viz.animate_scene_gif, viz.animate_scene_mp4):
                    for a in ({}, dict(src_traj=st.tolist(), plot_2d=False, plot_3d=False)):
                        ok, e = raises(ValueError, lambda: f(out_path=ctx.tmp() / "x.gif", room=size.tolist(), sources=src.tolist(), mics=mic.tolist(), **a))
                        E(ok, "reject:movie", f"{f.__name__} {sorted(a)} gave {e!r}")
            ctx.nontrivial(kind, d)
        else:
            from PIL import Image

            sc = scene(r, dim=3, T=4)
            out = ctx.tmp() / "real"
            fps = int(r.choice([4, 5, 10]))
            a = dict(room=sc["size"].tolist(), sources=sc["src"].tolist(), mics=sc["mic"].tolist(), src_traj=torch.tensor(sc["st"]), mic_traj=torch.tensor(sc["mt"]))
            s2, dyn = viz.render_scene_plots(out_dir=out, **a)
            for p in s2 + dyn:
                with Image.open(p) as im:
                    E(im.format == "PNG" and im.size[0] > 200 and len(set(im.convert("L").resize((90, 60)).getdata())) > 3, "real:png", f"{p} is not a picture")
            viz.save_scene_gifs(out_dir=out, prefix="g", signal_len=8000, fs=8000, gif_fps=fps, logger=lg, **a)
            for n in ("g.gif", "g_3d.gif"):
                with Image.open(out / n) as im:
                    tot = 0
                    for k in range(im.n_frames):
                        im.seek(k)
                        tot += im.info["duration"]
                    E(abs(tot - 4 * 1000 / fps) <= 45, "real:gif", f"{n} lasts {tot} ms for 4 frames at {fps} fps")
            E(len(plt.get_fignums()) == 1, "real:figures", f"open figures {plt.get_fignums()}")
            ctx.nontrivial(kind, fps)
        E(plt.fignum_exists(keep.number), f"{kind}:closed-user-figure", "a figure of the user was closed")
    finally:
        plt.close("all")
    ctx.sample(info)
