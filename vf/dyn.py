"""Generator of feasible dynamic-dataset requests and their reference model (used by C25 and C26)."""
from __future__ import annotations

import json

import numpy as np
import soundfile as sf
import torch

from vf import fsmon
from torchrir.models import Room
from torchrir.signal import DynamicConvolver
from torchrir.sim import simulate_dynamic_rir

SPK = ["bdl", "slt", "clb", "rms", "jmk", "awb", "ksp", "aew"]
MIN_R = 1.8
LSB = 1 / 32768


def corpus(r, root, fs, n=6, amp=0.5, lo=60, hi=900, loud=False):
    """-> {speaker: {utterance: float64 samples}}"""
    out = {}
    for k, s in enumerate(r.permutation(SPK)[:n]):
        f, u = fsmon.cmu_files(r, str(s), n=int(r.integers(1, 5)), fs=fs, lo=lo, hi=hi, amp=amp, loud="+-"[k % 2] if loud == "cancel" else loud)
        fsmon.write_tree(root / "ARCTIC", f)
        out[str(s)] = {i: x.astype(np.float64) / 32768 for i, _, x in u}
    return out


def request(r, speakers, fs, small=False, big=None):
    """Feasible keyword arguments; big: one size far beyond the ordinary ("scenes", "steps", "length" or "rir")."""
    margin = [float(v) for v in r.uniform(0.1, 0.6, 3)]
    size = [float(2 * (m + MIN_R) + r.uniform(0.05, 4)) for m in margin[:2]] + [float(max(2 * margin[2], 1.6) + r.uniform(0.1, 3))]
    rad = float(r.uniform(0.05, 0.48 * min(size)))
    rad = min(rad, size[2] / 2 - 0.02)
    nsp = int(r.integers(1, len(speakers) + 1))
    nsrc = int(r.integers(1, min(nsp, 6) + 1))
    ms = float(r.choice([0.0, 0.35, 0.5, r.uniform(0, 0.9)]))
    me = float(min(1.0, r.choice([1.0, 0.65, ms + 0.05, r.uniform(0.1, 1)])))
    if me <= ms:
        ms, me = 0.35, 0.65
    vmin = float(r.uniform(0.05, 2))
    kw = dict(
        speakers=speakers[:nsp], n_scenes=int(r.integers(1, 3 if small else 4)), n_sources=nsrc, n_moving_sources=int(r.integers(0, nsrc + 1)),
        duration_sec=float(r.uniform(0.02, 0.12 if small else 0.3)), room_size=size, octa_edge_m=float(rad * np.sqrt(2)), source_margin=margin,
        trajectory_steps=int(r.choice([1, 2, 3, 5, 8, 13, 21])), rir_samples=int(r.choice([1, 8, 33, 130, 220, 400])), rt60=float(r.uniform(0.15, 0.8)), sound_speed=float(r.uniform(320, 360)),
        max_order=int(r.integers(0, 3)), seed=int(r.choice([0, 0, 1, 2**32 - 1, 2**32, 2**63, *r.integers(0, 1 << 31, 14)])), move_start_ratio=ms, move_end_ratio=me, moving_speed_min=vmin,
        moving_speed_max=float(vmin + r.choice([0.0, 1e-6, r.uniform(0, 5)])), save_layout_mp4=False, save_layout_images=False,
        randomize_mic_center=bool(r.integers(2)),
    )
    if big == "scenes":
        kw.update(n_scenes=int(r.integers(10, 14)), trajectory_steps=2, max_order=0)
    elif big == "steps":
        kw.update(n_scenes=1, trajectory_steps=int(r.choice([65, 257, 600, 1024])), max_order=0, rir_samples=33, duration_sec=float(r.uniform(0.3, 0.6)))
        if nsrc > 2:
            kw.update(n_sources=2, n_moving_sources=min(2, kw["n_moving_sources"]))
    elif big == "length":
        kw.update(n_scenes=1, trajectory_steps=5, max_order=1, duration_sec=float(r.uniform(3, 8)))
    elif big == "rir":
        kw.update(n_scenes=1, trajectory_steps=3, rir_samples=int(r.choice([1500, 5000])), max_order=3)
    elif big == "tiny":
        # a handful of samples: one frame, as many frames as microphones, fewer frames than steps
        n, L = ((6, 1), (5, 2), (1, 6), (1, 6), (1, 6), (2, 5), (1, 1), (int(r.integers(1, 12)), int(r.integers(1, 9))))[int(r.integers(8))]
        kw.update(duration_sec=(n + 0.5) / fs, rir_samples=L, n_scenes=1, max_order=int(r.integers(0, 2)))
        if r.uniform() < 0.8:
            # close enough for the direct sound to arrive within the response
            kw.update(sound_speed=float(fs * r.uniform(5, 100)))
    elif big in ("loud", "cancel"):
        nsp = len(speakers)
        kw["duration_sec"] = float(r.uniform(0.15, 0.4))
        n = min(len(speakers), int(r.integers(2, 5)))
        kw.update(speakers=speakers, n_sources=n, n_moving_sources=int(r.integers(0, n + 1)), n_scenes=2, trajectory_steps=3, rir_samples=int(r.choice([300, 900])), max_order=int(r.integers(2, 7)), rt60=float(r.uniform(0.8, 3)), octa_edge_m=float(0.47 * min(min(size[:2]), size[2]) * np.sqrt(2)))
        if big == "cancel":  # two talkers in opposite phase: the mixture is quiet, the stems are not
            kw.update(n_sources=min(2, len(speakers)), n_moving_sources=0, n_scenes=3, rt60=3.0, max_order=6, rir_samples=900)
    c = [float(r.uniform(m + MIN_R + 1e-6, s - m - MIN_R - 1e-6)) for m, s in zip(margin[:2], size[:2])] + [float(r.uniform(0.1, size[2] - 0.1))]
    kw["mic_center"] = c
    if r.uniform() < 0.3:
        for k in ("move_start_ratio", "move_end_ratio", "moving_speed_min", "moving_speed_max"):
            del kw[k]
    if r.uniform() < 0.5:
        kw["room_size"], kw["mic_center"], kw["source_margin"] = (np.array(kw[k]) for k in ("room_size", "mic_center", "source_margin"))
    if kw["randomize_mic_center"] and r.integers(2):
        del kw["mic_center"]
    if r.uniform() < 0.15:
        kw["speakers"] = [kw["speakers"][i] for i in r.permutation(np.r_[np.arange(nsp), r.integers(0, nsp, int(r.integers(1, 4)))])]
    return kw


DEF = dict(move_start_ratio=0.35, move_end_ratio=0.65, moving_speed_min=0.3, moving_speed_max=0.8)


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def check_scene(ctx, d, kw, utts, fs, info):
    """Everything one scene directory must satisfy."""
    kw = {**DEF, **kw}
    E = lambda c, k, m, **x: ctx.expect(c, f"scene:{k}", m, **info, **x)  # noqa: E731
    ns, nm, T, L = kw["n_sources"], 6, kw["trajectory_steps"], kw["rir_samples"]
    N = kw["duration_sec"] * fs
    m = json.loads((d / "metadata.json").read_text())
    si = json.loads((d / "source_info.json").read_text())
    x = m["extra"]
    size = np.asarray(kw["room_size"], float)
    mg = np.asarray(kw["source_margin"], float)
    # ---- statements about the request
    E(x["scene_id"] == d.name, "id", f"{x['scene_id']} in {d.name}")
    E(x["n_sources"] == ns and x["n_moving_sources"] == kw["n_moving_sources"], "counts", f"{x['n_sources']}/{x['n_moving_sources']}")
    E(close(x["octa_edge_m"], kw["octa_edge_m"]) and x["randomize_mic_center"] == kw["randomize_mic_center"], "echo", "edge or randomize flag differs")
    E(close(m["room"]["size"], size) and close(m["room"]["t60"], kw["rt60"]) and close(m["room"]["c"], kw["sound_speed"]) and close(m["room"]["fs"], fs) and m["room"]["beta"] is None, "room", f"room {m['room']}")
    ms, me, D = kw["move_start_ratio"], kw["move_end_ratio"], kw["duration_sec"]
    E(close([x["motion_profile"][k] for k in ("pre_static_ratio", "move_ratio", "post_static_ratio")], [ms, me - ms, 1 - me]) and close([x["motion_time_sec"][k] for k in ("total", "move_start", "move_end")], [D, ms * D, me * D]), "profile", f"{x['motion_profile']} {x['motion_time_sec']}")
    # ---- geometry
    if T == 1 and not (m["trajectories"]["sources"] or m["trajectories"]["mics"]):
        src, mic = np.array(m["sources"]["positions"], float)[None], np.array(m["mics"]["positions"], float)[None]
    else:
        src, mic = np.array(m["trajectories"]["sources"], float), np.array(m["trajectories"]["mics"], float)
    if not E(src.shape == (T, ns, 3) and mic.shape == (T, nm, 3), "traj-shape", f"trajectories {src.shape} {mic.shape} for {T} steps"):
        return
    c = np.array(x["mic_center_xyz_m"], float)
    edge = kw["octa_edge_m"]
    E(np.all(np.abs(mic - mic[:1]) < 1e-12), "mics-move", "microphones move")
    E(close(mic[0].mean(0), c) and close(m["mics"]["positions"], mic[0]), "mic-center", f"centre {mic[0].mean(0)} stated {c}")
    if not kw["randomize_mic_center"]:
        E(close(c, kw["mic_center"]), "mic-asked", f"mic centre {c}, asked {kw['mic_center']}")
    else:
        E(bool(np.all(mic >= -1e-9) and np.all(mic <= size + 1e-9)), "mic-inside", "random array centre puts microphones outside the room")
    dist = np.sort(np.linalg.norm(mic[0][:, None] - mic[0][None], axis=-1)[np.triu_indices(6, 1)])
    E(close(dist, [edge] * 12 + [edge * np.sqrt(2)] * 3, 1e-7 * max(1, edge)), "octahedron", f"mic distances {dist}, edge {edge}")
    E(bool(np.all(src >= mg - 1e-9) and np.all(src <= size - mg + 1e-9)), "src-inside", "a source leaves the room margin")
    rel = src - c
    rad = np.hypot(rel[..., 0], rel[..., 1])
    E(bool(np.all(rad >= MIN_R - 1e-9)) and close(x["min_source_distance_from_array_center_m"], MIN_R), "src-distance", f"source {rad.min()} m from the array centre")
    E(np.all(np.abs(rad - rad[:1]) < 1e-7) and np.all(np.abs(src[..., 2] - src[:1, :, 2]) < 1e-12), "arc", "radius or height changes along a trajectory")
    E(close(m["sources"]["positions"], src[0]), "src-positions", "source positions are not the trajectory start")
    mov = sorted(x["moving_source_indices"])
    E(len(mov) == len(set(mov)) == kw["n_moving_sources"] and all(0 <= i < ns for i in mov), "moving", f"moving sources {mov}")
    v, w, td = (np.array(x[k], float) for k in ("source_velocity_mps", "angular_velocity_rad_s", "turn_direction"))
    a0, a1 = np.deg2rad(np.array(x["start_azimuth_deg"], float)), np.deg2rad(np.array(x["end_azimuth_deg"], float))
    tau = np.linspace(0, 1, T) if T > 1 else np.zeros(1)
    al = np.clip((tau - ms) / (me - ms), 0, 1) if T > 1 else np.zeros(1)
    for i in range(ns):
        if i in mov:
            E(kw["moving_speed_min"] - 1e-9 <= v[i] <= kw["moving_speed_max"] + 1e-9, "speed", f"speed {v[i]} outside [{kw['moving_speed_min']}, {kw['moving_speed_max']}]")
            E(td[i] in (-1, 1) and abs(w[i] - td[i] * v[i] / rad[0, i]) < 1e-9, "angular", f"angular velocity {w[i]}, turn {td[i]}, speed {v[i]}, radius {rad[0, i]}")
            E(abs(a1[i] - a0[i] - w[i] * (me - ms) * D) < 1e-9, "azimuth-end", "end azimuth is not start + angular velocity * moving time")
        else:
            E(v[i] == w[i] == td[i] == 0 and abs(a1[i] - a0[i]) < 1e-12 and np.all(src[:, i] == src[0, i]), "static", f"static source {i} moves or claims to")
        th = a0[i] + (a1[i] - a0[i]) * al
        E(close(rel[:, i, 0], rad[0, i] * np.cos(th), 1e-7) and close(rel[:, i, 1], rad[0, i] * np.sin(th), 1e-7), "trajectory", f"source {i} does not follow its stated azimuths and motion profile", moving=i in mov)
    E(close(x["azimuth_step_deg"], 360 / ns), "azimuth-step", f"{x['azimuth_step_deg']}")
    gaps = np.diff(np.sort(np.rad2deg(a0) % 360)) if ns > 1 else np.zeros(0)
    E(bool(np.all(np.abs(gaps - 360 / ns) < 1e-6)), "azimuth-slots", f"start azimuths not evenly spaced: {gaps}")
    ts = m.get("timestamps")
    if T > 1:
        E(m["dynamic"] is True and len(ts) == T and np.all(np.diff(ts) > 0 if N >= 2 else np.array(ts) == 0) and ts[0] == 0 and ts[-1] <= D + 1e-9, "timestamps", f"dynamic {m['dynamic']}, timestamps {str(ts)[:80]}")
    else:
        E(m["dynamic"] is False, "timestamps", "one step called dynamic")
    E(m["rirs_shape"] == [T, ns, nm, L] and m["time_axis"]["nsample"] == L, "rirs-shape", f"{m['rirs_shape']}")
    # ---- sources
    E(len(si) == ns and m["source_info"] == si, "source-info", "source_info.json and metadata differ")
    spk = [s["speaker"] for s in si]
    E(len(set(spk)) == ns and set(spk) <= set(kw["speakers"]), "speakers", f"{spk} of {kw['speakers']}")
    for i, s in enumerate(si):
        E(s["source_index"] == i and s["is_moving"] == (i in mov) and s["motion_type"] == ("arc" if i in mov else "static"), "info-moving", f"{s}")
        E(close([s["velocity_mps"], s["angular_velocity_rad_s"], s["turn_direction"], s["move_start_sec"], s["move_end_sec"]], [v[i], w[i], td[i], ms * D, me * D]), "info-motion", f"{s}")
    # ---- audio
    files = sorted(p.name for p in d.glob("*.wav"))
    E(files == ["mixture.wav"] + [f"source_{i:02d}.wav" for i in range(ns)], "files", f"{files}")
    wav = {}
    for f in files:
        y, rate = sf.read(d / f, always_2d=True)
        wav[f] = y
        E(rate == fs and y.shape[1] == nm and abs(y.shape[0] - (N + L - 1)) < 1 + 1e-6, "wav", f"{f}: {y.shape} at {rate}", want=N + L - 1)
    if len({y.shape for y in wav.values()}) != 1 or len(wav) != ns + 1:
        ctx.fail("scene:wav-shapes", f"{ {f: y.shape for f, y in wav.items()} }", **info)
        return
    mix = wav["mixture.wav"]
    stems = np.stack([wav[f"source_{i:02d}.wav"] for i in range(ns)])
    err = np.abs(stems.sum(0) - mix).max()
    E(err <= (ns + 0.01) * LSB, "mixture", f"mixture of {ns} sources differs from their sum by {err / LSB:.2f} LSB", peak=float(np.abs(mix).max()))
    n = mix.shape[0] - (L - 1)
    dry = []
    for s in si:
        if not set(s["utterance_ids"]) <= set(utts[s["speaker"]]):
            ctx.fail("scene:utterances", f"{s['utterance_ids']} are not all of {s['speaker']}", **info)
            return
        z = np.concatenate([utts[s["speaker"]][u] for u in s["utterance_ids"]])
        last = len(utts[s["speaker"]][s["utterance_ids"][-1]])
        E(len(z) >= n > len(z) - last, "utterances", f"{len(z)} samples of {s['utterance_ids']} for a signal of {n}")
        dry.append(z[:n])
    if min(len(z) for z in dry) < n:
        return
    room = Room.shoebox(size.tolist(), fs=float(fs), c=kw["sound_speed"], t60=kw["rt60"], dtype=torch.float64)
    rir = simulate_dynamic_rir(room=room, src_traj=torch.tensor(src), mic_traj=torch.tensor(mic), max_order=kw["max_order"], nsample=L)
    cv = DynamicConvolver(mode="trajectory")
    want = np.stack([cv.convolve(torch.tensor(dry[i])[None], rir[:, i : i + 1]).numpy().reshape(nm, -1).T for i in range(ns)])
    if not E(want.shape == stems.shape, "reverb-shape", f"{stems.shape} != {want.shape}"):
        return
    ctx.count("tiny_audible", int(mix.shape[0] in (1, nm) and np.abs(want).max() > 2.5 * LSB))
    got = stems  # libsndfile floors doubles to PCM16
    tol = lambda g: 1.02 * LSB + np.abs(g * want).max() * 1e-9  # noqa: E731
    g = 1.0
    e = np.abs(got - want).max()
    if e > tol(1.0):
        den = float((want * want).sum())
        g = float((want * got).sum() / den) if den > 0 else 1.0
        e = np.abs(got - g * want).max()
        E(0 < g < 1, "scale", f"sources scaled by {g}")
    E(e <= tol(g) + 2e-5 * (g != 1), "reverb", f"source files are not the dry signals through the stated room and trajectories (worst {e / LSB:.1f} LSB, scale {g:.5f})")
    pk = max(np.abs(want).max(), np.abs(want.sum(0)).max())
    E(g * pk <= 1.0 + LSB, "clipped", f"peak {g * pk:.3f} cannot be stored")
    ctx.count("scenes_checked")
    ctx.count("audible_scenes", float(np.abs(want).max()) > 50 * LSB)
    ctx.count("scaled_scenes", g < 1)
    ctx.count("stem_over_mixture", g < 1 and np.abs(want).max() > 1.01 * np.abs(want.sum(0)).max())
    ctx.count("quiet_mixture", np.abs(want).max() > 1.0 and np.abs(want.sum(0)).max() < 0.985)
    ctx.count("moving_sources", len(mov))
