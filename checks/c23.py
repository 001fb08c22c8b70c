"""C23: corpus loaders."""
import os
import random

import numpy as np
import torch
from torch.utils.data import DataLoader

from vf import fsmon
from vf.tr import raises
from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset, attribution_for, cmu_arctic_speakers, collate_dataset_items

ID = "C23"
TECH = "online oracle over generated corpora: every listing and every loaded sample compared with the manifest the corpus was generated from; directory-order fault injection (shuffled os.scandir/listdir, shuffled creation order); file-system snapshot for read-only access"
NOTE = "Corpora are small generated copies of the two on-disk layouts."
RULE = "random corpora (speakers, chapters, lengths, missing audio, audio without transcript, blank lines, quotes/CRLF/UTF-8 text, other subsets/speakers alongside), loaded whole or per speaker, indexed forward/backward/iterated/via DataLoader, directory order shuffled; class = (dataset, restriction, damage kinds, access)"
NEED = {"assertions": 2500, "audio_compared": 400, "big_cases": 4, "corpus_changes": 100}


def cases(tier):
    n = 440 if tier == "quick" else 17000
    return [{"kind": k, "i": i} for i in range(n) for k in ("cmu", "libri")] + [{"kind": k, "i": i, "big": 1} for i in range(n // 55) for k in ("cmu", "libri")] + [{"kind": "reject", "i": i} for i in range(n // 4)]


class Shuffled:
    """os.scandir/os.listdir in a random order."""

    def __init__(self, seed):
        self.rng = random.Random(seed)

    def __enter__(self):
        self.sd, self.ld = os.scandir, os.listdir
        sd, ld, rng = self.sd, self.ld, self.rng

        class It:
            def __init__(self, p):
                self.it = sd(p)
                self.l = list(self.it)
                rng.shuffle(self.l)
                self.i = iter(self.l)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.it.close()

            def close(self):
                self.it.close()

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.i)

        def listdir(p="."):
            v = ld(p)
            rng.shuffle(v)
            return v

        os.scandir, os.listdir = lambda p=".": It(p), listdir

    def __exit__(self, *a):
        os.scandir, os.listdir = self.sd, self.ld


def f32(x):
    return torch.from_numpy(x.astype(np.float32) / 32768.0)


def walk(ctx, ds, want, fs, key, info, r, speaker_of):
    """want: [(utt, text, samples)] in the order the dataset lists them."""
    ctx.expect(len(ds) == len(want), f"{key}:len", f"len {len(ds)} != {len(want)}", **info)
    how = int(r.integers(4))
    if how == 0:
        items = [ds[i] for i in range(len(ds))]
    elif how == 1:
        items = list(ds)
    elif how == 2:
        items = [ds[i] for i in range(-len(ds), 0)]
    else:
        items = []
        bs = int(r.integers(1, 4))
        for b in DataLoader(ds, batch_size=bs, shuffle=False, collate_fn=lambda v: v):
            items += b
    ctx.expect(len(items) == len(want), f"{key}:iter", f"iteration gives {len(items)} of {len(want)}", **info)
    for it, (u, t, x) in zip(items, want):
        ctx.expect(it.utterance_id == u and it.text == t, f"{key}:item", f"item {it.utterance_id!r}/{it.text!r}, corpus has {u!r}/{t!r}", **info)
        ctx.expect(it.sample_rate == fs, f"{key}:rate", f"sample rate {it.sample_rate} != {fs}", **info)
        ctx.expect(it.speaker == speaker_of(u), f"{key}:speaker", f"speaker {it.speaker!r}, file is of {speaker_of(u)!r}", **info)
        ctx.expect(it.audio.shape == (len(x),) and torch.equal(it.audio, f32(x)), f"{key}:audio", f"audio of {u} is not its own file", **info)
        ctx.count("audio_compared")
    for bad in (len(want), -len(want) - 1, len(want) + 5):
        ok, e = raises(IndexError, lambda: ds[bad])
        ctx.expect(ok, f"{key}:index", f"index {bad} of {len(want)} gave {e!r}", **info)
    ok, e = raises(TypeError, lambda: ds[slice(0, 1)])
    ctx.expect(ok, f"{key}:index-type", f"slice gave {e!r}", **info)
    return how


def afterwards(ctx, r, key, keep, order, make, path, fs, info):
    gone = str(r.choice(order))
    path(gone).unlink()
    left = [u for u in order if u != gone]
    new = None
    if left:
        new, x = str(r.choice(left)), np.round(r.uniform(-9000, 9000, int(r.integers(20, 300)))).astype(np.int16)
        path(new).write_bytes(fsmon.wav_bytes(x, fs, "FLAC" if path(new).suffix == ".flac" else "WAV"))
    ds = make()
    got = [a.utterance_id for a in ds.available_sentences()]
    ctx.expect(got == left and len(ds) == len(left), f"{key}:stale-list", f"after removing the audio of {gone} a new dataset lists {got[:4]}, corpus has {left[:4]}", **info)
    if new:
        a, _ = ds.load_audio(new)
        b = ds[left.index(new)].audio if got == left else a
        ctx.expect(torch.equal(a, f32(x)) and torch.equal(b, f32(x)), f"{key}:stale-audio", f"audio of {new} is not what its file holds now", **info)
    ctx.count("corpus_changes")


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    root = ctx.tmp() / "corpus"
    fs = int(r.choice([16000, 8000, 22050]))
    ctx.count("big_cases", int("big" in spec))
    if kind == "cmu":
        spks = [str(s) for s in r.choice(cmu_arctic_speakers(), 2, replace=False)]
        exp, files = {}, {}
        damage = []
        for s in spks:
            n = int(r.choice([150, 593, 1132])) if spec.get("big") and s == spks[0] else int(r.integers(1, 7))
            f, utts = fsmon.cmu_files(r, s, n=n, fs=fs, lo=1, hi=60 if n > 6 else 600)
            f = {f"ARCTIC/{k}": v for k, v in f.items()}
            top = f"ARCTIC/cmu_us_{s}_arctic"
            lines, keep, allu = [], [], []
            for u, t, x in utts:
                k = int(r.integers(9))
                if k == 0:
                    t = 'He said "stop", then left.'
                    damage.append("quote")
                elif k == 1:
                    t = "Café über 日本."
                    damage.append("utf8")
                form = [f'( {u} "{t}" )', f'({u} "{t}")', f'(  {u}   "{t}"  )  ', f'( {u} "{t}" )\r'][int(r.integers(4))]
                lines.append(form)
                allu.append((u, t))
                if r.uniform() < 0.15:
                    lines.append("   " if r.integers(2) else "")
                if r.uniform() < 0.15 and len(utts) > 1:
                    w = f.pop(f"{top}/wav/{u}.wav")
                    damage.append("missing-wav")
                    if r.integers(2):  # some other file's name, not this utterance's
                        near = [f"wav/{u.upper()}.wav", f"wav/{u}.WAV", f"wav/{u}.wav.bak", f"wav/{u} .wav", f"wav/{u[:-1]}.wav", f"wav/x{u}.wav", f"wav/sub/{u}.wav", f"{u}.wav", f"wav/{u}.flac"][int(r.integers(9))]
                        f[f"{top}/{near}"] = w
                        damage.append("near-name")
                else:
                    keep.append((u, t, x))
            if r.uniform() < 0.3:
                f[f"{top}/wav/arctic_c0001.wav"] = fsmon.wav_bytes(np.zeros(9, np.int16), fs)
                damage.append("no-transcript")
            if r.uniform() < 0.3:
                f[f"{top}/wav/notes.txt"] = b"x"
                f[f"{top}/orig/arctic_a0001.wav"] = b"not audio"
            f[f"{top}/etc/txt.done.data"] = ("\n".join(lines) + ("\n" if r.integers(2) else "")).encode()
            files.update(f)
            exp[s] = keep, allu
        order = list(files)
        r.shuffle(order)
        fsmon.write_tree(root, {k: files[k] for k in order})
        snap = fsmon.snapshot(root)
        info = dict(kind=kind, speakers=spks, damage=sorted(set(damage)), fs=fs)
        dss = {s: CmuArcticDataset(root if r.integers(2) else str(root), speaker=s) for s in spks}
        lists = []
        for rep in range(2):
            for s in spks:
                ds = dss[s]
                with Shuffled(int(r.integers(1 << 30))):
                    av, al = ds.available_sentences(), ds.sentences()
                    fresh = CmuArcticDataset(root, speaker=s).available_sentences()
                want = [(u, t) for u, t, _ in exp[s][0]]
                ctx.expect([(a.utterance_id, a.text) for a in av] == want == [(a.utterance_id, a.text) for a in fresh], "cmu:list", f"available sentences {[(a.utterance_id, a.text) for a in av][:3]} != {want[:3]}", **info)
                ctx.expect([(a.utterance_id, a.text) for a in al] == exp[s][1], "cmu:sentences", "sentences differ from the transcript", **info)
                lists.append(want)
        how = -1
        for s in spks:
            ds = dss[s]
            with Shuffled(int(r.integers(1 << 30))):
                how = walk(ctx, ds, exp[s][0], fs, "cmu", info, r, lambda u: s)
            for u, t, x in exp[s][0][:2]:
                a, f_ = ds.load_audio(u)
                ctx.expect(torch.equal(a, f32(x)) and f_ == fs, "cmu:load_audio", f"load_audio({u}) wrong", **info)
                ctx.expect(ds.audio_path(u) == root / f"ARCTIC/cmu_us_{s}_arctic/wav/{u}.wav" and ds.audio_path(u).is_file(), "cmu:path", f"{ds.audio_path(u)}", **info)
            ok, e = raises(Exception, lambda: ds.load_audio("arctic_z9999"))
            ctx.expect(ok, "cmu:unknown-utt", "unknown utterance returned audio", **info)
            ctx.expect(ds.list_speakers() == sorted(cmu_arctic_speakers()) and len(ds.list_speakers()) == 18, "cmu:speakers", "list_speakers", **info)
            ctx.expect(ds.attribution_info() == attribution_for("cmu_arctic"), "cmu:attr", "attribution", **info)
            b = None
            if exp[s][0]:
                b = collate_dataset_items([ds[i] for i in range(len(ds))])
                ctx.expect(b.utterance_ids == [u for u, _, _ in exp[s][0]] and b.lengths.tolist() == [len(x) for _, _, x in exp[s][0]], "cmu:collate", "collated batch differs", **info)
        ctx.nontrivial(kind, tuple(sorted(set(damage))), how, fs)
        # the corpus changes on disk: a new dataset over the same folder sees what is there now
        keep = exp[spks[0]][0]
        if keep and r.integers(2):
            ds_now = lambda: CmuArcticDataset(root, speaker=spks[0])  # noqa: E731
            afterwards(ctx, r, "cmu", keep, [u for u, *_ in keep], ds_now, lambda u: root / f"ARCTIC/cmu_us_{spks[0]}_arctic/wav/{u}.wav", fs, info)
            snap = fsmon.snapshot(root)
    elif kind == "libri":
        subs = [str(s) for s in r.choice(["dev-clean", "test-other", "train-clean-100", "train-clean-360"], 2, replace=False)]
        exp, files = {}, {}
        damage = []
        for sub in subs:
            f, utts = fsmon.libri_files(r, sub, speakers=int(r.integers(25, 60)) if spec.get("big") and sub == subs[0] else int(r.integers(1, 5)), fs=fs, lo=16, hi=500)
            keep = []
            for u, t, s, c, x in utts:
                if r.uniform() < 0.12:
                    w = f.pop(f"LibriSpeech/{sub}/{s}/{c}/{u}.flac")
                    damage.append("missing-flac")
                    if r.integers(2):
                        near = [f"{s}/{c}/{u}.FLAC", f"{s}/{c}/{u}.flac.part", f"{s}/{u}.flac", f"{s}/{c}/{u}.wav", f"{s}/{c}/0{u}.flac", f"{s}/{c}/x/{u}.flac", f"{s}/{c}/{u.replace('-', '_')}.flac"][int(r.integers(7))]
                        f[f"LibriSpeech/{sub}/{near}"] = w
                        damage.append("near-name")
                else:
                    keep.append((u, t, s, c, x))
                if r.uniform() < 0.1:
                    k = f"LibriSpeech/{sub}/{s}/{c}/{s}-{c}.trans.txt"
                    f[k] = f[k].replace(b"\n", b"\n\n", 1) if r.integers(2) else f[k].replace(b"\n", b"  \r\n")
                    damage.append("blank")
            if r.uniform() < 0.3:
                _, _, s, c, _ = utts[0]
                f[f"LibriSpeech/{sub}/{s}/{c}/{s}-{c}-9999.flac"] = fsmon.wav_bytes(np.zeros(20, np.int16), fs, "FLAC")
                damage.append("no-transcript")
            files.update(f)
            exp[sub] = keep, sorted({u[2] for u in utts})
        order = list(files)
        r.shuffle(order)
        fsmon.write_tree(root, {k: files[k] for k in order})
        snap = fsmon.snapshot(root)
        info = dict(kind=kind, subsets=subs, damage=sorted(set(damage)), fs=fs)
        for sub in subs:
            keep, spk = exp[sub]
            restrict = [None] + [str(r.choice(spk))]
            for sp in restrict:
                ds = LibriSpeechDataset(root if r.integers(2) else str(root), subset=sub, speaker=sp)
                got = []
                for rep in range(3):
                    with Shuffled(int(r.integers(1 << 30))):
                        d2 = ds if rep == 0 else LibriSpeechDataset(root, subset=sub, speaker=sp)
                        got.append([(a.utterance_id, a.text, a.speaker_id, a.chapter_id) for a in d2.available_sentences()])
                        ctx.expect(d2.list_speakers() == ([sp] if sp else spk), "libri:speakers", f"list_speakers {d2.list_speakers()} != {[sp] if sp else spk}", **info)
                want = {(u, t, s, c) for u, t, s, c, _ in keep if sp is None or s == sp}
                ctx.expect(len(got[0]) == len(want) and set(got[0]) == want, "libri:list", f"listed {len(got[0])} utterances, corpus has {len(want)}", missing=sorted(want - set(got[0]))[:3], extra=sorted(set(got[0]) - want)[:3], **info)
                ctx.expect(got[0] == got[1] == got[2], "libri:order", "the order of utterances depends on the directory order", **info)
                by = {u: (t, x) for u, t, s, c, x in keep}
                seq = [(u, by[u][0], by[u][1]) for u, *_ in got[0] if u in by]
                with Shuffled(int(r.integers(1 << 30))):
                    how = walk(ctx, ds, seq, fs, "libri", info, r, lambda u: u.split("-")[0])
                for u, t, x in seq[:2]:
                    a, f_ = ds.load_audio(u)
                    ctx.expect(torch.equal(a, f32(x)) and f_ == fs, "libri:load_audio", f"load_audio({u}) wrong", **info)
                ctx.nontrivial(kind, tuple(sorted(set(damage))), sp is None, how, len(spk))
            if keep and r.integers(2):
                ds_now = lambda: LibriSpeechDataset(root, subset=sub)  # noqa: E731
                where = {u: root / f"LibriSpeech/{sub}/{s}/{c}/{u}.flac" for u, t, s, c, x in keep}
                afterwards(ctx, r, "libri", keep, [a.utterance_id for a in ds_now().available_sentences()], ds_now, where.__getitem__, fs, info)
                snap = fsmon.snapshot(root)
            ok, e = raises(FileNotFoundError, lambda: LibriSpeechDataset(root, subset=sub, speaker="999999"))
            ctx.expect(ok, "libri:no-speaker", f"missing speaker gave {e!r}", **info)
            for bad in ("nodashes", "1-2", ""):
                ok, e = raises(ValueError, lambda: ds.load_audio(bad))
                ctx.expect(ok, "libri:bad-id", f"id {bad!r} gave {e!r}", **info)
            ok, e = raises(Exception, lambda: ds.load_audio("1-2-3333"))
            ctx.expect(ok, "libri:unknown-utt", "unknown utterance returned audio", **info)
            ctx.expect(ds.attribution_info() == attribution_for("librispeech", subset=sub), "libri:attr", "attribution", **info)
    else:
        root.mkdir(parents=True)
        snap = fsmon.snapshot(root)
        info = {}
        for dl in (False, True):
            ok, e = raises(ValueError, lambda: CmuArcticDataset(root, speaker=str(r.choice(["xyz", "", "BDL", "../bdl"])), download=dl))
            ctx.expect(ok, "reject:speaker", f"unknown speaker gave {e!r}")
            ok, e = raises(ValueError, lambda: LibriSpeechDataset(root, subset=str(r.choice(["train", "", "dev_clean", "../x"])), download=dl))
            ctx.expect(ok, "reject:subset", f"unknown subset gave {e!r}")
        ok, e = raises(FileNotFoundError, lambda: CmuArcticDataset(root, speaker="bdl"))
        ctx.expect(ok, "reject:missing", f"missing corpus gave {e!r}")
        ok, e = raises(FileNotFoundError, lambda: LibriSpeechDataset(root / "no", subset="dev-clean"))
        ctx.expect(ok, "reject:missing", f"missing corpus gave {e!r}")
        s = cmu_arctic_speakers()
        s.append("x")
        ctx.expect(cmu_arctic_speakers() == sorted(set(cmu_arctic_speakers())) and "x" not in cmu_arctic_speakers() and {"bdl", "slt", "rms", "clb"} <= set(cmu_arctic_speakers()), "speakers", "speaker list")
        ctx.nontrivial(kind)
    d = fsmon.diff(snap, fsmon.snapshot(root))
    ctx.expect(not d, f"{kind}:changed", f"reading changed the corpus: {d[:3]}", **info)
    ctx.sample(info)
