"""C24: collating items and building fixed-length sources."""
import random

import numpy as np
import torch
from torch.utils.data import DataLoader

from vf import fsmon
from vf.tr import raises
from torchrir.datasets import BaseDataset, CmuArcticDataset, DatasetItem, LibriSpeechDataset, choose_speakers, collate_dataset_items, load_dataset_sources

ID = "C24"
TECH = "online oracle over generated batches and instrumented corpora: every sample carries the identity of its utterance, so any loss, mix-up or reorder is visible; dataset calls are logged, global random states are compared before and after, runs are repeated under disturbed random state and a watchdog turns hangs into verdicts"
NOTE = "The random choice itself is only checked for distinctness, coverage over seeds and dependence on the given generator."
RULE = "batches of 1..12 items (lengths 0..400, dtypes, pad values, metadata attribute or not, generator/list/tuple, DataLoader workers 0), faulty batches; synthetic, CMU and LibriSpeech corpora with 1..6 speakers, 1..6 utterances of 1..200 samples, durations from below one utterance to many passes; class = (kind, sizes, passes, speakers, fault)"
NEED = {"assertions": 6000, "sources_decoded": 500, "batches": 300, "big_cases": 5}
TIMEOUT = {"quick": 300, "thorough": 850}


def cases(tier):
    n = 1200 if tier == "quick" else 210000
    return [{"kind": k, "i": i} for i in range(n) for k in ("collate", "sources", "speakers")] + [{"kind": "corpus", "i": i} for i in range(n // 6)] + [{"kind": "reject", "i": i} for i in range(n // 4)]


class Sent:
    def __init__(self, u):
        self.utterance_id, self.text = u, "t" + u


class Fake(BaseDataset):
    """Samples encode speaker, utterance and position: value = speaker*1e6 + utterance*1e3 + position (exact in float64)."""

    def __init__(self, utts, fs, speaker, log):
        self.utts, self.fs, self.speaker, self.log = utts, fs, speaker, log

    def list_speakers(self):
        return list(self.utts)

    def available_sentences(self):
        self.log.append(("list", self.speaker))
        return tuple(Sent(u) for u in self.utts[self.speaker])

    def load_audio(self, u):
        self.log.append(("load", self.speaker, u))
        return self.utts[self.speaker][u].clone(), self.fs[self.speaker]


def make(r, nspk, lo=1, hi=200, fs=None, empty=False, many=False):
    utts, rates = {}, {}
    for s in range(nspk):
        utts[f"spk{s}"] = {f"u{s}_{k}": (s * 1e6 + k * 1e3 + torch.arange(0 if empty else int(r.integers(lo, hi)), dtype=torch.float64)) for k in range(int(r.choice([3, 70, 400]) if many else r.integers(1, 7)))}
        rates[f"spk{s}"] = fs
    return utts, rates


def states():
    return random.getstate(), np.random.get_state()[1].tobytes(), torch.get_rng_state().numpy().tobytes()


def check_sources(ctx, key, res, utts, nsrc, fs, dur, info):
    sig, rate, src = res
    want = dur * fs
    ctx.expect(rate == fs and isinstance(rate, int), f"{key}:fs", f"sample rate {rate} != {fs}", **info)
    ctx.expect(torch.is_tensor(sig) and sig.ndim == 2 and sig.shape[0] == nsrc == len(src), f"{key}:shape", f"{tuple(sig.shape)}, {len(src)} entries for {nsrc} sources", **info)
    ok = sig.shape[1] == int(want) or (abs(want - round(want)) < 1e-6 and sig.shape[1] == round(want))  # the whole samples of the duration
    ctx.expect(ok, f"{key}:length", f"{sig.shape[1]} samples for {dur} s at {fs}", **info)
    spk = [s for s, _ in src]
    ctx.expect(len(set(spk)) == len(spk) and set(spk) <= set(utts), f"{key}:distinct", f"speakers {spk}", **info)
    n = sig.shape[1]
    passes = 0
    for row, (s, ids) in zip(sig, src):
        if not set(ids) <= set(utts[s]):
            ctx.fail(f"{key}:ids", f"utterances {ids} not all of {s}", **info)
            continue
        whole = torch.cat([utts[s][u] for u in ids])
        ctx.expect(len(whole) >= n and torch.equal(whole[:n], row), f"{key}:concat", f"signal of {s} is not the concatenation of {ids}", **info)
        if ids:
            ctx.expect(len(whole) - len(utts[s][ids[-1]]) < n, f"{key}:surplus", f"listed utterances beyond the {n} samples used", **info)
        cnt = [ids.count(u) for u in utts[s]]
        ctx.expect(max(cnt) - min(cnt) <= 1, f"{key}:balance", f"some utterance repeated before all were used: {cnt}", **info)
        passes = max(passes, max(cnt))
        ctx.count("sources_decoded")
    return passes


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    if kind == "collate":
        n = int(r.integers(1, 13))
        fs = int(r.choice([8000, 16000, 44100]))
        dt = [torch.float32, torch.float64, torch.float16, torch.int16][int(r.integers(4))]
        if r.uniform() < 0.06:
            n = int(r.choice([33, 65, 300]))
        lens = [int(v) for v in r.integers(0 if r.uniform() < 0.2 else 1, int(r.choice([2, 5, 400])), n)]
        if r.uniform() < 0.05:
            lens[int(r.integers(n))] = int(r.choice([5000, 70000]))
        if r.uniform() < 0.3:
            lens = [lens[0]] * n
        items = []
        for k in range(n):
            a = (torch.arange(lens[k]) + 1 + 37 * k).to(dt)
            items.append(DatasetItem(audio=a, sample_rate=fs, utterance_id=f"u{k}" if r.uniform() < 0.9 else "dup", text=None if r.uniform() < 0.2 else f"text {k}", speaker=None if r.uniform() < 0.2 else f"s{int(r.integers(3))}"))
        pad = [None, 0.0, -1.0, 7.0][int(r.integers(4))]
        keep = [None, False, True][int(r.integers(3))]
        meta = None
        if r.uniform() < 0.4:
            meta = [[{"k": k}, {"k": k}, {}, 0, "", ("t", k), None][int(r.integers(7))] for k in range(n)]
            for it, m in zip(items, meta):
                if m is not None:
                    object.__setattr__(it, "metadata", m)
        before = [it.audio.clone() for it in items]
        kw = {}
        if pad is not None:
            kw["pad_value"] = pad
        if keep is not None:
            kw["keep_metadata"] = keep
        form = int(r.integers(4))
        info = dict(n=n, lens=lens, dtype=str(dt), pad=pad, keep=keep, form=form)
        st = states()
        if form == 3:
            class D(torch.utils.data.Dataset):
                def __len__(self):
                    return n

                def __getitem__(self, i):
                    return items[i]

            bs = int(r.integers(1, n + 1))
            dl = DataLoader(D(), batch_size=bs, shuffle=False, collate_fn=lambda v: collate_dataset_items(v, **kw))
            st = None
            groups = [(b, items[i : i + bs], lens[i : i + bs], i) for b, i in zip(dl, range(0, n, bs))]
        else:
            b = collate_dataset_items([items, tuple(items), (x for x in items)][form], **kw)
            groups = [(b, items, lens, 0)]
        for b, its, ls, off in groups:
            m = max(ls)
            ctx.count("batches")
            ctx.expect(tuple(b.audio.shape) == (len(its), m) and b.audio.dtype == dt, "collate:shape", f"{tuple(b.audio.shape)} {b.audio.dtype}", **info)
            ctx.expect(b.lengths.tolist() == ls and b.lengths.dtype == torch.int64, "collate:lengths", f"{b.lengths} != {ls}", **info)
            for k, it in enumerate(its):
                row = b.audio[k]
                ctx.expect(torch.equal(row[: ls[k]], it.audio), "collate:samples", f"item {k} altered", **info)
                ctx.expect(bool((row[ls[k] :] == (pad or 0.0)).all()), "collate:padding", f"padding of item {k} is not {pad or 0.0}", **info)
            ctx.expect(b.sample_rate == fs, "collate:fs", f"{b.sample_rate} != {fs}", **info)
            ctx.expect(list(b.utterance_ids) == [i.utterance_id for i in its] and list(b.texts) == [i.text for i in its] and list(b.speakers) == [i.speaker for i in its], "collate:fields", "ids, texts or speakers out of order", **info)
            if keep:
                ctx.expect(b.metadata is not None and list(b.metadata) == [getattr(i, "metadata", None) for i in its], "collate:metadata", f"{b.metadata}", **info)
            else:
                ctx.expect(b.metadata is None, "collate:metadata", f"metadata {b.metadata} though not asked for", **info)
            b.audio.fill_(9)
        ctx.expect(all(torch.equal(x, it.audio) for x, it in zip(before, items)), "collate:mutated", "input audio changed or aliased by the batch", **info)
        if st is not None:
            ctx.expect(st == states(), "collate:rng", "global random state changed", **info)
        ctx.nontrivial(kind, n, min(lens) == 0, len(set(lens)) == 1, str(dt), pad, keep, form)
    elif kind == "sources":
        nspk = int(r.integers(1, 7))
        fs = int(r.choice([100, 1000, 16000]))
        big = r.uniform() < 0.06
        if big:  # many speakers, or many utterances each, and a long source
            nspk = int(r.choice([1, 12, 40]))
        utts, rates = make(r, nspk, fs=fs, many=big)
        ctx.count("big_cases", int(big))
        nsrc = int(r.integers(1, nspk + 1))
        dur = float(r.choice([1, 50, 130, 400, 1500])) / fs if r.uniform() < 0.6 else float(r.uniform(1.5, 900)) / fs
        if big:
            dur = float(r.choice([3000, 20000, 60000])) / fs
        seed = int(r.integers(1 << 30))
        info = dict(nspk=nspk, nsrc=nsrc, fs=fs, dur=dur, seed=seed)
        outs = []
        for rep in range(3):
            log = []
            asked = []

            def factory(s):
                asked.append(s)
                return Fake(utts, rates, s, log)

            if rep:
                random.seed(rep)
                np.random.seed(rep)
                torch.manual_seed(rep)
            g = random.Random(seed)
            st = states()
            out = load_dataset_sources(dataset_factory=factory, num_sources=nsrc, duration_s=dur, rng=g)
            ctx.expect(st == states(), "sources:rng", "global random state changed", **info)
            passes = check_sources(ctx, "sources", out, utts, nsrc, fs, dur, info)
            ctx.expect(all(e[1] is not None for e in log) and {s for s in asked if s is not None} == {s for s, _ in out[2]}, "sources:factory", f"datasets opened for {asked}, used {[s for s, _ in out[2]]}", **info)
            outs.append((out, g.getstate()))
            out[0][:, :1] = -5
        a = outs[0][0]
        for o, gs in outs[1:]:
            ctx.expect(o[2] == a[2] and torch.equal(o[0][:, 1:], a[0][:, 1:]) and gs == outs[0][1], "sources:repeat", "the same generator seed gives different sources", first=a[2], other=o[2], **info)
        ctx.nontrivial(kind, nspk, nsrc, min(passes, 5), fs)
    elif kind == "speakers":
        nspk = int(r.integers(1, 8)) if r.uniform() < 0.95 else 40
        fs = 1000
        utts, rates = make(r, nspk, fs=fs)
        ds = Fake(utts, rates, None, [])
        nsrc = int(r.integers(1, nspk + 1))
        seen, orders = set(), set()
        st = states()
        for s in range(200):
            c = choose_speakers(ds, nsrc, random.Random(s))
            ctx.expect(len(c) == nsrc == len(set(c)) and set(c) <= set(utts), "speakers:distinct", f"{c} from {nspk} for {nsrc}", n=nsrc)
            ctx.expect(list(c) == list(choose_speakers(ds, nsrc, random.Random(s))), "speakers:repeat", "the same generator seed gives different speakers", n=nsrc)
            seen |= set(c)
            orders.add(tuple(c))
        ctx.expect(st == states(), "speakers:rng", "global random state changed")
        ctx.expect(seen == set(utts), "speakers:coverage", f"after 200 seeds only {sorted(seen)} of {nspk} were ever chosen", nsrc=nsrc)
        ctx.expect(len(orders) > 1 or nspk == 1, "speakers:constant", "the generator does not influence the choice", nsrc=nsrc, nspk=nspk)
        if nspk > 1 or len(next(iter(utts.values()))) > 1:
            first = set()
            for s in range(40):
                out = load_dataset_sources(dataset_factory=lambda k: Fake(utts, rates, k, []), num_sources=1, duration_s=0.001, rng=random.Random(s))
                first.add(out[2][0][1][0])
            ctx.expect(len(first) > 1, "sources:constant", "40 generator seeds all start with the same utterance", nspk=nspk)
        ctx.nontrivial(kind, nspk, nsrc)
    elif kind == "corpus":
        root = ctx.tmp() / "corpus"
        fs = 16000
        if r.integers(2):
            spks = [str(s) for s in r.choice(["bdl", "slt", "clb", "rms", "jmk", "awb"], 3, replace=False)]
            utts = {}
            for s in spks:
                f, u = fsmon.cmu_files(r, s, n=int(r.integers(1, 5)), fs=fs, lo=50, hi=400)
                fsmon.write_tree(root / "ARCTIC", f)
                utts[s] = {i: torch.from_numpy(x.astype(np.float32) / 32768) for i, _, x in u}

            class Some(CmuArcticDataset):
                def list_speakers(self):
                    return spks

            fac = lambda s: Some(root, speaker=s or spks[0])
        else:
            f, u = fsmon.libri_files(r, "dev-clean", speakers=3, fs=fs, lo=50, hi=400)
            fsmon.write_tree(root, f)
            utts = {}
            for i, _, s, _, x in u:
                utts.setdefault(s, {})[i] = torch.from_numpy(x.astype(np.float32) / 32768)
            fac = lambda s: LibriSpeechDataset(root, subset="dev-clean", speaker=s)
        nsrc = int(r.integers(1, 4))
        dur = float(r.choice([30, 500, 2500])) / fs
        seed = int(r.integers(1 << 30))
        info = dict(nsrc=nsrc, dur=dur, speakers=sorted(utts))
        snap = fsmon.snapshot(root)
        out = load_dataset_sources(dataset_factory=fac, num_sources=nsrc, duration_s=dur, rng=random.Random(seed))
        passes = check_sources(ctx, "corpus", out, utts, nsrc, fs, dur, info)
        o2 = load_dataset_sources(dataset_factory=fac, num_sources=nsrc, duration_s=dur, rng=random.Random(seed))
        ctx.expect(o2[2] == out[2] and torch.equal(o2[0], out[0]), "corpus:repeat", "the same seed gives different sources", **info)
        ctx.expect(not fsmon.diff(snap, fsmon.snapshot(root)), "corpus:changed", "corpus changed", **info)
        ctx.nontrivial(kind, nsrc, passes, len(utts))
    else:
        g = random.Random(3)
        fs = 1000
        nspk = int(r.integers(2, 5))
        utts, rates = make(r, nspk, fs=fs)
        fac = lambda s: Fake(utts, rates, s, [])
        for k in (nspk + 1, nspk + 7):
            ok, e = raises(ValueError, lambda: load_dataset_sources(dataset_factory=fac, num_sources=k, duration_s=0.1, rng=g))
            ctx.expect(ok, "reject:too-many", f"{k} sources of {nspk} speakers gave {e!r}")
            ok, e = raises(ValueError, lambda: choose_speakers(fac(None), k, g))
            ctx.expect(ok, "reject:too-many", f"choose_speakers {k} of {nspk} gave {e!r}")
        ok, e = raises(RuntimeError, lambda: load_dataset_sources(dataset_factory=lambda s: Fake({}, {}, s, []), num_sources=1, duration_s=0.1, rng=g))
        ctx.expect(ok, "reject:no-speakers", f"no speakers gave {e!r}")
        ok, e = raises(RuntimeError, lambda: load_dataset_sources(dataset_factory=lambda s: Fake({"a": {}}, {"a": fs}, s, []), num_sources=1, duration_s=0.1, rng=g))
        ctx.expect(ok, "reject:no-sentences", f"no sentences gave {e!r}")
        bad = dict(rates)
        odd = f"spk{int(r.integers(nspk))}"
        bad[odd] = 999
        ok, e = raises(ValueError, lambda: load_dataset_sources(dataset_factory=lambda s: Fake(utts, bad, s, []), num_sources=nspk, duration_s=0.1, rng=g))
        ctx.expect(ok, "reject:rates", f"speakers with different sample rates gave {e!r}")

        class Mixed(Fake):
            def load_audio(self, u):
                x, f = super().load_audio(u)
                return x, f if u.endswith("_0") else f + 1

        two = {"a": {"a_0": torch.ones(10), "a_1": torch.ones(10)}}
        ok, e = raises(ValueError, lambda: load_dataset_sources(dataset_factory=lambda s: Mixed(two, {"a": fs}, s, []), num_sources=1, duration_s=0.02, rng=random.Random(int(r.integers(99)))))
        ctx.expect(ok, "reject:rates-within", f"one speaker with different sample rates gave {e!r}")
        loads = [0]

        class Empty(Fake):
            def load_audio(self, u):
                loads[0] += 1
                if loads[0] > 500:
                    raise KeyboardError("still loading empty utterances")
                return torch.zeros(0), fs

        class KeyboardError(BaseException):
            pass

        try:
            load_dataset_sources(dataset_factory=lambda s: Empty(two, {"a": fs}, s, []), num_sources=1, duration_s=0.02, rng=g)
            ctx.fail("reject:empty", "a corpus of empty utterances gave audio")
        except RuntimeError:
            ctx.count("assertions")
        except KeyboardError as e:
            ctx.fail("reject:empty", f"a corpus of empty utterances never ends ({e})")
        ok, e = raises(ValueError, lambda: collate_dataset_items([]))
        ctx.expect(ok, "reject:empty-batch", f"empty batch gave {e!r}")
        ok, e = raises(ValueError, lambda: collate_dataset_items(iter(())))
        ctx.expect(ok, "reject:empty-batch", f"empty iterator gave {e!r}")
        n = int(r.integers(2, 6))
        at = int(r.integers(n))
        its = [DatasetItem(audio=torch.ones(3), sample_rate=16000 + (k == at), utterance_id=str(k)) for k in range(n)]
        ok, e = raises(ValueError, lambda: collate_dataset_items(its))
        ctx.expect(ok, "reject:batch-rates", f"mixed sample rates (item {at} of {n}) gave {e!r}")
        ctx.nontrivial(kind, nspk, odd, n, at)
    ctx.sample(dict(kind=kind))
