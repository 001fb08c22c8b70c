"""File system snapshots and fake corpora used by the dataset/visualisation checks."""
from __future__ import annotations

import hashlib
import os
import stat
from pathlib import Path

import numpy as np


def snapshot(root, exclude=(), content=True, times=True):
    """{relative path: description} of everything under root (not following links), minus excluded subtrees."""
    root = str(root)
    ex = {str(e) for e in exclude}
    out = {}

    def add(p, rel):
        try:
            s = os.lstat(p)
        except FileNotFoundError:
            return
        d = [stat.S_IFMT(s.st_mode), stat.S_IMODE(s.st_mode), s.st_uid, s.st_gid]
        if stat.S_ISLNK(s.st_mode):
            d.append(os.readlink(p))
        elif stat.S_ISREG(s.st_mode):
            d += [s.st_size, s.st_nlink, s.st_ino]
            if content:
                with open(p, "rb") as f:
                    d.append(hashlib.sha1(f.read()).hexdigest())
        if times and not stat.S_ISLNK(s.st_mode):
            d.append(s.st_mtime_ns)
        out[rel] = tuple(d)

    add(root, ".")
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if os.path.join(dp, d) not in ex)
        for n in dn + fn:
            p = os.path.join(dp, n)
            if p not in ex:
                add(p, os.path.relpath(p, root))
    return out


def diff(a, b):
    """paths created, removed, changed"""
    out = [("created", k) for k in sorted(set(b) - set(a))] + [("removed", k) for k in sorted(set(a) - set(b))]
    return out + [("changed", k) for k in sorted(set(a) & set(b)) if a[k] != b[k]]


def tree(root):
    """{relative path: bytes} of regular files below root"""
    root = Path(root)
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*")) if p.is_file() and not p.is_symlink()}


def specials(root):
    """links and special files below root"""
    out = []
    for dp, dn, fn in os.walk(root):
        for n in dn + fn:
            p = os.path.join(dp, n)
            m = os.lstat(p).st_mode
            if not (stat.S_ISREG(m) or stat.S_ISDIR(m)):
                out.append(p)
    return sorted(out)


WORDS = "author of the danger trail philip steels etc not at this particular case tom apologized whittemore for twentieth time that evening café über naïve".split()


def sentence(r):
    n = int(r.integers(2, 9))
    gap = [" ", "  ", "\t"][int(r.integers(3))] if r.uniform() < 0.1 else " "
    if r.uniform() < 0.04:  # nothing was said, or one word
        return ["", "", "a", "0"][int(r.integers(4))]
    return gap.join(str(r.choice(WORDS)) for _ in range(n)).capitalize() + str(r.choice([".", ",", "!", "'s"]))


def wav_bytes(x, fs, fmt="WAV", subtype="PCM_16"):
    import io

    import soundfile as sf

    b = io.BytesIO()
    sf.write(b, x, fs, format=fmt, subtype=subtype)
    return b.getvalue()


def cmu_files(r, speaker, n=6, fs=16000, lo=200, hi=1500, amp=0.5, loud=False):
    """{path: bytes} of a small CMU ARCTIC speaker directory and [(utt, text, samples int16)] in transcript order."""
    utts, files, lines = [], {}, []
    top = f"cmu_us_{speaker}_arctic"
    for i in range(n):
        u = f"arctic_{'ab'[i % 2]}{int(r.integers(1000)):04d}_{i}" if r.integers(2) else f"arctic_a{i + 1:04d}"
        x = np.round(r.uniform(-amp, amp, int(r.integers(lo, hi))) * 32767).astype(np.int16)
        if loud:  # full-scale low tone, the same for everybody up to its sign
            x = np.round(32767 * (1 if loud is True else amp) * np.sin(2 * np.pi * 16 / fs * np.arange(len(x)) + np.pi * (int(r.integers(2)) if loud is True else loud == "-"))).astype(np.int16)
        t = sentence(r)
        files[f"{top}/wav/{u}.wav"] = wav_bytes(x, fs)
        utts.append((u, t, x))
        lines.append(f'( {u} "{t}" )')
    files[f"{top}/etc/txt.done.data"] = ("\n".join(lines) + "\n").encode()
    files[f"{top}/COPYING"] = b"Permission is hereby granted\n"
    return files, utts


def libri_files(r, subset, speakers=3, fs=16000, lo=200, hi=1500):
    """{path: bytes} below the extraction root and [(utt, text, speaker, chapter, samples)]."""
    files, utts = {"LibriSpeech/README.TXT": b"readme\n", "LibriSpeech/SPEAKERS.TXT": b"; speakers\n"}, []
    ids = r.permutation(np.arange(10, 9000))[:speakers]
    for s in ids:
        for c in r.permutation(np.arange(100, 400000))[: int(r.integers(1, 4))]:
            lines = []
            for i in range(int(r.integers(1, 4))):
                u = f"{s}-{c}-{i:04d}"
                x = np.round(r.uniform(-0.5, 0.5, int(r.integers(lo, hi))) * 32767).astype(np.int16)
                t = sentence(r).upper()
                files[f"LibriSpeech/{subset}/{s}/{c}/{u}.flac"] = wav_bytes(x, fs, "FLAC")
                lines.append(f"{u} {t}")
                utts.append((u, t, str(s), str(c), x))
            files[f"LibriSpeech/{subset}/{s}/{c}/{s}-{c}.trans.txt"] = ("\n".join(lines) + "\n").encode()
    return files, utts


def write_tree(root, files):
    for k, v in files.items():
        p = Path(root) / k
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(v)


def tar_bytes(files, mode="w:bz2", dirs=True, fmt=None, prefix="", extra=(), order=None):
    """Build an archive; extra: [(position, TarInfo, bytes|None)] inserted among the members."""
    import io
    import tarfile

    b = io.BytesIO()
    members = []
    seen = set()
    for k, v in files.items():
        if dirs:
            parts = k.split("/")[:-1]
            for i in range(1, len(parts) + 1):
                d = "/".join(parts[:i])
                if d not in seen:
                    seen.add(d)
                    ti = tarfile.TarInfo(prefix + d)
                    ti.type, ti.mode = tarfile.DIRTYPE, 0o755
                    members.append((ti, None))
        ti = tarfile.TarInfo(prefix + k)
        ti.size, ti.mode, ti.mtime = len(v), 0o644, 1_000_000_000
        members.append((ti, v))
    for pos, ti, data in extra:
        members.insert(min(pos, len(members)), (ti, data))
    kw = {} if fmt is None else dict(format=fmt)
    with tarfile.open(fileobj=b, mode=mode, **kw) as t:
        for ti, data in members:
            if data is not None:
                ti.size = len(data)
            t.addfile(ti, io.BytesIO(data) if data is not None else None)
    return b.getvalue()


def streams(blob, comp, r):
    """The same archive as several compressed streams (like pbzip2/pigz/cat): -> (blob, offsets between streams)"""
    import bz2
    import gzip
    import io
    import tarfile

    raw = (bz2 if comp == "bz2" else gzip).decompress(blob)
    with tarfile.open(fileobj=io.BytesIO(raw)) as t:
        at = [m.offset for m in t.getmembers()][1:] + [t.offset]
    at = sorted({int(a) + (int(r.integers(1, 512)) if r.uniform() < 0.2 else 0) for a in r.choice(at, min(len(at), int(r.integers(1, 4))), replace=False)})
    out, cuts = b"", []
    for a, b in zip([0] + at, at + [len(raw)]):
        out += bz2.compress(raw[a:b]) if comp == "bz2" else gzip.compress(raw[a:b], mtime=0)
        cuts.append(len(out))
    return out, cuts[:-1]
