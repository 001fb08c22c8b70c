"""C21: archive extraction stays inside the destination."""
import os
import socket
import stat
import tarfile
import urllib.request
from pathlib import Path

import torchrir.datasets._archive as arch
from vf import fsmon
from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

ID = "C21"
TECH = "effect monitor: full file-system snapshots (type, mode, owner, inode, link count, content, mtime) of everything around the destination before and after each extraction, plus a scan for links/special files inside; hostile-archive generator covering paths, links, chains and devices"
NOTE = "All hostile targets lie in the check's own scratch tree, so an escape is observed there and nowhere else. The lower-level helper is driven directly when it exists under its current name; the dataset loaders are always driven."
RULE = "archives built byte by byte (USTAR/GNU/PAX, plain/gz/bz2) with benign members and 0..3 hostile ones (absolute, .., nested .., sibling with common prefix, symlink/hard link in and out, chains, link-then-write, devices, FIFOs, pre-existing links in the destination, long and non-ASCII names) at random positions; class = (entry, hostile kind, format, position)"
NEED = {"assertions": 800, "hostile_rejected": 150, "benign_complete": 30, "repeated_names": 5}
ENTRY = ["direct", "cmu", "libri"]
HOSTILE = ["abs", "absdir", "dotdot", "dotdotdir", "nested", "sibling", "symabs", "symrel", "symdir-write", "symchain", "symself-parent", "hardabs", "hardrel", "link-then-file", "hard-to-sym", "fifo", "chr", "blk", "preexisting", "long-dotdot", "dslash", "dotonly", "pax-path", "pax-link"]


def cases(tier):
    n = 32 if tier == "quick" else 6200
    out = []
    for i in range(n):
        for e in ENTRY:
            out += [{"kind": "hostile", "entry": e, "h": h, "i": i} for h in HOSTILE]
            out += [{"kind": "benign", "entry": e, "i": i, "j": j} for j in range(3)]
            out += [{"kind": "inside", "entry": e, "i": i}]
    return out


def info(name, typ=tarfile.REGTYPE, link="", mode=0o644):
    t = tarfile.TarInfo(name)
    t.type, t.linkname, t.mode = typ, link, mode
    if typ in (tarfile.CHRTYPE, tarfile.BLKTYPE):
        t.devmajor, t.devminor = 1, 3
    return t


def hostile(kind, r, dest, outside, base):
    """-> list of (TarInfo, data); base: directory prefix inside the archive."""
    ev = f"evil{int(r.integers(1e6))}.txt"
    extra_up = "../" * int(r.integers(0, 2))
    rel = extra_up + os.path.relpath(outside, dest)
    pre = str(r.choice(["", "./", base + "/"]))
    up = "../" * (pre.count("/") if pre != "./" else 0)
    R, S, H, D = tarfile.REGTYPE, tarfile.SYMTYPE, tarfile.LNKTYPE, tarfile.DIRTYPE
    b = b"EVIL"
    victim = str(outside / "victim.txt")
    if kind == "abs":
        return [(info(str(outside / ev)), b)]
    if kind == "absdir":
        return [(info(str(outside / "evildir"), D, mode=0o777), None)]
    if kind == "dotdot":
        return [(info(f"{pre}{up}{rel}/{ev}"), b)]
    if kind == "dotdotdir":
        return [(info(f"{pre}{up}{rel}/evildir", D, mode=0o777), None)]
    if kind == "nested":
        return [(info(f"{base}/x/y/../../" + "../" * (base.count("/") + 1) + f"{rel}/{ev}"), b)]
    if kind == "sibling":
        return [(info(f"{extra_up}../{dest.name}-evil/{ev}"), b)]
    if kind == "symabs":
        return [(info(f"{base}/l", S, victim), None)]
    if kind == "symrel":
        return [(info("l", S, f"{rel}/victim.txt"), None)]
    if kind == "symdir-write":
        return [(info(f"{base}/d", S, str(outside)), None), (info(f"{base}/d/{ev}"), b)]
    if kind == "symchain":
        return [(info("c1", S, "c2"), None), (info("c2", S, str(outside)), None), (info(f"c1/{ev}"), b)]
    if kind == "symself-parent":
        return [(info("p", S, "."), None), (info("q", S, "p/.."), None), (info("w", S, "q/../" + outside.name), None), (info(f"w/{ev}"), b), (info(f"q/{ev}"), b)]
    if kind == "hardabs":
        return [(info(f"{base}/h", H, victim), None), (info(f"{base}/h"), b)]
    if kind == "hardrel":
        return [(info("h", H, f"{rel}/victim.txt"), None)]
    if kind == "link-then-file":
        return [(info(f"{base}/o", S, victim), None), (info(f"{base}/o"), b)]
    if kind == "hard-to-sym":
        return [(info("s", S, victim), None), (info("t", H, "s"), None), (info("t"), b)]
    if kind == "fifo":
        return [(info(f"{pre}pipe", tarfile.FIFOTYPE), None)]
    if kind == "chr":
        return [(info(f"{pre}null0", tarfile.CHRTYPE), None)]
    if kind == "blk":
        return [(info(f"{pre}blk0", tarfile.BLKTYPE), None)]
    if kind == "preexisting":
        return [(info(f"linkout/{ev}"), b)]
    if kind == "long-dotdot":
        return [(info("a" * 120 + "/../" + rel + "/" + "é" * 60 + ev), b)]
    if kind in ("pax-path", "pax-link"):  # the extended header overrides a harmless looking entry
        ti = info(f"{base}/etc/fine.txt", S if kind == "pax-link" else R, "COPYING" if kind == "pax-link" else "")
        ti.pax_headers = {"linkpath": victim} if kind == "pax-link" else {"path": f"{rel}/{ev}"}
        return [(ti, None if kind == "pax-link" else b)]
    if kind == "dslash":
        return [(info("/" + str(outside / ev)), b)]
    return [(info(str(r.choice(["..", "../", "../.", "/"])), D), None), (info(f"../{ev}"), b)]


def run(spec, ctx):
    r = ctx.rng
    tmp = ctx.tmp()
    world = tmp / "l1" / "l2" / "world"
    entry = spec["entry"]
    outside = world / "outside"
    fsmon.write_tree(outside, {"victim.txt": b"precious", "sub/keep.bin": bytes(range(50))})
    os.chmod(outside / "victim.txt", 0o640)
    root = world / "root"
    speaker = str(r.choice(["bdl", "slt", "awb"]))
    subset = str(r.choice(["dev-clean", "train-clean-100"]))
    fmt = [tarfile.USTAR_FORMAT, tarfile.GNU_FORMAT, tarfile.PAX_FORMAT][int(r.integers(3))]
    if entry == "libri":
        files, _ = fsmon.libri_files(r, subset, speakers=1, hi=400)
        dest, base, mode, aname = root, f"LibriSpeech/{subset}", "w:gz", root / f"{subset}.tar.gz"
        dsdir = root / "LibriSpeech" / subset
    else:
        files, _ = fsmon.cmu_files(r, speaker, n=2, hi=400)
        dest, base, mode = root / "ARCTIC", f"cmu_us_{speaker}_arctic", "w:bz2"
        aname, dsdir = dest / f"cmu_us_{speaker}_arctic.tar.bz2", dest / base
        if entry == "direct":
            mode = str(r.choice(["w", "w:gz", "w:bz2"]))
    if entry == "direct" and getattr(arch, "safe_extractall", None) is None:
        ctx.count("direct_absent")
        return
    dest.mkdir(parents=True)
    fsmon.write_tree(dest.parent / f"{dest.name}-evil", {"keep.txt": b"sibling"})
    extra, kinds = [], []
    prefix = ""
    n = len(files) + 4
    if spec["kind"] == "hostile":
        kinds = [spec["h"]] + [str(k) for k in r.choice(HOSTILE, int(r.integers(0, 3)))]
        if r.uniform() < 0.5:
            kinds = kinds[:1]
        if any(k.startswith("pax-") for k in kinds):
            fmt = tarfile.PAX_FORMAT
        if any(k == "long-dotdot" for k in kinds) and fmt == tarfile.USTAR_FORMAT:
            fmt = tarfile.PAX_FORMAT
        for k in kinds:
            pos = int(r.choice([0, n // 2, 10**6]))
            members = hostile(k, r, dest, outside, base)
            if r.uniform() < 0.3:  # the same name as an ordinary file before (and possibly once more after)
                names = [ti.name for ti, _ in members if not ti.name.startswith(("/", ".."))]
                pick = [nm for nm in names if ".." not in nm.split("/")]
                if pick:
                    nm = str(r.choice(pick))
                    members = [(info(nm), b"ordinary"), *members] + ([(info(nm), b"ordinary too")] if r.integers(2) else [])
                    ctx.count("repeated_names")
            for j, (ti, data) in enumerate(members):
                extra.append((pos + j, ti, data))
        if "preexisting" in kinds:
            os.symlink(outside, dest / "linkout")
    elif spec["kind"] == "inside":  # links and .. that stay inside: containment only
        k = int(r.integers(4))
        nm = f"{base}/lnk"
        extra = [(10**6, *[(info(nm, tarfile.SYMTYPE, "COPYING"), None), (info(nm, tarfile.LNKTYPE, next(iter(files))), None), (info(f"{base}/etc/../extra.txt"), b"x"), (info(f"{base}/dd", tarfile.SYMTYPE, "."), None)][k])]
        kinds = [f"inside{k}"]
    else:
        prefix = str(r.choice(["", "./"]))
        more = {f"{base}/etc/empty": b"", f"{base}/a..b/..hidden": b"1", f"{base}/sp ace/ü日本.txt": "é".encode(), f"{base}/back\\slash..\\x": b"2", f"{base}/" + "n" * 90 + "/" + "m" * 90 + ".txt": b"long"}
        for k in list(more):
            if r.integers(2) and not (fmt == tarfile.USTAR_FORMAT and len(k) > 150):
                files[k] = more[k]
        kinds = ["benign"]
    blob = fsmon.tar_bytes(files, mode, dirs=bool(r.integers(2)), fmt=fmt, prefix=prefix, extra=extra)
    apath = aname if entry != "direct" else world / "archive.tar"
    apath.write_bytes(blob)
    ctx_info = dict(entry=entry, kinds=kinds, fmt=fmt, mode=mode, members=[t.name[-80:] for _, t, _ in extra])
    pre_special = set(fsmon.specials(dest))
    before = fsmon.snapshot(tmp, exclude=[dest])
    inside0 = fsmon.tree(dest)
    touched = []
    saved = urllib.request.urlopen, socket.create_connection

    def nonet(*a, **k):
        touched.append(str(a[:1]))
        raise OSError("no network in this check")

    urllib.request.urlopen = socket.create_connection = nonet
    err = None
    try:
        if entry == "direct":
            with tarfile.open(apath, "r:*") as t:
                arch.safe_extractall(t, dest)
        elif entry == "cmu":
            CmuArcticDataset(root, speaker=speaker, download=True)
        else:
            LibriSpeechDataset(root, subset=subset, download=True)
    except Exception as e:  # noqa: BLE001
        err = e
    finally:
        urllib.request.urlopen, socket.create_connection = saved
    d = fsmon.diff(before, fsmon.snapshot(tmp, exclude=[dest]))
    ctx.expect(not d, f"escape:{entry}", f"extraction changed things outside the destination: {d[:5]}", **ctx_info)
    ctx.count("fs_entries_watched", len(before))
    leaks = []
    for p in set(fsmon.specials(dest)) - pre_special:
        m = os.lstat(p).st_mode
        if stat.S_ISLNK(m):
            if not Path(os.path.realpath(p)).is_relative_to(os.path.realpath(dest)):
                leaks.append((os.path.relpath(p, dest), "->", os.readlink(p)))
        else:
            leaks.append((os.path.relpath(p, dest), "special", oct(m)))
    ctx.expect(not leaks, f"leak:{entry}", f"link out of the destination or special file created: {leaks[:3]}", **ctx_info)
    if spec["kind"] == "hostile":
        if ctx.expect(err is not None, f"accepted:{entry}", f"hostile archive {kinds} extracted without an error", **ctx_info):
            ctx.count("hostile_rejected")
        if entry != "direct":
            ctx.expect(not dsdir.exists() or fsmon.tree(dsdir).keys() >= {k[len(base) + 1:] for k in files}, f"partial:{entry}", "a rejected archive left a partial dataset in place", **ctx_info)
        ctx.nontrivial(entry, spec["h"], len(kinds), fmt, type(err).__name__)
    elif spec["kind"] == "benign":
        if ctx.expect(err is None, f"benign:{entry}", f"benign archive rejected: {err!r}", **ctx_info):
            got = fsmon.tree(dsdir)
            want = {k[len(base) + 1:]: v for k, v in files.items() if k.startswith(base + "/")}
            ctx.expect(got == want, f"content:{entry}", f"extracted files differ: missing {sorted(set(want) - set(got))[:3]}, extra {sorted(set(got) - set(want))[:3]}", **ctx_info)
            for k, v in files.items():
                if not k.startswith(base + "/"):
                    p = dest / k
                    ctx.expect(p.is_file() and p.read_bytes() == v, f"content:{entry}:other", f"{k} missing after extraction", **ctx_info)
            ctx.expect(not touched, f"network:{entry}", f"network used although the archive is there: {touched[:2]}", **ctx_info)
            ctx.expect(apath.exists() and apath.read_bytes() == blob, f"archive:{entry}", "the archive was altered", **ctx_info)
            ctx.count("benign_complete")
        ctx.nontrivial(entry, "benign", fmt, prefix, len(files) > 6)
    else:
        if kinds[0] != "inside2":
            ctx.expect(err is not None, f"link-accepted:{entry}", "an archive with a link was extracted", **ctx_info)
        ctx.nontrivial(entry, kinds[0], fmt, type(err).__name__)
    ctx.sample(dict(ctx_info, error=repr(err)[:120]))
