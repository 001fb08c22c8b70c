"""C22: corpus downloads survive faults."""
import errno
import io
import json
import os
import resource
import select
import signal
import socket
import struct
import sys
import tarfile
import time
import traceback
from pathlib import Path

import numpy as np

from vf import fsmon
from vf.core import Harness

ID = "C22"
TECH = "fault injection with a history monitor: a loopback HTTP server and in-process injectors (audit-hook errors/kills at the n-th file-system event, SIGKILL mid-transfer, kill at the n-th interpreter call, file-size limits) damage a sequence of attempts; after every attempt the corpus on disk is opened offline and compared with the true one"
NOTE = "Kill means process death (no power loss). A hostile archive stays rejected until removed and is judged by C21. Kill points are sampled at interpreter granularity, not enumerated."
RULE = "histories of 0..4 faulty attempts then a healthy one, then repeats with the network down; corpora CMU ARCTIC / LibriSpeech (all or one speaker, other subset present); faults: refused, HTTP errors, truncation with/without length or chunked, reset, garbage, bit flips, empty, wrong archive, ENOSPC/EACCES at n-th event, kill at n-th event or call, kill mid-transfer, file-size limit, damaged archive already on disk; single- and multi-stream archives, cuts also between streams; class = (corpus, fault sequence kinds, outcome)"
NEED = {"assertions": 1200, "attempts_failed": 50, "recovered": 80, "killed": 25, "retried": 12}
TIMEOUT = {"quick": 500, "thorough": 800}
FAULTS = ["refused", "http404", "http500", "trunc-len", "trunc-nolen", "trunc-chunked", "reset", "html", "flip", "flip", "empty", "wrong", "event-err", "event-err", "event-kill", "event-kill", "event-kill", "step-kill", "step-kill", "step-kill", "serve-kill", "fsize", "cut"]


def cases(tier):
    n = 40 if tier == "quick" else 1100
    out = []
    for i in range(n):
        out += [{"kind": "history", "ds": "cmu", "i": i}, {"kind": "history", "ds": "libri", "i": i}, {"kind": "ondisk", "ds": ["cmu", "libri"][i % 2], "i": i}, {"kind": "offline", "ds": ["cmu", "libri"][i % 2], "i": i}]
        f = FAULTS[i % len(FAULTS)]
        out += [{"kind": "single", "ds": d, "f": f, "i": i} for d in ("cmu", "libri")]
    return out


class Corpus:
    def __init__(self, r, ds):
        self.ds = ds
        if ds == "cmu":
            self.speaker = str(r.choice(["bdl", "slt", "rms"]))
            files, utts = fsmon.cmu_files(r, self.speaker, n=int(r.integers(2, 6)), hi=900)
            top = f"cmu_us_{self.speaker}_arctic"
            big = f"{top}/wav/arctic_b9999.wav"
            files[big] = fsmon.wav_bytes(np.zeros(60000, np.int16), 16000)
            files[f"{top}/etc/txt.done.data"] += b'( arctic_b9999 "Silence." )\n'
            self.sub = f"ARCTIC/{top}"
            self.arc = f"ARCTIC/{top}.tar.bz2"
            self.files = {f"ARCTIC/{k}": v for k, v in files.items()}
            self.blob = fsmon.tar_bytes(files, "w:bz2", dirs=bool(r.integers(2)))
            self.n = len(utts) + 1
        else:
            self.subset = str(r.choice(["dev-clean", "train-clean-100", "test-other"]))
            files, utts = fsmon.libri_files(r, self.subset, speakers=2, hi=900)
            s, c = utts[-1][2], utts[-1][3]
            u = f"{s}-{c}-0099"
            files[f"LibriSpeech/{self.subset}/{s}/{c}/{u}.flac"] = fsmon.wav_bytes(np.zeros(200, np.int16), 16000, "FLAC")
            files[f"LibriSpeech/{self.subset}/{s}/{c}/pad.bin"] = bytes(120000)
            files[f"LibriSpeech/{self.subset}/{s}/{c}/{s}-{c}.trans.txt"] += f"{u} SILENCE\n".encode()
            self.spk = s if r.uniform() < 0.3 else None
            self.sub = f"LibriSpeech/{self.subset}"
            self.arc = f"{self.subset}.tar.gz"
            self.files = files
            self.blob = fsmon.tar_bytes(files, "w:gz", dirs=bool(r.integers(2)))
            self.n = len(utts) + 1 if self.spk is None else sum(x[2] == s for x in utts) + 1
        self.cuts = []
        if r.uniform() < 0.4:
            self.blob, self.cuts = fsmon.streams(self.blob, "bz2" if ds == "cmu" else "gz", r)
        self.want = {k[len(self.sub) + 1:]: v for k, v in self.files.items() if k.startswith(self.sub + "/")}

    def open(self, root, download):
        from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

        if self.ds == "cmu":
            return CmuArcticDataset(root, speaker=self.speaker, download=download)
        return LibriSpeechDataset(root, subset=self.subset, speaker=self.spk, download=download)


def child_main(corpus, root, download, port, inj, w):
    """Runs in a forked child; never returns."""
    import http.client
    import urllib.request

    signal.alarm(100)
    conns = [0]

    def factory(host, **kw):
        conns[0] += 1
        return http.client.HTTPConnection("127.0.0.1", port, timeout=30)

    class H(urllib.request.HTTPHandler):
        def http_open(self, req):
            return self.do_open(factory, req)

    class HS(urllib.request.HTTPSHandler):
        def https_open(self, req):
            return self.do_open(factory, req)

    urllib.request.install_opener(urllib.request.build_opener(urllib.request.ProxyHandler({}), H, HS))
    rs = os.path.realpath(root)
    ev = {"n": 0, "touch": []}
    names = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.chmod", "os.chown", "os.utime", "os.link", "os.symlink", "os.truncate"}

    def hook(name, args):
        if name == "open":
            if not isinstance(args[0], (str, bytes)) or not (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                return
        elif name not in names:
            return
        p = os.fsdecode(args[0]) if isinstance(args[0], (str, bytes)) else str(args[0])
        if not os.path.realpath(p).startswith(rs):
            return
        ev["touch"].append((name, os.path.relpath(p, rs)))
        ev["n"] += 1
        if inj and inj[0] == "event-err" and inj[1] <= ev["n"] < inj[1] + inj[3]:
            raise OSError(inj[2], os.strerror(inj[2]), p)
        if inj and inj[0] == "event-kill" and ev["n"] == inj[1]:
            os.kill(os.getpid(), signal.SIGKILL)

    sys.addaudithook(hook)
    if inj and inj[0] == "fsize":
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (inj[1], inj[1]))
    if inj and inj[0] == "step-kill":
        left = [inj[1]]

        def prof(frame, event, arg):
            left[0] -= 1
            if left[0] == 0:
                os.kill(os.getpid(), signal.SIGKILL)

        sys.setprofile(prof)
    out = {}
    try:
        ds = corpus.open(root, download)
        sys.setprofile(None)
        if inj and inj[0] == "fsize":
            pass
        sent = ds.available_sentences()
        out = dict(ok=True, n=len(sent), frames=[int(ds.load_audio(s.utterance_id)[0].numel()) for s in sent])
    except BaseException as e:  # noqa: BLE001
        sys.setprofile(None)
        out = dict(ok=False, type=type(e).__name__, mro=[c.__name__ for c in type(e).__mro__], msg=str(e)[:200], tb=traceback.format_exc()[-1500:])
    inj = None
    out["conns"] = conns[0]
    out["touch"] = ev["touch"][:20]
    os.write(w, json.dumps(out).encode())
    os._exit(0)


def serve(conn, plan, blob, pid, r):
    """One connection. Returns number of body bytes sent."""
    conn.settimeout(20)
    try:
        req = b""
        while b"\r\n\r\n" not in req:
            d = conn.recv(65536)
            if not d:
                return
            req += d
        kind = plan[0]
        ok = b"HTTP/1.1 200 OK\r\nConnection: close\r\n"
        if kind == "http404":
            conn.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\nConnection: close\r\n\r\nnot found")
        elif kind == "http500":
            conn.sendall(b"HTTP/1.1 503 Busy\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
        elif kind in ("trunc-len", "serve-kill", "reset"):
            cut = plan[1] if plan[1] < len(blob) else len(blob) - 1
            conn.sendall(ok + b"Content-Length: %d\r\n\r\n" % len(blob) + blob[:cut])
            if kind == "serve-kill":
                time.sleep(0.01)
                os.kill(pid, signal.SIGKILL)
            elif kind == "reset":
                time.sleep(0.005)
                conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif kind == "trunc-nolen":
            conn.sendall(b"HTTP/1.0 200 OK\r\n\r\n" + blob[: plan[1]])
        elif kind == "trunc-chunked":
            b = blob[: plan[1]]
            conn.sendall(ok + b"Transfer-Encoding: chunked\r\n\r\n" + b"%x\r\n" % (len(b) + 7) + b)
        elif kind == "good-nolen":
            conn.sendall(b"HTTP/1.0 200 OK\r\n\r\n" + blob)
        elif kind == "good-chunked":
            h = len(blob) // 2
            conn.sendall(ok + b"Transfer-Encoding: chunked\r\n\r\n" + b"%x\r\n" % h + blob[:h] + b"\r\n%x\r\n" % (len(blob) - h) + blob[h:] + b"\r\n0\r\n\r\n")
        else:
            body = plan[1] if kind == "body" else blob
            conn.sendall(ok + b"Content-Length: %d\r\n\r\n" % len(body) + body)
    except OSError:
        pass
    finally:
        conn.close()


def attempt(corpus, root, download, plans, inj, r):
    """Fork a client; serve it. plans: list of per-connection plans (last repeats), or None = refused."""
    ls = socket.socket()
    ls.bind(("127.0.0.1", 0))
    port = ls.getsockname()[1]
    if plans is None:
        ls.close()
        ls = None
    else:
        ls.listen(8)
    rd, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            if ls:
                ls.close()
            child_main(corpus, root, download, port, inj, wr)
        finally:
            os._exit(71)
    os.close(wr)
    n = 0
    end = time.time() + 120
    data = b""
    while True:
        fds = [rd] + ([ls] if ls else [])
        ready, _, _ = select.select(fds, [], [], 0.5)
        if ls and ls in ready:
            c, _ = ls.accept()
            serve(c, plans[min(n, len(plans) - 1)], corpus.blob, pid, r)
            n += 1
        if rd in ready:
            d = os.read(rd, 1 << 20)
            if not d:
                break
            data += d
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    os.close(rd)
    if ls:
        ls.close()
    out = json.loads(data) if data else {}
    out["killed"] = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL
    out["alarm"] = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGALRM
    out["harness"] = (not data) and os.WIFEXITED(status)
    out["requests"] = n
    return out


def make_fault(f, r, corpus):
    """-> (plans, injection, description)"""
    good = [("good",)]
    size = len(corpus.blob)
    cut = int(r.choice([0, 1, int(r.integers(1, size)), size - 1, size - 4, size - 12]))
    if corpus.cuts and r.integers(2):
        cut = int(r.choice(corpus.cuts))  # the transfer stops exactly between two compressed streams
    if f == "refused":
        return None, None
    if f in ("http404", "http500"):
        return [(f,)], None
    if f in ("trunc-len", "trunc-nolen", "trunc-chunked", "reset", "serve-kill"):
        return [(f, cut)], None
    if f == "html":
        return [("body", b"<html><body>Sorry, portal login required</body></html>")], None
    if f == "empty":
        return [("body", b"")], None
    if f == "cut":
        return [("body", corpus.blob[:cut])], None
    if f == "flip":
        b = bytearray(corpus.blob)
        for _ in range(int(r.choice([1, 1, 5]))):
            b[int(r.integers(len(b)))] ^= 1 << int(r.integers(8))
        return [("body", bytes(b))], None
    if f == "wrong":
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode="w:bz2" if corpus.ds == "cmu" else "w:gz") as t:
            t.addfile(tarfile.TarInfo("something_else.txt"), io.BytesIO())
        return [("body", b.getvalue())], None
    if f == "event-err":
        return good, ("event-err", int(r.choice([1, 2, 3, 4, 5, int(r.integers(1, 60))])), int(r.choice([errno.ENOSPC, errno.EACCES, errno.EIO, errno.EDQUOT])), int(r.choice([1, 1, 2, 10**6])))
    if f == "event-kill":
        return good, ("event-kill", int(r.choice([1, 2, 3, 4, 5, 6, int(r.integers(1, 30)), int(r.integers(1, 90))])))
    if f == "step-kill":
        return good, ("step-kill", int(np.exp(r.uniform(np.log(20), np.log(60000)))))
    if f == "fsize":
        return good, ("fsize", int(r.choice([10, size // 2, size + 10, 30000, 60000, 118000])))
    raise AssertionError(f)


def run(spec, ctx):
    r = ctx.rng
    tmp = ctx.tmp()
    corpus = Corpus(r, spec["ds"])
    root = tmp / "data"
    ds = spec["ds"]
    sdir = root / corpus.sub
    other = {}
    if r.integers(2):
        # unrelated content already in the root
        if ds == "cmu":
            other = {"ARCTIC/cmu_us_zzz_arctic/wav/a.wav": b"other", "ARCTIC/notes.txt": b"n"}
        else:
            other = {"LibriSpeech/test-clean/1/2/1-2-0000.flac": b"other", "LibriSpeech/test-clean/1/2/1-2.trans.txt": b"1-2-0000 X\n", "mine.txt": b"m"}
        fsmon.write_tree(root, other)
    hist = []
    info = dict(ds=ds, history=hist)

    def complete():
        return sdir.is_dir() and fsmon.tree(sdir) == corpus.want

    def check_open(tag):
        """offline open: missing or complete, no writes, no network"""
        b = fsmon.snapshot(tmp) if tmp.exists() else {}
        o = attempt(corpus, root, False, [("good",)], None, r)
        d = fsmon.diff(b, fsmon.snapshot(tmp))
        ctx.expect(not d, f"{ds}:offline:writes", f"download=False changed the disk: {d[:4]}", **info)
        ctx.expect(o.get("conns", 0) == 0 and o["requests"] == 0, f"{ds}:offline:network", "download=False used the network", **info)
        if o["harness"] or o["alarm"]:
            raise Harness(f"offline child failed {o}")
        if o.get("ok"):
            good = complete() and o["n"] == corpus.n
            ctx.expect(good, f"{ds}:half", f"after {tag} a partial corpus is presented as complete ({o['n']} of {corpus.n} utterances)", **info)
        else:
            ctx.expect("FileNotFoundError" in o.get("mro", []), f"{ds}:offline:error", f"missing corpus gives {o.get('type')}: {o.get('msg')}", **info)
            ctx.count("offline_missing")
        for k, v in other.items():
            ctx.expect((root / k).is_file() and (root / k).read_bytes() == v, f"{ds}:other", f"unrelated file {k} damaged after {tag}", **info)
        return o.get("ok")

    if spec["kind"] == "offline":
        full = bool(r.integers(2))
        if full:
            fsmon.write_tree(root, corpus.files)
        hist.append("present" if full else "absent")
        ok = check_open("nothing")
        ctx.expect(bool(ok) == full, f"{ds}:offline:result", f"offline open {'failed' if full else 'succeeded'}", **info)
        ctx.nontrivial(ds, "offline", full, bool(other))
        if not full:
            return
        # complete corpus without its archive: download=True must not fetch or write
        b = fsmon.snapshot(tmp)
        o = attempt(corpus, root, True, [("good",)], None, r)
        ctx.expect(o.get("ok") and o["requests"] == 0 and o.get("conns") == 0, f"{ds}:again", f"a complete corpus was downloaded again ({o['requests']} requests, {o.get('msg')})", **info)
        d = fsmon.diff(b, fsmon.snapshot(tmp))
        ctx.expect(not d, f"{ds}:again:writes", f"a complete corpus was rewritten: {d[:4]}", **info)
        return
    if spec["kind"] == "ondisk":
        size = len(corpus.blob)
        k = str(r.choice(["trunc", "flip", "empty", "html", "good", "part"]))
        b = bytearray(corpus.blob)
        if k == "trunc":
            b = b[: int(r.choice(corpus.cuts or [size // 3])) if r.integers(2) else int(r.choice([1, size // 2, size - 1, size - 6, int(r.integers(1, size))]))]
        elif k == "flip":
            b[int(r.integers(size))] ^= 1 << int(r.integers(8))
        elif k == "empty":
            b = b""
        elif k == "html":
            b = b"<html>"
        p = root / (corpus.arc + (".part" if k == "part" else ""))
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(bytes(b[: size // 2]) if k == "part" else bytes(b))
        hist.append(f"ondisk-{k}")
        faults = [] if r.integers(2) else [str(r.choice(FAULTS))]
    elif spec["kind"] == "single":
        faults = [spec["f"]]
    else:
        faults = [str(f) for f in r.choice(FAULTS, int(r.integers(0, 5)))]
    for f in faults:
        plans, inj = make_fault(f, r, corpus)
        if plans is not None and plans[0][0] != "good" and r.uniform() < 0.4:
            plans = plans[:1] + [("good",)]  # flaky: only the first connection is bad
        hist.append([f, str(inj), [p[0] for p in plans] if plans else None])
        o = attempt(corpus, root, True, plans, inj, r)
        if o["harness"]:
            raise Harness(f"attempt child failed: {o}")
        ctx.expect(not o["alarm"], f"{ds}:hang", f"attempt under {f} hangs", **info)
        ctx.count("attempts")
        if plans and len(plans) == 2 and f in ("http404", "http500", "trunc-len", "trunc-chunked", "reset"):
            ctx.expect(o.get("ok"), f"{ds}:retry", f"one {f} transfer followed by a healthy one fails: {o.get('type')} {o.get('msg')}", **info)
            ctx.count("retried")
        if o.get("ok"):
            ctx.expect(complete() and o["n"] == corpus.n, f"{ds}:half", f"attempt under {f} presented a partial corpus ({o['n']} of {corpus.n} utterances)", **info)
            ctx.count("attempts_ok_despite_fault")
        elif o["killed"]:
            ctx.count("killed")
        else:
            ctx.count("attempts_failed")
            ctx.nontrivial(ds, f, o.get("type"))
        check_open(f)
    good = str(r.choice(["good", "good", "good-nolen", "good-chunked"]))
    o = attempt(corpus, root, True, [(good,)], None, r)
    if o["harness"]:
        raise Harness(f"healthy child failed: {o}")
    if ctx.expect(o.get("ok") and complete() and o["n"] == corpus.n, f"{ds}:recover", f"healthy attempt after {hist} does not give the complete corpus: {o.get('type')} {o.get('msg')} {o.get('n')}", tb=o.get("tb", "")[-800:], **info):
        ctx.count("recovered")
    check_open("the healthy attempt")
    b = fsmon.snapshot(tmp)
    plans = None if r.integers(2) else [("good",)]
    o = attempt(corpus, root, True, plans, None, r)
    ctx.expect(o.get("ok") and o["requests"] == 0 and o.get("conns") == 0, f"{ds}:again", f"a complete corpus was downloaded again: {o.get('msg')}", **info)
    d = fsmon.diff(b, fsmon.snapshot(tmp))
    ctx.expect(not d, f"{ds}:again:writes", f"a complete corpus was rewritten: {d[:4]}", **info)
    if ds == "libri" and corpus.ds == "libri":
        for k, v in corpus.files.items():
            ctx.expect((root / k).is_file() and (root / k).read_bytes() == v, f"{ds}:complete:other", f"{k} missing", **info)
    ctx.nontrivial(ds, spec["kind"], tuple(f if isinstance(f, str) else f[0] for f in hist))
    ctx.sample(info)
