"""Runner shared by all checks: sharded case execution, verdicts, evidence, replay files.

A check module (checks/cNN.py) defines
    ID            property id
    RULE          text: how cases are made, what makes one non-trivial
    NEED          {counter: minimum} - below it the run is inconclusive (exit 2)
    cases(tier)   list of JSON-able case specs {"kind": ..., ...}
    run(spec, ctx)   runs one case; reports through ctx
Optional: SETUP() run once in the parent before forking, ISOLATE=True for one process per case,
WORKERS, TIMEOUT (seconds for the whole run, quick/thorough), FINAL(agg) extra verdict in parent.
"""
from __future__ import annotations

import hashlib
import json
import os
import pathlib
import pickle
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
MEM = 3 << 30  # bytes of private data per worker: a runaway allocation is a MemoryError there, not an out-of-memory kill
SRC = str(REPO / "src" / "torchrir")


class Violation(Exception):
    """Raised by ctx.fail(..., stop=True) to end a case."""


class Harness(Exception):
    """The check itself could not run (machine, child process): no verdict."""


class Skip(Exception):
    """A case that cannot apply (precondition not met); counted, never a verdict."""


def jsonable(x, depth=0):
    import numpy as np

    try:
        import torch
    except Exception:  # pragma: no cover
        torch = None
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if torch is not None and torch.is_tensor(x):
        x = x.detach().cpu()
        if x.numel() > 40:
            return f"tensor{tuple(x.shape)}:{x.dtype}"
        return jsonable(x.tolist())
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return f"ndarray{x.shape}:{x.dtype}"
        return jsonable(x.tolist())
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return jsonable(float(x))
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:300]


class Ctx:
    def __init__(self, prop, seed, tier, index, spec):
        import numpy as np

        self.prop, self.seed, self.tier, self.index, self.spec = prop, seed, tier, index, spec
        key = [seed, zlib.crc32(prop.encode()), zlib.crc32(json.dumps(spec, sort_keys=True).encode())]
        self.rng = np.random.default_rng(key)
        self.counts: dict[str, int] = {}
        self.keys: set[str] = set()
        self.fails: list[dict] = []
        self.samples: list = []
        self._tmp = None

    def count(self, name, n=1, /):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def nontrivial(self, *key):
        """Register a distinct, non-trivial behaviour/input class observed by the monitor."""
        self.keys.add("|".join(str(k) for k in key))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def fail(self, key, msg, /, stop=False, **detail):
        self.fails.append(dict(key=key, msg=str(msg)[:2000], detail=jsonable(detail)))
        if stop:
            raise Violation(msg)

    def expect(self, cond, key, msg, /, **detail):
        self.count("assertions")
        if not cond:
            self.fail(key, msg, **detail)
        return bool(cond)

    def tmp(self) -> pathlib.Path:
        if self._tmp is None:
            self._tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"vf-{self.prop}-", dir=scratch_root()))
        return self._tmp

    def close(self):
        if self._tmp is not None:
            rmtree(self._tmp)
            self._tmp = None


_SCRATCH = None


def scratch_root() -> str:
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="vf-run-")
    return _SCRATCH


def rmtree(p):
    p = pathlib.Path(p)
    assert p.is_absolute() and "vf-" in str(p), p
    for root, dirs, files in os.walk(p):
        for d in dirs:
            try:
                os.chmod(os.path.join(root, d), 0o700)
            except OSError:
                pass
    shutil.rmtree(p, ignore_errors=True)


def in_repo_frame(tb) -> bool:
    """True when the exception passed through torchrir code."""
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(SRC):
            return True
    return False


def where_in_repo(tb) -> str:
    last = ""
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(SRC):
            last = f.name
    return last


def run_one(mod, ctx):
    """Run a single case; return (status, info)."""
    import random

    import numpy as np
    import torch

    random.seed(12345)
    np.random.seed(12345)
    torch.manual_seed(12345)
    torch.set_default_dtype(torch.float32)
    try:
        mod.run(ctx.spec, ctx)
        ctx.count("cases_run")
    except Violation:
        ctx.count("cases_run")
    except Skip as e:
        ctx.count("cases_skipped")
        ctx.count("skip:" + str(e)[:40])
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # noqa: BLE001
        tb = e.__traceback__
        text = "".join(traceback.format_exception(type(e), e, tb))[-3000:]
        if in_repo_frame(tb):
            kind = ctx.spec.get("kind", "?")
            ctx.fail(f"unexpected-exception:{kind}:{type(e).__name__}", f"unexpected {type(e).__name__} from torchrir: {e}", trace=text)
        elif isinstance(e, Exception) and not isinstance(e, (Harness, MemoryError, ImportError, subprocess.TimeoutExpired)) and (isinstance(e, FileNotFoundError) or not isinstance(e, OSError)):
            # what torchrir returned or wrote could not even be read by the monitor (never happens on correct results)
            ctx.fail(f"unusable-result:{ctx.spec.get('kind', '?')}:{type(e).__name__}", f"the monitor could not process the result: {type(e).__name__}: {e}", trace=text)
        else:
            return ("error", text)
    finally:
        try:
            ctx.close()
        except Exception:
            pass
    return ("ok", None)


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = len(data).to_bytes(8, "little") + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


class Reader:
    def __init__(self, fd):
        self.fd, self.buf = fd, b""

    def pump(self):
        d = os.read(self.fd, 1 << 20)
        if not d:
            return None
        self.buf += d
        out = []
        while len(self.buf) >= 8:
            n = int.from_bytes(self.buf[:8], "little")
            if len(self.buf) < 8 + n:
                break
            out.append(pickle.loads(self.buf[8 : 8 + n]))
            self.buf = self.buf[8 + n :]
        return out


class Agg:
    def __init__(self):
        self.counts: dict[str, int] = {}
        self.keys: set[str] = set()
        self.fails: list[tuple[int, dict, dict]] = []
        self.samples: list = []
        self.errors: list[str] = []
        self.done = 0

    def add(self, idx, spec, counts, keys, fails, samples, err):
        self.done += 1
        for k, v in counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.keys |= keys
        for f in fails:
            self.fails.append((idx, spec, f))
        if len(self.samples) < 12:
            for s in samples:
                self.samples.append({"case": jsonable(spec), "observed": s})
        if err:
            self.errors.append(err)


def execute(mod, specs, seed, tier, workers, deadline):
    """Run the cases on forked workers; returns Agg. Cases are dealt dynamically."""
    agg = Agg()
    stop_after = int(os.environ.get("VF_STOP_AFTER", "12"))
    if workers <= 1 and not getattr(mod, "ISOLATE", False):
        for i, spec in enumerate(specs):
            if len(agg.fails) >= stop_after:
                agg.counts["stopped_early"] = 1
                break
            if time.time() > deadline:
                agg.counts["not_run_deadline"] = len(specs) - i
                break
            ctx = Ctx(mod.ID, seed, tier, i, spec)
            st, info = run_one(mod, ctx)
            agg.add(i, spec, ctx.counts, ctx.keys, ctx.fails, ctx.samples, info if st == "error" else None)
        return agg

    isolate = getattr(mod, "ISOLATE", False)
    # a fixed random order: a run cut short by its deadline still covers every kind of case
    pend = list(range(len(specs)))
    random.Random(20240).shuffle(pend)
    procs = {}  # result fd -> (pid, task fd, reader, current idx)

    def spawn():
        tr, tw = os.pipe()
        rr, rw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(tw)
                os.close(rr)
                for fd in list(procs):
                    try:
                        os.close(fd)
                        os.close(procs[fd][1])
                    except OSError:
                        pass
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_DATA, (MEM, resource.getrlimit(resource.RLIMIT_DATA)[1]))
                rd = Reader(tr)
                alive = True
                while alive:
                    msgs = rd.pump()
                    if msgs is None:
                        break
                    for i in msgs:
                        ctx = Ctx(mod.ID, seed, tier, i, specs[i])
                        st, info = run_one(mod, ctx)
                        _send(rw, (i, ctx.counts, ctx.keys, ctx.fails, ctx.samples, info if st == "error" else None))
                        if isolate:
                            alive = False
            except BaseException:
                traceback.print_exc()
                code = 70
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(tr)
        os.close(rw)
        procs[rr] = [pid, tw, Reader(rr), None]
        return rr

    def give(fd):
        if not pend:
            try:
                os.close(procs[fd][1])
            except OSError:
                pass
            return
        i = pend.pop()
        procs[fd][3] = i
        _send(procs[fd][1], i)

    def reap(fd):
        pid, tw, rd, cur = procs.pop(fd)
        for f in (fd, tw):
            try:
                os.close(f)
            except OSError:
                pass
        _, status = os.waitpid(pid, 0)
        if cur is not None:
            how = f"signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else f"exit {os.WEXITSTATUS(status)}"
            agg.errors.append(f"worker died ({how}) in case {specs[cur]}")
            agg.counts["worker_deaths"] = agg.counts.get("worker_deaths", 0) + 1

    for _ in range(min(workers, len(specs))):
        give(spawn())
    while procs:
        left = deadline - time.time()
        if left <= 0 and pend:
            agg.counts["not_run_deadline"] = len(pend)
            pend.clear()
        if left <= -120:  # a case overran badly: give up on it (inconclusive)
            for fd in list(procs):
                if procs[fd][3] is not None:
                    os.kill(procs[fd][0], signal.SIGKILL)
            agg.errors.append("case watchdog expired: %s" % [specs[p[3]] for p in procs.values() if p[3] is not None])
        r, _, _ = select.select(list(procs), [], [], 1.0)
        for fd in r:
            msgs = procs[fd][2].pump()
            if msgs is None:
                dead_with_case = procs[fd][3] is not None
                reap(fd)
                if (isolate or dead_with_case) and pend and len(agg.errors) < 40:
                    give(spawn())
                continue
            for i, counts, keys, fails, samples, err in msgs:
                agg.add(i, specs[i], counts, keys, fails, samples, err)
                procs[fd][3] = None
                if len(agg.fails) >= stop_after or len(agg.errors) >= 40:
                    agg.counts["stopped_early"] = 1
                    pend.clear()
                if isolate:
                    pass
                else:
                    give(fd)
    return agg


def load_known():
    out = []
    p = HERE / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(tok.split("=", 1) for tok in line.split()[1:3])
                out.append((f["property"], f["key"], line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ""))
    return out


def main(mod, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--workers", type=int, default=getattr(mod, "WORKERS", 8))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()

    import torch

    torch.set_num_threads(1)
    if getattr(mod, "FRESH", False):  # this check imports torchrir itself, in each case
        import importlib.util

        loc = str(pathlib.Path(importlib.util.find_spec("torchrir").origin).resolve())
        assert "torchrir" not in sys.modules
    else:
        import torchrir

        loc = str(pathlib.Path(torchrir.__file__).resolve())
    if not loc.startswith(str(REPO)):
        print(f"ERROR: torchrir imported from {loc}, expected under {REPO}")
        return 2

    if a.replay:
        rep = json.loads(pathlib.Path(a.replay).read_text())
        a.seed, tier = rep["seed"], rep["tier"]
        specs = [rep["spec"]]
        a.workers = 1
        a.no_evidence = True
    else:
        specs = list(mod.cases(tier))
        if a.only:
            specs = [s for s in specs if a.only in s.get("kind", "")]
        if a.limit:
            specs = specs[: a.limit]
    budget = getattr(mod, "TIMEOUT", {}).get(tier, 240 if tier == "quick" else 700)
    try:
        if hasattr(mod, "SETUP"):
            mod.SETUP()
        agg = execute(mod, specs, a.seed, tier, a.workers, t0 + budget)
        if hasattr(mod, "FINAL"):
            mod.FINAL(agg)
    finally:
        if _SCRATCH:
            rmtree(_SCRATCH)

    known = {(p, k): d for p, k, d in load_known() if p == mod.ID}
    seen_known, viol = {}, {}
    for i, spec, f in agg.fails:
        if (mod.ID, f["key"]) in known:
            seen_known[f["key"]] = seen_known.get(f["key"], 0) + 1
        else:
            viol.setdefault(f["key"], []).append((i, spec, f))
    for k in sorted(seen_known):
        print(f"KNOWN-FINDING: property={mod.ID} {k} ({seen_known[k]}x): {known[(mod.ID, k)]}")
    code = 0
    if viol:
        code = 1
        rdir = HERE / "replays" / mod.ID
        rdir.mkdir(parents=True, exist_ok=True)
        for k, lst in list(viol.items())[:6]:
            i, spec, f = lst[0]
            h = hashlib.sha1(json.dumps([k, spec, a.seed], sort_keys=True).encode()).hexdigest()[:12]
            rp = rdir / f"{h}.json"
            rp.write_text(json.dumps(dict(property=mod.ID, seed=a.seed, tier=tier, spec=spec, key=k, msg=f["msg"], detail=f["detail"],
                                          occurrences=len(lst)), indent=1))
            print(f"  [{k}] x{len(lst)}: {f['msg'][:600]}")
            if a.replay:
                print(json.dumps(f["detail"], indent=1)[:4000])
            print(f"VIOLATION property={mod.ID} replay={rp}")
    elif agg.errors:
        code = 2
        for e in agg.errors[:3]:
            print("HARNESS-ERROR:", e)
    elif not a.replay and not a.only and not a.limit:
        short = {k: (agg.counts.get(k, 0), v) for k, v in getattr(mod, "NEED", {}).items() if agg.counts.get(k, 0) < v}
        if short or agg.done == 0:
            code = 2
            print(f"INCONCLUSIVE property={mod.ID}: too little observed {short}")
    if viol and agg.errors:
        for e in agg.errors[:2]:
            print("note: harness error alongside:", e[-500:])
    wall = time.time() - t0
    if not a.no_evidence and not a.only and not a.limit:
        ev = dict(
            property=mod.ID, tier=tier, seed=a.seed, level=getattr(mod, "LEVEL", "exploration"),
            coverage=dict(
                evaluations=agg.done, distinct_nontrivial=len(agg.keys), rule=mod.RULE,
                samples=agg.samples[:6], observed={k: v for k, v in sorted(agg.counts.items())},
                cases_planned=len(specs),
            ),
            assumptions=getattr(mod, "ASSUMPTIONS", []),
            wall_s=round(wall, 2), violations=sum(len(v) for v in viol.values()),
        )
        d = HERE / "evidence"
        d.mkdir(exist_ok=True)
        tmp = d / f".{mod.ID}.{os.getpid()}.tmp"
        tmp.write_text(json.dumps(ev, indent=1))
        tmp.replace(d / f"{mod.ID}.json")
    verdict = {0: "held", 1: "VIOLATED", 2: "inconclusive"}[code]
    print(f"{mod.ID} {tier} seed={a.seed}: {verdict}; cases={agg.done}/{len(specs)} distinct={len(agg.keys)} "
          f"assertions={agg.counts.get('assertions', 0)} wall={wall:.1f}s")
    return code
