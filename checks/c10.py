"""C10: concurrent callers get the serial results."""
import hashlib
import sys
import threading
import time

import torch

from vf import ops
from vf.core import Harness

ID = "C10"
TECH = "schedule perturbation: threads released from a barrier on cold caches with random preemption injected at torchrir source lines (sys.settrace) and 1 us switch interval; each result compared bit-for-bit with the serial cold result"
NOTE = "Interleavings are sampled (counted by hash of the observed thread-switch sequence), not enumerated; switches are injected at Python line granularity, plus the interpreter's own."
RULE = "each case is a fresh process with 2-6 threads each running 2-5 registry calls (same op, same settings, or mixed); distinct by observed thread-switch sequence"
NEED = {"calls": 400, "switches": 2000}
ISOLATE = True
SEEDS = (1, 2)
# more processes than cores adds real preemption
WORKERS = 8
_BASE = None
NAMES = None


def SETUP():
    global _BASE, NAMES
    import torchrir.datasets, torchrir.geometry, torchrir.io, torchrir.models, torchrir.signal, torchrir.sim, torchrir.util  # noqa: F401,E401
    import scipy.signal  # noqa: F401

    NAMES = sorted(ops.OPS)
    ops.warm_torch()
    _BASE = ops.baseline([(n, s) for n in NAMES for s in SEEDS])


def cases(tier):
    n = 480 if tier == "quick" else 10000
    kinds = ["same-op", "mixed", "same-args", "kernels", "burst", "mixed"]
    return [{"kind": kinds[i % len(kinds)], "i": i} for i in range(n)]


def run(spec, ctx):
    r = ctx.rng
    kind = spec["kind"]
    for n in NAMES:
        if _BASE[(n, 1)][0] != "ok":
            ctx.fail(f"cold-call:{n}", f"{n} fails in a fresh process: {_BASE[(n, 1)][1]}")
            return
    nt = int(r.integers(2, 7))
    rir = [n for n in NAMES if n.startswith(("rir", "dyn", "facade", "grad"))]
    plans = []
    one = str(r.choice(rir if r.uniform() < 0.7 else NAMES))
    for t in range(nt):
        k = int(r.integers(2, 5))
        if kind in ("same-op", "same-args"):
            names = [one] * k
        elif kind == "kernels":
            names = [str(r.choice([n for n in rir if "fdl" in n or "lut" in n or "f32" in n])) for _ in range(k)]
        elif kind == "burst":
            names = [str(r.choice(rir))]
        else:
            names = [str(r.choice(NAMES)) for _ in range(k)]
        plans.append([(n, 1 if kind == "same-args" else int(r.choice(SEEDS))) for n in names])
    # one shared argument object per (op, seed): concurrent callers may share inputs
    share = bool(r.integers(2))
    made = {}

    def args_for(n, s):
        if not share:
            return ops.OPS[n](s)
        if (n, s) not in made:
            made[(n, s)] = ops.OPS[n](s)
        return made[(n, s)]

    work = [[(n, s, *args_for(n, s)) for n, s in p] for p in plans]
    frozen = {k: ops.freeze(v[1]) for k, v in made.items()}
    p_yield = float(r.choice([0.002, 0.02, 0.2, 0.6]))
    seeds = [int(x) for x in r.integers(1, 2**31, nt)]
    trace, lock_free = [], []
    results = [[] for _ in range(nt)]
    bar = threading.Barrier(nt)

    def body(t):
        state = [seeds[t]]
        local = []

        def tracer(frame, event, arg):
            if "/torchrir/" not in frame.f_code.co_filename:
                return None
            if event == "line":
                trace.append(t)
                state[0] = (state[0] * 1103515245 + 12345) & 0x7FFFFFFF
                if state[0] / 0x7FFFFFFF < p_yield:
                    time.sleep(0 if state[0] & 4 else 1e-5)
            return tracer

        torch.set_num_threads(1)
        try:
            bar.wait(60)
        except threading.BrokenBarrierError:
            lock_free.append(t)
            return
        sys.settrace(tracer)
        try:
            for n, s, call, args in work[t]:
                try:
                    res = ("ok", ops.freeze(call(args)))
                except Exception as e:  # noqa: BLE001
                    res = ("exc", f"{type(e).__name__}: {e}")
                local.append((n, s, res))
        finally:
            sys.settrace(None)
            results[t] = local

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(nt)]
            for th in ths:
                th.start()
            end = time.time() + 120
            for th in ths:
                th.join(max(0.1, end - time.time()))
    finally:
        sys.setswitchinterval(old)
    if lock_free:
        raise Harness("barrier broke (machine too slow)")
    if any(th.is_alive() for th in ths):
        ctx.fail("deadlock", f"threads still running after 120 s: plans {plans}")
        return
    sw = sum(1 for a, b in zip(trace, trace[1:]) if a != b)
    ctx.count("switches", sw)
    ctx.count("lines_traced", len(trace))
    for t in range(nt):
        for n, s, res in results[t]:
            ctx.count("calls")
            ctx.count("assertions")
            if res[0] == "exc":
                ctx.fail(f"concurrent-exception:{n}", f"{n} works alone but fails when called from {nt} threads: {res[1]}", plans=plans)
            elif res != _BASE[(n, s)]:
                ctx.fail(f"concurrent-result:{n}", f"{n} gives another result when called from {nt} threads: {ops.describe(_BASE[(n, s)][1], res[1])}", plans=plans)
    for k, v in frozen.items():
        ctx.expect(ops.freeze(made[k][1]) == v, f"args-mutated:{k[0]}", f"shared arguments of {k[0]} modified")
    if sw:
        ctx.nontrivial(hashlib.sha1(bytes(trace)).hexdigest()[:16])
    ctx.sample(dict(kind=kind, threads=nt, plans=plans, lines=len(trace), switches=sw, p_yield=p_yield))
