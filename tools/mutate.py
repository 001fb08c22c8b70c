"""Mutation campaign: small syntactic changes of torchrir, run through the checks in scratch copies.

usage: mutate.py gen OUT.json [--files substr,...] [--max N per file] [--seed S]
       mutate.py run MUTANTS.json RESULTS.jsonl [--jobs 8]
Scratch copies live in /tmp/mut; nothing in /repo is touched.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import time
from pathlib import Path

REPO = Path("/repo")
SRC = REPO / "src" / "torchrir"
HERE = Path(__file__).resolve().parent.parent
MAP = [
    ("sim/ism/hpf", "C06 C08 C03"), ("sim/ism/diffuse", "C07 C08 C10"), ("sim/ism/images", "C01 C05 C04 C03"), ("sim/ism/accumulate", "C01 C04 C08 C09 C03 C10"),
    ("sim/ism/contributions", "C01 C02 C03 C05 C04 C08"), ("sim/ism/prepare", "C02 C12 C08 C04 C30 C13 C03"), ("sim/ism/validate", "C12 C02 C08 C03 C04"), ("sim/ism/helpers", "C01 C02 C04 C08 C03"),
    ("sim/ism/api", "C01 C03 C02 C07 C06 C12 C08 C04 C09 C10"), ("sim/directivity", "C02 C05"), ("sim/simulators", "C11 C12 C31"), ("config", "C12 C11"), ("models/room", "C13 C11 C02"), ("models/scene", "C13 C31 C11"), ("models/results", "C11 C31"),
    ("util/acoustics", "C14 C01"), ("util/orientation", "C02 C13"), ("util/tensor", "C04 C08 C14 C30 C27"), ("util/device", "C30"), ("util/cli", "C32 C31"), ("signal/", "C15 C16 C09 C10"), ("geometry/arrays", "C17"), ("geometry/", "C18"),
    ("io/audio", "C19 C31"), ("io/__init__", "C19 C31"), ("io/outputs", "C20 C19"), ("io/metadata", "C20 C09"), ("datasets/_archive", "C21 C22"), ("datasets/cmu_arctic", "C23 C22 C21"), ("datasets/librispeech", "C23 C22 C21"),
    ("datasets/utils", "C24"), ("datasets/base", "C23 C24 C31"), ("datasets/collate", "C24 C23"), ("datasets/attribution", "C25 C20 C23"), ("datasets/dynamic", "C25 C26"), ("viz/", "C27 C28"), ("logging", "C29"), ("experimental", "C31"), ("__init__", "C31"),
]


def checks_for(rel):
    for k, v in MAP:
        if rel.startswith(k):
            return v.split()
    return ["C31"]


CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Mult, ast.Div], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr]}
NAMES = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "sin": "cos", "cos": "sin", "zeros": "ones", "ones": "zeros", "all": "any", "any": "all", "sorted": "list", "int": "float", "argmin": "argmax", "amin": "amax", "startswith": "endswith", "round": "int", "exp": "expm1", "sum": "mean"}


def sites(tree):
    """yield (description, function(tree copy) applying the mutation) as (path index, op, arg)"""
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for a in [*n.args.args, *n.args.kwonlyargs, *n.args.posonlyargs]:
                if a.annotation:
                    skip |= {id(x) for x in ast.walk(a.annotation)}
            if n.returns:
                skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.AnnAssign):
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in ("__all__", "_F", "SceneLike") for t in n.targets):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip |= {id(n), id(n.value)}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
    out = []
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for j, o in enumerate(n.ops):
                for c in CMP.get(type(o), []):
                    out.append((i, "cmp", [j, c.__name__], ln))
        elif isinstance(n, ast.BinOp):
            for c in BIN.get(type(n.op), []):
                out.append((i, "bin", c.__name__, ln))
        elif isinstance(n, ast.AugAssign):
            for c in BIN.get(type(n.op), []):
                out.append((i, "bin", c.__name__, ln))
            out.append((i, "del", None, ln))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "bool", None, ln))
            for j in range(len(n.values)):
                out.append((i, "dropbool", j, ln))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append((i, "unary", None, ln))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((i, "const", not n.value, ln))
            elif isinstance(n.value, int):
                out.append((i, "const", n.value + 1, ln))
                out.append((i, "const", n.value - 1, ln))
            elif isinstance(n.value, float):
                out.append((i, "const", n.value * 1.25 + 0.01, ln))
                if n.value:
                    out.append((i, "const", 0.0, ln))
            elif isinstance(n.value, str) and 0 < len(n.value) < 24 and " " not in n.value:
                out.append((i, "const", n.value + "x", ln))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                out.append((i, "test", True, ln))
            out.append((i, "test", False, ln))
        elif isinstance(n, ast.Raise):
            out.append((i, "del", None, ln))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((i, "del", None, ln))
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            out.append((i, "del", None, ln))
        elif isinstance(n, ast.Call):
            for j, k in enumerate(n.keywords):
                if k.arg:
                    out.append((i, "dropkw", j, ln))
            if len(n.args) >= 2:
                out.append((i, "swap", None, ln))
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if nm in NAMES:
                out.append((i, "rename", NAMES[nm], ln))
            if isinstance(f, ast.Attribute) and nm in ("detach", "clone", "contiguous", "lower", "upper", "copy", "cpu", "strip", "abs", "float", "unsqueeze", "resolve", "squeeze", "transpose") and not isinstance(f.value, ast.Name) or (isinstance(f, ast.Attribute) and nm in ("clone", "lower", "detach", "resolve", "copy", "upper")):
                out.append((i, "dropcall", None, ln))
        elif isinstance(n, ast.Slice):
            for a in ("lower", "upper", "step"):
                if getattr(n, a) is not None:
                    out.append((i, "slice", a, ln))
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append((i, "loop", None, ln))
        elif isinstance(n, ast.Try) and n.finalbody:
            out.append((i, "nofinal", None, ln))
    return out


def apply(src, m):
    i, op, arg = m["i"], m["op"], m["arg"]
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    n = nodes[i]

    def replace(new):
        for p in nodes:
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, new)
                    return
                if isinstance(v, list) and any(x is n for x in v):
                    v[[x is n for x in v].index(True)] = new
                    return

    if op == "cmp":
        n.ops[arg[0]] = getattr(ast, arg[1])()
    elif op == "bin":
        n.op = getattr(ast, arg)()
    elif op == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif op == "dropbool":
        n.values.pop(arg)
        if len(n.values) == 1:
            replace(n.values[0])
    elif op == "unary":
        replace(n.operand)
    elif op == "const":
        n.value = arg
    elif op == "test":
        n.test = ast.Constant(arg)
    elif op == "del":
        replace(ast.Pass())
    elif op == "dropkw":
        n.keywords.pop(arg)
    elif op == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif op == "rename":
        if isinstance(n.func, ast.Attribute):
            n.func.attr = arg
        else:
            n.func.id = arg
    elif op == "dropcall":
        replace(n.func.value)
    elif op == "slice":
        setattr(n, arg, None)
    elif op == "loop":
        replace(ast.Continue() if isinstance(n, ast.Break) else ast.Break())
    elif op == "nofinal":
        n.finalbody = []
        if not n.handlers:
            replace(ast.If(test=ast.Constant(True), body=n.body, orelse=[]))
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def gen(out, files, cap, seed):
    rnd = random.Random(seed)
    ms = []
    for p in sorted(SRC.rglob("*.py")):
        rel = str(p.relative_to(SRC))
        if files and not any(f in rel for f in files):
            continue
        src = p.read_text()
        ss = sites(ast.parse(src))
        base = ast.unparse(ast.parse(src))
        rnd.shuffle(ss)
        k = 0
        for i, op, arg, ln in ss:
            if cap and k >= cap:
                break
            m = dict(file=rel, i=i, op=op, arg=arg, line=ln)
            try:
                t = apply(src, m)
                compile(t, "x", "exec")
            except Exception:
                continue
            if t == base:
                continue
            ms.append(m)
            k += 1
        print(rel, len(ss), k)
    Path(out).write_text(json.dumps(ms))
    print(len(ms))


def diff(src, m):
    import difflib

    a = ast.unparse(ast.parse(src)).splitlines()
    b = apply(src, m).splitlines()
    return "\n".join(x for x in difflib.unified_diff(a, b, lineterm="", n=0) if not x.startswith(("---", "+++", "@@")))


def in_child(fn, timeout):
    """run fn in a fork; return its exit status or 'timeout'"""
    import signal

    pid = os.fork()
    if pid == 0:
        os.setsid()
        code = 70
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            code = fn()
        except BaseException:
            code = 71
        finally:
            os._exit(code if isinstance(code, int) else 72)
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            res = os.waitstatus_to_exitcode(st)
            break
        if time.time() - t0 > timeout:
            res = "timeout"
            break
        time.sleep(0.02)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if res == "timeout":
        os.waitpid(pid, 0)
    return res


def run_check(w, c):
    def f():
        import importlib

        os.environ["VERIF_REPO"] = str(w)
        os.environ["VF_STOP_AFTER"] = "1"
        sys.path.insert(0, str(HERE))
        sys.path.insert(0, str(w / "src"))
        from vf import core

        mod = importlib.import_module(f"checks.{c.lower()}")
        try:
            return core.main(mod, ["quick", "--no-evidence", "--workers", "1"])
        finally:
            if core._SCRATCH:
                core.rmtree(core._SCRATCH)

    return in_child(f, 400)


def run_tests(w):
    r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], env=dict(os.environ, PYTHONPATH=str(w / "src")), cwd=w, capture_output=True, text=True, timeout=600)
    return r.returncode


def workdir(k):
    w = Path(f"/tmp/mut/w{k}")
    shutil.rmtree(w, ignore_errors=True)
    (w / "src").mkdir(parents=True)
    shutil.copytree(SRC, w / "src" / "torchrir", ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copytree(REPO / "tests", w / "tests", ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copytree(REPO / "examples", w / "examples", ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copy(REPO / "pyproject.toml", w / "pyproject.toml")
    return w


def one(m, w):
    t0 = time.time()
    rel = m["file"]
    p = w / "src" / "torchrir" / rel
    src = (SRC / rel).read_text()
    res = dict(m, diff=diff(src, m), outcome="survived", by=None, exits={})
    try:
        p.write_text(apply(src, m))

        def imp():
            sys.path.insert(0, str(w / "src"))
            import torchrir.datasets, torchrir.experimental, torchrir.logging, torchrir.sim, torchrir.viz  # noqa

            return 0

        if in_child(imp, 60):
            res["outcome"] = "import"
        else:
            for c in checks_for(rel):
                res["exits"][c] = run_check(w, c)
                if res["exits"][c] == 1:
                    res["outcome"], res["by"] = "killed", c
                    break
            if res["outcome"] == "survived" and run_tests(w):
                res["outcome"] = "tests"
    except Exception as e:  # noqa: BLE001
        res["outcome"] = f"error {e!r}"[:200]
    finally:
        p.write_text(src)
    res["t"] = round(time.time() - t0, 1)
    return res


def run(inp, outp, jobs):
    import fcntl

    for k, v in dict(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLCONFIGDIR="/tmp/mut/mpl").items():
        os.environ[k] = v
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/tmp/vf-nonexistent-pycache/x"
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.animation, matplotlib.pyplot, mpl_toolkits.mplot3d, numpy, PIL.Image, scipy.signal, soundfile, torch  # noqa

    torch.set_num_threads(1)
    sys.path[:] = [x for x in sys.path if "/repo" not in x]
    ms = json.loads(Path(inp).read_text())
    done = set()
    if Path(outp).exists():
        for ln in Path(outp).read_text().splitlines():
            d = json.loads(ln)
            done.add((d["file"], d["i"], d["op"], str(d["arg"])))
    todo = [m for m in ms if (m["file"], m["i"], m["op"], str(m["arg"])) not in done]
    ctr = Path(outp + ".next")
    ctr.write_text("0")
    kids = []
    for k in range(jobs):
        pid = os.fork()
        if pid == 0:
            try:
                w = workdir(k)
                while True:
                    with open(ctr, "r+") as fh:
                        fcntl.flock(fh, fcntl.LOCK_EX)
                        i = int(fh.read() or 0)
                        fh.seek(0)
                        fh.write(str(i + 1))
                    if i >= len(todo):
                        break
                    res = one(todo[i], w)
                    with open(outp, "a") as fh:
                        fcntl.flock(fh, fcntl.LOCK_EX)
                        fh.write(json.dumps(res) + "\n")
                shutil.rmtree(w, ignore_errors=True)
            finally:
                os._exit(0)
        kids.append(pid)
    for pid in kids:
        os.waitpid(pid, 0)


if __name__ == "__main__":
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("a")
    ap.add_argument("b", nargs="?")
    ap.add_argument("--files")
    ap.add_argument("--max", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    o = ap.parse_args()
    if o.cmd == "gen":
        gen(o.a, o.files.split(",") if o.files else None, o.max, o.seed)
    else:
        run(o.a, o.b, o.jobs)
