"""Build and confirm planted bugs: seed.py SPEC.py [ID...]   (SPEC defines SEEDS: list of dicts)

Each: id, property, needs, breaks, edits=[(file under src/torchrir, old, new)], demo=python text.
Keeps /verif/seeded/<id>/ only when: patch applies, demo 0 clean / nonzero patched, stable tests pass
patched, and every line it removes is a line of the original repository.  `seed.py --check [ID...]` runs
the property's quick check (and any listed in --also) against the planted copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

BASE = "2a4fa17"
REPO = Path("/repo")
OUT = Path(__file__).resolve().parent.parent / "seeded"
CATCH = OUT.parent / "tools" / "catches.json"  # seed -> {check: caught}; tools/gen_design.py prints it
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\n# run with cwd /repo after build.sh\nexec env PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="${TMPDIR:-/tmp}" OMP_NUM_THREADS=2 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)


def copy():
    d = Path(tempfile.mkdtemp(prefix="seed-"))
    sh(["cp", "-a", "/repo/.", str(d)], "/")
    return d


def demo(folder, cwd):
    try:
        r = sh(["bash", str(folder / "demo.sh")], cwd, 300)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    return r.returncode, (r.stdout + r.stderr)[-600:]


def tests(d):
    env = dict(os.environ, PYTHONPATH=str(d / "src"), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2")
    r = sh([PY, "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], d, 600, env)
    return r.returncode, (r.stdout + r.stderr)[-800:]


def original_lines(diff):
    """removed lines of the diff must all stem from BASE"""
    bad = []
    f, ln = None, 0
    removed = 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            bl = sh(["git", "blame", "-s", "--root", "-l", "HEAD", "--", f], REPO).stdout.splitlines()
        elif line.startswith("@@"):
            ln = int(line.split()[1].split(",")[0][1:])
        elif line.startswith("-") and not line.startswith("---"):
            sha = bl[ln - 1].split()[0].lstrip("^")
            if sh(["git", "merge-base", "--is-ancestor", sha, BASE], REPO).returncode:
                bad.append(f"{f}:{ln}: {line}")
            removed += 1
            ln += 1
        elif line.startswith(" "):
            ln += 1
    if not removed:
        bad.append("no original line changed")
    return bad


def build(s):
    d = copy()
    tmp = Path(tempfile.mkdtemp(prefix="seedout-"))
    try:
        for f, old, new in s["edits"]:
            p = d / "src/torchrir" / f
            t = p.read_text()
            if t.count(old) != 1:
                return f"edit of {f} matches {t.count(old)} times: {old[:60]!r}"
            p.write_text(t.replace(old, new))
        diff = sh(["git", "diff", "--no-color"], d).stdout
        bad = original_lines(diff)
        if bad:
            return "not original: " + "; ".join(bad)
        (tmp / "patch.diff").write_text(diff)
        (tmp / "demo.sh").write_text(DEMO_SH)
        (tmp / "demo.py").write_text(s["demo"].lstrip("\n"))
        for k, v in s.get("files", {}).items():
            (tmp / k).write_text(v)
        (tmp / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        a, ao = demo(tmp, REPO)
        if a != 0:
            return f"demo fails on the clean tree: {a}\n{ao}"
        b, bo = demo(tmp, d)
        if b == 0:
            return "demo passes with the patch"
        if "Error" in bo and "AssertionError" not in bo and not s.get("error_ok"):
            print("   note: demo failed with", bo.strip().splitlines()[-1][:150])
        t, to = tests(d)
        if t:
            return "tests fail with the patch:\n" + to
        dst = OUT / s["id"]
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(tmp, dst)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


def check(i, also=()):
    d = copy()
    try:
        r = sh(["git", "apply", str(OUT / i / "patch.diff")], d)
        if r.returncode:
            return {"apply": r.stderr}
        prop = json.loads((OUT / i / "meta.json").read_text())["property"]
        res = {}
        for c in [prop, *also]:
            env = dict(os.environ, VERIF_REPO=str(d), VERIF_SEED="1", VERIF_TIER="quick")
            r = sh([str(OUT.parent / "check"), c, "quick", "--no-evidence"], OUT.parent, 900, env)
            first = next((x for x in r.stdout.splitlines() if x.startswith("VIOLATION")), "")
            res[c] = (r.returncode, first[:160] if r.returncode == 1 else r.stdout[-200:])
        rec = json.loads(CATCH.read_text()) if CATCH.exists() else {}
        rec.setdefault(i, {}).update({c: v[0] == 1 for c, v in res.items()})
        CATCH.write_text(json.dumps(rec, indent=0, sort_keys=True) + "\n")
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--check":
        also = []
        ids = []
        for x in a[1:]:
            (also if x[0] == "+" else ids).append(x.lstrip("+"))
        for i in ids or sorted(p.name for p in OUT.iterdir() if p.is_dir()):
            print(i, check(i, also), flush=True)
    else:
        ns = {}
        exec(compile(Path(a[0]).read_text(), a[0], "exec"), ns)
        for s in ns["SEEDS"]:
            if len(a) > 1 and s["id"] not in a[1:]:
                continue
            e = build(s)
            print(s["id"], s["property"], "OK" if e is None else "REJECTED " + e, flush=True)
            if e is None and not os.environ.get("NOCHECK"):
                print("   check:", check(s["id"]), flush=True)
