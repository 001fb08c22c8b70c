"""Writes MANIFEST.json from properties.jsonl and the metadata constants in checks/*.py (parsed, not imported)."""
import ast
import json
import pathlib

H = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (H / "properties.jsonl").read_text().splitlines() if x.strip()]
NA = json.loads((H / "tools" / "not_applicable.json").read_text()) if (H / "tools" / "not_applicable.json").exists() else {}
checks, na = [], []
for p in props:
    f = H / "checks" / f"{p['id'].lower()}.py"
    if not f.exists():
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
        continue
    meta = {}
    for node in ast.parse(f.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("TECH", "NOTE", "LEVEL"):
            meta[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append(dict(
        property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json", technique=meta.get("TECH", "runtime monitoring against an independent reference oracle"),
        level=meta.get("LEVEL", "exploration"),
        level_note=meta.get("NOTE", "Held on the executions produced; sampled inputs, float64 reference oracle, CPU only."),
    ))
(H / "MANIFEST.json").write_text(json.dumps(dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=checks, not_applicable=na,
    notes="All checks import torchrir from /repo/src (override VERIF_REPO) in fresh processes with bytecode caching off; no hooks in /repo are needed.",
), indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
