import json, pathlib, sys
import jsonschema
H = pathlib.Path(__file__).resolve().parent.parent
V = pathlib.Path("/root/.vp")
ok = True
s = json.loads((V/"PROPERTIES.schema.json").read_text())
for l in (H/"properties.jsonl").read_text().splitlines():
    jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.loads((H/"MANIFEST.json").read_text()), json.loads((V/"MANIFEST.schema.json").read_text()))
e = json.loads((V/"EVIDENCE.schema.json").read_text())
for f in sorted((H/"evidence").glob("*.json")):
    jsonschema.validate(json.loads(f.read_text()), e)
print("valid")
