"""Writes MANIFEST.json from lib/checks.py, lib/notes.py and properties.jsonl."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    c = CHECKS.get(i)
    if not c:
        na.append({"property": i, "reason": "no check built yet"}); continue
    checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "property-based testing: generated inputs against a reference model, coverage-guided, shrinking"),
        "level": c.get("level", "exploration"), "level_note": c.get("note", "Random and coverage-guided search with an explicit oracle; no proof of absence.")})
m = {"version": 1, "setup_cmd": "python3 lib/build.py avx2", "checks": checks, "not_applicable": na,
     "notes": "Every check compiles the harness and /repo's current sources (objects cached by content hash in _build), then searches generated cases for the time budget of its tier. VERIF_SEED seeds every choice. A violation is shrunk and saved under replay/; `BIN <check> --replay FILE` reruns it."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(na), "not claimed")
