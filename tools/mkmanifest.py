"""writes /verif/MANIFEST.json"""
import json
P = [json.loads(l) for l in open("/verif/properties.jsonl")]
TECH = "TLA+ specification (Node.tla, Monitor.tla) checked with TLC; conformance of recorded and scripted behaviours of the real node by trace validation with TLC"
NOTE = "Exhaustive on the bounded specification; on the code, every recorded trace (random, directed and fault-enumerated histories) is checked against the specification and the property monitors."
m = {"version": 1, "setup_cmd": "cd /verif/harness && cargo build --release --offline -q",
     "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/tools/check.py %s quick" % p["id"], "thorough_cmd": "python3 /verif/tools/check.py %s thorough" % p["id"],
                 "evidence_file": "/verif/evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking", "level_note": NOTE} for p in P],
     "not_applicable": [], "notes": "See DESIGN.md. Known and repaired findings: known-findings.txt. Saved violations are run again with tools/replay.py."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
