#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from meta/catalog.py and meta/na.py."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "meta")]
from catalog import P, NA

TECH = {"proof": "contract-based deductive verification: contracts on functions extracted from the sources on every run, obligations discharged by a polynomial prover, z3 and cvc5",
        "other": "contract-based deductive verification at fixed sizes: contracts on functions extracted from the sources on every run, obligations for all values discharged by a polynomial prover, z3 and cvc5"}
props, checks = [], []
for p in P + NA:
    assert len(p["title"]) <= 80, p["title"]
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p.get("over", ["inputs"]), "text": p["q"]},
                  "why_tests_cant": p["tests"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], **({"observe_at": p["observe"]} if "observe" in p else {})}})
props.sort(key=lambda x: x["id"])
for p in sorted(P, key=lambda x: x["id"]):
    m = importlib.import_module("contracts." + p["id"].lower())
    checks.append({"property": p["id"], "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} quick", "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": TECH[m.LEVEL], "level": m.LEVEL, "level_note": p["note"]})
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python setup_check.py", "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
       "notes": "check.py decides one property; see DESIGN.md. No hooks in /repo: the contracts live in /verif/contracts and are proved about text extracted from /repo on every run."}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
if os.path.exists("/opt/veriftools"):
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    try:
        import jsonschema
        for l in props: jsonschema.validate(l, json.load(open("/root/.vp/PROPERTIES.schema.json")))
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except ImportError as e: print("not validated:", e)
print(len(props), "properties,", len(checks), "checks")
