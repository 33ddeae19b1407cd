#!/opt/venv/bin/python
"""kf.py PROP HASH...: record repaired defects (text from the commit subject)"""
import json, subprocess, sys
F = "/verif/known_findings.json"
d = json.load(open(F))
L = d if isinstance(d, list) else d["findings"]
for h in sys.argv[2:]:
    m = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", h], text=True).strip()
    h, m = m.split(" ", 1)
    w = f"fixed: property={sys.argv[1]} {h} {m.removeprefix('fix: ')}"
    if not any(x.get("what") == w for x in L): L.append({"property": sys.argv[1], "status": "fixed", "what": w})
json.dump(d, open(F, "w"), indent=1)
open(F, "a").write("\n")
