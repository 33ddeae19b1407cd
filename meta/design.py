#!/opt/venv/bin/python
"""Writes DESIGN.md: meta/design_head.md, then per property what catalog, contract and companion modules state, findings and planted bugs."""
import ast, importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "meta")]
from catalog import P, NA
out = [open(os.path.join(ROOT, "meta", "design_head.md")).read().rstrip() + "\n", "## Properties\n"]
fx = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
res = json.load(open(os.path.join(ROOT, "meta", "seed_results.json")))
seeds = {}
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m))
for p in sorted(P, key=lambda x: x["id"]):
    i = p["id"]
    m = importlib.import_module("contracts." + i.lower())
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Approach.* {' '.join((m.__doc__ or '').split())}\n")
    out.append(f"*Level* `{m.LEVEL}`: {p['note']}\n")
    f = {}
    for x in m.FUNCTIONS:
        a, _, b = x.partition(":")
        f.setdefault(a, []).append(b)
    out.append(f"*Under contract* ({len(m.FUNCTIONS)}): " + "; ".join(f"`{a}`: " + ", ".join(b) for a, b in f.items()) + ".\n")
    sc = {}
    for t in m.TASKS: sc[t.scope] = sc.get(t.scope, 0) + 1
    out.append(f"*Tasks* {len(m.TASKS)}, by scope: " + ", ".join(f"{v} {k}" for k, v in list(sc.items())[:8]) + (f" and {len(sc) - 8} more scopes" if len(sc) > 8 else "") + ".\n")
    if getattr(m, "ASSUMPTIONS", None): out.append("*Assumed:* " + "; ".join(m.ASSUMPTIONS) + ".\n")
    if getattr(m, "TRUSTED", None): out.append("*Trusted contracts:* " + "; ".join(m.TRUSTED) + ".\n")
    c = os.path.join(ROOT, "concrete", i.lower() + ".py")
    if os.path.exists(c):
        t = open(c).read()
        out.append(f"*Executed companion* (bounded): {' '.join((ast.get_docstring(ast.parse(t)) or '').split())}\n")
    out.append(f"*Why tests cannot:* {p['tests']}.\n")
    k = [x["what"] for x in fx if x["property"] == i]
    if k:
        out.append("*Findings:*\n")
        out += ["* " + ("**open**: " if x["status"] == "open" else "") + re.sub(r"^fixed: property=\S+ (\S+)", r"repaired in \1:", x["what"]) for x in fx if x["property"] == i]
        out.append("")
    if i in seeds:
        out.append("*Planted bugs:*\n")
        for d, sm in seeds[i]:
            r = res.get(d, {})
            how = ("caught" if r.get("caught") else "missed") if r else "not run"
            out.append(f"* {d} ({how}): {sm['what_it_breaks']}; needs {sm['needs']}")
        out.append("")
out.append("## Not claimed\n")
out.append(open(os.path.join(ROOT, "meta", "design_tail.md")).read())
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
