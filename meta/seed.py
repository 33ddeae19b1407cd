#!/opt/venv/bin/python
"""Planted bugs: builds patch.diff / demo / meta.json from edits, confirms them in a scratch copy bound over /repo.

usage: seed.py make FILE.py   (FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=code)])
       seed.py run ID ...     (confirm existing ones and run the property's check)
"""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def make(s):
    d = os.path.join(SD, s["id"]); os.makedirs(d, exist_ok=True)
    w = f"/tmp/seed-src-{s['id']}"
    shutil.rmtree(w, True)
    sh(f"git -C /repo worktree prune; git clone -q --no-hardlinks /repo {w}")
    for f, old, new in s["edits"]:
        p = os.path.join(w, f); t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {w} diff").stdout)
    shutil.rmtree(w, True)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=/repo\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def confirm(i, check=True):
    d = os.path.join(SD, i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = f"/tmp/seed-{i}"
    shutil.rmtree(w, True); os.makedirs(w)
    sh(f"cp -a /repo {w}/repo; cp -a /opt/vp {w}/vp; mkdir {w}/ev")
    r = {"id": i, "property": prop}
    a = sh(f"git -C {w}/repo apply {d}/patch.diff"); r["applies"] = a.returncode == 0
    if not r["applies"]: r["msg"] = a.stderr[-300:]; return r
    chk = f"cd {ROOT} && CYVC_OUT={w}/ev {PY} check.py {prop} quick > {w}/check.log 2>&1; echo check=$? >> {w}/res" if check else ""
    script = f"""mount --bind {w}/repo /repo && mount --bind {w}/vp /opt/vp || exit 9
{chk}
bash /opt/vp/build.sh > {w}/build.log 2>&1; echo build=$? >> {w}/res
bash /opt/vp/test.sh {w}/out.json > {w}/test.log 2>&1
cd /repo && bash {d}/demo.sh > {w}/demo.log 2>&1; echo demo=$? >> {w}/res
"""
    open(f"{w}/run.sh", "w").write(script)
    sh(f"unshare -m bash {w}/run.sh")
    for l in open(f"{w}/res"): k, v = l.strip().split("="); r[k] = int(v)
    base = json.load(open("/opt/vp/BASELINE.json"))
    try:
        o = json.load(open(f"{w}/out.json"))
        r["tests"] = f"{len(o.get('passed', []))} passed {len(o.get('failed', []))} failed"
    except Exception as e: r["tests"] = f"none ({e})"
    r["clean_demo"] = sh(f"cd /repo && bash {d}/demo.sh").returncode
    r["demo_out"] = open(f"{w}/demo.log").read()[-200:]
    if check:
        t = open(f"{w}/check.log").read()
        r["violation"] = [l for l in t.splitlines() if l.startswith(("VIOLATION", "UNDECIDED"))][:3]
        r["detail"] = t[-700:]
    shutil.rmtree(w, True)
    return r


if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        ids = []
        for s in ns["SEEDS"]: make(s); ids.append(s["id"])
    else: ids = sys.argv[2:]
    resf = os.path.join(ROOT, "meta", "seed_results.json")
    allr = json.load(open(resf)) if os.path.exists(resf) else {}
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(confirm, ids):
            good = r.get("applies") and r.get("build") == 0 and r.get("demo") and r.get("clean_demo") == 0 and r.get("tests", "").startswith("21 passed")
            print(r["id"], "COUNTS" if good else "NO", "caught" if r.get("check") == 1 else "MISSED", {k: v for k, v in r.items() if k not in ("id", "detail", "demo_out")})
            if not good or r.get("check") != 1: print("   ", r.get("demo_out"), r.get("detail"))
            allr[r["id"]] = {"property": r["property"], "counts": bool(good), "caught": r.get("check") == 1, "line": (r.get("violation") or [""])[0].replace("/verif/", "").split(" replay")[0] + (" (no failing input)" if "no-failing" in str(r.get("violation")) else "")}
    json.dump(allr, open(resf, "w"), indent=1, sort_keys=True)
