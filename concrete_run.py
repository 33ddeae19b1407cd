"""Executes the run-time form of a property's contracts on the real built code (subprocess of check.py).

usage: concrete_run.py PROP SEED SECONDS OUT [--case FILE]
OUT receives one JSON object; OUT.cur always holds the case being executed, so that a crash or a hang is attributable.
"""
import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def jsonable(x):
    import numpy as np
    if isinstance(x, dict): return {k: jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray): return x.tolist()
    if isinstance(x, np.generic): return x.item()
    return x


def run_one(kinds, kind, case):
    try:
        return kinds[kind][1](case)
    except AssertionError as e:
        return f"assertion: {e}"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
        return f"raised {type(e).__name__}: {e} @ {where}"


def main():
    prop, seed, secs, out = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
    import mmcore
    want = os.environ.get("CYVC_REAL")
    assert want and os.path.realpath(mmcore.__file__).startswith(os.path.realpath(want)), (mmcore.__file__, want)
    mod = importlib.import_module(f"concrete.{prop.lower()}")
    kinds = mod.KINDS
    cur = open(out + ".cur", "w")

    def note(kind, case):
        cur.seek(0)
        cur.truncate()
        cur.write(json.dumps({"kind": kind, "case": case}))
        cur.flush()

    res = {"runs": {k: 0 for k in kinds}, "nontrivial": {k: 0 for k in kinds}, "failures": [], "samples": []}
    if len(sys.argv) > 6:
        items = json.load(open(sys.argv[6]))
        for it in items:
            note(it["kind"], it["case"])
            m = run_one(kinds, it["kind"], it["case"])
            if m: res["failures"].append({"kind": it["kind"], "case": it["case"], "message": str(m)[:2000]})
        json.dump(res, open(out, "w"))
        return
    t0 = time.time()
    rngs = {k: random.Random(f"{seed}/{prop}/{k}") for k in kinds}
    seen = set()
    i = 0
    failed = set()
    min_runs = getattr(mod, "MIN_RUNS", 40)
    max_runs = getattr(mod, "MAX_RUNS", 200000)
    while True:
        for k in kinds:
            if k in failed: continue
            case = jsonable(kinds[k][0](rngs[k], i))
            s = json.dumps(case)
            case = json.loads(s)
            note(k, case)
            m = run_one(kinds, k, case)
            res["runs"][k] += 1
            h = hash(s)
            if h not in seen:
                seen.add(h)
                res["nontrivial"][k] += 1
            if i == 0: res["samples"].append({"kind": k, "case": s[:600]})
            if m:
                res["failures"].append({"kind": k, "case": case, "message": str(m)[:2000]})
                failed.add(k)
        i += 1
        if (time.time() - t0 > secs and i >= min_runs) or i >= max_runs or len(failed) == len(kinds) or time.time() - t0 > 4 * secs + 20: break
        if failed and time.time() - t0 > min(secs, 3): break
    res["seconds"] = round(time.time() - t0, 2)
    res["distinct"] = len(seen)
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main()
