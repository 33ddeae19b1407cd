#!/opt/venv/bin/python
"""Decides one property: check.py PROP [quick|thorough]   |   check.py --replay FILE   |   check.py PROP --tasks [name]

Contracts in contracts/<prop>.py are turned into proof obligations over code extracted from /repo on this run; every
obligation must be discharged.  The same contracts, in executable form (concrete/<prop>.py), run against the built code
as a labelled bounded companion; they also look for the failing input of an obligation that does not go through.
"""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get("CYVC_REPO", "/repo")
PY = "/opt/venv/bin/python"
OUT = os.environ.get("CYVC_OUT", os.path.join(ROOT, "evidence"))
sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ symbolic tasks
def _monitor():
    """records which extracted functions run (sys.monitoring, one event per code object)"""
    seen = set()
    mon = sys.monitoring
    try:
        mon.use_tool_id(4, "cyvc")
    except ValueError:
        return seen

    def start(code, off):
        if code.co_filename.startswith("<extracted"):
            if not code.co_name.startswith("<"): seen.add(code.co_filename[11:-1] + ":" + code.co_qualname.replace(".<locals>", ""))
        return mon.DISABLE
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)
    return seen


def work(args):
    prop, idx, tier = args
    t0 = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        seen = _monitor()
        mod = importlib.import_module(f"contracts.{prop.lower()}")
        from cyvc import prove, sym
        t = mod.TASKS[idx]
        ctx = t.run(tier)
        d = ctx.summary()
        fails = []
        for f in ctx.failures[:20]:
            fails.append({"name": f["name"], "status": f["status"], "reason": f["reason"], "goal": f["goal"], "note": f["note"],
                          "inputs": f["values"]})
        d.update(task=t.name, scope=t.scope, fallback=t.fallback, error=ctx.error, failures=fails, functions=sorted(seen),
                 solver={k: (round(v, 3) if isinstance(v, float) else v) for k, v in prove.STATS.items()}, wall=round(time.time() - t0, 2))
        return d
    except BaseException as ex:
        return {"task": idx, "error": "engine: " + "".join(traceback.format_exception_only(type(ex), ex)).strip() + " @ " +
                "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in traceback.extract_tb(ex.__traceback__)[-4:]),
                "obligations": {}, "failures": [], "functions": [], "solver": {}, "wall": round(time.time() - t0, 2), "scope": "?", "fallback": None}


def _child(args, conn):
    conn.send(work(args))
    conn.close()


def _selftest(conn):
    from cyvc import selftest
    try: conn.send(selftest.run())
    except BaseException as ex: conn.send(f"engine self-test failed: {ex}")
    conn.close()


def run_selftest():
    """in a process of its own: the solver never runs in the process that has threads"""
    for _ in range(3):
        ctxm = mp.get_context("fork")
        r, w = ctxm.Pipe(False)
        p = ctxm.Process(target=_selftest, args=(w,))
        p.start()
        w.close()
        try: d = r.recv()
        except EOFError: d = None
        p.join(5)
        if d is not None: break
    if not isinstance(d, list): raise AssertionError(d or "engine self-test died")
    return d


def run_tasks(prop, tier, limit_s, only=None, jobs=None):
    mod = importlib.import_module(f"contracts.{prop.lower()}")
    todo = [(prop, i, tier) for i, t in enumerate(mod.TASKS) if (tier == "thorough" or t.tier == "quick") and (only is None or only in t.name)]
    jobs = jobs or min(8, os.cpu_count() or 8)
    ctxm = mp.get_context("fork")
    running, results, t0, again = {}, {}, time.time(), set()
    while todo or running:
        while todo and len(running) < jobs:
            a = todo.pop(0)
            r, w = ctxm.Pipe(False)
            p = ctxm.Process(target=_child, args=(a, w))
            p.start()
            w.close()
            running[a] = (p, r, time.time())
        for a, (p, r, st) in list(running.items()):
            res = None
            name = mod.TASKS[a[1]].name
            if r.poll(0.01):
                try:
                    res = r.recv()
                except EOFError:
                    res = {"error": "engine: worker died"}
            elif not p.is_alive():
                res = {"error": "engine: worker died"}
            elif time.time() - t0 > limit_s:
                p.kill()
                res = {"error": "engine: time limit"}
            if res is not None:
                p.join(5)
                if res.get("error") == "engine: worker died" and a not in again:
                    again.add(a)
                    todo.append(a)
                    del running[a]
                    continue
                base = {"task": name, "obligations": {}, "failures": [], "functions": [], "solver": {}, "wall": round(time.time() - st, 2), "scope": mod.TASKS[a[1]].scope, "fallback": mod.TASKS[a[1]].fallback}
                base.update(res)
                base["task"] = name
                results[a[1]] = base
                del running[a]
        if time.time() - t0 > limit_s:
            for a in todo:
                results[a[1]] = {"task": mod.TASKS[a[1]].name, "error": "engine: time limit", "obligations": {}, "failures": [], "functions": [], "solver": {}, "wall": 0, "scope": mod.TASKS[a[1]].scope, "fallback": mod.TASKS[a[1]].fallback}
            todo = []
        time.sleep(0.005)
    return [results[i] for i in sorted(results)]


# ------------------------------------------------------------------ concrete companion
class Concrete:
    def __init__(self, prop, seed, secs, real, cases=None, stall=25):
        self.prop, self.stall = prop, stall
        self.dir = tempfile.mkdtemp(prefix="cyvc-")
        self.out = os.path.join(self.dir, "out.json")
        env = dict(os.environ, PYTHONPATH=real + ":" + ROOT, CYVC_REAL=real, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", HOME=self.dir)
        cmd = [PY, os.path.join(ROOT, "concrete_run.py"), prop, str(seed), str(secs), self.out]
        if cases is not None:
            p = os.path.join(self.dir, "cases.json")
            json.dump(cases, open(p, "w"))
            cmd += ["--case", p]
        self.log = open(os.path.join(self.dir, "log"), "w")
        self.p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdout=self.log, stderr=self.log, start_new_session=True)

    def result(self):
        import shutil
        cur = self.out + ".cur"
        last, t_last = None, time.time()
        hung = False
        while self.p.poll() is None:
            time.sleep(0.05)
            try:
                st = os.stat(cur)
                key = (st.st_mtime_ns, st.st_size)
            except OSError:
                key = None
            if key != last: last, t_last = key, time.time()
            elif time.time() - t_last > (self.stall if key else 120):
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()
                hung = True
        try:
            if not hung and self.p.returncode == 0 and os.path.exists(self.out):
                return json.load(open(self.out))
            self.log.flush()
            tail = open(os.path.join(self.dir, "log")).read()[-1500:]
            try:
                c = json.load(open(cur))
            except (OSError, ValueError):
                return {"error": f"concrete runner failed (rc {self.p.returncode}): {tail}", "failures": [], "runs": {}, "nontrivial": {}, "samples": []}
            sig = -self.p.returncode if self.p.returncode and self.p.returncode < 0 else None
            if not hung and sig is None:
                return {"error": f"concrete runner failed (rc {self.p.returncode}): {tail}", "failures": [], "runs": {}, "nontrivial": {}, "samples": []}
            if sig == signal.SIGKILL and not hung:
                return {"error": "concrete runner was killed (memory)", "failures": [], "runs": {}, "nontrivial": {}, "samples": []}
            msg = f"no answer within {self.stall} s (hang)" if hung else f"crashed the interpreter (signal {sig})"
            return {"failures": [{"kind": c["kind"], "case": c["case"], "message": msg}], "runs": {}, "nontrivial": {}, "samples": []}
        finally:
            self.log.close()
            shutil.rmtree(self.dir, True)


def has_concrete(prop):
    return os.path.exists(os.path.join(ROOT, "concrete", f"{prop.lower()}.py"))


def known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop]


# ------------------------------------------------------------------ one property
def decide(prop, tier, seed):
    t0 = time.time()
    log = []
    self_ok = run_selftest()
    mod = importlib.import_module(f"contracts.{prop.lower()}")
    conf = dict(quick=(10, 45, 420), thorough=(120, 120, 780))[tier]
    csec, csearch, limit = conf
    import concurrent.futures as cf
    import fresh
    ex = cf.ThreadPoolExecutor(2)

    def real_part():
        real = fresh.ensure(log) if has_concrete(prop) else None
        if real is None: return None, {"error": "no built code", "failures": [], "runs": {}, "nontrivial": {}, "samples": []}
        return real, Concrete(prop, seed, csec, real).result()
    fut = ex.submit(real_part)
    results = run_tasks(prop, tier, limit)
    # an undecided obligation is retried once, alone and with more time
    real, conc = fut.result()

    knowns = [f for f in known(prop) if f["status"] == "open"]
    known_lines = []
    if knowns and real:
        for f in knowns:
            r = Concrete(prop, seed, 5, real, cases=[{"kind": f["kind"], "case": f["case"]}]).result()
            if r["failures"]: known_lines.append(f"KNOWN-FINDING: property={prop} {f['what']}")

    errors = [r for r in results if r["error"]]
    failed = [r for r in results if r["failures"]]
    # a size-unbounded proof that no longer fits the loops it was written for is replaced by its fixed-size obligations
    dropped = []
    for r in list(failed) + list(errors):
        if r["fallback"]:
            fb = [q for q in results if q["task"].startswith(r["fallback"])]
            if fb and not any(q["failures"] or q["error"] for q in fb):
                dropped.append(r)
    failed = [r for r in failed if r not in dropped]
    errors = [r for r in errors if r not in dropped]

    viol = None
    cfail = conc["failures"]
    if not cfail and (failed or errors or dropped) and real:
        cases = []
        for r in failed:
            for f in r["failures"]:
                conv = getattr(mod, "MODEL_CASE", {}).get(r["task"].split("[")[0].strip())
                if conv and f["inputs"]:
                    try:
                        c = conv(f["inputs"], r["task"])
                        if c: cases += c if isinstance(c, list) else [c]
                    except Exception as e:
                        log.append(f"model conversion failed: {e}")
        if cases:
            r2 = Concrete(prop, seed, 5, real, cases=cases).result()
            cfail = r2["failures"]
        if not cfail:
            r3 = Concrete(prop, seed + 7919, csearch, real).result()
            cfail = r3["failures"]
            for k in ("runs", "nontrivial"):
                for a, b in r3.get(k, {}).items(): conc.setdefault(k, {})[a] = conc.get(k, {}).get(a, 0) + b
    os.makedirs(OUT, exist_ok=True)
    rep = os.path.join(OUT, f"{prop}.replay.json")
    if os.path.exists(rep): os.remove(rep)
    if cfail:
        f = cfail[0]
        viol = {"property": prop, "kind": f["kind"], "case": f["case"], "message": f["message"],
                "failed_obligations": [{"task": r["task"], **{k: x[k] for k in ("name", "status", "reason", "goal")}} for r in failed for x in r["failures"]][:10]}
        line = f"VIOLATION property={prop} replay={rep}"
    elif failed:
        viol = {"property": prop, "kind": None, "case": None, "message": "obligation not discharged; no failing input found on the built code",
                "failed_obligations": [{"task": r["task"], **x} for r in failed for x in r["failures"]][:20]}
        line = f"VIOLATION property={prop} replay={rep} no-failing-input-found"
    obl = [(r, n, o) for r in results for n, o in r["obligations"].items() if not o.get("cover")]
    covers = [(r, n, o) for r in results for n, o in r["obligations"].items() if o.get("cover")]
    vac = [f"{r['task']}: {n}" for r, n, o in covers if not o["proved"]]
    n_all = sum(o["n"] for r, n, o in obl if r["scope"] == "all")
    d_all = sum(o["proved"] for r, n, o in obl if r["scope"] == "all")
    n_fix = sum(o["n"] for r, n, o in obl if r["scope"] != "all")
    d_fix = sum(o["proved"] for r, n, o in obl if r["scope"] != "all")
    be = {}
    for r, n, o in obl:
        for k, v in o["backends"].items(): be[k] = be.get(k, 0) + v
    solver = {}
    for r in results:
        for k, v in r["solver"].items():
            if isinstance(v, (int, float)): solver[k] = round(solver.get(k, 0) + v, 2)
    level = getattr(mod, "LEVEL", "proof")
    cov = {
        "obligations": n_all + n_fix, "discharged": d_all + d_fix,
        "obligations_all_sizes": n_all, "obligations_fixed_size": n_fix,
        "size_bounds": sorted({r["scope"] for r in results if r["scope"] != "all"}),
        "checker_cmd": f"{PY} {ROOT}/check.py {prop} --tasks",
        "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])),
        "backends": be, "solver": solver,
        "functions_under_contract": list(getattr(mod, "FUNCTIONS", [])),
        "functions_executed_symbolically": sorted({f for r in results for f in r["functions"]}),
        "tasks": [{k: r.get(k) for k in ("task", "scope", "paths", "wall", "error")} |
                  {"obligations": {n: [o["proved"], o["n"]] for n, o in r["obligations"].items()}} for r in results],
        "vacuous_covers": vac, "selftest": self_ok,
        "undecided_tasks": [{"task": r["task"], "error": r["error"]} for r in errors],
        "unbounded_proofs_not_applicable_to_this_text": [r["task"] for r in dropped],
        "bounded_companion": {"label": "bounded: executed contracts on the built code, not counted as proved", "evaluations": sum(conc.get("runs", {}).values()),
                              "distinct_nontrivial": sum(conc.get("nontrivial", {}).values()), "rule": getattr(mod, "RULE", "random valid inputs per kind; a case is counted once per distinct input"),
                              "samples": conc.get("samples", [])[:4], "error": conc.get("error")},
        "evaluations": sum(conc.get("runs", {}).values()), "distinct_nontrivial": sum(conc.get("nontrivial", {}).values()),
        "rule": "bounded companion only: " + getattr(mod, "RULE", "random valid inputs per kind; a case is counted once per distinct input"),
        "samples": [o for o in ({"obligation": n, "task": r["task"], "backends": o["backends"]} for r, n, o in obl)][:5],
        "explanation": (mod.__doc__ or "").strip(), "build": log, "known_findings": known_lines,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted(set(ASSUME) | set(getattr(mod, "ASSUMPTIONS", [])) | {a for r in results for a in r.get("assumptions", [])}),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0, "violation": viol}
    json.dump(ev, open(os.path.join(OUT, f"{prop}.json"), "w"), indent=1, default=str)
    for l in known_lines: print(l)
    print(f"{prop}: {d_all + d_fix}/{n_all + n_fix} obligations discharged ({d_all} size-independent), {cov['evaluations']} executed cases, "
          f"{len(errors)} undecided task(s), {ev['wall_s']} s")
    for r in errors: print(f"UNDECIDED {prop} {r['task']}: {r['error']}")
    for r in dropped: print(f"NOTE {prop} {r['task']}: unbounded proof does not fit this text; decided by {r['fallback']}* at fixed size")
    for v in vac: print(f"NOTE {prop} unreached cover {v}")
    if conc.get("error"): print(f"NOTE {prop} companion: {conc['error']}")
    if viol:
        json.dump(viol, open(rep, "w"), indent=1, default=str)
        print(line)
        print("  ", str(viol["message"])[:400])
        for f in viol["failed_obligations"][:5]: print("   obligation:", f["task"], "/", f["name"], "/", f["status"], "/", str(f["reason"])[:200])
        return 1
    return 0


TRUSTED = ["extractor cyvc/translate.py (Cython parse tree -> executed text) and run-time model cyvc/rt.py", "prover cyvc/prove.py, cyvc/poly.py and the back ends z3 5.3, cvc5 1.4",
           "Cython and the C compiler compile the same sources faithfully"]
ASSUME = ["C double and python float arithmetic is treated as exact real arithmetic", "C int and python int arithmetic is treated as mathematical",
          "memory allocation succeeds; no aliasing between separately allocated arrays"]


def replay(path):
    import fresh
    v = json.load(open(path))
    log = []
    if v.get("kind") is None:
        print(json.dumps(v, indent=1)[:6000])
        rs = run_tasks(v["property"], "thorough", 800)
        bad = [r for r in rs if r["failures"]]
        for r in bad:
            for f in r["failures"]: print("still fails:", r["task"], f["name"], f["status"])
        return 1 if bad else 0
    real = fresh.ensure(log)
    r = Concrete(v["property"], 0, 5, real, cases=[{"kind": v["kind"], "case": v["case"]}]).result()
    print(json.dumps(r, indent=1)[:4000])
    return 1 if r["failures"] else 0


def main():
    a = sys.argv[1:]
    if a[0] == "--replay": return replay(a[1])
    prop = a[0].upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if len(a) > 1 and a[1] == "--tasks":
        bad = 0
        for r in run_tasks(prop, os.environ.get("VERIF_TIER", "thorough"), 3000, a[2] if len(a) > 2 else None):
            n = sum(o["n"] for o in r["obligations"].values()); p = sum(o["proved"] for o in r["obligations"].values())
            print(f"{r['task']:60s} {p}/{n} paths={r.get('paths')} {r['wall']}s scope={r['scope']} err={r['error']}")
            for nme, o in r["obligations"].items():
                if o.get("cover") and not o["proved"]: print("   unreached cover", nme)
            for f in r["failures"][:int(os.environ.get("NF", "4"))]:
                print("   FAIL", f["name"], f["status"], f["reason"], f["note"] or "", "\n        goal", f["goal"][:600], "\n        inputs", str(f["inputs"])[:600])
            bad |= bool(r["failures"] or r["error"])
        return int(bad)
    if len(a) > 1 and a[1] == "--concrete":
        import fresh
        log = []
        real = fresh.ensure(log)
        print(log)
        r = Concrete(prop, seed, float(a[2]) if len(a) > 2 else 10, real).result()
        print(json.dumps(r, indent=1)[:6000])
        return int(bool(r["failures"]))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return supervised(lambda: decide(prop, tier, seed))


def supervised(f):
    """runs f in a child; a child ended by a crash of the solver libraries is started again"""
    for n in range(3):
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 2
            try:
                rc = f()
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(rc)
        _, st = os.waitpid(pid, 0)
        if not os.WIFSIGNALED(st): return os.WEXITSTATUS(st)
        print(f"NOTE the deciding process ended with signal {os.WTERMSIG(st)}", file=sys.stderr)
    return 2


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    sys.exit(rc)
