"""Path-wise execution of extracted code: assumptions, decisions, obligations."""
import time
from . import expr as X
from .prove import Prover, z3val


class PathEnd(BaseException):
    """this path is finished (infeasible, or cut at a loop head)"""


class Limit(X.Unsupported):
    pass


class Ctx:
    """Explores every feasible path of `body(ctx)` by re-execution under a growing list of branch decisions.

    obligations: {name: {"status": ..., "n": instances, ...}}
    """

    def __init__(self, name="", timeout_ms=10000, decide_ms=300, max_paths=4000, max_decisions=4000, budget_s=300,
                 div="prove", stop_on_fail=False):
        self.name = name
        self.prover = Prover(timeout_ms, decide_ms)
        self.decide_ms = decide_ms
        self.max_paths, self.max_decisions, self.budget_s = max_paths, max_decisions, budget_s
        self.div = div
        self.obl = {}
        self.failures = []
        self.paths = 0
        self.ended = 0
        self.assumptions = set()
        self.reached = set()
        self.stop_on_fail = stop_on_fail
        self.inputs = {}
        self.prefix = []
        self.stack = []

    # ---- exploration
    def explore(self, body):
        t0 = time.time()
        stack = [[]]
        prev = X.HOOK["ctx"]
        X.HOOK["ctx"] = self
        self.deadline = t0 + self.budget_s
        try:
            while stack:
                if self.paths >= self.max_paths or time.time() > self.deadline:
                    raise Limit(f"path budget exhausted in {self.name} ({self.paths} paths, {time.time() - t0:.0f}s)")
                self.prefix = stack.pop()
                self.dec = []
                self.pos = 0
                self.pc = []
                self.pcset = set()
                self.pending = stack
                self.paths += 1
                X._fresh[0] = 0
                try:
                    body(self)
                    self.reached.add("end")
                except PathEnd:
                    self.ended += 1
                if self.stop_on_fail and self.failures:
                    break
        finally:
            X.HOOK["ctx"] = prev
        return self

    @property
    def replaying(self):
        return self.pos < len(self.prefix)

    def assume(self, c):
        for y in (c,):
            y = X.boolv(y)
            if y is True: return
            if y is False: raise PathEnd()
            if y.id not in self.pcset:
                self.pc.append(y)
                self.pcset.add(y.id)
                if y.op == "and":
                    for z in y.args:
                        if X.is_e(z): self.pcset.add(z.id)

    def feasible(self, c, timeout=None):
        r, m = self.prover.z3_check(self.relevant(c), c, timeout or self.decide_ms)
        return r != "unsat"

    def relevant(self, c):
        return self.pc

    def decide(self, e, payload=None):
        e = X.boolv(e)
        if type(e) is bool: return e
        n = X.not_(e)
        if payload is None:
            if e.id in self.pcset: return True
            if X.is_e(n) and n.id in self.pcset: return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.dec.append(d)
            if type(d) is tuple: d = d[1]
            self.assume(e if d else n)
            return d
        if len(self.dec) > self.max_decisions: raise Limit("too many decisions on one path")
        if time.time() > self.deadline: raise Limit(f"time budget exhausted in {self.name}")
        ft = self.feasible(e)
        ff = self.feasible(n) if ft else True
        if not ft and not ff: raise PathEnd()
        d = ft
        if ft and ff:
            self.pending.append(self.dec + [False if payload is None else (payload, False)])
        self.dec.append(d if payload is None else (payload, d))
        self.prefix = list(self.dec)
        self.pos = len(self.dec)
        self.assume(e if d else n)
        return d

    def choose(self, n, tag="choice"):
        """non-deterministic choice among n alternatives: all are explored"""
        for i in range(n - 1):
            b = X.var(f"{tag}#{len(self.dec)}#{i}", "B")
            if self.decide(b): return i
        return n - 1

    def concretize(self, e, limit=64):
        """enumerate the feasible integer values of e"""
        for _ in range(limit):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos][0]
                if self.decide(X.eq(e, v), v): return v
                continue
            r, m = self.prover.z3_check(self.pc, None, 4 * self.decide_ms)
            if r == "unsat": raise PathEnd()
            if r != "sat": raise Limit("cannot concretise an index")
            v = z3val(m.eval(self.prover.T(e), model_completion=True))
            if self.decide(X.eq(e, v), v): return v
        raise Limit("too many values for an index")

    # ---- obligations
    def prove(self, goal, name, timeout=None, assume_after=True, note=None):
        goal = X.boolv(goal)
        rec = self.obl.setdefault(name, {"n": 0, "proved": 0, "failed": 0, "backends": {}})
        if self.pos < len(self.prefix) and goal is not True:
            if assume_after: self.assume_quiet(goal)
            return True                     # already handled when this prefix was first executed
        rec["n"] += 1
        st, be, model, reason = self.prover.prove(self.pc, goal, timeout)
        if st == "proved":
            rec["proved"] += 1
            rec["backends"][be] = rec["backends"].get(be, 0) + 1
        else:
            rec["failed"] += 1
            self.failures.append({"name": name, "status": st, "reason": reason, "goal": X.to_str(goal)[:2000], "note": note,
                                  "values": self.input_values(model)})
            if self.stop_on_fail: raise PathEnd()
        if assume_after: self.assume_quiet(goal)
        return st == "proved"

    def input_values(self, model):
        """the recorded inputs under the solver's model, as plain numbers (None where the model is silent)"""
        import numpy as np
        if model is None: return {}

        def val(x):
            if isinstance(x, np.ndarray): return [val(v) for v in (x if x.ndim else [])]
            if isinstance(x, (list, tuple)): return [val(v) for v in x]
            if X.is_e(x):
                try:
                    v = X.evaluate(x, model) if isinstance(model, dict) else z3val(model.eval(self.prover.T(x), model_completion=True))
                except Exception:
                    return None
                x = v
            if x is None or isinstance(x, (bool, str)): return x
            return int(x) if isinstance(x, int) else float(x)
        return {k: val(v) for k, v in self.inputs.items()}

    def assume_quiet(self, goal):
        """assume a goal after it was put to the prover; a refuted constant goal ends the path"""
        if goal is False: raise PathEnd()
        self.assume(goal)

    def cover(self, name):
        """vacuity guard: this point must be reachable with a satisfiable path condition"""
        rec = self.obl.setdefault(name, {"n": 0, "proved": 0, "failed": 0, "backends": {}, "cover": True})
        if rec["proved"]: return
        r, m = self.prover.z3_check(self.pc, None, 3000)
        if r == "sat":
            rec["n"] = rec["proved"] = 1
            rec["backends"]["z3"] = 1
        elif r == "unknown":
            rec["unknown"] = rec.get("unknown", 0) + 1

    # ---- side obligations raised by the arithmetic
    def check_divisor(self, b):
        if self.div == "prove":
            self.prove(X.ne(b, 0), f"{self.name}: divisor is non-zero")
        elif self.div == "assume":
            self.assumptions.add("divisors non-zero")
            self.assume(X.ne(b, 0))

    def division_by_zero(self, a):
        if self.div == "ieee":
            return X.fresh("ieee_div0")
        self.prove(False, f"{self.name}: divisor is non-zero")
        raise PathEnd()

    def check_sqrt(self, a):
        self.prove(X.le(0, a), f"{self.name}: sqrt argument non-negative")

    # ---- results
    def summary(self):
        return {"name": self.name, "paths": self.paths, "cut_paths": self.ended, "obligations": self.obl,
                "failed": len(self.failures), "assumptions": sorted(self.assumptions)}


def run(name, body, **kw):
    c = Ctx(name, **kw)
    try:
        c.explore(body)
        c.error = None
    except (X.Unsupported, RecursionError, NotImplementedError) as ex:
        c.error = f"{type(ex).__name__}: {ex}"
    except Exception as ex:                  # extracted code raised something the contract does not allow
        import traceback
        c.error = "".join(traceback.format_exception_only(type(ex), ex)).strip() + " @ " + \
            "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in traceback.extract_tb(ex.__traceback__)[-3:])
    if c.error is None and not any(o["n"] for o in c.obl.values()):
        c.error = "no obligation was generated"
    return c
