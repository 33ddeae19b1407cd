"""Back ends: exact polynomial normalisation, sign rules, z3, cvc5."""
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3
from . import expr as X
from .poly import Ring, TooBig, BITS, MASK

STATS = {"z3_calls": 0, "z3_time": 0.0, "poly_calls": 0, "poly_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0,
         "sign_calls": 0}


class Z3T:
    """term -> z3 translation (memoised); sqrt gets a defining side condition"""

    def __init__(self):
        self.memo = {}
        self.side = {}          # sqrt term id -> z3 constraint
        self.fns = {}

    def __call__(self, e):
        if not X.is_e(e):
            if type(e) is bool: return z3.BoolVal(e)
            if type(e) is int: return z3.IntVal(e)
            e = Fraction(e)
            return z3.RealVal(str(e))
        memo = self.memo
        if e.id in memo: return memo[e.id]
        for x in X.walk(e, set(memo)):
            memo[x.id] = self.one(x)
        return memo[e.id]

    def val(self, y, sort):
        """argument y as z3 of the wanted numeric sort"""
        if X.is_e(y):
            t = self(y)
            if sort == "R" and y.sort == "I": return z3.ToReal(t)
            if sort == "R" and y.sort == "B": return z3.If(t, z3.RealVal(1), z3.RealVal(0))
            return t
        if type(y) is bool: return z3.BoolVal(y)
        if sort == "I" and type(y) is int: return z3.IntVal(y)
        return z3.RealVal(str(Fraction(y)))

    def one(self, x):
        o, a = x.op, x.args
        if o == "var":
            n = a[0]
            return {"R": z3.Real, "I": z3.Int, "B": z3.Bool,
                    "A": lambda n: z3.Array(n, z3.IntSort(), z3.RealSort()),
                    "AI": lambda n: z3.Array(n, z3.IntSort(), z3.IntSort())}[x.sort](n)
        if o in ("add", "sub", "mul", "div"):
            p, q = self.val(a[0], x.sort), self.val(a[1], x.sort)
            if o == "add": return p + q
            if o == "sub": return p - q
            if o == "mul": return p * q
            return p / q
        if o == "neg": return -self.val(a[0], x.sort)
        if o == "i2r": return self.val(a[0], "R")
        if o == "idiv": return self.val(a[0], "I") / self.val(a[1], "I")
        if o == "imod": return self.val(a[0], "I") % self.val(a[1], "I")
        if o == "abs":
            t = self.val(a[0], x.sort)
            return z3.If(t >= 0, t, -t)
        if o == "sqrt":
            s = z3.Real(f"sqrt#{x.id}")
            t = self.val(a[0], "R")
            self.side[x.id] = z3.Implies(t >= 0, z3.And(s >= 0, s * s == t))
            return s
        if o in ("lt", "le", "eq"):
            srt = "I" if all(X.sort_of(y) == "I" for y in a) else "R"
            p, q = self.val(a[0], srt), self.val(a[1], srt)
            return p < q if o == "lt" else p <= q if o == "le" else p == q
        if o == "not": return z3.Not(self(a[0]))
        if o == "and": return z3.And(*[self(y) for y in a])
        if o == "or": return z3.Or(*[self(y) for y in a])
        if o == "iff": return self(a[0]) == self(a[1])
        if o == "ite": return z3.If(self(a[0]), self.val(a[1], x.sort), self.val(a[2], x.sort))
        if o == "select": return z3.Select(self(a[0]), self.val(a[1], "I"))
        if o == "store": return z3.Store(self(a[0]), self.val(a[1], "I"), self.val(a[2], "R" if x.sort == "A" else "I"))
        if o == "uf":
            srt = {"R": z3.RealSort, "I": z3.IntSort, "B": z3.BoolSort}
            key = (a[0], len(a) - 1, x.sort, tuple(X.sort_of(y) for y in a[1:]))
            f = self.fns.get(key)
            if f is None:
                f = self.fns[key] = z3.Function(f"{a[0]}/{'_'.join(key[3])}", *[srt[X.sort_of(y)]() for y in a[1:]], srt[x.sort]())
            return f(*[self.val(y, X.sort_of(y)) for y in a[1:]])
        if o in ("forall", "exists"):
            n = a[0]
            vs = [self(v) for v in a[1:1 + n]]
            pats = [z3.MultiPattern(*[self(t) for t in p]) if isinstance(p, tuple) else self(p) for p in a[2 + n:]]
            body = self(a[1 + n])
            if o == "forall":
                return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
            return z3.Exists(vs, body)
        raise X.Unsupported(f"z3 translation of {o}")


def conjuncts(e):
    if X.is_e(e) and e.op == "and":
        for y in e.args: yield from conjuncts(y)
    else:
        yield e


def is_linear(e, memo=None):
    memo = {} if memo is None else memo
    if not X.is_e(e): return True
    for x in X.walk(e):
        if x.op == "mul" and X.is_e(x.args[0]) and X.is_e(x.args[1]): return False
        if x.op in ("div", "sqrt", "uf", "forall", "exists", "imod", "idiv"): return False
    return True


def squares(e):
    """non-negative by its form alone"""
    if not X.is_e(e): return e >= 0
    o, a = e.op, e.args
    if o in ("abs", "sqrt"): return True
    if o == "mul" and a[0] is a[1]: return True
    if o in ("add", "mul", "div"): return squares(a[0]) and squares(a[1])
    return o == "i2r" and squares(a[0])


class Prover:
    """proves goals under a path condition.  One instance per path family; keeps translations."""

    def __init__(self, timeout_ms=10000, decide_ms=400):
        self.T = Z3T()
        self.timeout_ms = timeout_ms
        self.decide_ms = decide_ms

    # -- z3
    def solver(self, pc, goal_neg=None, timeout=None, tactic=None):
        s = z3.SolverFor(tactic) if tactic else z3.Solver()
        s.set("timeout", int(timeout or self.timeout_ms))
        if not tactic:
            s.set("random_seed", 1)
        cs = [self.T(c) for c in pc]
        if goal_neg is not None: cs.append(self.T(goal_neg))
        for c in cs: s.add(c)
        if self.T.side:
            seen = set()
            for c in list(pc) + ([goal_neg] if goal_neg is not None else []):
                for x in X.walk(c, seen):
                    if x.op == "sqrt": s.add(self.T.side[x.id])
        return s

    def z3_check(self, pc, neg, timeout=None, tactic=None):
        t = time.time()
        STATS["z3_calls"] += 1
        try:
            s = self.solver(pc, neg, timeout, tactic)
            r = s.check()
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception as ex:
            r, m = z3.unknown, None
        STATS["z3_time"] += time.time() - t
        return str(r), m

    def cvc5_check(self, pc, neg, timeout=10000):
        import cvc5
        t = time.time()
        STATS["cvc5_calls"] += 1
        try:
            s = self.solver(pc, neg)
            txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
            slv = cvc5.Solver()
            slv.setOption("tlimit-per", str(timeout))
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager()
            out = "unknown"
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                o = str(c.invoke(slv, sm)).strip()
                if o in ("sat", "unsat", "unknown"): out = o
            return out
        except Exception:
            return "unknown"
        finally:
            STATS["cvc5_time"] += time.time() - t

    # -- polynomial identities
    def ring_for(self, pc):
        r = Ring()
        for c in pc:
            for y in conjuncts(c):
                if X.is_e(y) and y.op == "eq" and not self.identity(*y.args): r.add_equality(*y.args)
        return r

    def identity(self, a, b):
        """a == b holds as an identity of rational functions (no hypotheses used)"""
        if self.plain is None: self.plain, self.known = Ring(), {}
        k = (a.id if X.is_e(a) else ("c", a), b.id if X.is_e(b) else ("c", b))
        z = self.known.get(k)
        if z is None:
            try:
                r = self.plain
                x, y = r.of(a), r.of(b)
                z = bool(r.is_zero(r.add(x, ({m: -v for m, v in y[0].items()}, y[1]))))
            except (TooBig, ZeroDivisionError): z = False
            self.known[k] = z
        return z

    plain = None

    def poly_equal(self, pc, a, b, ring=None):
        t = time.time()
        STATS["poly_calls"] += 1
        try:
            if ring is None and self.identity(a, b): return True
            r = ring or self.ring_for(pc)
            x, y = r.of(a), r.of(b)
            return r.is_zero(r.add(x, ({k: -v for k, v in y[0].items()}, y[1])))
        except (TooBig, ZeroDivisionError):
            return None
        finally:
            STATS["poly_time"] += time.time() - t

    def positive_multiple(self, pc, d):
        """d > 0 since d*g == f for hypotheses f > 0 and g > 0 (or g = 1)"""
        while X.is_e(d) and d.op == "sqrt": d = d.args[0]
        fs = []
        for c in pc:
            for y in conjuncts(c):
                if X.is_e(y) and y.op == "lt":
                    f = X.sub(y.args[1], y.args[0])
                    if not is_linear(f) and len(fs) < 6: fs.append(f)
        for f in fs:
            for g in [1] + fs:
                if g is not f and self.poly_equal(pc, X.mul(d, g), f): return True
        return False

    # -- sign rules
    def sign(self, pc, e, memo):
        """returns (nonneg, nonpos, nonzero) facts known about e"""
        if not X.is_e(e):
            return (e >= 0, e <= 0, e != 0)
        if e.id in memo: return memo[e.id]
        o, a = e.op, e.args
        nn = np_ = nz = False
        if o in ("mul", "div"):
            p, q = self.sign(pc, a[0], memo), self.sign(pc, a[1], memo)
            if o == "mul" and a[0] is a[1]:
                nn, nz = True, p[2]
            else:
                nn = (p[0] and q[0]) or (p[1] and q[1])
                np_ = (p[0] and q[1]) or (p[1] and q[0])
                nz = p[2] and q[2] if o == "mul" else p[2]
        elif o == "neg":
            p = self.sign(pc, a[0], memo); nn, np_, nz = p[1], p[0], p[2]
        elif o in ("i2r",):
            nn, np_, nz = self.sign(pc, a[0], memo)
        elif o == "abs":
            nn, nz = True, self.sign(pc, a[0], memo)[2]
        elif o == "sqrt":
            nn, nz = True, self.sign(pc, a[0], memo)[2]
        elif o == "ite":
            p, q = self.sign(pc, a[1], memo), self.sign(pc, a[2], memo)
            nn, np_, nz = p[0] and q[0], p[1] and q[1], p[2] and q[2]
        elif o in ("add", "sub"):
            lin = is_linear(e)
            if not lin and X.is_e(a[1]) and a[1].op == "div" and is_linear(a[0]) and not X.is_e(a[0]):      # c -+ x/y = (c y -+ x)/y
                x, y = a[1].args
                if is_linear(x) and is_linear(y):
                    d = (X.sub if o == "sub" else X.add)(X.mul(a[0], y), x)
                    p, q = self.sign(pc, d, memo), self.sign(pc, y, memo)
                    memo[e.id] = ((p[0] and q[0]) or (p[1] and q[1]), (p[0] and q[1]) or (p[1] and q[0]), p[2])
                    return memo[e.id]
            if not lin:
                p, q = self.sign(pc, a[0], memo), self.sign(pc, a[1], memo)
                if o == "sub": q = (q[1], q[0], q[2])
                nn, np_ = p[0] and q[0], p[1] and q[1]
                nz = (nn or np_) and (p[2] or q[2])
        if not (nn or np_) and (o in ("var", "select", "uf") or (o in ("add", "sub") and is_linear(e))):
            lpc = [c for c in pc if is_linear(c)]
            if o == "uf": lpc = list(pc)
            nn = self.z3_check(lpc, X.lt(e, 0), 500)[0] == "unsat"
            np_ = self.z3_check(lpc, X.lt(0, e), 500)[0] == "unsat"
            nz = self.z3_check(lpc, X.eq(e, 0), 500)[0] == "unsat"
        elif (nn or np_) and not nz and is_linear(e):
            lpc = [c for c in pc if is_linear(c)]
            nz = self.z3_check(lpc, X.eq(e, 0), 500)[0] == "unsat"
        memo[e.id] = (nn, np_, nz)
        return memo[e.id]

    def linear_check(self, pc, neg):
        """unsatisfiable already when every monomial of the expanded comparisons is a free variable (even powers: non-negative)"""
        t = time.time()
        STATS["z3_calls"] += 1
        ring, mons, memo, side = Ring(), {}, {}, []

        def mono(key):
            v = mons.get(key)
            if v is None:
                v = mons[key] = z3.Real(f"mono{len(mons)}")
                if isinstance(key, int):
                    k, i, even = key, 0, True
                    while k:
                        e = k & MASK
                        if e:
                            even = even and e % 2 == 0
                            atom(i)
                        k >>= BITS; i += 1
                    if even: side.append(v >= 0)
            return v
        done = set()

        def atom(i):
            if i in done: return
            done.add(i)
            a = ring.atoms[i]
            me = num(a)
            if a.op == "ite":
                side.append(z3.Implies(form(a.args[0]), me == num(a.args[1])))
                side.append(z3.Implies(z3.Not(form(a.args[0])), me == num(a.args[2])))
            elif a.op == "abs": side.append(z3.And(me >= 0, z3.Or(me == num(a.args[0]), me == -num(a.args[0]))))
            elif a.op == "sqrt": side.append(me >= 0)

        def num(e):
            p, fs = ring.of(e)
            if fs:
                if not p: return z3.RealVal(0)
                lead = p[max(p)]
                return z3.RealVal(str(Fraction(lead))) * mono((frozenset((k, Fraction(v) / lead) for k, v in p.items()), frozenset(fs.items())))
            if len(p) > 3000: raise TooBig()
            return z3.Sum([z3.RealVal(str(Fraction(v))) * (mono(k) if k else z3.RealVal(1)) for k, v in p.items()]) if p else z3.RealVal(0)

        def form(e):
            if not X.is_e(e): return z3.BoolVal(bool(e))
            r = memo.get(e.id)
            if r is None:
                o, a = e.op, e.args
                if o == "and": r = z3.And([form(x) for x in a])
                elif o == "or": r = z3.Or([form(x) for x in a])
                elif o == "not": r = z3.Not(form(a[0]))
                elif o in ("lt", "le", "eq") and all(X.sort_of(x) in ("R", "I") for x in a):
                    d = num(X.sub(a[1], a[0]))
                    r = d > 0 if o == "lt" else d >= 0 if o == "le" else d == 0
                else: r = z3.Bool(f"opaque{e.id}")
                memo[e.id] = r
            return r
        try:
            fs = [form(c) for c in list(pc) + [neg]]
            s = z3.Solver()
            s.set("timeout", 2000)
            s.set("random_seed", 1)
            s.add(fs)
            s.add(side)
            return s.check() == z3.unsat
        except (TooBig, ZeroDivisionError, X.Unsupported, z3.Z3Exception, RecursionError): return False
        finally: STATS["z3_time"] += time.time() - t

    # -- main entry
    def prove(self, pc, goal, timeout=None, hints=()):
        """-> (status, backend, model, reason) status in proved/refuted/unknown"""
        goal = X.boolv(goal)
        if goal is True: return ("proved", "trivial", None, "")
        if X.is_e(goal):
            if any(goal is c for c in pc): return ("proved", "trivial", None, "")
            if goal.op == "and":
                be = set()
                for g in goal.args:
                    r = self.prove(pc, g, timeout)
                    if r[0] != "proved": return r
                    be.add(r[1])
                return ("proved", "+".join(sorted(be)), None, "")
            if goal.op == "or":
                # a or b:  assume the negation of all but the last non-negated literal
                have = {c.id for c in pc if X.is_e(c)}
                if any(X.is_e(g) and (g.id in have or g.op == "and" and all(X.is_e(h) and h.id in have for h in g.args)) for g in goal.args): return ("proved", "trivial", None, "")
                neg = [X.not_(g) for g in goal.args]
                last = goal.args[-1]
                r = self.prove(list(pc) + neg[:-1], last, timeout)
                return r
            if goal.op == "forall":
                n = goal.args[0]
                m = {v.id: X.fresh(v.args[0], v.sort) for v in goal.args[1:1 + n]}
                return self.prove(pc, X.subst(goal.args[1 + n], m), timeout)
            if goal.op == "eq" and "R" in (X.sort_of(goal.args[0]), X.sort_of(goal.args[1])):
                z = self.poly_equal(pc, *goal.args)
                if z: return ("proved", "poly", None, "")
            if goal.op == "le" and squares(X.sub(goal.args[1], goal.args[0])): return ("proved", "sign", None, "")
            if goal.op in ("lt", "le") or (goal.op == "not" and X.is_e(goal.args[0]) and goal.args[0].op == "eq"):
                g = goal if goal.op != "not" else goal.args[0]
                d = X.sub(g.args[1], g.args[0])
                if not is_linear(d):
                    STATS["sign_calls"] += 1
                    s = self.sign(pc, d, {})
                    if goal.op == "le" and s[0]: return ("proved", "sign", None, "")
                    if goal.op == "lt" and s[0] and s[2]: return ("proved", "sign", None, "")
                    if goal.op == "not" and s[2]: return ("proved", "sign", None, "")
                    if self.positive_multiple(pc, d) if goal.op == "lt" else goal.op == "not" and (self.positive_multiple(pc, d) or self.positive_multiple(pc, X.sub(g.args[0], g.args[1]))): return ("proved", "poly", None, "")
        neg = X.not_(goal)
        pc = list(pc)
        to = timeout or self.timeout_ms
        r, m = self.z3_check(pc, neg, min(to, 1500))
        if r == "unknown" and self.linear_check(pc, neg): return ("proved", "z3-linear", None, "")
        if r == "unknown" and to > 1500: r, m = self.z3_check(pc, neg, to)
        if r == "unsat": return ("proved", "z3", None, "")
        if r == "sat": return ("refuted", "z3", m, "")
        allx = pc + [neg]
        pure = not any(x.op in ("forall", "exists", "select", "store", "uf", "idiv", "imod") or x.sort == "I"
                       for c in allx for x in X.walk(c))
        if pure:
            r, m = self.z3_check(pc, neg, to, "QF_NRA")
            if r == "unsat": return ("proved", "z3-nlsat", None, "")
            if r == "sat": return ("refuted", "z3-nlsat", m, "")
        r = self.cvc5_check(pc, neg, to)
        if r == "unsat": return ("proved", "cvc5", None, "")
        return ("unknown", "z3+cvc5", None, f"z3: timeout/unknown, cvc5: {r}")

    def model_env(self, model, variables):
        """values of scalar variables in a z3 model as Fractions (algebraic numbers approximated)"""
        env = {}
        for v in variables:
            if v.sort not in ("R", "I", "B"): continue
            t = model.eval(self.T(v), model_completion=True)
            env[v.args[0]] = z3val(t)
        return env


def z3val(t):
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    if z3.is_int_value(t): return t.as_long()
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_algebraic_value(t):
        q = t.approx(30)
        return Fraction(q.numerator_as_long(), q.denominator_as_long())
    return None
