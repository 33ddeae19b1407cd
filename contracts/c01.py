"""find_span / find_span_inline under contract: for every n, p, knot vector and parameter (loop invariants on the two wrap
loops and the binary search, with a decreasing measure), plus the same postcondition with all loops unrolled for the
fixed sizes below, which stand in when the text of the loops changes."""
from .lib import *
from cyvc.sym import PathEnd

LEVEL = "proof"
FUNCTIONS = ["mmcore.geom.nurbs:find_span", "mmcore.geom.nurbs:find_span_inline", "mmcore.geom.nurbs:find_multiplicity"]
ASSUMPTIONS = ["knot multiplicity: the relative tolerance of find_multiplicity is taken as written (exact arithmetic)"]


class Search:
    """binary search loop"""
    def inv(self, c, e, ph):
        U, p, n = e["U"], e["p"], e["n"]
        yield "p <= low < high <= n+1", and_(le(p, e["low"]), lt(e["low"], e["high"]), le(e["high"], add(n, 1)))
        yield "mid is the midpoint", eq(e["mid"], X.floordiv(add(e["low"], e["high"]), 2))
        yield "U[low] <= u < U[high]", and_(le(U[e["low"]], e["u"]), lt(e["u"], U[e["high"]]))
    def start(self, c, e): c.meas = sub(e["high"], e["low"])
    def decreases(self, c, e):
        yield "search interval shrinks", lt(sub(e["high"], e["low"]), c.meas)


class Wrap:
    """u is moved by whole periods"""
    def __init__(self, sign): self.sign = sign
    def inv(self, c, e, ph):
        if ph == "enter" and not hasattr(c, "u0"): raise X.Unsupported("no ghost")
        if ph == "assume": c.wm = X.fresh("turns", "I")
        if ph == "back": c.wm = add(c.wm, self.sign)
        yield "u = u0 + turns * period", eq(e["u"], add(c.u0, mul(X.toreal(c.wm) if X.is_e(c.wm) else c.wm, c.period)))
        if self.sign < 0: yield "u stays at or above the left end", le(e["U_min"], e["u"])
        yield "a parameter of the domain is not moved", implies(and_(le(e["U_min"], c.u0), le(c.u0, e["U_max"])), eq(e["u"], c.u0))
    def start(self, c, e): c.meas = e["u"]
    def decreases(self, c, e):
        yield "moves by one period", eq(mul(self.sign, sub(e["u"], c.meas)), c.period)


SPEC = {NURBS: {f: {0: Wrap(1), 1: Wrap(-1), 2: Search()} for f in ("find_span", "find_span_inline")}}


def unbounded(fname):
    def setup():
        return prog(loopspecs=SPEC).load(NURBS)[fname]

    def body(c, f):
        n, p, m = integer(c, "n"), integer(c, "p"), integer(c, "m")
        c.assume(le(0, p)); c.assume(le(p, n)); c.assume(le(add(n, 2), m))
        st = rt.SStore("U", m)
        U = rt.SMV(st)
        A = st.arr[()]
        i, j = var("i!", "I"), var("j!", "I")
        c.assume(X.forall([i, j], implies(and_(le(0, i), le(i, j), lt(j, m)), le(X.select(A, i), X.select(A, j)))))
        lo, hi = X.select(A, p), X.select(A, add(n, 1))
        c.assume(lt(lo, hi))
        u = real(c, "u")
        per = c.choose(2, "periodic")
        c.u0, c.period, c.wm = u, sub(hi, lo), 0
        c.cover("precondition is satisfiable")
        k = f(n, p, u, U, per)
        c.prove(and_(le(p, k), le(k, n)), "the index lies in the domain")
        uu = u
        if per:
            uu = add(u, mul(X.toreal(c.wm) if X.is_e(c.wm) else c.wm, c.period))
            c.prove(and_(le(lo, uu), le(uu, hi)), "a periodic parameter is wrapped into the domain")
            inside = and_(le(lo, u), lt(u, hi))
            c.prove(implies(inside, and_(le(X.select(A, k), u), lt(u, X.select(A, add(k, 1))))), "a periodic parameter inside the domain is in its own interval")
        c.prove(implies(and_(le(lo, uu), lt(uu, hi)), and_(le(X.select(A, k), uu), lt(uu, X.select(A, add(k, 1))))), "U[k] <= u < U[k+1] inside the domain")
        c.prove(implies(le(hi, uu), eq(k, n)), "the right end maps to the last interval")
        c.prove(implies(lt(uu, lo), eq(k, p)), "a parameter left of the domain maps to the first interval")
    return Task(f"{fname}[all n, p, knots, u]", body, "all", fallback=f"{fname}[n=", setup=setup, timeout_ms=20000)


def unrolled(fname, n, p):
    def setup():
        return prog().load(NURBS)[fname]

    def body(c, f):
        m = n + p + 2
        U = vec(c, "U", m)
        nondecreasing(c, U)
        c.assume(lt(U[p], U[n + 1]))
        u = real(c, "u")
        c.inputs["n"], c.inputs["p"] = n, p
        c.cover("precondition is satisfiable")
        per = c.choose(2, "periodic")
        c.inputs["periodic"] = per
        uu = u
        if per:
            t = c.choose(5, "turns") - 2              # the wrap loops are unrolled for up to two periods
            w = var("w")
            c.assume(and_(le(U[p], w), lt(w, U[n + 1])))
            c.assume(eq(u, add(w, mul(t, sub(U[n + 1], U[p])))))
            uu = w
        k = f(n, p, u, U, per)
        k = c.concretize(k) if X.is_e(k) else k
        c.prove(p <= k <= n, "the index lies in the domain")
        seam = eq(uu, U[p]) if per and t else False           # a whole number of periods off: both ends of the domain are the same point
        c.prove(implies(and_(le(U[p], uu), lt(uu, U[n + 1])), or_(and_(seam, k == n), and_(le(U[k], uu), lt(uu, U[k + 1])))), "U[k] <= u < U[k+1] inside the domain")
        if not per:
            c.prove(implies(le(U[n + 1], uu), k == n), "the right end maps to the last interval")
            c.prove(implies(lt(uu, U[p]), k == p), "a parameter left of the domain maps to the first interval")
    return Task(f"{fname}[n={n},p={p}]", body, f"n={n}, p={p}, all knots and u, at most 2 periods off", setup=setup)


def mult(m):
    def setup():
        return prog().load(NURBS)["find_multiplicity"]

    def body(c, f):
        U = vec(c, "U", m)
        nondecreasing(c, U)
        u = real(c, "u")
        flags = []
        for x in U:                                     # the parameter equals a knot or is clearly different from it
            if c.decide(eq(u, x)): flags.append(1)
            else:
                c.assume(lt(Fraction(1, 10 ** 9), X.absval(sub(u, x))))
                c.assume(lt(X.absval(x), 10 ** 4))
                flags.append(0)
        c.cover("precondition is satisfiable")
        c.prove(eq(f(u, U, Fraction(1, 10 ** 12)), sum(flags)), "the multiplicity is the number of equal knots")
    return Task(f"find_multiplicity[{m} knots]", body, f"knot vectors of {m} knots", setup=setup)


TASKS = [unbounded("find_span"), unbounded("find_span_inline")]
for f in ("find_span", "find_span_inline"):
    TASKS += [unrolled(f, 2, 1), unrolled(f, 3, 2), unrolled(f, 5, 3), unrolled(f, 5, 1)]
TASKS += [mult(2), mult(4)]


def _case(inp, task):
    return {"kind": "span", "case": {"U": inp["U"], "p": inp["p"], "n": inp["n"], "u": inp["u"], "periodic": bool(inp.get("periodic", 0))}}


MODEL_CASE = {"find_span": _case, "find_span_inline": _case}
MODEL_CASE = {k: v for k, v in MODEL_CASE.items()}
