"""Reversing, closing and opening curves.  Control points, positive weights, parameters (and, for reversal, knots) are symbolic;
degree and sizes are fixed per task.  wrap_parameter is proved for every knot vector and parameter (loop invariants, termination
measure) and used through its contract elsewhere."""
from .lib import *
from .c01 import Wrap
from .c03 import points, prove_point

LEVEL = "other"
FUNCTIONS = [NURBS + ":" + f for f in ("reverse_curve", "NURBSCurve.flip", "NURBSCurve.make_periodic", "NURBSCurve.make_open", "NURBSCurve.is_periodic", "NURBSCurve.generate_knots_periodic",
             "NURBSCurve.generate_knots", "NURBSCurve.create", "wrap_parameter", "NURBSCurve.cevaluate", "curve_point", "curve_derivs_alg1", "curve_derivs_alg2", "NURBSCurve.derivatives1", "NURBSCurve.derivatives2")]
ASSUMPTIONS = []


def wrapped(n, p, u, U):
    """contract of wrap_parameter: the parameter moved by whole periods into [U[p], U[n+1]]; unchanged if already there"""
    c = X.HOOK["ctx"]
    lo, hi = U[p], U[n + 1]
    k = X.fresh("turns", "I")
    r = add(u, mul(X.toreal(k), sub(hi, lo)))
    c.assume(and_(le(lo, r), le(r, hi)))
    c.assume(implies(and_(le(lo, u), le(u, hi)), eq(k, 0)))
    b = getattr(c, "base", None)
    if b is not None and not X.is_e(lo):      # b lies strictly inside the period and differs from u by whole periods
        c.prove(eq(r, b), "a parameter has one representative inside the first period")
        return b
    return r


def wrap_proof():
    def setup(): return prog(loopspecs={NURBS: {"wrap_parameter": {0: WrapU(1), 1: WrapU(-1)}}}).load(NURBS)["wrap_parameter"]

    def body(c, f):
        n, p, m = integer(c, "n"), integer(c, "p"), integer(c, "m")
        c.assume(le(0, p)); c.assume(le(p, n)); c.assume(le(add(n, 2), m))
        U = rt.SMV(rt.SStore("U", m))
        lo, hi = U[p], U[add(n, 1)]
        c.assume(lt(lo, hi))
        u = real(c, "u")
        c.u0, c.period, c.wm, c.U_min = u, sub(hi, lo), 0, lo
        c.cover("precondition is satisfiable")
        r = f(n, p, u, U)
        c.prove(and_(le(lo, r), le(r, hi)), "the parameter lies in the first period")
        c.prove(eq(r, add(u, mul(X.toreal(c.wm) if X.is_e(c.wm) else c.wm, c.period))), "moved by whole periods")
        c.prove(implies(and_(le(lo, u), le(u, hi)), eq(r, u)), "a parameter of the first period is kept")
    return Task("wrap_parameter", body, "all", fallback="closed[", setup=setup)


class WrapU(Wrap):
    def inv(self, c, e, ph):
        e = dict(e); e.setdefault("U_min", c.U_min)
        yield from super().inv(c, e, ph)
        yield "a parameter of the first period is kept", implies(and_(le(c.U_min, c.u0), le(c.u0, add(c.U_min, c.period))), eq(e["u"], c.u0))


def loaded(): return prog(overrides={(NURBS, "wrap_parameter"): wrapped}).load(NURBS)


def mirrored(U):
    a, b = U[0], U[-1]
    return [sub(add(a, b), x) for x in reversed(list(U))]


def reverse(p, mults, how):
    n1 = p + 1 + sum(mults)

    def body(c, ns):
        U = clamped(c, n1, p, mults=mults)
        P = points(c, n1)
        c.inputs["p"] = p
        u = real(c, "u")
        crv = ns["NURBSCurve"](P.copy(), p, U.copy())
        crv.evaluate(U[0])
        rev = (lambda x: ns["reverse_curve"](x)) if how == "reverse_curve" else (lambda x: x.flip())
        r = rev(crv)
        spans = nonempty_spans(U, p, n1 - 1)
        k = spans[c.choose(len(spans), "span")]
        c.assume(lt(U[k], u)); c.assume(lt(u, U[k + 1]))
        c.cover("precondition is satisfiable")
        V, Q = r.knots, r.control_pointsw
        c.prove(len(V) == len(U) and tuple(Q.shape) == (n1, 4), "sizes")
        prove_eqs(c, V, mirrored(U), "mirrored knots")
        prove_eqs(c, Q.reshape(-1), P[::-1].reshape(-1), "control points and weights in reverse order")
        iv = r.interval()
        c.prove(and_(eq(iv[0], U[0]), eq(iv[1], U[-1])), "same parameter interval")
        w = sub(add(U[0], U[-1]), u)
        prove_point(c, r.evaluate(w), u, p, U, P, k, "the reversed curve runs backwards")
        prove_point(c, crv.evaluate(u), u, p, U, P, k, "the original curve is unchanged")
        for d in range(3):
            c.prove(eq(r.evaluate(U[0])[d], P[n1 - 1, d]), "starts where the original ends")
            c.prove(eq(r.evaluate(U[-1])[d], P[0, d]), "ends where the original starts")
        rr = rev(r)
        prove_eqs(c, rr.knots, U, "reversing twice gives the knots back")
        prove_eqs(c, rr.control_pointsw.reshape(-1), P.reshape(-1), "reversing twice gives the control points back")
    return Task(f"{how}[p={p},interior={mults}]", body, f"degree {p}, interior multiplicities {mults}", setup=loaded)


def closed(p, n):
    """make_periodic: n control points, degree p"""
    def body(c, ns):
        P = points(c, n)
        c.inputs["p"] = p
        how = c.choose(2, "how")
        crv = ns["NURBSCurve"](P.copy(), p, None, True) if how else ns["NURBSCurve"](P.copy(), p)
        if how == 0:
            crv.evaluate(Fraction(1, 2))
            crv.make_periodic()
        if len(crv.control_pointsw) == n: raise sym.PathEnd()       # the control points already repeat: nothing to close
        Q = rt.arr_of([P[i % n, k] for i in range(n + p) for k in range(4)], (n + p, 4))
        U = rt.arr_of(list(range(-p, n + p + 1)), (n + 2 * p + 1,))
        c.prove(tuple(crv.control_pointsw.shape) == (n + p, 4) and len(crv.knots) == len(U), "sizes")
        prove_eqs(c, crv.control_pointsw.reshape(-1), Q.reshape(-1), "the first control points are repeated at the end")
        prove_eqs(c, crv.knots, U, "uniform knots")
        c.prove(crv.periodic == True, "marked periodic")
        c.prove(crv.is_periodic(), "is_periodic")
        k = p + c.choose(n, "span")
        u, m = real(c, "u"), integer(c, "m")
        c.assume(lt(U[k], u) if k == p else le(U[k], u)); c.assume(lt(u, U[k + 1]))
        c.cover("precondition is satisfiable")
        c.base = u
        t = add(u, mul(n, X.toreal(m)))
        if c.choose(2, "derivative") and p > 0:
            a = crv.derivatives1(t, 1); b = crv.derivatives1(u, 1)
            prove_eqs(c, a.reshape(-1), b.reshape(-1), "derivatives repeat with the period")
            a = crv.derivatives2(t, 1)
            prove_eqs(c, a.reshape(-1), b.reshape(-1), "both derivative routines repeat with the period")
            return
        prove_point(c, crv.evaluate(t), u, p, U, Q, k, "the points repeat with the period")
        prove_point(c, crv.evaluate_multi(rt.arr_of([t], (1,)))[0], u, p, U, Q, k, "batch evaluation repeats with the period")
        c.base = None
        a, b = crv.evaluate(0), crv.evaluate(n)
        prove_eqs(c, a, b, "the curve is closed")
        crv.make_open()
        V = [0] * (p + 1) + list(range(1, n - p)) + [n - p] * (p + 1)
        c.prove(tuple(crv.control_pointsw.shape) == (n, 4) and len(crv.knots) == len(V), "opened: sizes")
        prove_eqs(c, crv.control_pointsw.reshape(-1), P.reshape(-1), "opening gives the control points back")
        prove_eqs(c, crv.knots, V, "opened: uniform clamped knots")
        c.prove(crv.periodic == False, "opened: not marked periodic")
        prove_eqs(c, crv.evaluate(0)[:3], P[0, :3], "opened: starts at the first control point")
        iv = crv.interval()
        c.prove(and_(eq(iv[0], 0), eq(iv[1], n - p)), "opened: parameter interval")
    return Task(f"closed[p={p},n={n}]", body, f"degree {p}, {n} control points, any number of periods", setup=loaded)


def detects(p, n1):
    def body(c, ns):
        P = points(c, n1)
        crv = ns["NURBSCurve"](P.copy(), p)
        c.cover("precondition is satisfiable")
        r = crv.is_periodic()
        want = and_(*[eq(P[i, k], P[n1 - p + i, k]) for i in range(p) for k in range(4)])
        c.prove(eq(r, 1) == want if False else and_(implies(r, want), implies(want, r)) if X.is_e(r) else (want if r else not_(want)), "is_periodic compares the first and last degree control points")
    return Task(f"is_periodic[p={p},n={n1}]", body, f"degree {p}, {n1} control points", setup=loaded)


def setup_wrap(t): return t


TASKS = [wrap_proof()] + [reverse(p, m, h) for h in ("reverse_curve", "flip") for p, m in ((1, [1]), (2, []), (2, [1, 1]), (2, [2]), (3, [1]))] + [closed(1, 3), closed(2, 3), closed(2, 4), closed(3, 4)] + [detects(1, 3), detects(2, 4)]
MODEL_CASE = {}
