"""Curve evaluation against the rational B-spline definition sum N_i w_i P_i / sum N_i w_i, after any of the supported
updates of the curve; control points, weights (positive), knots and parameter are symbolic, sizes are fixed per task."""
from .lib import *

LEVEL = "other"
DEBOOR = "mmcore.geom.curves.deboor"
FUNCTIONS = [NURBS + ":" + f for f in ("NURBSCurve.__init__", "NURBSCurve.evaluate", "NURBSCurve.evaluate_multi", "NURBSCurve.evaluate4d", "NURBSCurve.cevaluate", "NURBSCurve.cevaluate_ptr",
             "curve_point", "find_span_inline", "basis_funs", "NURBSCurve.weights", "NURBSCurve.control_points", "NURBSCurve.knots")] + [DEBOOR + ":evaluate_nurbs", DEBOOR + ":evaluate_nurbs_multi"]
SIZES = [(1, [], "bezier"), (1, [1, 1], ""), (2, [1], ""), (2, [2, 1], ""), (3, [], ""), (3, [1, 1], ""), (3, [3], ""), (4, [2], "")]


def points(c, n, name="P", weights=True, positive=True):
    P = mat(c, name, n, 4)
    for i in range(n):
        if weights:
            if positive: c.assume(lt(0, P[i, 3]))
        else: P[i, 3] = 1
    return P


def prove_point(c, got, u, p, U, P, k, name):
    num, den = rcurve_at(u, p, U, P, k)
    c.prove(lt(0, den), "the weight function is positive")
    for d in range(3): c.prove(eq(got[d], div(num[d], den)), name)


def evaluate(p, mults):
    n1 = p + 1 + sum(mults)

    def setup(): return prog((NURBS, DEBOOR)).load(NURBS)

    def body(c, ns):
        U = clamped(c, n1, p, mults=mults)
        P = points(c, n1)
        c.inputs["p"] = p
        u = real(c, "u")
        crv = ns["NURBSCurve"](P.copy(), p, U.copy())
        k = on_span(c, u, U, p, n1 - 1)
        c.cover("precondition is satisfiable")
        how = c.choose(5, "entry")
        if how == 0: got = crv.evaluate(u)
        elif how == 1: got = crv.evaluate_multi(rt.arr_of([u, u], (2,)))[1]
        elif how == 2: got = crv.evaluate4d(u)
        elif how == 3:
            buf = rt.arr_of([var(f"g{i}") for i in range(4)], (4,))
            crv.cevaluate_ptr(u, rt.Ptr(buf))
            got = buf
        else:
            got = rt.PROGRAM.load(DEBOOR)["evaluate_nurbs_multi"](rt.arr_of([U[p], u], (2,)), P[:, :3], U, P[:, 3], p)[1] if p < 4 else crv.evaluate(u)
        prove_point(c, got, u, p, U, P, k, "equals the weighted basis combination")
    return Task(f"evaluate[p={p},n={n1},interior={mults}]", body, f"degree {p}, {n1} control points, interior multiplicities {mults}", setup=setup)


def endpoints(p, mults):
    n1 = p + 1 + sum(mults)

    def setup(): return prog().load(NURBS)

    def body(c, ns):
        U = clamped(c, n1, p, mults=mults)
        P = points(c, n1)
        crv = ns["NURBSCurve"](P.copy(), p, U.copy())
        c.cover("precondition is satisfiable")
        a = crv.evaluate(U[0]); b = crv.evaluate(U[-1])
        for d in range(3):
            c.prove(eq(a[d], P[0, d]), "starts at the first control point")
            c.prove(eq(b[d], P[n1 - 1, d]), "ends at the last control point")
        iv = crv.interval()
        c.prove(and_(eq(iv[0], U[0]), eq(iv[1], U[-1])), "the parameter interval is the knot range")
    return Task(f"endpoints[p={p},n={n1}]", body, f"degree {p}, {n1} control points", setup=setup)


def default_knots(p, n1):
    def setup(): return prog().load(NURBS)

    def body(c, ns):
        P = points(c, n1)
        crv = ns["NURBSCurve"](P.copy(), p)
        U = [0] * (p + 1) + list(range(1, n1 - p)) + [n1 - p] * (p + 1)
        got = crv.knots
        c.prove(len(got) == len(U), "n + p + 1 knots")
        for a, b in zip(got, U): c.prove(eq(a, b), "uniform clamped knots")
        u = real(c, "u")
        k = on_span(c, u, rt.arr_of(U, (len(U),)), p, n1 - 1) if False else p + c.choose(n1 - p, "span")
        c.assume(le(U[k], u)); c.assume(le(u, U[k + 1]) if k == n1 - 1 else lt(u, U[k + 1]))
        prove_point(c, crv.evaluate(u), u, p, U, P, k, "equals the weighted basis combination")
    return Task(f"default knots[p={p},n={n1}]", body, f"degree {p}, {n1} control points", setup=setup)


def updates(p, mults):
    n1 = p + 1 + sum(mults)

    def setup(): return prog().load(NURBS)

    def body(c, ns):
        U = clamped(c, n1, p, mults=mults)
        P = points(c, n1)
        u = real(c, "u")
        k = on_span(c, u, U, p, n1 - 1)
        crv = ns["NURBSCurve"](P.copy(), p, U.copy())
        crv.evaluate(u)                                   # fills the cache
        Q, V = P.copy(), U
        what = c.choose(5, "update")
        if what == 0:
            W = vec(c, "W", n1)
            for w in W: c.assume(lt(0, w))
            crv.weights = W
            Q[:, 3] = W
        elif what == 1:
            Q = points(c, n1, "Q")
            crv.control_points = Q.copy()
        elif what == 2:
            Q = points(c, n1, "Q", weights=False)
            crv.control_points = Q[:, :3].copy()
        elif what == 3:
            s = real(c, "s")
            V = rt.arr_of([add(x, s) for x in U], U.shape)
            crv.knots = V.copy()
            u = add(u, s)
        else:
            Q = points(c, n1, "Q")
            crv.set(Q.copy(), U.copy())
        c.cover("update is reachable")
        prove_point(c, crv.evaluate(u), u, p, V, Q, k, "evaluation follows the update")
    return Task(f"updates[p={p},n={n1}]", body, f"degree {p}, {n1} control points", setup=setup)


TASKS = [evaluate(p, m) for p, m, _ in SIZES] + [endpoints(1, [1]), endpoints(2, [1, 1]), endpoints(3, [2]), default_knots(1, 4), default_knots(2, 4), default_knots(3, 5), updates(1, [1]), updates(2, [1]), updates(3, [])]


def _case(inp, task):
    return {"kind": "curve", "case": {"U": inp["U"], "P": inp["P"], "p": inp["p"], "us": [inp["u"]]}}


MODEL_CASE = {"evaluate": _case}
