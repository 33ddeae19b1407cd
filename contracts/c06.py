"""Derivatives of curves.  Spec: the k-th derivative of the basis functions by the derivative recurrence (from Cox-de Boor), rational
curves by the Leibniz rule A(k) = sum binom(k,i) w(i) C(k-i), which determines C(k) since the weight function is positive.
Tangent, normal, curvature and moving plane by their defining equations over the first two derivatives."""
from math import comb

from .lib import *
from .c03 import points

LEVEL = "other"
CALG = "mmcore.numeric.calgorithms"
FUNCTIONS = [NURBS + ":" + f for f in ("curve_derivs_alg1", "curve_derivs_alg2", "curve_deriv_cpts", "rational_curve_derivs", "homogeneous_points", "NURBSCurve.cderivatives1", "NURBSCurve.cderivatives2", "NURBSCurve.derivatives1",
             "NURBSCurve.derivatives2", "NURBSCurve.cderivative", "NURBSCurve.csecond_derivative", "NURBSCurve.derivative_control_points", "NURBSCurve.cplane", "NURBSCurve.cnormal", "NURBSCurve.ctangent", "NURBSCurve.ccurvature")] + [
             CALG + ":evaluate_tangent", CALG + ":evaluate_curvature", "mmcore.geom.parametric:ParametricCurve.derivative", "mmcore.geom.parametric:ParametricCurve.second_derivative"]
ASSUMPTIONS = ["periodic curves are not covered", "normal, plane: the first two derivatives are linearly independent"]


def loaded(): return prog().load(NURBS)


def spec(c, U, p, P, k, u, order):
    """homogeneous derivatives: rows [k][0..3] of sum N(k) w (x, y, z, 1)"""
    rows = []
    for q in range(order + 1):
        N = [dcdb(k - p + j, p, q, u, U, k) for j in range(p + 1)]
        NW = [mul(N[j], P[k - p + j, 3]) for j in range(p + 1)]
        rows.append([lin(NW, [P[k - p + j, d] for j in range(p + 1)]) for d in range(3)] + [lin(NW, [1] * (p + 1))])
    return rows


def leibniz(c, A, C, what, upto):
    for q in range(upto + 1):
        for d in range(3):
            c.prove(eq(A[q][d], lin([mul(comb(q, i), A[i][3]) for i in range(q + 1)], [C[q - i][d] for i in range(q + 1)])), what.format(q))


def start(c, p, mults, weights=True):
    n1 = p + 1 + sum(mults)
    U = clamped(c, n1, p, mults=mults)
    P = points(c, n1) if weights else mat(c, "P", n1, 3)
    u = real(c, "u")
    k = on_span(c, u, U, p, n1 - 1)
    c.inputs["p"] = p
    c.cover("precondition is satisfiable")
    return U, P, n1, u, k


def plain(fn, p, mults, d):
    """the B-spline derivative routines on plain control points"""
    def body(c, ns):
        U, P, n1, u, k = start(c, p, mults, False)
        CK = rt.arr_of([0] * ((d + 1) * 3), (d + 1, 3))
        a = [n1 - 1, p, U, P, u, d, strict(CK)]
        if fn.endswith("2"): a.append(strict(rt.arr_of([0] * ((d + 1) * (p + 1) * 3), (d + 1, p + 1, 3))))
        ns[fn](*a, False)
        for q in range(d + 1):
            N = [dcdb(k - p + j, p, q, u, U, k) for j in range(p + 1)]
            for x in range(3): c.prove(eq(CK[q, x], lin(N, [P[k - p + j, x] for j in range(p + 1)])), f"derivative {q}")
    return Task(f"{fn}[p={p},interior={mults},d={d}]", body, f"degree {p}, interior multiplicities {mults}, derivatives up to {d}", setup=loaded)


def rational(fn, p, mults, d):
    def body(c, ns):
        U, P, n1, u, k = start(c, p, mults)
        c.inputs["d"] = d
        crv = ns["NURBSCurve"](P.copy(), p, U.copy())
        A = spec(c, U, p, P, k, u, d)
        C = getattr(crv, fn)(u, d)
        c.prove(C.shape == (min(d, p) + 1, 3), "one row per derivative up to the degree")
        leibniz(c, A, C, "derivative {} of the rational curve", min(d, p))
    return Task(f"{fn}[p={p},interior={mults},d={d}]", body, f"degree {p}, interior multiplicities {mults}, derivatives up to {d}", setup=loaded)


def single(p, mults):
    """derivative(t) and second_derivative(t)"""
    def body(c, ns):
        U, P, n1, u, k = start(c, p, mults)
        crv = ns["NURBSCurve"](P.copy(), p, U.copy())
        A = spec(c, U, p, P, k, u, 2)
        C = [crv.evaluate(u), crv.derivative(u), crv.second_derivative(u)]
        leibniz(c, A, C, "derivative {}", 2)
    return Task(f"derivative[p={p},interior={mults}]", body, f"degree {p}, interior multiplicities {mults}", setup=loaded)


def cpts(p, mults, d):
    """derivative control points (plain curves): row q combined with the basis of degree p-q on the same knots is the q-th derivative"""
    def body(c, ns):
        U, P, n1, u, k = start(c, p, mults, False)
        crv = ns["NURBSCurve"](P.copy(), p, U.copy())
        PK = crv.derivative_control_points(u, d)
        c.prove(PK.shape == (d + 1, p + 1, 3), "shape")
        for q in range(min(d, p) + 1):
            N = [dcdb(k - p + j, p, q, u, U, k) for j in range(p + 1)]
            L = [cdb(k - (p - q) + j, p - q, u, U, k) for j in range(p - q + 1)]
            for x in range(3): c.prove(eq(lin(L, [PK[q, j, x] for j in range(p - q + 1)]), lin(N, [P[k - p + j, x] for j in range(p + 1)])), f"derivative control points {q}")
    return Task(f"derivative_control_points[p={p},interior={mults},d={d}]", body, f"degree {p}, interior multiplicities {mults}", setup=loaded)


def dot(a, b): return lin(list(a), list(b))
def cross(a, b): return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def with_derivs(c, ns, name):
    """a curve whose derivative routine is replaced by its contract: any C, C', C'' (so the frame obligations hold for every curve)"""
    C = [vec(c, f"C{q}", 3) for q in range(3)]

    def ders(self, t, d, CK):
        for q in range(min(d, 2) + 1):
            for x in range(3): CK[q, x] = C[q][x]
    cls = ns["NURBSCurve"]
    sub_ = type("AnyCurve", (cls,), {"cderivatives2": ders})
    return sub_(rt.arr_of([0] * 6, (2, 3)), 1, rt.arr_of([0, 0, 1, 1], (4,))), C


def tangent():
    def body(c, ns):
        crv, (C0, D1, D2) = with_derivs(c, ns, "NURBSCurve")
        n2 = dot(D1, D1)
        c.assume(lt(Fraction(1, 10 ** 28), n2))
        c.cover("precondition is satisfiable")
        T = crv.tangent(real(c, "t"))
        c.prove(eq(dot(T, T), 1), "the tangent has unit length")
        for x in cross(T, D1): c.prove(eq(x, 0), "the tangent is parallel to the derivative")
        c.prove(lt(0, dot(T, D1)), "the tangent points along the derivative")
    return Task("tangent", body, "every C', C''", setup=loaded)


def degenerate_tangent():
    """C' = 0: the direction of C'', or zero"""
    def body(c, ns):
        D2, T = vec(c, "D2", 3), rt.arr_of([X.var(f"g{i}") for i in range(3)], (3,))
        ns = prog((CALG,)).load(CALG)
        ns["evaluate_tangent"](rt.arr_of([0, 0, 0], (3,)), D2, strict(T))
        n2 = dot(D2, D2)
        c.prove(or_(and_(eq(n2, 0), eq(dot(T, T), 0)), eq(dot(T, T), 1)), "unit or zero")
        for x in cross(T, D2): c.prove(eq(x, 0), "parallel to the second derivative")
    return Task("tangent where the derivative vanishes", body, "every C''", setup=loaded)


def curvature():
    def body(c, ns):
        crv, (C0, D1, D2) = with_derivs(c, ns, "NURBSCurve")
        n2 = dot(D1, D1)
        c.assume(lt(0, n2))
        c.cover("precondition is satisfiable")
        K = crv.curvature(real(c, "t"))
        c.prove(eq(dot(K, D1), 0), "the curvature vector is perpendicular to the derivative")
        for a, b in zip(cross(K, D1), cross(D2, D1)): c.prove(eq(mul(a, n2), b), "|C'|^2 K and C'' differ along C' only")
    return Task("curvature", body, "every C', C''", setup=loaded)


def plane():
    def body(c, ns):
        crv, (C0, D1, D2) = with_derivs(c, ns, "NURBSCurve")
        N = cross(D1, D2)
        c.assume(lt(0, dot(D1, D1)))
        c.assume(lt(0, dot(N, N)))
        c.cover("precondition is satisfiable")
        t = real(c, "t")
        R = crv.plane_at(t)
        o, x, y, z = R
        for a, b in zip(o, C0): c.prove(eq(a, b), "the plane starts at the point of the curve")
        c.prove(eq(dot(x, x), 1), "x is a unit vector")
        c.prove(lt(0, dot(x, D1)), "x is along the derivative")
        for v in cross(x, D1): c.prove(eq(v, 0), "x is along the derivative")
        c.prove(eq(dot(x, y), 0), "y is perpendicular to x")
        c.prove(eq(dot(y, y), 1), "y is a unit vector")
        c.prove(eq(dot(y, N), 0), "y is in the plane of the two derivatives")
        for a, b in zip(z, cross(x, y)): c.prove(eq(a, b), "z is x cross y")
        n = crv.normal(t)
        for a, b in zip(n, y): c.prove(eq(a, b), "normal is the y axis of the plane")
    return Task("plane", body, "every C', C'' (independent)", setup=loaded)


TASKS = []
for p, mults in ((1, [1]), (2, [1]), (2, [2]), (3, [1]), (3, [2, 1]), (4, [1]), (5, [])):
    for f in ("curve_derivs_alg1", "curve_derivs_alg2"):
        for d in ((1, p, p + 1) if p < 4 else (2, p)): TASKS.append(plain(f, p, mults, d))
    TASKS.append(cpts(p, mults, min(p, 3)))
for p, mults in ((1, [1]), (2, [1]), (2, [2]), (3, [1]), (3, [])):
    for f in ("derivatives1", "derivatives2"):
        for d in ((1, 2, 3) if p < 3 else (1, 2)): TASKS.append(rational(f, p, mults, d))
TASKS += [single(1, [1]), single(2, [1]), single(3, []), single(3, [1])]
TASKS += [tangent(), degenerate_tangent(), curvature(), plane()]


def _case(inp, task):
    P = [(list(r) + [1.0])[:4] if len(r) == 3 else r for r in inp["P"]]
    return {"kind": "derivatives", "case": {"U": inp["U"], "P": P, "p": int(inp["p"]), "us": [inp["u"]], "d": 3}}


MODEL_CASE = {k: _case for k in ("curve_derivs_alg1", "curve_derivs_alg2", "derivatives1", "derivatives2", "derivative", "derivative_control_points")}
