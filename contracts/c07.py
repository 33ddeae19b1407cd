"""Surface evaluation and surface derivatives against the rational tensor-product definition
S = sum N_i(u) N_j(v) (wP)_ij / sum N_i(u) N_j(v) w_ij; homogeneous control points (positive weights), knots and parameters are
symbolic; degrees and sizes are fixed per task.  Derivatives by the derivative recurrence and the Leibniz rule."""
from math import comb

from .lib import *

LEVEL = "other"
FUNCTIONS = [NURBS + ":" + f for f in ("surface_point", "surface_point_py", "surface_derivatives", "surface_derivatives_py", "rat_surface_derivs", "rat_surface_derivs_py", "surface_deriv_cpts", "NURBSSurface.__init__", "NURBSSurface.create",
             "NURBSSurface.cevaluate", "NURBSSurface.generate_knots_u", "NURBSSurface.generate_knots_v", "NURBSSurface.normalize_knots", "NURBSSurface.cnormalize_knots", "NURBSSurface.control_points", "NURBSSurface.control_points_flat",
             "NURBSSurface.knots_u", "NURBSSurface.knots_v", "NURBSSurface.degree")] + ["mmcore.geom.parametric:ParametricSurface." + f for f in ("evaluate", "evaluate_v2", "evaluate_multi", "interval")]
ASSUMPTIONS = ["positive weights; clamped knot vectors"]


def loaded(): return prog().load(NURBS)


def net(c, n, m, name="P"):
    P = mat(c, name, n, m, 4)
    for i in range(n):
        for j in range(m): c.assume(lt(0, P[i, j, 3]))
    return P


def grid(c, pu, mu, pv, mv):
    n, m = pu + 1 + sum(mu), pv + 1 + sum(mv)
    U = clamped(c, n, pu, "U", mults=mu)
    V = clamped(c, m, pv, "V", mults=mv)
    c.inputs["degree"] = [pu, pv]
    return n, m, U, V, net(c, n, m)


def both(c, U, V, pu, pv, n, m):
    u, v = real(c, "u"), real(c, "v")
    return u, v, on_span(c, u, U, pu, n - 1), on_span(c, v, V, pv, m - 1)


def tensor(P, Nu, Nv, ku, kv, pu, pv):
    """homogeneous sum, four coordinates"""
    out = []
    for d in range(4):
        out.append(lin(Nu, [lin(Nv, [P[ku - pu + i, kv - pv + j, d] for j in range(pv + 1)]) for i in range(pu + 1)]))
    return out


def point_spec(P, U, V, pu, pv, u, v, ku, kv):
    return tensor(P, [cdb(ku - pu + i, pu, u, U, ku) for i in range(pu + 1)], [cdb(kv - pv + j, pv, v, V, kv) for j in range(pv + 1)], ku, kv, pu, pv)


def prove_spoint(c, got, H, name):
    c.prove(lt(0, H[3]), "the weight function is positive")
    for d in range(3): c.prove(eq(got[d], div(H[d], H[3])), name)


def evaluates(pu, mu, pv, mv):
    def body(c, ns):
        n, m, U, V, P = grid(c, pu, mu, pv, mv)
        u, v, ku, kv = both(c, U, V, pu, pv, n, m)
        c.cover("precondition is satisfiable")
        how = c.choose(5, "entry")
        s = ns["NURBSSurface"](P.copy(), (pu, pv), U.copy(), V.copy())
        uv = rt.arr_of([u, v], (2,))
        if how == 0: got = s.evaluate(uv)
        elif how == 1: got = s.evaluate_v2(u, v)
        elif how == 2: got = s.evaluate_multi(rt.arr_of([V[0], U[0], u, v], (2, 2)))[1] if False else s.evaluate_multi(rt.arr_of([U[0], V[0], u, v], (2, 2)))[1]
        elif how == 3: got = ns["surface_point_py"](n - 1, pu, U, m - 1, pv, V, P, u, v)
        else:
            s = ns["NURBSSurface"].create(P.copy(), pu, pv, U.copy(), V.copy())
            got = s.evaluate_v2(u, v)
        H = point_spec(P, U, V, pu, pv, u, v, ku, kv)
        prove_spoint(c, got, H, "equals the weighted basis combination")
    return Task(f"evaluate[{pu}x{pv},interior={mu}x{mv}]", body, f"degrees {pu}x{pv}, interior multiplicities {mu} and {mv}", setup=loaded)


def corners(pu, n, pv, m, weights):
    """omitted knots are the uniform clamped ones; corners, interval, knot setters and normalisation"""
    def body(c, ns):
        P = net(c, n, m) if weights else mat(c, "P", n, m, 3)
        W = lambda i, j: P[i, j, 3] if weights else 1
        s = ns["NURBSSurface"](P.copy(), (pu, pv))
        c.cover("precondition is satisfiable")
        U = [0] * (pu + 1) + list(range(1, n - pu)) + [n - pu] * (pu + 1)
        V = [0] * (pv + 1) + list(range(1, m - pv)) + [m - pv] * (pv + 1)
        prove_eqs(c, s.knots_u, U, "uniform clamped knots in u"); prove_eqs(c, s.knots_v, V, "uniform clamped knots in v")
        c.prove(len(s.knots_u) == len(U) and len(s.knots_v) == len(V), "knot counts")
        how = c.choose(4, "history")
        if how == 1:
            a, b = real(c, "a"), real(c, "b"); c.assume(lt(0, b))
            U = [add(a, mul(b, x)) for x in U]
            s.knots_u = rt.arr_of(U, (len(U),))
        elif how == 2:
            a, b = real(c, "a"), real(c, "b"); c.assume(lt(0, b))
            V = [add(a, mul(b, x)) for x in V]
            s.knots_v = rt.arr_of(V, (len(V),))
        elif how == 3:
            U = [Fraction(x, n - pu) for x in U]; V = [Fraction(x, m - pv) for x in V]
            s.normalize_knots()
            prove_eqs(c, s.knots_u, U, "normalised knots in u"); prove_eqs(c, s.knots_v, V, "normalised knots in v")
        (u0, u1), (v0, v1) = s.interval()
        c.prove(and_(eq(u0, U[0]), eq(u1, U[-1]), eq(v0, V[0]), eq(v1, V[-1])), "the parameter rectangle is the range of the knots")
        for i, u in ((0, U[0]), (n - 1, U[-1])):
            for j, v in ((0, V[0]), (m - 1, V[-1])):
                got = s.evaluate_v2(u, v)
                for d in range(3): c.prove(eq(got[d], div(P[i, j, d], W(i, j))), "corners are the corner control points")
        cp, cf = s.control_points, s.control_points_flat
        for i in range(n):
            for j in range(m):
                for d in range(3):
                    c.prove(eq(cp[i, j, d], div(P[i, j, d], W(i, j))), "control points are divided by their weights")
                    c.prove(eq(cf[i * m + j, d], div(P[i, j, d], W(i, j))), "flat control points are divided by their weights")
    return Task(f"corners[{pu}x{pv},{n}x{m},weights={int(weights)}]", body, f"degrees {pu}x{pv}, {n}x{m} control points", setup=loaded)


def sders(c, U, V, pu, pv, u, v, ku, kv, P, order):
    """homogeneous derivatives A[k][l][0..3]"""
    Nu = [[dcdb(ku - pu + i, pu, k, u, U, ku) for i in range(pu + 1)] for k in range(order + 1)]
    Nv = [[dcdb(kv - pv + j, pv, k, v, V, kv) for j in range(pv + 1)] for k in range(order + 1)]
    return [[tensor(P, Nu[k], Nv[l], ku, kv, pu, pv) for l in range(order + 1)] for k in range(order + 1)]


def derivs(pu, mu, pv, mv, order):
    def body(c, ns):
        n, m, U, V, P = grid(c, pu, mu, pv, mv)
        u, v, ku, kv = both(c, U, V, pu, pv, n, m)
        c.cover("precondition is satisfiable")
        A = sders(c, U, V, pu, pv, u, v, ku, kv, P, order)
        flat = P.reshape((n * m, 4))
        if c.choose(2, "buffer"):
            buf = rt.arr_of([var(f"junk{i}") for i in range((order + 1) ** 2 * 4)], (order + 1, order + 1, 4))
            S = ns["surface_derivatives_py"]((pu, pv), U, V, strict(flat), (n, m), u, v, order, strict(buf))
        else: S = ns["surface_derivatives_py"]((pu, pv), U, V, strict(flat), (n, m), u, v, order)
        for k in range(order + 1):
            for l in range(order + 1):
                for d in range(4): c.prove(eq(S[k, l, d], A[k][l][d]), f"homogeneous derivative {k},{l}")
    return Task(f"surface_derivatives[{pu}x{pv},interior={mu}x{mv},d={order}]", body, f"degrees {pu}x{pv}, interior multiplicities {mu} and {mv}, derivatives up to {order}", setup=loaded)


def quotient(order):
    def body(c, ns):
        A = mat(c, "A", order + 1, order + 1, 4)
        c.assume(lt(0, A[0, 0, 3]))
        c.cover("precondition is satisfiable")
        S = ns["rat_surface_derivs_py"](strict(A.copy()), order)
        for k in range(order + 1):
            for l in range(order + 1):
                for d in range(3):
                    r = 0
                    for i in range(k + 1):
                        for j in range(l + 1): r = add(r, mul(mul(comb(k, i) * comb(l, j), A[i, j, 3]), S[k - i, l - j, d]))
                    c.prove(eq(A[k, l, d], r), f"Leibniz rule {k},{l}")
    return Task(f"rat_surface_derivs[d={order}]", body, f"derivatives up to {order}", setup=loaded)


def control(pu, mu, pv, mv, order):
    """derivative control points of plain surfaces: combined with the bases of the lowered degrees they give the derivatives"""
    def body(c, ns):
        n, m = pu + 1 + sum(mu), pv + 1 + sum(mv)
        U, V = clamped(c, n, pu, "U", mults=mu), clamped(c, m, pv, "V", mults=mv)
        P = mat(c, "P", n, m, 3)
        u, v, ku, kv = both(c, U, V, pu, pv, n, m)
        c.cover("precondition is satisfiable")
        du, dv = min(pu, order), min(pv, order)
        K = rt.arr_of([0] * ((du + 1) * (dv + 1) * n * m * 3), (du + 1, dv + 1, n, m, 3))
        I = lambda *x: rt.arr_of(list(x), (len(x),))
        ns["surface_deriv_cpts"](3, I(pu, pv), U, V, strict(P.reshape((n * m, 3))), I(n, m), I(0, n - 1), I(0, m - 1), order, strict(K))
        for k in range(du + 1):
            for l in range(min(dv, order - k) + 1):
                Nu = [dcdb(ku - pu + i, pu, k, u, U, ku) for i in range(pu + 1)]
                Nv = [dcdb(kv - pv + j, pv, l, v, V, kv) for j in range(pv + 1)]
                Lu = [cdb(ku - (pu - k) + i, pu - k, u, U, ku) for i in range(pu - k + 1)]
                Lv = [cdb(kv - (pv - l) + j, pv - l, v, V, kv) for j in range(pv - l + 1)]
                for d in range(3):
                    want = lin(Nu, [lin(Nv, [P[ku - pu + i, kv - pv + j, d] for j in range(pv + 1)]) for i in range(pu + 1)])
                    got = lin(Lu, [lin(Lv, [K[k, l, ku - pu + i, kv - pv + j, d] for j in range(pv - l + 1)]) for i in range(pu - k + 1)])
                    c.prove(eq(got, want), f"control points of derivative {k},{l}")
    return Task(f"surface_deriv_cpts[{pu}x{pv},interior={mu}x{mv},d={order}]", body, f"degrees {pu}x{pv}, interior multiplicities {mu} and {mv}", setup=loaded)


TASKS = [evaluates(1, [1], 1, []), evaluates(2, [1], 1, [1]), evaluates(1, [1], 2, [1]), evaluates(2, [2], 2, [1]), evaluates(3, [1], 2, []), evaluates(3, [], 3, [1])]
TASKS += [corners(1, 2, 1, 3, True), corners(2, 3, 1, 2, True), corners(2, 4, 2, 3, False), corners(3, 4, 1, 2, False)]
TASKS += [derivs(1, [1], 1, [], 1), derivs(2, [1], 1, [1], 2), derivs(1, [1], 2, [1], 2), derivs(2, [], 2, [1], 2), derivs(3, [], 2, [], 2)]
TASKS += [quotient(k) for k in (0, 1, 2, 3)]
TASKS += [control(1, [1], 1, [], 1), control(2, [1], 1, [1, 1], 2), control(1, [1], 2, [1], 2), control(2, [1], 2, [], 2)]
MODEL_CASE = {}
