import numpy as np
from math import comb
from .lib import *
from .c03 import weighted
from mmcore.geom.nurbs import NURBSCurve, curve_derivs_alg1, curve_derivs_alg2


def gen(rng, i):
    p, n1 = degree_size(rng, 5, 5)
    U = knots(rng, n1, p, "clamped")
    return {"U": U, "P": weighted(rng, n1, rng.random() < 0.3), "p": p, "d": rng.randint(0, 4), "us": params(rng, U, p, n1 - 1)}


def exact(U, p, P, u, d):
    """exact derivatives 0..d of the rational curve"""
    n = len(P) - 1
    k = true_span(u, U, p, n)
    A = []
    for q in range(d + 1):
        N = dbasis(k, u, p, U, q) if q <= p else [Fraction(0)] * (p + 1)
        rows = [[Fraction(v) for v in P[k - p + j]] for j in range(p + 1)]
        A.append([sum(N[j] * rows[j][3] * (rows[j] + [1])[x if x < 3 else 4] for j in range(p + 1)) for x in range(4)])
    C = []
    for q in range(d + 1):
        C.append([(A[q][x] - sum(comb(q, i) * A[i][3] * C[q - i][x] for i in range(1, q + 1))) / A[0][3] for x in range(3)])
    return [[float(v) for v in r] for r in C]


def check(c):
    U, P, p, d = c["U"], c["P"], c["p"], c["d"]
    crv = NURBSCurve(np.array(P, float), p, np.array(U, float))
    Q = [r[:3] + [1.0] for r in P]
    A3 = np.array(P, float)[:, :3].copy()
    sc = max(1.0, max(abs(x) for r in P for x in r))
    for u in c["us"]:
        want = exact(U, p, P, u, max(d, 2))
        big = max(1.0, max(abs(x) for r in want for x in r))
        ok = lambda a, b: np.all(np.isfinite(a)) and np.allclose(a, b, rtol=1e-6, atol=1e-7 * big)
        for f in ("derivatives1", "derivatives2"):
            got = np.asarray(getattr(crv, f)(u, d))
            if got.shape != (min(d, p) + 1, 3): return f"{f}({u}, {d}) has shape {got.shape}"
            if not ok(got, want[:min(d, p) + 1]): return f"{f}({u}, {d}) = {got.tolist()}, expected {want}"
        if not ok(np.asarray(crv.derivative(u)), want[1]): return f"derivative({u}) = {np.asarray(crv.derivative(u)).tolist()}, expected {want[1]}"
        if not ok(np.asarray(crv.second_derivative(u)), want[2]): return f"second_derivative({u}) = {np.asarray(crv.second_derivative(u)).tolist()}, expected {want[2]}"
        flat = exact(U, p, Q, u, d)
        for f in (curve_derivs_alg1, curve_derivs_alg2):
            CK = np.zeros((d + 1, 3))
            a = [len(P) - 1, p, np.array(U, float), A3, u, d, CK] + ([np.zeros((d + 1, p + 1, 3))] if f is curve_derivs_alg2 else [])
            f(*a, False)
            if not ok(CK, flat): return f"{f.__name__}({u}, {d}) = {CK.tolist()}, expected {flat}"
        PK = np.asarray(crv.derivative_control_points(u, d))
        k = true_span(u, U, p, len(P) - 1)
        for q in range(min(d, p) + 1):
            N = basis_q(k, u, p, U, q)
            if not ok([sum(float(N[j]) * PK[q, j, x] for j in range(p - q + 1)) for x in range(3)], flat[q]): return f"derivative_control_points({u}, {d}) row {q}"
        m = frames(crv, u, want, big)
        if m: return m


def basis_q(k, u, p, U, q):
    """the basis of degree p-q on the knots of degree p, on span k"""
    Uf = [Fraction(x) for x in U]
    return [cdb(k - (p - q) + j, p - q, Fraction(u), Uf, k) for j in range(p - q + 1)]


def frames(crv, u, want, big):
    D1, D2 = np.array(want[1]), np.array(want[2])
    n1 = np.linalg.norm(D1)
    if n1 < 1e-3: return
    T = D1 / n1
    if not np.allclose(np.asarray(crv.tangent(u)), T, atol=1e-6): return f"tangent({u}) = {np.asarray(crv.tangent(u)).tolist()}, expected {T.tolist()}"
    K = (D2 - (D2 @ T) * T) / n1 ** 2
    if not np.allclose(np.asarray(crv.curvature(u)), K, rtol=1e-5, atol=1e-6 * (1 + np.abs(D2).max() / n1 ** 2)): return f"curvature({u}) = {np.asarray(crv.curvature(u)).tolist()}, expected {K.tolist()}"
    y = D2 - (D2 @ T) * T
    if np.linalg.norm(y) < 1e-3 * max(1, np.linalg.norm(D2)): return
    y /= np.linalg.norm(y)
    R = np.asarray(crv.plane_at(u))
    if not np.allclose(R, [want[0], T, y, np.cross(T, y)], rtol=1e-5, atol=1e-5): return f"plane_at({u}) = {R.tolist()}, expected {[want[0], T.tolist(), y.tolist(), np.cross(T, y).tolist()]}"
    if not np.allclose(np.asarray(crv.normal(u)), y, atol=1e-5): return f"normal({u})"


KINDS = {"derivatives": (gen, check)}
