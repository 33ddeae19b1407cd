import math
import numpy as np
from .lib import *
from mmcore.geom.nurbs import NURBSSurface, surface_point_py, surface_derivatives_py, rat_surface_derivs_py, surface_deriv_cpts


def net(rng, n, m, rational):
    P = np.array(pts(rng, n * m, 3), float).reshape(n, m, 3)
    w = np.array([rng.choice([1, 0.5, 2, 3]) if rational else 1 for _ in range(n * m)], float).reshape(n, m, 1)
    return np.concatenate([P * w, w], axis=2).tolist()


def hom(U, V, pu, pv, H, u, v, k=0, l=0):
    """exact homogeneous derivative k, l"""
    n, m = len(H) - 1, len(H[0]) - 1
    su, sv = true_span(u, U, pu, n), true_span(v, V, pv, m)
    A, B = dbasis(su, u, pu, U, k), dbasis(sv, v, pv, V, l)
    return [sum(A[i] * sum(B[j] * Fraction(H[su - pu + i][sv - pv + j][d]) for j in range(pv + 1)) for i in range(pu + 1)) for d in range(4)]


def surf(U, V, pu, pv, H, u, v):
    h = hom(U, V, pu, pv, H, u, v)
    return [float(x / h[3]) for x in h[:3]]


def gen(rng, i):
    (pu, n), (pv, m) = degree_size(rng, 3, 3), degree_size(rng, 3, 3)
    U, V = knots(rng, n, pu, "clamped"), knots(rng, m, pv, "clamped")
    return {"pu": pu, "pv": pv, "U": U, "V": V, "H": net(rng, n, m, rng.random() < 0.6), "us": params(rng, U, pu, n - 1, 4), "vs": params(rng, V, pv, m - 1, 4), "d": rng.randint(0, 3), "ops": [rng.choice(["ku", "kv", "norm", "degree"]) for _ in range(2)], "x": rng.choice([2.0, 0.5])}


def check(c):
    pu, pv, U, V, H = c["pu"], c["pv"], c["U"], c["V"], c["H"]
    n, m = len(H), len(H[0])
    HA = np.array(H)
    s = NURBSSurface(HA.copy(), (pu, pv), np.array(U), np.array(V))
    d = c["d"]
    for u, v in list(zip(c["us"], c["vs"])) + [(U[0], V[-1]), (U[-1], V[-1]), (U[-1], V[0])]:
        want = surf(U, V, pu, pv, H, u, v)
        for what, got in (("evaluate", s.evaluate(np.array([u, v]))), ("evaluate_v2", s.evaluate_v2(u, v)), ("evaluate_multi", s.evaluate_multi(np.array([[U[0], V[0]], [u, v]]))[1]),
                          ("surface_point_py", surface_point_py(n - 1, pu, np.array(U), m - 1, pv, np.array(V), HA, u, v))):
            if not close(np.asarray(got), want, 1e-7): return f"{what}({u}, {v}) = {np.asarray(got).tolist()}, expected {want}"
        S = surface_derivatives_py((pu, pv), np.array(U), np.array(V), HA.reshape(n * m, 4).copy(), (n, m), u, v, d, np.full((d + 1, d + 1, 4), 7.5) if d % 2 else None)
        R = rat_surface_derivs_py(S, d)
        for k in range(d + 1):
            for l in range(d + 1):
                A = [float(x) for x in hom(U, V, pu, pv, H, u, v, k, l)]
                if not close(S[k, l], A, 1e-6): return f"surface_derivatives at ({u}, {v}) [{k},{l}] = {S[k, l].tolist()}, expected {A}"
                r = sum(math.comb(k, i) * math.comb(l, j) * S[i, j, 3] * R[k - i, l - j] for i in range(k + 1) for j in range(l + 1))
                if not close(r, S[k, l, :3], 1e-6 * max(1, np.abs(R[:k + 1, :l + 1]).max())): return f"rat_surface_derivs [{k},{l}] does not satisfy the Leibniz rule at ({u}, {v})"
    if not np.array_equal(np.array(s.control_points_w), HA): return "evaluation changed the surface"
    cp = np.asarray(s.control_points)
    if not close(cp, HA[..., :3] / HA[..., 3:]): return "control_points are not divided by the weights"
    if not close(np.asarray(s.control_points_flat), (HA[..., :3] / HA[..., 3:]).reshape(-1, 3)): return "control_points_flat"
    for op in c["ops"]:
        if op == "ku": U = [x * c["x"] + 1 for x in U]; s.knots_u = np.array(U)
        elif op == "kv": V = [x * c["x"] - 2 for x in V]; s.knots_v = np.array(V)
        elif op == "norm": U, V = [(x - U[0]) / (U[-1] - U[0]) for x in U], [(x - V[0]) / (V[-1] - V[0]) for x in V]; s.normalize_knots()
        else:
            pu, pv = 1, 1; s.degree = (1, 1)
            U, V = [0.0] * 2 + [float(x) for x in range(1, n - 1)] + [n - 1.0] * 2, [0.0] * 2 + [float(x) for x in range(1, m - 1)] + [m - 1.0] * 2
        if not close(s.knots_u, U) or not close(s.knots_v, V): return f"knots after {op}"
        if not close(s.interval(), [[U[0], U[-1]], [V[0], V[-1]]]): return f"interval after {op}: {s.interval()}"
        for a in (0.0, 0.3, 0.77, 1.0):
            u, v = U[0] + a * (U[-1] - U[0]), V[0] + (1 - a) * (V[-1] - V[0])
            if min(abs(u - x) for x in U) < 1e-9 < abs(a * (1 - a)) or min(abs(v - x) for x in V) < 1e-9 < abs(a * (1 - a)): continue
            if not close(s.evaluate_v2(u, v), surf(U, V, pu, pv, H, u, v), 1e-7): return f"evaluation after {op}"


def cgen(rng, i):
    (pu, n), (pv, m) = degree_size(rng, 3, 3), degree_size(rng, 3, 3)
    U, V = knots(rng, n, pu, "clamped"), knots(rng, m, pv, "clamped")
    return {"pu": pu, "pv": pv, "U": U, "V": V, "P": np.array(pts(rng, n * m, 3)).reshape(n, m, 3).tolist(), "a": rng.random(), "b": rng.random(), "d": rng.randint(1, 3)}


def ccheck(c):
    pu, pv, U, V, P, d = c["pu"], c["pv"], c["U"], c["V"], c["P"], c["d"]
    n, m = len(P), len(P[0])
    u, v = U[0] + c["a"] * (U[-1] - U[0]), V[0] + c["b"] * (V[-1] - V[0])
    du, dv = min(pu, d), min(pv, d)
    K = np.zeros((du + 1, dv + 1, n, m, 3))
    I = lambda *x: np.array(x, dtype=np.int32)
    surface_deriv_cpts(3, I(pu, pv), np.array(U), np.array(V), np.array(P, float).reshape(n * m, 3), I(n, m), I(0, n - 1), I(0, m - 1), d, K)
    su, sv = true_span(u, U, pu, n - 1), true_span(v, V, pv, m - 1)
    H = [[list(q) + [1.0] for q in r] for r in P]
    for k in range(du + 1):
        for l in range(min(dv, d - k) + 1):
            A, B = basis_on(su, u, pu - k, U), basis_on(sv, v, pv - l, V)
            got = [float(sum(A[i] * sum(B[j] * Fraction(K[k, l, su - pu + i, sv - pv + j, x]) for j in range(pv - l + 1)) for i in range(pu - k + 1))) for x in range(3)]
            want = [float(x) for x in hom(U, V, pu, pv, H, u, v, k, l)[:3]]
            if not close(got, want, 1e-6): return f"derivative control points [{k},{l}] give {got} at ({u}, {v}), expected {want}"


def basis_on(span, u, p, U):
    return basis(span, u, p, U)


KINDS = {"surface": (gen, check), "derivative control points": (cgen, ccheck)}
