import pickle

import numpy as np
from .lib import *
from .c03 import weighted
from mmcore.geom.nurbs import NURBSCurve
from mmcore.geom.parametric import Ruled, BiLinear


def gen(rng, i):
    cs = []
    for _ in range(2):
        p = rng.randint(2, 4)
        n = p + 1 + rng.randint(0, 3)
        cs.append({"p": p, "U": knots(rng, n, p, "clamped"), "P": weighted(rng, n, rng.random() < 0.4)})
    return {"c": cs, "u": rng.choice([0.0, 1.0, rng.random(), rng.random()]), "v": rng.choice([0.0, 1.0, 0.5, rng.random(), rng.random() * 1e-3]), "q": rng.random() < 0.3}


def compare(s, u, v, S, du, dv, duu, duv, what):
    uv = np.array([u, v])
    for nm, got, want, tol in (("evaluate", s.evaluate(uv), S, 1e-8), ("evaluate_v2", s.evaluate_v2(u, v), S, 1e-8), ("evaluate_multi", s.evaluate_multi(np.array([[0.25, 0.75], [u, v]]))[1], S, 1e-8),
                          ("derivative_u", s.derivative_u(uv), du, 1e-7), ("derivative_v", s.derivative_v(uv), dv, 1e-7), ("second_derivative_uu", s.second_derivative_uu(uv), duu, 1e-7),
                          ("second_derivative_uv", s.second_derivative_uv(uv), duv, 1e-6), ("second_derivative_vv", s.second_derivative_vv(uv), np.zeros(3), 1e-7)):
        sc = 1 + np.abs(want).max() + np.abs(S).max()
        if np.abs(np.asarray(got) - want).max() > tol * sc * 10: return f"{what}: {nm} at {(u, v)} is {np.asarray(got).tolist()}, expected {np.asarray(want).tolist()}"
    if tuple(map(tuple, s.interval())) != ((0, 1), (0, 1)): return f"{what}: interval {s.interval()}"
    x, y = np.cross(du, dv), np.asarray(du)
    if np.linalg.norm(x) > 1e-6 * (1 + np.linalg.norm(du) * np.linalg.norm(dv)) and np.linalg.norm(y) > 1e-6:
        P = np.asarray(s.plane_at(uv))
        ex, ez = y / np.linalg.norm(y), x / np.linalg.norm(x)
        if not close(P, [S, ex, np.cross(ez, ex), ez], 1e-5): return f"{what}: plane_at {(u, v)} is {P.tolist()}"


def check(c):
    A, B = [NURBSCurve(np.array(k["P"]), k["p"], np.array(k["U"])) for k in c["c"]]
    u, v = c["u"], c["v"]
    s = Ruled(A, B)
    if c["q"]: s = pickle.loads(pickle.dumps(s))
    pt = []
    for crv, k in ((A, c["c"][0]), (B, c["c"][1])):
        lo, hi = k["U"][0], k["U"][-1]
        t = min(max(u * (hi - lo) + lo, lo), hi)
        pt.append((np.array(curve(k["U"], k["p"], k["P"], t)), (hi - lo) * np.asarray(crv.derivative(t))[:3], (hi - lo) ** 2 * np.asarray(crv.second_derivative(t))[:3]))
    (a, da, dda), (b, db, ddb) = pt
    return compare(s, u, v, (1 - v) * a + v * b, (1 - v) * da + v * db, b - a, (1 - v) * dda + v * ddb, db - da, "ruled")


def bgen(rng, i): return {"P": pts(rng, 4), "u": rng.choice([0.0, 1.0, rng.random()]), "v": rng.choice([0.0, 1.0, rng.random()]), "q": rng.random() < 0.3}


def bcheck(c):
    p00, p10, p11, p01 = P = np.array(c["P"], float)
    u, v = c["u"], c["v"]
    s = BiLinear(*P)
    if c["q"]: s = pickle.loads(pickle.dumps(s))
    du, dv = (1 - v) * (p10 - p00) + v * (p11 - p01), (1 - u) * (p01 - p00) + u * (p11 - p10)
    m = compare(s, u, v, (1 - v) * ((1 - u) * p00 + u * p10) + v * ((1 - u) * p01 + u * p11), du, dv, np.zeros(3), p00 - p01 - p10 + p11, "bilinear")
    if m: return m
    n = np.cross(du, dv)
    sc = 1e-8 * (1 + np.abs(du).max()) * (1 + np.abs(dv).max()) * 10
    for nm, got in (("normal", s.normal(np.array([u, v]))), ("normal_multi", s.normal_multi(np.array([[0.1, 0.2], [u, v]]))[1])):
        if np.abs(np.asarray(got) - n).max() > sc + 1e-8 * np.abs(P).max() ** 2: return f"bilinear: {nm} {np.asarray(got).tolist()}, expected {n.tolist()}"
    D = np.asarray(s.derivatives(np.array([u, v])))
    if np.abs(D - [du, dv]).max() > 1e-8 * (1 + np.abs(P).max()) * 10: return f"bilinear: derivatives {D.tolist()}"


KINDS = {"ruled": (gen, check), "bilinear": (bgen, bcheck)}
