import numpy as np
from .lib import *
from .c03 import weighted
from mmcore.geom.nurbs import NURBSCurve, NURBSSurface


def gen(rng, i):
    p, n1 = degree_size(rng, 5, 8)
    P = weighted(rng, n1, rng.random() < 0.5)
    return {"p": p, "U": knots(rng, n1, p, "clamped"), "P": P, "off": [rng.choice([0, 0, 50, -50]) for _ in range(3)], "result": rng.random() < 0.5}


def box_check(box, pts, on, what):
    box, pts = np.asarray(box, float), np.asarray(pts, float)
    if box.shape != (2, 3): return f"{what}: shape {box.shape}"
    want = [pts.min(axis=0), pts.max(axis=0)]
    if not close(box, want, 1e-12): return f"{what}: box {box.tolist()}, the control points lie in {np.asarray(want).tolist()}"
    for q in on:
        q = np.asarray(q, float)[:3]
        if np.any(q < box[0] - 1e-9 * (1 + abs(q))) or np.any(q > box[1] + 1e-9 * (1 + abs(q))): return f"{what}: point {q.tolist()} outside {box.tolist()}"


def check(c):
    P = np.array(c["P"], float)
    P[:, :3] += c["off"]
    U, p = c["U"], c["p"]
    crv = NURBSCurve(P.copy(), p, np.array(U))
    before = np.array(crv.control_pointsw)
    box = crv.bbox(np.full((2, 3), 7e7)) if c["result"] else crv.bbox()
    m = box_check(box, P[:, :3], [curve(U, p, P.tolist(), u) for u in np.linspace(U[0], U[-1], 7).tolist()], "curve")
    if m: return m
    if not np.array_equal(before, np.array(crv.control_pointsw)): return "bbox changed the curve"
    if not close(np.asarray(crv.bbox()), box, 0): return "bbox of the same curve differs"


def sgen(rng, i):
    n, m = rng.randint(2, 5), rng.randint(2, 5)
    return {"n": n, "m": m, "d": [rng.randint(1, n - 1), rng.randint(1, m - 1)], "P": pts(rng, n * m, 3), "w": [rng.choice([1, 1, 0.5, 2, 3]) for _ in range(n * m)], "uv": [[rng.random(), rng.random()] for _ in range(6)]}


def scheck(c):
    n, m = c["n"], c["m"]
    P, w = np.array(c["P"], float), np.array(c["w"], float)
    H = np.concatenate([P * w[:, None], w[:, None]], axis=1).reshape(n, m, 4)
    s = NURBSSurface(H.copy(), tuple(c["d"]))
    iv = np.asarray(s.interval(), float)
    on = []
    for a, b in c["uv"]:
        u, v = iv[0][0] + a * (iv[0][1] - iv[0][0]), iv[1][0] + b * (iv[1][1] - iv[1][0])
        on.append(s.evaluate_v2(u, v) if hasattr(s, "evaluate_v2") else s.evaluate(np.array([u, v])))
    r = box_check(s.bbox(), P, on, "surface")
    if r: return r
    if not np.array_equal(np.array(s.control_points_w), H): return "bbox changed the surface"


KINDS = {"curve": (gen, check), "surface": (sgen, scheck)}
