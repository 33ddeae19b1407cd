import numpy as np
from .lib import *
from mmcore.geom.nurbs import NURBSCurve
from mmcore.geom.curves.deboor import evaluate_nurbs_multi


def weighted(rng, n1, uniform=False):
    P = pts(rng, n1)
    return [r + [1.0 if uniform else rng.choice([1.0, 0.5, 2.0, rng.uniform(0.2, 4)])] for r in P]


def gen(rng, i):
    p, n1 = degree_size(rng, 5, 6)
    U = knots(rng, n1, p, "clamped")
    return {"U": U, "P": weighted(rng, n1, rng.random() < 0.3), "p": p, "us": params(rng, U, p, n1 - 1)}


def agree(crv, U, p, P, us, what):
    for u in us:
        want = curve(U, p, P, u)
        for name, got in (("evaluate", crv.evaluate(u)), ("evaluate_multi", crv.evaluate_multi(np.array([u, u]))[1]), ("call", np.asarray(crv(u)).reshape(-1))):
            if not close(np.asarray(got)[:3], want): return f"{what}: {name}({u}) = {np.asarray(got).tolist()}, expected {want}"


def check(c):
    U, P, p, us = c["U"], c["P"], c["p"], c["us"]
    crv = NURBSCurve(np.array(P, float), p, np.array(U, float))
    m = agree(crv, U, p, P, us, "curve")
    if m: return m
    if not close(crv.interval(), [U[p], U[-p - 1]]): return f"interval {crv.interval()}"
    for u, i in ((U[0], 0), (U[-1], -1)):
        if not close(crv.evaluate(u), P[i][:3]): return f"end point at {u}"
    if not close(np.asarray(crv.evaluate4d(us[0]))[:3], curve(U, p, P, us[0])): return "evaluate4d"
    if p < 4:
        A = np.array(P, float)
        got = np.asarray(evaluate_nurbs_multi(np.array(us, float), A[:, :3].copy(), np.array(U, float), A[:, 3].copy(), p))
        want = [curve(U, p, P, u) for u in us]
        if not close(got, want): return f"evaluate_nurbs_multi {got.tolist()}, expected {want}"


def gen_upd(rng, i):
    c = gen(rng, i)
    n1, p = len(c["P"]), c["p"]
    c["W"] = [rng.uniform(0.2, 4) for _ in range(n1)]
    c["Q"] = weighted(rng, n1)
    c["shift"] = rng.choice([0.5, -1.0, 2.0])
    c["order"] = rng.sample(["weights", "points4", "points3", "knots", "set"], 3)
    return c


def check_upd(c):
    U, P, p, us = list(c["U"]), [list(r) for r in c["P"]], c["p"], list(c["us"])
    crv = NURBSCurve(np.array(P, float), p, np.array(U, float))
    for u in us: crv.evaluate(u)
    for w in c["order"]:
        if w == "weights":
            crv.weights = np.array(c["W"], float)
            P = [r[:3] + [x] for r, x in zip(P, c["W"])]
        elif w == "points4":
            crv.control_points = np.array(c["Q"], float)
            P = [list(r) for r in c["Q"]]
        elif w == "points3":
            crv.control_points = np.array(c["Q"], float)[:, :3].copy()
            P = [r[:3] + [1.0] for r in c["Q"]]
        elif w == "knots":
            U = [x + c["shift"] for x in U]
            us = [u + c["shift"] for u in us]
            us = [min(max(u, U[p]), U[-p - 1]) for u in us]
            crv.knots = np.array(U, float)
        else:
            P = [list(r) for r in c["Q"][::-1]]
            crv.set(np.array(P, float), np.array(U, float))
        m = agree(crv, U, p, P, us, f"after {w} (of {c['order']})")
        if m: return m


def gen_def(rng, i):
    p, n1 = degree_size(rng, 4, 6)
    return {"P": weighted(rng, n1), "p": p, "t": [rng.random() for _ in range(5)] + [0.0, 1.0]}


def check_def(c):
    P, p = c["P"], c["p"]
    n1 = len(P)
    U = [0] * (p + 1) + list(range(1, n1 - p)) + [n1 - p] * (p + 1)
    crv = NURBSCurve(np.array(P, float), p)
    if not close(crv.knots, U): return f"default knots {np.asarray(crv.knots).tolist()}, expected {U}"
    return agree(crv, U, p, P, [t * (n1 - p) for t in c["t"]], "default knots")


KINDS = {"curve": (gen, check), "update": (gen_upd, check_upd), "default": (gen_def, check_def)}
