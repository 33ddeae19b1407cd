import numpy as np
from .lib import *
from .c03 import weighted
from mmcore.geom.nurbs import NURBSCurve, knot_insertion, knot_insertion_kv, knot_refinement, knot_removal


def gen(rng, i):
    p, n1 = degree_size(rng, 5, 6)
    U = knots(rng, n1, p, "clamped")
    P = weighted(rng, n1, rng.random() < 0.3)
    inner = [x for x in sorted(set(U)) if U[0] < x < U[-1]]
    t = rng.choice(inner) if inner and rng.random() < 0.4 else rng.uniform(U[0] + 0.01, U[-1] - 0.01)
    s = U.count(t)
    if s >= p: t, s = U[0] + (U[-1] - U[0]) * 0.37, 0
    if t in U: s = U.count(t)
    if s >= p: return None
    return {"U": U, "P": P, "p": p, "t": t, "r": rng.randint(1, p - s), "us": params(rng, U, p, n1 - 1) + [t], "before": rng.random() < 0.5}


def merged(U, t, r): return sorted(list(U) + [t] * r)


def check(c):
    if c is None: return
    U, P, p, t, r, us = c["U"], c["P"], c["p"], c["t"], c["r"], c["us"]
    s = U.count(t)
    for entry in ("insert_knot", "multiply_knot"):
        if entry == "multiply_knot": r = p - s
        V = merged(U, t, r)
        crv = NURBSCurve(np.array(P, float), p, np.array(U, float))
        if c["before"]:
            for u in us: crv.evaluate(u)
        crv.insert_knot(t, r) if entry == "insert_knot" else crv.multiply_knot(t)
        if not close(crv.knots, V): return f"{entry}({t}, {r}): knots {np.asarray(crv.knots).tolist()}, expected {V}"
        if len(np.asarray(crv.control_points)) != len(P) + r: return f"{entry}: {len(np.asarray(crv.control_points))} control points"
        if not close(crv.interval(), [U[0], U[-1]]): return f"{entry}: interval {crv.interval()}"
        g = [sum(V[i + 1:i + 1 + p]) / p for i in range(len(P) + r)]
        if not close(crv.greville_abscissae, g): return f"{entry}: Greville abscissae {np.asarray(crv.greville_abscissae).tolist()}, expected {g}"
        for u in us:
            want = curve(U, p, P, u)
            if not close(np.asarray(crv.evaluate(u))[:3], want): return f"after {entry}({t}, {r}) evaluate({u}) = {np.asarray(crv.evaluate(u)).tolist()}, expected {want}"
            if not close(np.asarray(crv.evaluate_multi(np.array([u, u])))[1][:3], want): return f"after {entry}({t}, {r}) evaluate_multi({u})"
            if not close(curve(V, p, np.asarray(crv.control_pointsw).tolist(), u), want): return f"after {entry}({t}, {r}): the new control points give another curve at {u}"


def check_raw(c):
    if c is None: return
    U, p, t, r, us = c["U"], c["p"], c["t"], c["r"], c["us"]
    Q = np.array(c["P"], float)[:, :3].copy()
    Ua = np.array(U, float)
    s, n = U.count(t), len(Q) - 1
    k = true_span(t, U, p, n)
    V = np.asarray(knot_insertion_kv(Ua, t, k, r))
    R = np.asarray(knot_insertion(p, Ua, Q, t, r, s, k))
    if not close(V, merged(U, t, r)): return f"knot_insertion_kv {V.tolist()}"
    for u in us:
        if not close(curve(V.tolist(), p, R.tolist(), u), curve(U, p, Q.tolist(), u)): return f"knot_insertion({t}, {r}) changes the curve at {u}"
    if min(b - a for a, b in zip(sorted(set(V.tolist())), sorted(set(V.tolist()))[1:])) < 1e-3: return
    if p > 1:
        R0 = R.copy()
        S = np.asarray(knot_removal(p, V, R, t, 1e-4, r))
        if not close(S, Q, 1e-5): return f"removing the knot {t} {r} times gives {S.tolist()}, expected {Q.tolist()}"
        if not np.array_equal(R, R0): return "knot_removal changes its argument"


def gen_ref(rng, i):
    p, n1 = degree_size(rng, 4, 4)
    U = knots(rng, n1, p, "clamped")
    P = pts(rng, n1)
    ts = [rng.choice([rng.uniform(U[0], U[-1]), rng.choice(U)]) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.3: ts += ts[:1]
    return {"U": U, "P": P, "p": p, "ts": ts, "mode": rng.choice(["list", "list", "default", "dense"]), "density": rng.choice([2, 2, 3, 3, 4]), "us": params(rng, U, p, n1 - 1)}


def check_ref(c):
    U, P, p, ts, us = c["U"], c["P"], c["p"], list(c["ts"]), c["us"]
    add, d = ts, 1
    inner = sorted(set(U))
    if c["mode"] != "list": add = inner
    if c["mode"] == "dense":
        d = c["density"]
        for _ in range(d - 1): add = sorted(add + [(a + b) / 2 for a, b in zip(add, add[1:])])
    add = sorted(set(add))
    allk = sorted(set(U) | set(add))
    if min(b - a for a, b in zip(allk, allk[1:])) < 1e-3: return
    if all(U.count(t) >= p for t in add): return
    L = np.array(ts, float)
    R, V = knot_refinement(p, np.array(U, float), np.array(P, float), L) if c["mode"] == "list" else knot_refinement(p, np.array(U, float), np.array(P, float), density=d)
    if not np.array_equal(L, ts): return "knot_refinement reorders the caller's knots"
    want = sorted(list(U) + [t for t in add for _ in range(p - U.count(t))])
    if not close(V, want): return f"refined knots {V.tolist()}, expected {want}"
    for u in us:
        if not close(curve(V.tolist(), p, R.tolist(), u), curve(U, p, P, u), 1e-7): return f"knot_refinement changes the curve at {u}"


KINDS = {"insert": (gen, check), "raw": (gen, check_raw), "refine": (gen_ref, check_ref)}
