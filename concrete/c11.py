import math
import numpy as np
from .lib import *
from .c03 import weighted
from mmcore.geom.nurbs import NURBSCurve, reverse_curve


def gen(rng, i):
    p, n1 = degree_size(rng, 5, 6)
    kind = rng.choice(["clamped", "clamped", "unclamped"])
    U = knots(rng, n1, p, kind)
    lo, hi = U[p], U[n1]
    return {"p": p, "U": U, "P": weighted(rng, n1, rng.random() < 0.5), "us": [lo, hi, (lo + hi) / 2] + [rng.uniform(lo, hi) for _ in range(6)], "ev": rng.random() < 0.5}


def check(c):
    p, U, P = c["p"], c["U"], c["P"]
    crv = NURBSCurve(np.array(P, float), p, np.array(U))
    if c["ev"]:
        for u in c["us"]: crv.evaluate(u)
    V = [U[0] + U[-1] - x for x in reversed(U)]
    for name, f in (("flip", lambda x: x.flip()), ("reverse_curve", reverse_curve)):
        r = f(crv)
        if not close(r.knots, V): return f"{name}: knots {np.asarray(r.knots).tolist()}, expected {V}"
        if not close(np.asarray(r.control_points), np.array(P, float)[::-1][:, :3]): return f"{name}: control points"
        w = [x[3] if len(x) > 3 else 1.0 for x in P]
        if not close(np.asarray(r.control_pointsw)[:, 3], w[::-1]): return f"{name}: weights"
        for u in c["us"]:
            v = min(max(U[0] + U[-1] - u, V[p]), V[len(P)])
            want, got = curve(U, p, P, u), np.asarray(r.evaluate(v))[:3]
            # the one-sided value at an interior knot is the same for a continuous curve only; skip full-multiplicity knots
            if not close(got, want, 1e-7) and not (u in U and U.count(u) > p): return f"{name}: evaluate({v}) = {got.tolist()}, the curve at {u} is {want}"
        rr = f(r)
        if not close(rr.knots, U) or not close(np.asarray(rr.control_pointsw), np.asarray(crv.control_pointsw)): return f"{name} twice is not the original"
    for u in c["us"]:
        if not close(np.asarray(crv.evaluate(u))[:3], curve(U, p, P, u), 1e-7): return "reversing changed the original"


def pgen(rng, i):
    p = rng.randint(1, 4)
    n = rng.randint(p + 1, p + 5)
    return {"p": p, "P": weighted(rng, n, rng.random() < 0.5), "ctor": rng.random() < 0.3, "us": [rng.uniform(0, n) for _ in range(5)] + [0.0, 1.0, n - 1.0], "ms": [rng.choice([-3, -2, -1, 0, 1, 2, 5]) for _ in range(8)]}


def pcheck(c):
    p, P = c["p"], np.array(c["P"], float)
    n = len(P)
    if P.shape[1] == 3: P = np.concatenate([P, np.ones((n, 1))], axis=1)
    crv = NURBSCurve(P.copy(), p, None, True) if c["ctor"] else NURBSCurve(P.copy(), p)
    if not c["ctor"]:
        crv.evaluate(0.5)
        crv.make_periodic()
    if len(np.asarray(crv.control_points)) == n: return
    Q = np.concatenate([P, P[:p]])
    U = [float(x) for x in range(-p, n + p + 1)]
    if not close(np.asarray(crv.control_pointsw), Q): return f"make_periodic: control points {np.asarray(crv.control_pointsw).tolist()}"
    if not close(crv.knots, U): return f"make_periodic: knots {np.asarray(crv.knots).tolist()}"
    if not crv.is_periodic(): return "make_periodic: is_periodic() is false"
    if not close(crv.evaluate(0), crv.evaluate(float(n)), 1e-9): return "the periodic curve is not closed"
    for u, m in zip(c["us"], c["ms"]):
        want = curve(U, p, Q.tolist(), u)
        t = float(u + m * n)
        if not close(np.asarray(crv.evaluate(t))[:3], want, 1e-7): return f"periodic curve at {t}: {np.asarray(crv.evaluate(t)).tolist()}, at {u}: {want}"
        if not close(np.asarray(crv.evaluate_multi(np.array([t])))[0][:3], want, 1e-7): return f"periodic curve, batch at {t}"
        if abs(u - round(u)) > 1e-6 and not close(crv.derivatives1(t, 1), crv.derivatives1(u, 1), 1e-6): return f"derivatives1 at {t} and {u} differ"
        if abs(u - round(u)) > 1e-6 and not close(crv.derivatives2(t, 1), crv.derivatives1(u, 1), 1e-6): return f"derivatives2 at {t} differs"
    crv.make_open()
    V = [0.0] * (p + 1) + [float(x) for x in range(1, n - p)] + [float(n - p)] * (p + 1)
    if not close(np.asarray(crv.control_pointsw), P) or not close(crv.knots, V): return "make_open does not restore the open curve"
    for k in range(5):
        u = k / 4 * (n - p)
        if not close(np.asarray(crv.evaluate(u))[:3], curve(V, p, P.tolist(), u), 1e-7): return f"opened curve at {u}"


def igen(rng, i):
    p = rng.randint(1, 3)
    n = rng.randint(2 * p, 2 * p + 3) if p > 1 else rng.randint(2, 6)
    P = weighted(rng, max(n, p + 1), True)
    if rng.random() < 0.7:
        P = P + [list(x) for x in P[:p]]
        if rng.random() < 0.5:
            r, k = rng.randrange(p), rng.randrange(4)
            P[-1 - r][k] += rng.choice([1.0, -0.5])
    return {"p": p, "P": P}


def icheck(c):
    p, P = c["p"], np.array(c["P"], float)
    got = bool(NURBSCurve(P.copy(), p).is_periodic())
    want = bool(np.array_equal(P[:p], P[len(P) - p:]))
    if got != want: return f"is_periodic() = {got}, the first and last {p} control points {'are' if want else 'are not'} equal"


KINDS = {"reversed": (gen, check), "periodic": (pgen, pcheck), "detect": (igen, icheck)}
