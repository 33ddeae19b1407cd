"""Executed contracts of point iterations: foot points on curves and surfaces, points on implicit curves and surfaces."""
import contextlib
import importlib
import io
import math

import numpy as np
PI = importlib.import_module("mmcore.numeric.algorithms.point_inversion")
IP = importlib.import_module("mmcore.numeric.algorithms.implicit_point")
MA = importlib.import_module("mmcore.numeric.marching")
NU = importlib.import_module("mmcore.geom.nurbs")


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()): return f()


# ---- foot points of curves
def cgen(rng, i):
    n = rng.randint(4, 6)
    return {"pts": [[j * 1.0, rng.uniform(-1, 1), rng.uniform(-1, 1)] for j in range(n)], "t": rng.uniform(.1, .9), "h": rng.choice([0., .02, .1, rng.uniform(0, .3)]), "a": rng.uniform(0, 6), "du": rng.uniform(-.05, .05),
            "tol": [rng.choice([1e-2, 1e-4, 1e-8]), rng.choice([1e-2, 1e-5, 1e-9])], "it": rng.choice([1, 2, 3, 50, 100])}


def crit_curve(C, D, P, q, r, t1, t2):
    a, b = C(r) - P, D(r)
    k = 1 + 1e-6
    if abs(r - q) * np.linalg.norm(D(q)) <= t1 * k or np.linalg.norm(a) <= t1 * k: return True
    return abs(a @ b) <= t2 * k * np.linalg.norm(a) * np.linalg.norm(b) + 1e-13


def ccheck(c):
    cu = NU.NURBSCurve(np.array(c["pts"]), 3)
    a, b = map(float, cu.interval())
    C, D, E = (lambda u, f=f: np.array(f(u), dtype=float)[:3] for f in (cu.evaluate, cu.derivative, cu.second_derivative))
    us = a + (b - a) * c["t"]
    T = D(us) / np.linalg.norm(D(us))
    n1 = np.cross(T, [0, 0, 1.]); n1 /= np.linalg.norm(n1)
    n2 = np.cross(T, n1)
    P = C(us) + c["h"] * (math.cos(c["a"]) * n1 + math.sin(c["a"]) * n2)
    keep = P.copy()
    u0 = us + (b - a) * c["du"]
    t1, t2 = c["tol"]
    # the true iteration
    q, hist, done = u0, [u0], False
    for _ in range(c["it"]):
        f, fp = D(q) @ (C(q) - P), E(q) @ (C(q) - P) + D(q) @ D(q)
        if abs(fp) < 1e-3: return None
        r = q - f / fp
        if not a < r < b: return None
        hist.append(r)
        if crit_curve(C, D, P, q, r, t1 * .5, t2 * .5): done = True; break
        q = r
    r = PI.point_inversion_curve(cu, P, u0, t1, t2, max_iter=c["it"])
    if not np.array_equal(P, keep): return "the point was changed"
    k = min(range(len(hist)), key=lambda j: abs(hist[j] - r))
    if abs(hist[k] - r) > 1e-7: return f"{r} is not a Newton iterate of {hist}"
    if k == len(hist) - 1: return None if done or k == c["it"] else "steps were left"
    if k == 0: return "no step was made"
    if not crit_curve(C, D, P, hist[k - 1], hist[k], t1 * 2, t2 * 2): return f"returned {r}, which satisfies no criterion; the iterates are {hist}"
    return None


# ---- foot points of surfaces
def sgen(rng, i):
    n, m = rng.randint(4, 5), rng.randint(4, 5)
    return {"z": [[rng.uniform(-.5, .5) for _ in range(m)] for _ in range(n)], "uv": [rng.uniform(.15, .85), rng.uniform(.15, .85)], "h": rng.choice([0., .01, .05, .15]), "d": [rng.uniform(-.05, .05), rng.uniform(-.05, .05)],
            "tol": [rng.choice([1e-2, 1e-4, 1e-8]), rng.choice([1e-2, 1e-5, 1e-9])], "it": rng.choice([1, 2, 3, 50, 100]), "many": rng.random() < .4, "strict": False}


class Surf:
    """a surface that can be called on arrays, over a NURBS surface"""
    def __init__(self, s): self.s = s
    def evaluate(self, x): return np.asarray(self.s.evaluate(np.array(x)))
    def derivative_u(self, x): return np.asarray(self.s.derivative_u(np.array(x)))
    def derivative_v(self, x): return np.asarray(self.s.derivative_v(np.array(x)))
    def __call__(self, x):
        x = np.asarray(x)
        return self.evaluate(x) if x.ndim == 1 else np.array([self.evaluate(p) for p in x])


def crit_surf(S, U, W, P, q, r, t1, t2):
    k = 1 + 1e-6
    d = S(r) - P
    if np.linalg.norm(r - q) * (np.linalg.norm(U(q)) + np.linalg.norm(W(q))) <= t1 * k or np.linalg.norm(d) <= t1 * k: return True
    return all(abs(a @ d) <= t2 * k * np.linalg.norm(a) * np.linalg.norm(d) + 1e-13 for a in (U(r), W(r)))


def trace(S, U, W, P, q, t1, t2, it, lo, hi):
    hist = [q]
    for _ in range(it):
        u, w, d = U(q), W(q), S(q) - P
        r = q - np.linalg.solve(np.array([[u @ u, u @ w], [u @ w, w @ w]]), np.array([u @ d, w @ d]))
        if not ((lo < r).all() and (r < hi).all()): return None, False
        hist.append(r)
        if crit_surf(S, U, W, P, q, r, t1 * .5, t2 * .5): return hist, True
        q = r
    return hist, False


def judge(S, U, W, P, r, hist, done, t1, t2, it, late=False):
    """late: the iterate before the one that satisfies a criterion is accepted (open finding of point_inversion_surface)"""
    k = min(range(len(hist)), key=lambda j: np.linalg.norm(hist[j] - r))
    if np.linalg.norm(hist[k] - r) > 1e-7: return f"{r} is not an iterate of {hist}"
    if k == len(hist) - 1: return None if done or k == it else "steps were left"
    if late and (done and k == len(hist) - 2 or crit_surf(S, U, W, P, hist[k], hist[k + 1], t1 * 2, t2 * 2)): return None
    if k == 0: return "no step was made"
    if not crit_surf(S, U, W, P, hist[k - 1], hist[k], t1 * 2, t2 * 2): return f"returned {r}, which satisfies no criterion; the iterates are {hist}"
    return None


def scheck(c):
    z = np.array(c["z"])
    n, m = z.shape
    x, y = np.meshgrid(np.arange(n) * 1., np.arange(m) * 1., indexing="ij")
    s = NU.NURBSSurface(np.stack([x, y, z], -1), (3, 3))
    o = Surf(s)
    S, U, W = (lambda q, f=f: f(q)[:3] for f in (o.evaluate, o.derivative_u, o.derivative_v))
    (a, b), (a2, b2) = [tuple(map(float, i)) for i in s.interval()]
    lo, hi = np.array([a, a2]), np.array([b, b2])
    at = lo + (hi - lo) * np.array(c["uv"])
    nn = np.cross(U(at), W(at)); nn /= np.linalg.norm(nn)
    P = S(at) + c["h"] * nn
    keep = P.copy()
    q0 = at + (hi - lo) * np.array(c["d"])
    t1, t2 = c["tol"]
    hist, done = trace(S, U, W, P, q0, t1, t2, c["it"], lo, hi)
    if hist is None: return None
    r = np.asarray(PI.point_inversion_surface(s, P, float(q0[0]), float(q0[1]), t1, t2, max_iter=c["it"]))
    if not np.array_equal(P, keep): return "the point was changed"
    e = judge(S, U, W, P, r, hist, done, t1, t2, c["it"], late=not c.get("strict"))
    if e or not c["many"]: return e
    Ps = np.array([P, S(at), P + .05 * nn])
    hs = [trace(S, U, W, p, q0, t1, t2, c["it"], lo, hi) for p in Ps]
    if any(h is None for h, _ in hs): return None
    keep = Ps.copy()
    out = io.StringIO()
    with contextlib.redirect_stdout(out): R = np.asarray(PI.points_inversion_surface(o, Ps, float(q0[0]), float(q0[1]), t1, t2, max_iter=c["it"]))
    if out.getvalue(): return f"printed {out.getvalue()[:60]!r}"
    if not np.array_equal(Ps, keep): return "the points were changed"
    for p, r, (h, d) in zip(Ps, R, hs):
        e = judge(S, U, W, p, r, h, d, t1, t2, c["it"])
        if e: return f"array form: {e}"
    return None


# ---- implicit curves and surfaces
def igen(rng, i):
    return {"c": [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(2)], "r": [rng.uniform(1.2, 2), rng.uniform(1.2, 2)], "q": [rng.uniform(-2, 2) for _ in range(3)], "line": rng.random() < .2, "s": rng.uniform(-2, 3), "ax": rng.randint(0, 2), "tol": rng.choice([1e-4, 1e-6, 1e-10])}


def sph(C, R):
    return (lambda p: float((np.asarray(p) - C) @ (np.asarray(p) - C)) - R * R), (lambda p: 2 * (np.asarray(p, float) - C))


def icheck(c):
    C1, C2 = np.array(c["c"])
    r1, r2 = c["r"]
    tol = c["tol"]
    (f1, g1), (f2, g2) = sph(C1, r1), sph(C2, r2)
    q = np.array(c["q"])
    if c["line"]:
        # exactly parallel gradients: numbers that are exact in floats
        C1, q = np.round(4 * C1) / 4, np.round(4 * C1) / 4
        C2 = C1 + np.eye(3)[c["ax"]] * (round(8 * c["s"]) / 8 or .5)
        q = q + np.eye(3)[c["ax"]] * (round(8 * c["q"][0]) / 8)
        (f1, g1), (f2, g2) = sph(C1, r1), sph(C2, r2)
    if min(np.linalg.norm(q - C1), np.linalg.norm(q - C2)) < .05: return None
    keep = q.copy()
    d = np.linalg.norm(C1 - C2)
    bound = 200 * tol + 1e-9
    try: ok, p = IP.intersection_curve_point(f1, f2, q, g1, g2, tol=tol, no_err=True)
    except ValueError as e: return f"an exception although a flag was asked for: {e}"
    if not np.array_equal(q, keep): return "the starting point was changed"
    if ok and max(abs(f1(p)), abs(f2(p))) > bound: return f"{p} is reported to be on both surfaces; the values are {f1(p)}, {f2(p)}"
    if not c["line"] and not ok and abs(r1 - r2) + .3 < d < r1 + r2 - .3 and np.linalg.norm(np.cross(q - C1, C2 - C1)) > .5 * d: return "no point found from a regular start"
    try: p = IP.intersection_curve_point(f1, f2, q, g1, g2, tol=tol)
    except ValueError: p = None
    if (p is not None) != bool(ok): return "the two ways to report failure differ"
    if p is not None and max(abs(f1(p)), abs(f2(p))) > bound: return f"{p} returned although it is on neither: {f1(p)}, {f2(p)}"
    ok2, t = IP.intersection_curve_point(f1, f2, q, g1, g2, tol=tol, no_err=True, return_grads=True)
    if bool(ok2) != bool(ok) or len(t) != 5: return "with gradients asked for the result has another form"
    if ok:
        if np.linalg.norm(np.asarray(t[0]) - p) > 1e-12: return "with gradients asked for the point differs"
        if np.linalg.norm(np.asarray(t[3]) - g1(p)) > 10 * tol + 1e-9 or np.linalg.norm(np.asarray(t[4]) - g2(p)) > 10 * tol + 1e-9 or abs(t[1]) > bound or abs(t[2]) > bound: return "values or gradients returned are not those at the point"
    s = quiet(lambda: IP.surface_point(f1, q, g1, tol))
    if abs(f1(s)) > bound or not np.array_equal(q, keep): return f"surface point {s}: value {f1(s)}"
    dirc = (q - C1) / np.linalg.norm(q - C1)
    if np.linalg.norm(s - (C1 + r1 * dirc)) > 1e-3: return "the surface point left the normal line of a sphere"
    o, n, a, b = quiet(lambda: IP.surface_plane(f1, q, g1, tol))
    F = np.array([n, a, b])
    if abs(f1(o)) > bound or np.abs(F @ F.T - np.eye(3)).max() > 1e-9 or np.linalg.norm(np.cross(n, a) - b) > 1e-9 or np.linalg.norm(n - dirc) > 1e-6: return "the tangent frame is not one"
    c2, r = C1[:2], r1
    h1, k1 = sph(c2, r)
    q2 = q[:2].copy()
    if np.linalg.norm(q2 - c2) < .05: return None
    for nm, f in (("curve_point", lambda: IP.curve_point(h1, q2, tol, k1)), ("_curve_point2", lambda: IP._curve_point2(h1, q2, tol, k1))):
        p = f()
        if abs(h1(p)) > bound: return f"{nm}: {p} is off the curve by {h1(p)}"
        if not np.array_equal(q2, keep[:2]): return f"{nm} changed the starting point"
    return None


def mgen(rng, i): return {"c": [rng.uniform(-1, 1), rng.uniform(-1, 1)], "r": rng.uniform(1, 2), "step": rng.uniform(.05, .3), "n": rng.randint(10, 14), "c3": [rng.uniform(.3, .8) for _ in range(3)]}


def mcheck(c):
    C, r = np.array(c["c"]), c["r"]
    f, g = sph(C, r)
    P = quiet(lambda: np.array(MA.marching_implicit_curve_points(f, C + [r, .05], max_points=400, step=c["step"], delta=1e-6, grad=g)))
    v = max(abs(f(p)) for p in P)
    if v > 1e-4: return f"a marching point is off the curve by {v}"
    gap = np.linalg.norm(np.diff(P, axis=0), axis=1).max()
    if gap > 1.6 * c["step"]: return f"consecutive marching points are {gap} apart, step {c['step']}"
    dist = lambda p: math.hypot(p[0] - C[0], p[1] - C[1]) - r
    for gi in (True, False):
        h = f if gi else dist                      # the short form is for distance functions
        R = quiet(lambda: MA.raster_algorithm_2d(h, C[0] - 2.5, C[0] + 2.5, C[1] - 2.5, C[1] + 2.5, c["n"], c["n"], general_implicit=gi))
        if not len(R): return "no raster points"
        v = max(abs(dist(p)) for p in R)
        if v > (1e-2 if gi else 1e-4): return f"a raster point is off the curve by {v}"
    a, b = sph(np.zeros(3), 1.), sph(np.array(c["c3"]), 1.)
    q = IP.intersection_curve_point(a[0], b[0], np.array([1., -1., .3]), a[1], b[1])
    P = quiet(lambda: MA.marching_intersection_curve_points(a[0], b[0], a[1], b[1], q, step=c["step"], max_points=300))
    v = max(max(abs(a[0](p)), abs(b[0](p))) for p in P)
    if v > 1e-4: return f"a marching point is off the surfaces by {v}"
    gap = np.linalg.norm(np.diff(P, axis=0), axis=1).max(initial=0)
    if gap > 1.6 * c["step"]: return f"consecutive marching points are {gap} apart"
    return None


KINDS = {"curve": (cgen, ccheck), "surface": (sgen, scheck), "implicit": (igen, icheck), "marching": (mgen, mcheck)}
