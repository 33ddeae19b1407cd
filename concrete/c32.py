"""Executed contracts of the differential geometry of surfaces: independent closed forms of polynomial surfaces, spheres, cylinders and tori."""
import importlib
import math

import numpy as np
EV = importlib.import_module("mmcore.geom.evaluator.surface_evaluator")
FF = importlib.import_module("mmcore.geom.surfaces.fundamental_forms")
GE = importlib.import_module("mmcore.geom.surfaces.geodesic")


class Surface:
    """r(u, v) = A * base(T (u, v)) + o with closed-form derivatives; A orthogonal, T a linear change of parameters"""
    def __init__(self, c):
        self.kind, self.k = c["kind"], c["k"]
        self.A, self.o, self.T = np.array(c["A"], float) * c.get("s", 1.), np.array(c["o"], float), np.array(c["T"], float)

    def base(self, s, t, a, b):
        k = self.kind
        cs = lambda x, n: math.cos(x + n * math.pi / 2)
        sn = lambda x, n: math.sin(x + n * math.pi / 2)
        if k == "sphere":
            return self.k[0] * np.array([cs(s, a) * cs(t, b), sn(s, a) * cs(t, b), sn(t, b) if a == 0 else 0.])
        if k == "cylinder":
            r = self.k[0]
            return np.array([r * cs(s, a) if b == 0 else 0., r * sn(s, a) if b == 0 else 0., [t, 1., 0.][min(b, 2)] if a == 0 else 0.])
        if k == "torus":
            R, r = self.k[:2]
            w = (R if b == 0 else 0.) + r * cs(t, b)
            return np.array([w * cs(s, a), w * sn(s, a), r * sn(t, b) if a == 0 else 0.])
        out = np.zeros(3)
        for (i, j), q in ((tuple(x[0]), x[1]) for x in self.k):
            if i < a or j < b: continue
            out += np.array(q, float) * math.perm(i, a) * math.perm(j, b) * s ** (i - a) * t ** (j - b)
        return out

    def D(self, u, v, a=0, b=0):
        s, t = self.T @ (u, v)
        # chain rule of a linear change of parameters
        cols = [self.T[:, 0]] * a + [self.T[:, 1]] * b
        out = np.zeros(3)
        for pick in np.ndindex(*(2,) * len(cols)):
            w = 1.
            for c, p in zip(cols, pick): w *= c[p]
            out += w * self.base(s, t, sum(p == 0 for p in pick), sum(p == 1 for p in pick))
        return self.A @ out + (self.o if a + b == 0 else 0)

    def __call__(self, u, v): return self.D(u, v)
    def evaluate_v2(self, u, v): return self.D(u, v)
    def derivatives(self, uv): return np.array([self.D(*uv, 1, 0), self.D(*uv, 0, 1)])
    def derivative_u(self, uv): return self.D(*uv, 1, 0)
    def derivative_v(self, uv): return self.D(*uv, 0, 1)
    def second_derivative_uu(self, uv): return self.D(*uv, 2, 0)
    def second_derivative_vv(self, uv): return self.D(*uv, 0, 2)
    def second_derivative_uv(self, uv): return self.D(*uv, 1, 1)


def rot(rng):
    q = np.array([rng.gauss(0, 1) for _ in range(4)])
    w, x, y, z = q / np.linalg.norm(q)
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def sgen(rng, i):
    kind = rng.choice(["graph", "graph", "poly", "sphere", "cylinder", "torus"])
    if kind in ("graph", "poly"):
        deg = rng.choice([1, 2, 2, 3])
        k = []
        for a in range(deg + 1):
            for b in range(deg + 1 - a):
                q = [rng.choice([0., 0., 1., -1., 2., rng.uniform(-2, 2)]) for _ in range(3)]
                if kind == "graph": q = [1. if (a, b) == (1, 0) else 0., 1. if (a, b) == (0, 1) else 0., q[2] if a + b > 1 else 0.]
                k.append([[a, b], q])
    else: k = [rng.choice([1., 2., 0.5, 3.]) + 2, rng.choice([1., 0.5, 1.5])]
    T = rng.choice([[[1., 0.], [0., 1.]], [[0., 1.], [1., 0.]], [[1., 0.5], [0., 1.]], [[2., 0.], [0., 0.5]], [[1., -1.], [1., 1.]]])
    return {"kind": kind, "k": k, "A": rot(rng) if rng.random() < 0.7 else [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], "o": [rng.uniform(-3, 3) for _ in range(3)], "T": T, "s": rng.choice([1., 1., 1., 5., 0.1, 0.03]),
            "uv": [[rng.choice([0., rng.uniform(-.7, .7)]), rng.choice([0., rng.uniform(-.7, .7)])] for _ in range(rng.randint(1, 4))], "w": [rng.uniform(-1, 1), rng.uniform(-1, 1)]}


def frame(S, u, v):
    du, dv, uu, vv, uv = S.D(u, v, 1, 0), S.D(u, v, 0, 1), S.D(u, v, 2, 0), S.D(u, v, 0, 2), S.D(u, v, 1, 1)
    n = np.cross(du, dv)
    if np.linalg.norm(n) < 0.05 * np.linalg.norm(S.A[0]) ** 2: return None
    n /= np.linalg.norm(n)
    I = np.array([[du @ du, du @ dv], [du @ dv, dv @ dv]])
    II = np.array([[uu @ n, uv @ n], [uv @ n, vv @ n]])
    return du, dv, uu, vv, uv, n, I, II


def near(a, b, tol, scale=1.): return np.all(np.isfinite(a)) and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=tol * max(1., scale))


# ---- difference quotients
def echeck(c):
    S = Surface(c)
    us, vs = np.array([x[0] for x in c["uv"]]), np.array([x[1] for x in c["uv"]])
    good = [k for k in range(len(us)) if frame(S, us[k], vs[k])]
    us, vs = us[good], vs[good]
    want = {}
    for u, v in zip(us, vs):
        du, dv, uu, vv, uv, n, I, II = frame(S, u, v)
        for name, w in (("derivatives", [du, dv]), ("derivatives_normal", [du, dv, n]), ("origin_derivatives_normal", [S(u, v), du, dv, n]), ("second_derivatives", [S(u, v), du, dv, uu, vv, uv])):
            got = getattr(EV, name)(S, u, v)
            big = max(np.abs(x).max() for x in w)
            if not near(got, w, 2e-3, big): return f"{name} at ({u}, {v}) is {np.asarray(got).tolist()}, not {np.array(w).tolist()}"
            want.setdefault(name, []).append(np.asarray(got))
        for name, w in (("u", du), ("v", dv), ("uu", uu), ("vv", vv), ("uv", uv)):
            r = np.full(3, np.nan)
            getattr(EV, "c_derivative_" + name)(S, u, v, r)
            if not near(r, w, 2e-3, np.abs(w).max()): return f"c_derivative_{name} at ({u}, {v}) is {r.tolist()}, not {w.tolist()}"
    if len(us):
        for name, w in want.items():
            got = getattr(EV, name + "_array")(S, us, vs)
            if np.shape(got) != np.shape(w) or not near(got, w, 1e-12): return f"{name}_array is not the {name} of its rows"


# ---- curvatures
def kcheck(c):
    S = Surface(c)
    for u, v in c["uv"]:
        f = frame(S, u, v)
        if f is None: continue
        du, dv, uu, vv, uv, n, I, II = f
        W = np.linalg.solve(I, II)
        K, H = np.linalg.det(II) / np.linalg.det(I), np.trace(W) / 2
        root = math.sqrt(max(H * H - K, 0))
        q1, q2 = H + root, H - root
        E, F, G = FF.first_fundamental_form(du, dv)
        L, M, N = FF.second_fundamental_form(uu, uv, vv, n)
        if not near([[E, F], [F, G]], I, 1e-9) or not near([[L, M], [M, N]], II, 1e-9): return f"fundamental forms at ({u}, {v})"
        s = 1 + abs(q1) + abs(q2)
        if not near(FF.gaussian_curvature(E, F, G, L, M, N), K, 1e-8, s * s): return f"gaussian curvature at ({u}, {v}), expected {K}"
        if not near(FF.mean_curvature(E, F, G, L, M, N), H, 1e-8, s): return f"mean curvature at ({u}, {v}), expected {H}"
        k1, k2 = FF.principal_curvatures(E, F, G, L, M, N)
        if not near([k1, k2], [q1, q2], 1e-5, s): return f"principal curvatures at ({u}, {v}) are {k1, k2}, not {q1, q2}"
        d1, d2 = FF.principal_directions(E, F, G, L, M, N, k1, k2)
        gap = k1 - k2
        if gap > 1e-3 * s or gap <= 1e-8 * s:
            for d, k in ((d1, q1), (d2, q2)):
                if not near(np.linalg.norm(d), 1, 1e-9): return f"principal direction {d} at ({u}, {v}) is no unit vector"
                if not near(W @ d, k * d, 1e-4, s): return f"principal direction {d.tolist()} at ({u}, {v}) is no eigenvector of the shape operator"
                if not near(FF.normal_curvature(E, F, G, L, M, N, *d), k, 1e-4, s): return f"normal curvature along the principal direction at ({u}, {v})"
            if abs(d1 @ I @ d2) > 1e-4 * (1 + abs(I).max()): return f"principal directions at ({u}, {v}) are not orthogonal on the surface"
            w = np.array(c["w"])
            if np.linalg.norm(w) > 0.1:
                t, t1 = w[0] * du + w[1] * dv, d1[0] * du + d1[1] * dv
                cos = t @ t1 / np.linalg.norm(t) / np.linalg.norm(t1)
                kn = (w @ II @ w) / (w @ I @ w)
                if not near(FF.normal_curvature(E, F, G, L, M, N, *w), kn, 1e-8, s): return f"normal curvature along {w.tolist()} at ({u}, {v})"
                if not near(FF.euler_curvature(k1, k2, math.acos(max(-1, min(1, cos)))), kn, 1e-4, s): return f"Euler's formula along {w.tolist()} at ({u}, {v})"
        if not near(FF.infinitesimal_arc_length(E, F, G, *c["w"]), np.linalg.norm(c["w"][0] * du + c["w"][1] * dv), 1e-9): return f"arc length element at ({u}, {v})"


# ---- classification
def pcheck(c):
    S = Surface(c)
    T = FF.PointOnSurfaceType
    for u, v in c["uv"]:
        f = frame(S, u, v)
        if f is None: continue
        du, dv, uu, vv, uv, n, I, II = f
        # exact flat, parabolic, elliptic and hyperbolic points: those that rounding cannot move
        K, H = np.linalg.det(II) / np.linalg.det(I), np.trace(np.linalg.solve(I, II)) / 2
        if abs(K) > 1e-2: want = T.ELLIPTIC if K > 0 else T.HYPERBOLIC
        elif c["kind"] == "cylinder": want = T.PARABOLIC
        else: continue
        if want is not T.PARABOLIC:
            if FF.classify_point(K, H) != want: return f"classify_point({K}, {H})"
            got = FF.classify_point_on_surface(S, u, v)
            if got != want: return f"the point ({u}, {v}) with K = {K} is {got!r}"
            got = FF.classify_point_on_surface(S, u, v, use_dupin=True)
            if got != want: return f"the point ({u}, {v}) with K = {K} is {got!r} by its principal curvatures"
            got, curve = FF.dupin_indicatrix_on_surface(S, u, v)
            r = math.sqrt(max(H * H - K, 0))
            if got != want: return f"dupin indicatrix at ({u}, {v}): {got!r}"
            for t in (0.3, 1.):
                x, y = curve(t)
                if want == T.ELLIPTIC and not near(abs((H + r) * x * x) + abs((H - r) * y * y), 1, 1e-2): return f"the indicatrix at ({u}, {v}) is not the conic k1 x^2 + k2 y^2 = +-1"
                if want == T.HYPERBOLIC and not near(abs((H + r) * x * x + (H - r) * y * y), 1, 1e-2): return f"the indicatrix at ({u}, {v}) is not the conic k1 x^2 + k2 y^2 = +-1"
        elif FF.classify_point(0., H) != want: return f"classify_point(0, {H})"
        (E, F, G, L, M, N), ders = FF.fundamental_forms_from_surface(S, u, v)
        if not near([[E, F], [F, G]], I, 3e-3, abs(I).max()) or not near([[L, M], [M, N]], II, 3e-3, abs(II).max() + abs(uu).max()): return f"fundamental_forms_from_surface at ({u}, {v})"
        for a, b, name in zip(ders, (S(u, v), du, dv, uu, uv, vv, n), ("point", "du", "dv", "duu", "duv", "dvv", "normal")):
            if not near(a, b, 3e-3, np.abs(b).max()): return f"fundamental_forms_from_surface at ({u}, {v}): {name} is {np.asarray(a).tolist()}, not {b.tolist()}"
        if not near(FF.first_fundamental_form_from_surface(S, u, v), [I[0, 0], I[0, 1], I[1, 1]], 1e-9): return "first_fundamental_form_from_surface"
    for a, b, want in ((1., 2., T.ELLIPTIC), (-1., -2., T.ELLIPTIC), (1., -2., T.HYPERBOLIC), (0., 1., T.PARABOLIC), (1., 0., T.PARABOLIC), (-1., 0., T.PARABOLIC), (0., 0., T.FLAT)):
        if FF.classify_point_dupin(a, b) != want: return f"classify_point_dupin({a}, {b})"
        if FF.classify_point(a * b, (a + b) / 2) != want: return f"classify_point({a * b}, {(a + b) / 2})"


# ---- lengths and geodesics
def lcheck(c):
    S = Surface(c)
    u, v = c["uv"][0]
    f = frame(S, u, v)
    p, q = c["w"]
    if f is None or math.hypot(p, q) < 0.1: return
    du, dv, uu, vv, uv, n, I, II = f
    got = GE.geodesic_equations(0., [u, v, p, q], S)
    if not near(got[:2], [p, q], 1e-12): return "geodesic equations: velocity"
    acc = du * got[2] + dv * got[3] + uu * p * p + 2 * uv * p * q + vv * q * q
    s = 1 + np.abs(acc).max() + abs(I).max() + max(np.abs(x).max() for x in (uu, vv, uv))
    if abs(acc @ du) > 1e-6 * s ** 2 or abs(acc @ dv) > 1e-6 * s ** 2: return f"the acceleration of a geodesic at ({u}, {v}) along ({p}, {q}) is not along the normal"
    gam = np.array(GE.compute_christoffel_symbols(S, (u, v)))
    for k, r in enumerate((uu, uv, vv)):
        want = np.linalg.solve(I, [r @ du, r @ dv])
        if not near([gam[k], gam[3 + k]], want, 1e-6, s): return f"Christoffel symbols {k} at ({u}, {v}) are {[gam[k], gam[3 + k]]}, not {want.tolist()}"
    # the length of a straight line of parameters: the left sum, off by at most the variation of the speed times a step
    n = 200
    ts = np.linspace(0, 1, 2001)
    speed = np.array([np.linalg.norm(S.D(u + t * p, v + t * q, 1, 0) * p + S.D(u + t * p, v + t * q, 0, 1) * q) for t in ts[::10]])
    L = ((speed[1:] + speed[:-1]) / 2).sum() / 200
    bound = np.abs(np.diff(speed)).sum() / (n - 1) * 1.5 + 1e-3 * L
    d = FF.surface_distance(S, u, v, u + p, v + q, n)
    if abs(d - L) > bound: return f"surface_distance from ({u}, {v}) along ({p}, {q}) is {d}, not {L}"
    if np.abs(speed).min() > 0.1:
        d = FF.surface_distance(S, u, v, u + p, v + q)
        if abs(d - L) > 3 * bound: return f"surface_distance from ({u}, {v}) along ({p}, {q}) is {d} with the standard number of steps, not {L}"


KINDS = {"quotients": (sgen, echeck), "curvatures": (sgen, kcheck), "classification": (sgen, pcheck), "lengths": (sgen, lcheck)}
