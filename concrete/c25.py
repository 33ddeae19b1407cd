import numpy as np
from .lib import *
from mmcore.geom.primitives import Sphere, ImplicitCylinder, Tube, Cylinder


def gen(rng, i):
    s = vec(rng)
    e = rng.choice([vec(rng), [s[0] + rng.choice([-3.0, 3.0]), s[1], s[2]], [s[0], s[1] + rng.choice([-2.0, 4.0]), s[2]], [s[0], s[1], s[2] + rng.choice([-2.0, 4.0])]])
    th = rng.choice([0.25, 0.5, 1.0])
    return {"s": s, "e": e, "x": vec(rng), "r": rng.choice([1.0, 2.5, rng.uniform(1, 5)]), "th": th, "how": rng.choice(["new", "re", "er"]), "u": rng.uniform(0, 6.28), "v": rng.random()}


def made(cls, args, how, names):
    if how == "new": return cls(*args)
    dummy = [np.array([5.0, 6.0, 7.0]), np.array([5.0, 6.0, 9.0])]
    first = [dummy.pop(0) if isinstance(a, np.ndarray) else a + 1 for a in args]
    if cls is Tube: first[-1] = args[-1]
    o = cls(*first)
    for n, a in (list(zip(names, args)) if how == "re" else list(zip(names, args))[::-1]):
        if n: setattr(o, n, a)
    return o


def check(c):
    s, e, x = (np.array(c[k], float) for k in "sex")
    r, th = c["r"], c["th"]
    d = e - s
    if np.linalg.norm(d) < 1e-3 or np.linalg.norm(x - s) < 1e-3: return
    S = made(Sphere, (s, r), c["how"], ("origin", "radius"))
    if not close(S.implicit(x), np.linalg.norm(x - s) - r, 1e-10): return f"sphere: implicit {S.implicit(x)}"
    if not close(S.gradient(x), (x - s) / np.linalg.norm(x - s), 1e-10): return f"sphere: gradient {S.gradient(x)}"
    if not close(S.bounds(), [s - r, s + r], 1e-12): return f"sphere: bounds {np.asarray(S.bounds()).tolist()}"
    if not close(S.astuple(), [*s, r], 0) or not close(S.origin, s, 0) or S.radius != r: return f"sphere: stored values {S.astuple()}"
    w = (x - s) - (x - s).dot(d) / d.dot(d) * d
    n = np.linalg.norm(w)
    w2 = np.sqrt(np.maximum(0, 1 - d * d / d.dot(d)))
    for nm, o, R, want in (("cylinder", made(ImplicitCylinder, (s, e, r), c["how"], ("start", "end", "radius")), r, n - r), ("tube", made(Tube, (s, e, r, th), c["how"], ("start", "end", "radius", None)), r + th / 2, abs(n - r) - th / 2)):
        if not close(o.implicit(x), want, 1e-9): return f"{nm}: implicit {o.implicit(x)}, expected {want}"
        b = np.asarray(o.bounds())
        if not close(b, [np.minimum(s, e) - R * w2, np.maximum(s, e) + R * w2], 1e-7): return f"{nm}: bounds {b.tolist()}"
        if n > 1e-2 and (nm == "cylinder" or abs(n - r) > 0.01):
            g = np.asarray(o.gradient(x))
            want = w / n * (1 if nm == "cylinder" or n > r else -1)
            if not close(g, want, 1e-9 if nm == "cylinder" else 1e-3): return f"{nm}: gradient {g.tolist()}, expected {want.tolist()}"
        if not close(o.astuple(), [*s, *e, r] + ([th] if nm == "tube" else []), 0) or not close(o.direction, d, 0): return f"{nm}: stored values {o.astuple()}"
    C = Cylinder(s, e, r)
    L = np.linalg.norm(d)
    if not close(C.interval(), [[0, 2 * np.pi], [0, L]], 1e-9): return f"cylinder surface: interval {C.interval()}"
    P = np.asarray(C.evaluate_v2(c["u"], c["v"] * L))
    w = P - s - c["v"] * d
    if not close([w.dot(d) / L, np.linalg.norm(w)], [0, r], 1e-7): return f"cylinder surface: point {P.tolist()} of parameters {(c['u'], c['v'] * L)} is at height {(P - s).dot(d) / L} and distance {np.linalg.norm(w)}"
    Q = np.asarray(C.evaluate_v2(c["u"] + 1, c["v"] * L)) - s - c["v"] * d
    if not close(w.dot(Q) / r / r, np.cos(1), 1e-7): return "cylinder surface: the angle parameter is not the angle"


KINDS = {"primitives": (gen, check)}
