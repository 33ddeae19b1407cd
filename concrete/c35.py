"""Executed contracts of implicit shapes, their trees and circles."""
import importlib
import math

import numpy as np
IM = importlib.import_module("mmcore.geom.implicit.implicit")
T2 = importlib.import_module("mmcore.geom.implicit.tree.tree2d")
T3 = importlib.import_module("mmcore.geom.implicit.tree.tree3d")
CI = importlib.import_module("mmcore.geom.circle")


class Ball2(IM.Implicit2D):
    def __init__(self, o, r):
        self.o, self.r = np.array(o, float), r
        super().__init__()

    def implicit(self, v): return float(np.linalg.norm(np.asarray(v) - self.o) - self.r)
    def bounds(self): return tuple(self.o - self.r), tuple(self.o + self.r)


class Ball3(IM.Implicit3D):
    def __init__(self, o, r):
        self.o, self.r = np.array(o, float), r
        super().__init__()

    def implicit(self, v): return float(np.linalg.norm(np.asarray(v) - self.o) - self.r)
    def bounds(self): return tuple(self.o - self.r), tuple(self.o + self.r)


def build(e, k):
    if e[0] == "ball": return (Ball2 if k == 2 else Ball3)(e[1], e[2])
    a, b = build(e[1], k), build(e[2], k)
    return {"+": lambda: a + b, "|": lambda: a | b, "&": lambda: a & b, "-": lambda: a - b, "union": lambda: a.union(b), "intersection": lambda: a.intersection(b), "substraction": lambda: a.substraction(b)}[e[0]]()


def value(e, p):
    if e[0] == "ball": return math.dist(e[1], p) - e[2]
    a, b = value(e[1], p), value(e[2], p)
    return {"+": min, "|": min, "union": min, "&": max, "intersection": max}.get(e[0], lambda a, b: max(a, -b))(a, b)


def rexp(rng, k, d):
    if d == 0 or rng.random() < 0.15: return ["ball", [rng.choice([0., 1., rng.uniform(-2, 2)]) for _ in range(k)], rng.choice([1., 0.5, 2., rng.uniform(0.3, 2)])]
    return [rng.choice(["+", "|", "&", "-", "union", "intersection", "substraction"]), rexp(rng, k, d - 1), rexp(rng, k, d - 1)]


def ogen(rng, i):
    k = rng.choice([2, 3])
    return {"k": k, "e": rexp(rng, k, rng.randint(1, 3)), "p": [[rng.choice([0., 1., rng.uniform(-3, 3)]) for _ in range(k)] for _ in range(rng.randint(1, 12))]}


def balls(e): return [e] if e[0] == "ball" else balls(e[1]) + balls(e[2])


def ocheck(c):
    k, e = c["k"], c["e"]
    S = build(e, k)
    lo, hi = S.bounds()
    # the points of a difference or intersection lie within its operands: bounds are checked where the shape is
    for p in c["p"] + [list(np.array(b[1]) + np.array(d) * b[2] * 0.999) for b in balls(e) for d in np.vstack([np.eye(k), -np.eye(k)])]:
        v = value(e, p)
        got = float(S.implicit(np.array(p, float)))
        if not math.isclose(got, v, rel_tol=1e-9, abs_tol=1e-9): return f"value at {p} is {got}, the set operation gives {v}"
        if abs(v) > 1e-6 and bool(S.point_inside(np.array(p, float)) if k == 2 else got <= 0) != (v < 0): return f"point_inside at {p}, value {v}"
        if v < -1e-9 and not all(a - 1e-9 <= x <= b + 1e-9 for x, a, b in zip(p, lo, hi)): return f"the point {p} is inside the shape and outside its bounds {lo, hi}"
    P = np.array(c["p"], float)
    got = S(P)
    if np.shape(got) != (len(P),) or not np.allclose(got, [value(e, p) for p in c["p"]]): return f"values of several points are {np.asarray(got).tolist()}"
    if not math.isclose(float(S(c["p"][0])), value(e, c["p"][0]), rel_tol=1e-9, abs_tol=1e-9): return "value of a single point given as a list"


def ggen(rng, i):
    k = rng.choice([2, 3])
    return {"k": k, "q": [[rng.uniform(-2, 2) for _ in range(k)] for _ in range(k)], "l": [rng.uniform(-2, 2) for _ in range(k)], "p": [rng.uniform(-2, 2) for _ in range(k)]}


def gcheck(c):
    k, Q, l = c["k"], np.array(c["q"]), np.array(c["l"])
    base = IM.Implicit2D if k == 2 else IM.Implicit3D

    class S(base):
        def implicit(self, v): return float(v @ Q @ v + l @ v)
        def bounds(self): return (-5.,) * k, (5.,) * k
    s = S()
    p = np.array(c["p"])
    g = Q @ p + Q.T @ p + l
    if np.linalg.norm(g) < 1e-2: return
    n = np.asarray(s.gradient(p.copy()))
    if not np.allclose(n / np.linalg.norm(n), g / np.linalg.norm(g), atol=1e-5) or n @ g <= 0: return f"gradient at {c['p']} is {n.tolist()}, not along {g.tolist()}"
    want = 1. if k == 3 else np.linalg.norm(g)
    if not math.isclose(np.linalg.norm(n), want, rel_tol=1e-4): return f"gradient at {c['p']} has length {np.linalg.norm(n)}, not {want}"
    m = np.asarray(base.normal_from_function(s.implicit)(p.copy()))
    if not np.allclose(m / np.linalg.norm(m), g / np.linalg.norm(g), atol=1e-5) or m @ g <= 0: return f"normal_from_function at {c['p']} is {m.tolist()}"
    if k == 2:
        t = np.asarray(s.tangent(p.copy()))
        if abs(t @ g) > 1e-5 * (1 + g @ g) or g[0] * t[1] - g[1] * t[0] <= 0: return f"tangent at {c['p']} is {t.tolist()}"


def tgen(rng, i):
    k = rng.choice([2, 2, 3])
    lo = [rng.uniform(-3, 0) for _ in range(k)]
    return {"k": k, "e": rexp(rng, k, rng.randint(0, 2)), "lo": lo, "hi": [x + rng.uniform(0.5, 4) for x in lo], "depth": rng.randint(0, 4 if k == 2 else 3), "again": rng.random() < 0.5}


def tcheck(c):
    k, e, d = c["k"], c["e"], c["depth"]
    lo, hi = np.array(c["lo"]), np.array(c["hi"])
    f = lambda v: value(e, list(map(float, v)))
    t = (T2.ImplicitTree2D if k == 2 else T3.ImplicitTree3D)(f, depth=2, bounds=(tuple(lo), tuple(hi)))
    t.build(depth=d)
    if c["again"]: t.build()
    step = (hi - lo) / 2 ** d
    seen = {}
    for kind, cells in (("full", t.full), ("empty", t.empty), ("border", t.border)):
        for a, b in cells:
            i0, i1 = (np.array(a) - lo) / step, (np.array(b) - lo) / step
            j0, j1 = np.rint(i0).astype(int), np.rint(i1).astype(int)
            if not np.allclose(i0, j0, atol=1e-6) or not np.allclose(i1, j1, atol=1e-6) or (j1 <= j0).any(): return f"cell {a, b} is no part of the grid"
            for ix in np.ndindex(*(j1 - j0)):
                cell = tuple(j0 + ix)
                if cell in seen: return f"the part {cell} is in two cells"
                seen[cell] = kind
    if len(seen) != (2 ** d) ** k: return f"{len(seen)} of {(2 ** d) ** k} parts are in a cell"
    for cell, kind in seen.items():
        vals = [f(lo + step * (np.array(cell) + ix)) for ix in np.ndindex(*(2,) * k)]
        if min(map(abs, vals)) < 1e-9: continue
        want = "full" if max(vals) < 0 else "empty" if min(vals) >= 0 else "border"
        if kind != want: return f"the part {cell} is {kind}, the values at its corners say {want}"
    if d:
        S = build(e, k)
        if all(a < b for a, b in zip(*S.bounds())):
            tr = S.tree
            if not (tr.full or tr.empty or tr.border) or S.tree is not tr: return "the tree of the shape is not built"


def cgen(rng, i):
    return {"a": [[rng.uniform(-2, 2), rng.uniform(-2, 2)], rng.uniform(0.3, 2)], "b": [[rng.uniform(-2, 2), rng.uniform(-2, 2)], rng.uniform(0.3, 2)], "p": [rng.uniform(-4, 4), rng.uniform(-4, 4), rng.choice([0., 1.])], "t": rng.uniform(0, 2 * math.pi)}


def ccheck(c):
    A, B = (CI.Circle2D(np.array(o), r) for o, r in (c["a"], c["b"]))
    (o, r), (o2, r2), p = c["a"], c["b"], np.array(c["p"])
    o, o2 = np.array(o), np.array(o2)
    d = math.dist(o, p[:2])
    if d < 1e-2: return
    if not math.isclose(float(A.implicit(p[:2])), d - r, abs_tol=1e-9): return "distance from the circle"
    if not np.allclose(A.gradient(p[:2]), (p[:2] - o) / d): return "gradient of the circle"
    if not np.allclose(A.evaluate(c["t"]), o + r * np.array([math.cos(c["t"]), math.sin(c["t"])])): return "point of the circle"
    q, t = A.point_on_curve(p[:2])
    if not np.allclose(q, o + r * (p[:2] - o) / d): return f"nearest point of the circle is {q.tolist()}"
    if not np.allclose(A.evaluate(t), q) or not 0 <= t <= 2 * math.pi: return f"parameter {t} of the nearest point {q.tolist()}"
    D = math.dist(o, o2)
    if abs(D - r - r2) > 1e-6 and abs(D - abs(r - r2)) > 1e-6:
        meet = abs(r - r2) < D < r + r2
        try: R = CI.circle_intersection2d(A, B)
        except ValueError: R = None
        if (R is not None) != meet: return f"circles {'meet' if meet else 'do not meet'}, the result is {R}"
        if meet:
            for x in R:
                if not math.isclose(math.dist(x[:2], o), r, abs_tol=1e-6) or not math.isclose(math.dist(x[:2], o2), r2, abs_tol=1e-6): return f"{x.tolist()} is not on both circles"
            if np.allclose(R[0], R[1], atol=1e-9) and min(abs(D - r - r2), abs(D - abs(r - r2))) > 1e-3: return "the two points are one"
    if d > r + 1e-3:
        R = np.asarray(CI.tangents_lines(A, p))
        for x in R:
            if not math.isclose(math.dist(x[:2], o), r, abs_tol=1e-9): return f"tangent point {x.tolist()} is not on the circle"
            if abs((x[:2] - o) @ (p[:2] - x[:2])) > 1e-6: return f"the line to {x.tolist()} is no tangent"
        if np.allclose(R[0], R[1], atol=1e-9): return "the two tangents are one"


KINDS = {"operations": (ogen, ocheck), "gradients": (ggen, gcheck), "trees": (tgen, tcheck), "circles": (cgen, ccheck)}
