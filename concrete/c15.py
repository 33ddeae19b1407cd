import numpy as np
from .lib import *
from mmcore.numeric import aabb as M


def gen(rng, i):
    w = rng.choice([2, 3, 3, 4])
    return {"P": pts(rng, rng.randint(1, 9), w), "out": rng.random() < 0.5}


def check(c):
    P = np.array(c["P"], float)
    w = P.shape[1]
    B = P.copy()
    r = M.aabb(P, np.full((2, w), 7e7)) if c["out"] else M.aabb(P)
    r = np.asarray(r)
    want = np.array([B.min(axis=0), B.max(axis=0)])
    if r.shape != (2, w): return f"aabb of points of width {w}: shape {r.shape}"
    if not np.array_equal(r, want): return f"aabb: {r.tolist()}, the points lie in {want.tolist()}"
    if not np.array_equal(P, B): return "aabb changed the points"
    if w == 3:
        out = np.full((2, 3), 7e7)
        M.aabb_segm3d(P[0], P[-1], out)
        want = np.array([np.minimum(P[0], P[-1]), np.maximum(P[0], P[-1])])
        if not np.array_equal(out, want): return f"aabb_segm3d: {out.tolist()} instead of {want.tolist()}"


def corner(rng, w):
    lo = [rng.choice([-2, -1, 0, 1, 2, rng.uniform(-2, 2)]) for _ in range(w)]
    return [lo, [x + rng.choice([0, 1, 1, 2, 5, rng.uniform(0, 3)]) for x in lo]]


def pgen(rng, i):
    w = rng.choice([2, 3, 3, 4])
    a, b = corner(rng, w), corner(rng, w)
    q = [rng.choice([a[0][k], a[1][k], (a[0][k] + a[1][k]) / 2, rng.uniform(-3, 5)]) for k in range(w)]
    return {"a": a, "b": b, "q": q, "w": w}


def pcheck(c):
    a, b, q, w = np.array(c["a"], float), np.array(c["b"], float), np.array(c["q"], float), c["w"]
    lo, hi = np.maximum(a[0], b[0]), np.minimum(a[1], b[1])
    want = bool(np.all(lo <= hi))
    fs = ["aabb_intersect"] + (["aabb_overlap"] if w < 4 else []) + (["aabb_intersect_fast_3d"] if w == 3 else [])
    for f in fs:
        for x, y in ((a, b), (b, a)):
            r = bool(getattr(M, f)(x, y))
            if r != want: return f"{f}({x.tolist()}, {y.tolist()}) is {r}, common points: {want}"
    if w == 3:
        for out in (None, np.full((2, 3), 7e7)):
            r = M.aabb_intersection(a, b) if out is None else M.aabb_intersection(a, b, out)
            if (r is None) == want: return f"aabb_intersection of {a.tolist()} and {b.tolist()}: {r}"
            if want and not np.array_equal(np.asarray(r), np.array([lo, hi])): return f"aabb_intersection: {np.asarray(r).tolist()}, the common box is {[lo.tolist(), hi.tolist()]}"
    if w < 4:
        r, want = bool(M.point_in_aabb(a, q)), bool(np.all(a[0] <= q) and np.all(q <= a[1]))
        if r != want: return f"point_in_aabb({a.tolist()}, {q.tolist()}) is {r}"


KINDS = {"points": (gen, check), "pairs": (pgen, pcheck)}
