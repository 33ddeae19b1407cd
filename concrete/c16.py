from fractions import Fraction as F

import numpy as np
from .lib import *
from .c15 import corner
from mmcore.numeric import aabb as M


def gen(rng, i):
    b = corner(rng, 3)
    s = [rng.choice([b[0][k], b[1][k], (b[0][k] + b[1][k]) / 2, rng.uniform(-4, 6), float(rng.randint(-4, 6))]) for k in range(3)]
    d = [rng.choice([0.0, 0.0, 1.0, -1.0, 2.0, rng.uniform(-3, 3)]) for _ in range(3)]
    if rng.random() < 0.5:      # aim at the box
        q = [b[0][k] + rng.random() * (b[1][k] - b[0][k]) for k in range(3)]
        f = rng.choice([0.1, 0.5, 1.0, 2.0])
        d = [(q[k] - s[k]) * f for k in range(3)]
    return {"b": b, "s": s, "d": d}


def lgen(rng, i):
    """everything exact in floating point: small integers, directions of powers of two; often through an edge or a corner"""
    lo = [rng.randint(-3, 3) for _ in range(3)]
    b = [[float(v) for v in lo], [float(v + rng.choice([0, 1, 2, 3])) for v in lo]]
    d = [rng.choice([0.0, 1.0, -1.0, 2.0, -2.0, 4.0, -4.0, 0.5]) for _ in range(3)]
    t = rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, 2.0, -0.5])
    q = [rng.choice([b[0][k], b[1][k], b[0][k] - 1, b[1][k] + 1, (b[0][k] + b[1][k]) / 2]) for k in range(3)]
    return {"b": b, "s": [q[k] - t * d[k] for k in range(3)], "d": d, "exact": True}


def exact(b, s, d, lo, hi):
    for k in range(3):
        x, y, p, v = F(b[0][k]), F(b[1][k]), F(s[k]), F(d[k])
        if v == 0:
            if p < x or p > y: return None
            continue
        t = sorted([(x - p) / v, (y - p) / v])
        lo = t[0] if lo is None or t[0] > lo else lo
        hi = t[1] if hi is None or t[1] < hi else hi
    return None if lo is not None and hi is not None and lo > hi else (lo, hi)


def graze(b, s, d, lo, hi):
    """does a change of the box by a rounding error change the answer?"""
    e = 1e-9 * (1 + max(abs(v) for r in b for v in r) + max(map(abs, s)))
    g = [[v - e for v in b[0]], [v + e for v in b[1]]]
    h = [[v + e for v in b[0]], [v - e for v in b[1]]]
    return (exact(g, s, d, lo, hi) is None) != (exact(h, s, d, lo, hi) is None or any(x > y for x, y in zip(*h)))


def compare(r, want, what, soft):
    if r is None or want is None:
        if (r is None) != (want is None) and not soft: return f"{what}: {None if r is None else list(r)}, the exact parameters are {None if want is None else [float(x) for x in want]}"
        return
    if not close(list(r), [float(x) for x in want], 1e-9): return f"{what}: parameters {list(r)}, the exact ones are {[float(x) for x in want]}"


def check(c):
    b, s, d = c["b"], c["s"], c["d"]
    if any(0 < abs(x) < 1e-12 for x in d): return
    B, S, D = np.array(b, float), np.array(s, float), np.array(d, float)
    if any(d):
        m = compare(M.ray_aabb_intersect(B, S, D), exact(b, s, d, F(0), None), f"ray {s} + t {d} against {b}", not c.get("exact") and graze(b, s, d, F(0), None))
        if m: return m
    E = S + D
    seg = np.array([S, E])
    ex = [F(float(E[k])) - F(s[k]) for k in range(3)]
    if any(0 < abs(x) < F(1, 10 ** 12) for x in ex): return
    want, soft = exact(b, s, ex, F(0), F(1)), not c.get("exact") and graze(b, s, ex, F(0), F(1))
    r = M.segment_aabb_intersect(B, seg)
    m = compare(r, want, f"segment {seg.tolist()} against {b}", soft)
    if m: return m
    out = np.full((2, 3), 7e7)
    q = M.segment_aabb_clip(B, seg, out)
    if (q is None) != (r is None): return f"segment_aabb_clip of {seg.tolist()} against {b}: {q}"
    if q is not None and want is not None:
        w = [[float(F(s[k]) + t * ex[k]) for k in range(3)] for t in want]
        if not close(np.asarray(q), w, 1e-9): return f"segment_aabb_clip of {seg.tolist()} against {b}: {np.asarray(q).tolist()}, expected {w}"
    if not np.array_equal(B, np.array(b)) or not np.array_equal(seg, np.array([S, E])): return "the arguments were changed"


KINDS = {"slab": (gen, check), "lattice": (lgen, check)}
