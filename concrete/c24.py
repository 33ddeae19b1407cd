import numpy as np
from .lib import *
from mmcore.numeric.algorithms import moller as M
from mmcore.geom import bvh as B

EPS = 1e-8


def solve(V, S, E):
    """(det, u, v, t) of the crossing, exactly; None when parallel"""
    F = lambda x: [Fraction(y) for y in x]
    V, S, E = [F(v) for v in V], F(S), F(E)
    sb = lambda a, b: [x - y for x, y in zip(a, b)]
    cr = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    dt = lambda a, b: sum(x * y for x, y in zip(a, b))
    e1, e2, d, s = sb(V[1], V[0]), sb(V[2], V[0]), sb(E, S), sb(S, V[0])
    h = cr(d, e2)
    det = dt(e1, h)
    if det == 0: return None
    q = cr(s, e1)
    return float(det), float(dt(s, h) / det), float(dt(d, q) / det), float(dt(e2, q) / det)


def verdict(V, S, E):
    """True, False, or None when too close to the tolerance"""
    r = solve(V, S, E)
    if r is None: return False, None
    det, u, v, t = r
    if abs(det) < 1e-6: return (False if abs(det) < 1e-10 else None), None
    m = min(u, v, 1 - u - v, t, 1 - t)
    P = np.array(S) + t * (np.array(E) - np.array(S))
    if m >= 0: return True, P
    return (None if m > -1e-6 else False), P


def tri(rng, g):
    f = (lambda: rng.randint(-8, 8) / 4) if g else (lambda: rng.uniform(-2, 2))
    V = [[f() for _ in range(3)] for _ in range(3)]
    if rng.random() < 0.3:
        k, h = rng.randrange(3), f()
        for v in V: v[k] = h
    return V


def segm(rng, V, g):
    f = (lambda: rng.randint(-8, 8) / 4) if g else (lambda: rng.uniform(-2, 2))
    if rng.random() < 0.3: return [[f() for _ in range(3)] for _ in range(2)]
    u, v = rng.choice([(0, 0), (0.25, 0.25), (0.5, 0.25), (0.5, 0), (0, 0.5), (0.25, 0.75), (1, 0), (1.25, 0), (-0.25, 0.5), (0.75, 0.5)])
    P = [V[0][k] + u * (V[1][k] - V[0][k]) + v * (V[2][k] - V[0][k]) for k in range(3)]
    d = [f() for _ in range(3)]
    t = rng.choice([0, 0.25, 0.5, 1, 1.25, -0.25])
    S = [P[k] - t * d[k] for k in range(3)]
    return [S, [S[k] + d[k] for k in range(3)]]


def gen(rng, i):
    g = rng.random() < 0.6
    Vs = [tri(rng, g) for _ in range(rng.randint(1, 7))]
    return {"V": Vs, "S": segm(rng, rng.choice(Vs), g)}


def check(c):
    Vs, (S, E) = [np.array(v, float) for v in c["V"]], np.array(c["S"], float)
    n = len(Vs)
    vs = [verdict(V, S, E) for V in Vs]
    for V, (h, P) in zip(Vs, vs):
        out = np.full(3, 7e7)
        r = M.intersect_triangle_segment(V[0], V[1], V[2], S, E, out)
        if h is not None and bool(r) != h: return f"triangle {V.tolist()}, segment {S.tolist()} {E.tolist()}: flag {r}"
        if r and not close(out, P, 1e-7): return f"triangle {V.tolist()}, segment {S.tolist()} {E.tolist()}: point {out.tolist()} instead of {P.tolist()}"
        if not r and not np.all(out == 7e7): return "the result was written without a hit"
    A = [np.array([V[i] for V in Vs]) for i in range(3)]
    B0 = [a.copy() for a in A]
    for f in (M.intersect_triangles_segment, M.intersect_triangles_segment_parallel):
        outs, flags = np.full((n, 3), 7e7), np.full(n, 9, np.intc)
        f(*A, S, E, outs, flags)
        for k, (V, (h, P)) in enumerate(zip(Vs, vs)):
            if h is not None and bool(flags[k]) != h: return f"{f.__name__}: triangle {V.tolist()}, segment {S.tolist()} {E.tolist()}: flag {flags[k]}"
            if flags[k]:
                if not close(outs[k], P, 1e-7): return f"{f.__name__}: point {outs[k].tolist()} instead of {P.tolist()}"
                want = kind(V, P)
                if want and flags[k] != want: return f"{f.__name__}: point {P.tolist()} of triangle {V.tolist()} has flag {flags[k]} instead of {want}"
            elif not np.all(outs[k] == 7e7): return f"{f.__name__} wrote a point without a hit"
    out = np.full(3, 7e7)
    p, flag = M.intersect_triangles_segment_one(*A, S, E, out)
    if any(h for h, _ in vs) and p is None: return f"intersect_triangles_segment_one finds no hit of {S.tolist()} {E.tolist()} with {c['V']}"
    if p is not None and not any(h is not False and P is not None and close(np.asarray(p), P, 1e-7) for h, P in vs): return f"intersect_triangles_segment_one reports {np.asarray(p).tolist()}"
    if any(not np.array_equal(x, y) for x, y in zip(A, B0)): return "triangles were changed"


def kind(V, P):
    """flag of a point of the triangle, None when too close to call"""
    g = max(1.0, float(np.max(np.abs(V))))
    ds = [np.max(np.abs(P - v)) for v in V]
    if min(ds) < 1e-12 * g: return 2
    if min(ds) < 1e-6: return None
    c = [np.max(np.abs(np.cross(P - V[i], V[j] - V[i]))) for i, j in ((0, 1), (1, 2), (2, 0))]
    if min(c) < 1e-12 * g: return 3
    return None if min(c) < 1e-6 else 1


def mgen(rng, i):
    n = rng.randint(2, 8)
    flat = rng.random() < 0.3
    P = [[rng.randint(-8, 8) / 4, rng.randint(-8, 8) / 4, 0.5 if flat else rng.randint(-8, 8) / 4] for _ in range(n + 2)]
    T = [rng.sample(range(n + 2), 3) for _ in range(n)]
    V = [P[k] for k in rng.choice(T)]
    return {"P": P, "T": T, "leaf": rng.choice([1, 1, 2, 3]), "S": segm(rng, V, True)}


def mcheck(c):
    P, T, S = np.array(c["P"], float), np.array(c["T"], int), np.array(c["S"], float)
    if not np.any(S[0] != S[1]): return
    m = B.build_bvh_from_mesh(P, T, c["leaf"])
    Vs = [P[t] for t in T]
    vs = [verdict(V, S[0], S[1]) for V in Vs]
    r = B.mesh_bvh_segment_intersection_one(m, S)
    if r is None and any(h for h, _ in vs): return f"mesh {c['P']} {c['T']} ({c['leaf']} per leaf): segment {c['S']} hits nothing"
    if r is not None and not any(h is not False and Q is not None and close(r[0], Q, 1e-7) for h, Q in vs): return f"mesh {c['P']} {c['T']}: segment {c['S']} hits it at {r[0].tolist()}"
    d = S[1] - S[0]
    u = d / np.linalg.norm(d)
    ray = B.Ray(S[0], d)
    hits = B.mesh_bvh_ray_intersection(m, ray)
    want, maybe = [], []
    for V in Vs:
        s = solve(V, S[0], S[1])
        if s is None: continue
        det, a, b, t = s
        x = min(a, b, 1 - a - b, t)
        Q = S[0] + t * d
        if abs(det) > 1e-6 and x > 1e-6: want.append((t * np.linalg.norm(d), Q))
        if x > -1e-5: maybe.append(Q)
    for l, Q in want:
        if not any(close(p, Q, 1e-6) and close(x, l, 1e-6) for p, _, x in hits): return f"mesh {c['P']} {c['T']} ({c['leaf']} per leaf): ray from {c['S'][0]} along {d.tolist()} hits it at {Q.tolist()}, distance {l}; reported {[(p.tolist(), x) for p, _, x in hits]}"
    for p, t, x in hits:
        if not any(close(p, Q, 1e-5) for Q in maybe): return f"ray from {c['S'][0]} along {d.tolist()}: false hit {p.tolist()}"
        if not isinstance(t, B.Triangle): return f"hit with a {type(t).__name__}"
    if any(a[2] > b[2] for a, b in zip(hits, hits[1:])): return f"hits are not sorted: {[x for _, _, x in hits]}"


KINDS = {"mesh": (mgen, mcheck), "triangles": (gen, check)}
