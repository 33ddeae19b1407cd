import numpy as np
from .lib import *
from mmcore.numeric import plane as N
from mmcore.numeric.plane import cplane as P

A = lambda x: np.array(x, float)


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def vec3(rng, g):
    f = (lambda: rng.randint(-6, 6) / 2) if g else (lambda: rng.uniform(-3, 3))
    return [f() for _ in range(3)]


def nrm(rng, g):
    k = rng.random()
    if k < 0.45:
        v = [0.0, 0.0, 0.0]
        v[rng.randrange(3)] = rng.choice([1.0, -1.0, 2.0])
        return v
    while True:
        v = vec3(rng, g)
        if k < 0.65: v[rng.randrange(3)] = 0.0
        if sum(x * x for x in v) > 0.2: return v


def plane(rng, g, unit=None):
    o, n = vec3(rng, g), nrm(rng, g)
    unit = rng.random() < 0.6 if unit is None else unit
    a = A(n)
    if unit: a = a / np.linalg.norm(a)
    x = np.cross(a, [0, 0, 1] if abs(a[0]) + abs(a[1]) > 1e-3 else [1, 0, 0])
    x /= np.linalg.norm(x)
    y = np.cross(a, x) / np.linalg.norm(a)
    return [o, x.tolist(), y.tolist(), a.tolist()]


def on(p, q, s=1e-7):
    n = A(p[3])
    return abs(np.dot(n, A(q) - A(p[0]))) <= s * (1 + np.linalg.norm(n)) * (1 + np.abs(A(q)).max() + np.abs(A(p[0])).max())


def line_bad(r, p, q, sign=True):
    r = np.asarray(r, float)
    if r.shape != (2, 3): return "shape of the line"
    d = np.cross(p[3], q[3])
    if not np.all(np.isfinite(r)): return f"not a finite line: {r.tolist()}"
    if not (on(p, r[0]) and on(q, r[0])): return f"the point {r[0].tolist()} of the line is not on both planes"
    if not (close(r[1], d) or not sign and close(r[1], -d)): return f"direction {r[1].tolist()}, cross product {d.tolist()}"


def gen_lines(rng, i):
    g = rng.random() < 0.7
    n = rng.randint(1, 4)
    out = []
    while len(out) < n:
        p, q = plane(rng, g), plane(rng, g)
        d = np.cross(p[3], q[3])
        if np.linalg.norm(d) > 0.05 * np.linalg.norm(p[3]) * np.linalg.norm(q[3]): out.append([p, q])
    return {"pairs": out}


def lines(case):
    pr = case["pairs"]
    a, b = A([p for p, _ in pr]), A([q for _, q in pr])
    a0, b0 = a.copy(), b.copy()
    for k, (p, q) in enumerate(pr):
        for f in ("plane_plane_intersect", "plane_plane_intersection"):
            m = line_bad(getattr(P, f)(a[k], b[k]), p, q)
            if m: return f"{f}: {m}"
        m = line_bad(P.plane_plane_normal_intersect(a[k][0].copy(), a[k][3].copy(), b[k][0].copy(), b[k][3].copy()), p, q)
        if m: return f"plane_plane_normal_intersect: {m}"
    for f in ("planes_planes_intersect", "plane_plane_intersection"):
        r = getattr(P, f)(a, b)
        if r is None: return f"{f} returned nothing"
        r = np.asarray(r)
        if r.shape != (len(pr), 2, 3): return f"{f}: shape {r.shape}"
        for k, (p, q) in enumerate(pr):
            m = line_bad(r[k], p, q)
            if m: return f"{f} row {k}: {m}"
    ok = [k for k, (p, _) in enumerate(pr) if np.linalg.norm(np.cross(p[3], b[0][3])) > 0.05 * np.linalg.norm(p[3]) * np.linalg.norm(b[0][3])]
    for f, args in (("planes_plane_intersect", (a[ok], b[0])), ("plane_plane_intersection", (a[ok], b[0])), ("plane_plane_intersection", (b[0], a[ok]))):
        if not ok: break
        r = np.asarray(getattr(P, f)(*args))
        for j, k in enumerate(ok):
            m = line_bad(r[j], pr[k][0], pr[0][1], sign=False)
            if m: return f"{f} (one with many) row {j}: {m}"
    for sh in ((len(pr), 1), (1, len(pr))):
        r = np.asarray(P.plane_plane_intersection(a.reshape(*sh, 4, 3), b.reshape(*sh, 4, 3)))
        if r.shape != sh + (2, 3): return f"nested batch: shape {r.shape}"
        for k, (p, q) in enumerate(pr):
            m = line_bad(r.reshape(-1, 2, 3)[k], p, q)
            if m: return f"nested batch row {k}: {m}"
    if not (np.array_equal(a, a0) and np.array_equal(b, b0)): return "the planes were changed"


def gen_point(rng, i):
    g = rng.random() < 0.7
    while True:
        ps = [plane(rng, g) for _ in range(3)]
        n = [A(p[3]) / np.linalg.norm(p[3]) for p in ps]
        if abs(np.linalg.det(n)) > 0.05: return {"planes": ps}


def point(case):
    ps = [A(p) for p in case["planes"]]
    r = np.asarray(P.plane_plane_plane_intersect(*ps))
    q = np.asarray(P.plane_plane_plane_intersect_points_and_normals(*[x.copy() for p in ps for x in (p[0], p[3])]))
    for nm, x in (("plane_plane_plane_intersect", r), ("plane_plane_plane_intersect_points_and_normals", q)):
        if x.shape != (3,) or not np.all(np.isfinite(x)): return f"{nm}: {x.tolist()} is not a point"
        for k, p in enumerate(ps):
            if not on(p, x): return f"{nm}: {x.tolist()} is not on plane {k}"


def gen_coords(rng, i):
    g = rng.random() < 0.7
    return {"plane": plane(rng, g, unit=True), "pts": [vec3(rng, g) for _ in range(rng.randint(1, 4))], "eq": vec3(rng, g) + [rng.randint(-4, 4) / 2]}


def coords(case):
    p, pts = A(case["plane"]), A(case["pts"])
    w = np.array([p[0] + q @ p[1:] for q in pts])
    if not close(P.evaluate_plane_arr(p, pts), w): return "evaluate_plane_arr is not origin plus coordinates times axes"
    if not close(P.inverse_evaluate_plane_arr(p, w), pts, 1e-7): return "inverse_evaluate_plane_arr does not give the coordinates back"
    for q, x in zip(pts, w):
        if not close(P.evaluate_plane(p, q), x): return "evaluate_plane is not origin plus coordinates times axes"
        if not close(P.inverse_evaluate_plane(p, x), q, 1e-7): return "inverse_evaluate_plane does not give the coordinates back"
        s = float(p[3] @ (q - p[0]))
        if not close(N.project(p, q), q - s * p[3]): return "project is not the foot of the perpendicular"
        if not close(N.project_point_by_normal(q, p[3], p[0]), q - s * p[3]): return "project_point_by_normal is not the foot of the perpendicular"
        if abs(N.distance(p, q) - abs(s)) > 1e-9 * (1 + abs(s)): return f"distance {N.distance(p, q)}, expected {abs(s)}"
    e = case["eq"]
    if not close(N.plane_signed_distance(e, pts), pts @ A(e[:3]) + e[3]): return "plane_signed_distance is not the value of the equation"
    if sum(x * x for x in e[:3]) > 0.1:
        o, n = N.plane_from_eq(A(e))
        if abs(A(e[:3]) @ o + e[3]) > 1e-8 * (1 + abs(e[3])): return f"plane_from_eq: the origin {o} does not satisfy the equation"
        if not close(n, A(e[:3]) / np.linalg.norm(e[:3])): return "plane_from_eq: normal"


def gen_ray(rng, i):
    g = rng.random() < 0.8
    p = plane(rng, g)
    d = nrm(rng, g)
    if rng.random() < 0.25: d = p[1]
    return {"plane": p, "ray": [vec3(rng, g), list(d)]}


def rays(case):
    p, ry = A(case["plane"]), A(case["ray"])
    n, o, d = p[3], ry[0], ry[1]
    den = float(n @ d)
    two = A([p[0], n])
    for nm, f, back in (("ray_plane_intersection", lambda: P.ray_plane_intersection(two, ry), False), ("plane_ray_intersection", lambda: N.plane_ray_intersection(p, ry), False),
                        ("plane_ray_intersection (origin and normal)", lambda: N.plane_ray_intersection(two, ry), False), ("ray_plane_parametric_intersection", lambda: P.ray_plane_parametric_intersection(p, ry), False),
                        ("plane_line_intersection", lambda: N.plane_line_intersection(p, ry), True)):
        r = f()
        if abs(den) < 1e-12:
            if den == 0 and r is not None: return f"{nm}: hit of a parallel ray"
            continue
        t = float(n @ (p[0] - o)) / den
        if abs(t) < 1e-12: continue
        if t < 0 and not back:
            if r is not None: return f"{nm}: hit behind the ray"
            continue
        if r is None: return f"{nm}: no hit at t={t}"
        if nm == "ray_plane_parametric_intersection":
            r, (u, v) = r
            if not close(p[0] + u * p[1] + v * p[2], o + t * d, 1e-7): return f"{nm}: parameters {u}, {v} are not those of the hit"
        if not close(r, o + t * d, 1e-7): return f"{nm}: {np.asarray(r).tolist()}, expected {(o + t * d).tolist()}"


def gen_frame(rng, i):
    g = rng.random() < 0.7
    return {"o": vec3(rng, g), "n": nrm(rng, g) if rng.random() < 0.95 else [0.0, 0.0, 0.0], "pts": [vec3(rng, g) for _ in range(3)]}


def frame_bad(f, o):
    f = np.asarray(f, float)
    if f.shape != (4, 3) or not np.all(np.isfinite(f)): return "not a finite plane"
    if not close(f[0], o): return "origin"
    if not close(f[1:] @ f[1:].T, np.eye(3), 1e-7): return "axes are not orthonormal"


def frames(case):
    o, n = A(case["o"]), A(case["n"])
    f = N.plane_from_normal2(o, n)
    m = frame_bad(f, o)
    if m: return f"plane_from_normal2: {m}"
    L = np.linalg.norm(n)
    if not close(f[3], n / L if L > 1e-2 else [0, 0, 1]): return f"plane_from_normal2: normal {f[3].tolist()}"
    if L > 1e-2:
        u = n / L
        if np.linalg.norm(o - (u @ o) * u) > 1e-3:
            f = N.plane_from_normal_origin(u, o)
            m = frame_bad(f, o)
            if m: return f"plane_from_normal_origin: {m}"
            if not close(f[3], u) or not close(np.cross(f[3], f[1]), f[2], 1e-7): return "plane_from_normal_origin: axes"
    p = A(case["pts"])
    w = np.cross(p[1] - p[0], p[2] - p[0])
    if np.linalg.norm(w) > 0.05:
        f, e = N.plane_from_3pt(*p)
        m = frame_bad(f, p[0])
        if m: return f"plane_from_3pt: {m}"
        if not close(f[3], w / np.linalg.norm(w)) or not close(np.cross(f[3], f[1]), f[2], 1e-7): return "plane_from_3pt: axes"
        if not close(f[1], (p[1] - p[0]) / np.linalg.norm(p[1] - p[0])): return "plane_from_3pt: the first axis does not point to the second point"
        for q in p:
            if abs(A(e[:3]) @ q + e[3]) > 1e-7 * (1 + np.abs(A(e)).max()): return "plane_from_3pt: a point does not satisfy the equation"


KINDS = {"lines": (gen_lines, lines), "point": (gen_point, point), "coords": (gen_coords, coords), "rays": (gen_ray, rays), "frames": (gen_frame, frames)}
