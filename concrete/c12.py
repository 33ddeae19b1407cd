import numpy as np
from .lib import *
from mmcore.numeric import vectors as V


def dirty(*shapes):
    """leave non-zero garbage in the allocator, so that a read of uninitialised memory shows"""
    for _ in range(2):
        k = [np.full(s, 12345.678) for s in shapes for _ in range(4)]
        del k


ORACLE = {
    "dot": lambda a, b: (a * b).sum(1), "dot_array_x_array": lambda a, b: (a * b).sum(1), "dot_vec_x_array": lambda a, b: (a[0] * b).sum(1), "dot_array_x_vec": lambda a, b: (a * b[0]).sum(1),
    "norm": lambda a, b: np.sqrt((a * a).sum(1)), "unit": lambda a, b: a / np.sqrt((a * a).sum(1))[:, None], "cross": lambda a, b: np.stack([np.cross(x, y) for x, y in zip(a, b)]),
    "gram_schmidt": lambda a, b: b - a * (a * b).sum(1)[:, None],
}


def gen(rng, i):
    f = rng.choice(list(ORACLE))
    w = 3 if f == "cross" else rng.choice([1, 2, 3, 4])
    n = rng.choice([1, 2, 3, 7])
    return {"f": f, "a": [[x or 1.0 for x in r] for r in pts(rng, n, w)], "b": pts(rng, n, w)}


def check(c):
    a, b = np.array(c["a"], float), np.array(c["b"] if c["b"] is not None else c["a"], float)
    if a.ndim == 1: a = np.stack([a] * len(b))
    if b.ndim == 1: b = np.stack([b] * len(a))
    f = c["f"]
    want = ORACLE[f](a, b)
    a0, b0 = a.copy(), b.copy()
    dirty((len(a),), want.shape)
    g = getattr(V, f)
    got = g(a) if f in ("norm", "unit") else g(a[0], b) if f == "dot_vec_x_array" else g(a, b[0]) if f == "dot_array_x_vec" else g(a, b)
    if not close(np.asarray(got), want): return f"{f} = {np.asarray(got).tolist()}, expected {want.tolist()}"
    if not (np.array_equal(a, a0) and np.array_equal(b, b0)): return f"{f} changed an operand"


def gen3(rng, i):
    v = lambda: [x or 0.5 for x in vec(rng)]
    return {k: v() for k in ("a", "b", "s", "p")}


def check3(c):
    a, b, s, p = (np.array(c[k], float) for k in "absp")
    t = a @ b / (b @ b)
    q = s + (p - s) @ b / (b @ b) * b
    g = np.zeros(3)
    V.scalar_gram_schmidt(b, a, g)
    h = a.copy()
    V.scalar_normalize(h)
    for nm, got, want in (("scalar_dot", V.scalar_dot(a, b), a @ b), ("scalar_norm", V.scalar_norm(a), np.sqrt(a @ a)), ("scalar_unit", V.scalar_unit(a), a / np.sqrt(a @ a)), ("scalar_normalize", h, a / np.sqrt(a @ a)),
                          ("scalar_cross", V.scalar_cross(a, b), np.cross(a, b)), ("vector_projection", V.vector_projection(a, b), t * b), ("closest_point_on_ray", V.closest_point_on_ray(s, b, p), q),
                          ("closest_point_on_line", V.closest_point_on_line(s, s + b, p), q), ("scalar_gram_schmidt", g, a - b * (a @ b)), ("normal_from_4pt", V.normal_from_4pt(a, b, s, p), np.cross(s - a, p - b))):
        if not close(np.asarray(got), np.asarray(want), 1e-7): return f"{nm} = {np.asarray(got).tolist()}, expected {np.asarray(want).tolist()}"


def gens(rng, i):
    sing = rng.random() < 0.2
    r = pts(rng, 2, 2)
    if sing: r[1] = [2 * r[0][0], 2 * r[0][1]]
    return {"M": r, "y": vec(rng, 2), "a": pts(rng, 1)[0], "b": vec(rng, 3), "v": pts(rng, 3)}


def checks(c):
    M, y = np.array(c["M"], float), np.array(c["y"], float)
    det = M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    x, J = np.full(2, 7.0), np.full((2, 2), 7.0)
    ok, st = V.solve2x2(M, y, x), V.cinvert_jacobian(M, J)
    if det == 0:
        return None if not ok and st == -1 else f"singular matrix {M.tolist()} not reported"
    if abs(det) < 1e-6 * np.abs(M).max() ** 2: return None
    if not ok or st != 0: return "regular matrix reported singular"
    if not close(M @ x, y, 1e-6): return f"solve2x2 {x.tolist()}"
    if not close(M @ J, np.eye(2), 1e-6): return f"cinvert_jacobian {J.tolist()}"
    Ji, s = V.invert_jacobian(np.stack([M, M.T, M]))
    if not close(np.asarray(Ji)[1] @ M.T, np.eye(2), 1e-6) or any(s): return f"invert_jacobian {np.asarray(Ji).tolist()}"
    a, b, v = np.array(c["a"], float), np.array(c["b"], float), np.array(c["v"], float)
    G = np.array([[a @ a, a @ b], [a @ b, b @ b]])
    if np.linalg.det(G) < 1e-3 * G.max() ** 2: return None
    want = np.array([np.linalg.solve(G, [a @ w, b @ w]) for w in v])
    if not close(V.decompose_vector(v[0], a, b), want[0], 1e-6): return "decompose_vector"
    if not close(V.decompose_vectors(v, a, b), want, 1e-6): return "decompose_vectors"


def genm(rng, i):
    n, r, k, m = (rng.randint(1, 4) for _ in range(4))
    return {"A": [pts(rng, r, k) for _ in range(n)], "B": [pts(rng, k, m) for _ in range(n)], "P": pts(rng, rng.randint(1, 6), 3), "d": pts(rng, 3), "S": [[abs(x) + 0.1, rng.uniform(0.1, 3), rng.uniform(-3, 3)] for x in vec(rng)]}


def checkm(c):
    A, B = np.array(c["A"], float), np.array(c["B"], float)
    dirty((len(A), A.shape[1], B.shape[2]))
    if not close(V.matmul_array(A, B), A @ B, 1e-9): return "matmul_array"
    P, d = np.array(c["P"], float), np.array(c["d"], float)
    s = np.asarray(V.support_vector(P, d[0]))
    if not close(s @ d[0], (P @ d[0]).max()) or not any((s == q).all() for q in P): return f"support_vector {s.tolist()}"
    S = np.asarray(V.multi_support_vector(P, d))
    if not close((S * d).sum(1), (P @ d.T).max(0)): return f"multi_support_vector {S.tolist()}"
    R = np.array(c["S"], float)
    X = np.asarray(V.spherical_to_cartesian(R))
    if not close(np.asarray(V.cartesian_to_spherical(X)), R, 1e-7): return f"spherical round trip {R.tolist()}"
    w = np.stack([R[:, 0] * np.sin(R[:, 1]) * np.cos(R[:, 2]), R[:, 0] * np.sin(R[:, 1]) * np.sin(R[:, 2]), R[:, 0] * np.cos(R[:, 1])], 1)
    if not close(X, w): return "spherical_to_cartesian"
    C = np.stack([R[:, 0], R[:, 2], R[:, 1]], 1)
    X = np.asarray(V.cylindrical_to_xyz(C))
    if not close(X, np.stack([C[:, 0] * np.cos(C[:, 1]), C[:, 0] * np.sin(C[:, 1]), C[:, 2]], 1)): return "cylindrical_to_xyz"
    if not close(V.courtesan_to_cylindrical(X), C, 1e-7): return f"cylindrical round trip {C.tolist()}"


def gena(rng, i): return {"Q": pts(rng, rng.randint(3, 7), 2)}


def checka(c):
    Q = np.array(c["Q"] + c["Q"][:1], float)
    t = float((Q[:-1, 0] * Q[1:, 1] - Q[1:, 0] * Q[:-1, 1]).sum())
    if not close(V.det(Q), -t, 1e-7): return f"det {V.det(Q)}, expected {-t}"
    if abs(t) > 1e-6 and V.points_order(Q) != (0 if t < 0 else 1): return f"orientation {V.points_order(Q)} for area {t / 2}"


KINDS = {"batch": (gen, check), "space": (gen3, check3), "systems": (gens, checks), "products": (genm, checkm), "area": (gena, checka)}
