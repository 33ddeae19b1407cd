import itertools

import numpy as np
from .lib import *
from mmcore.numeric.newton import cnewton as N

A = lambda x: np.array(x, float)


def matrix(rng, n, singular=False):
    """rows often need exchanging: zeros on the diagonal, permuted triangular"""
    while True:
        m = [[rng.choice([0, 0, 1, -1, 2, -2, 3]) * 1.0 for _ in range(n)] for _ in range(n)]
        if rng.random() < 0.5:
            perm = list(range(n))
            rng.shuffle(perm)
            m = [[(m[i][j] if j > i else 0.0) for j in range(n)] for i in range(n)]
            for i in range(n): m[i][i] = rng.choice([1.0, -2.0, 3.0])
            m = [m[k] for k in perm]
        if singular:
            k = rng.randrange(n)
            if n == 1 or rng.random() < 0.3: m[k] = [0.0] * n
            else: m[k] = [2 * x for x in m[(k + 1) % n]]
            return m
        if abs(np.linalg.det(m)) > 0.5 and np.linalg.cond(m) < 50: return m


def gen_linear(rng, i):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    return {"J": matrix(rng, n), "r": [rng.randint(-4, 4) / 2 for _ in range(n)], "x": [rng.randint(-4, 4) / 2 for _ in range(n)], "q": rng.choice([0.0, 0.0, 0.02])}


def linear(case):
    J, r, x, q = A(case["J"]), A(case["r"]), A(case["x"]), case["q"]
    n = len(r)
    f = lambda p: J @ (p - r) + q * (p - r) ** 2
    jac = lambda p: J + 2 * q * np.diag(p - r)
    x0 = x.copy()
    try: s = N.newton_method2(f, jac, x, 1e-9, 60)
    except ValueError as e:
        if q == 0.0: return f"a regular system is refused: {e}"
        return None
    if not np.array_equal(x, x0): return "the starting point changed"
    s = np.asarray(s)
    if q == 0.0 and not np.allclose(s, r, atol=1e-7): return f"solution {s.tolist()}, expected {r.tolist()}"
    if not np.linalg.norm(f(s)) < 1e-6 * (1 + np.abs(J).max()): return f"{s.tolist()} is not a root: {f(s).tolist()}"


def gen_singular(rng, i):
    n = rng.choice([1, 2, 3])
    return {"J": matrix(rng, n, True), "b": [rng.choice([-1.0, 1.0, 2.0]) for _ in range(n)]}


def singular(case):
    J, b = A(case["J"]), A(case["b"])
    try: s = N.newton_method2(lambda p: b, lambda p: J, np.zeros(len(b)), 1e-9, 3)
    except ValueError: return None
    return f"a singular Jacobian is accepted, result {np.asarray(s).tolist()}"


def gen_quad(rng, i):
    n = rng.choice([1, 2, 2, 3])
    while True:
        h = [[0.0] * n for _ in range(n)]
        for a in range(n):
            for b in range(a, n): h[a][b] = h[b][a] = rng.choice([0.0, 0.0, 1.0, -1.0, 2.0])
        if n > 1 and rng.random() < 0.4:
            for a in range(n): h[a][a] = 0.0
        if abs(np.linalg.det(h)) > 0.5: break
    return {"H": h, "r": [rng.randint(-2, 2) / 4 for _ in range(n)], "x": [rng.randint(-2, 2) / 4 for _ in range(n)], "full": rng.random() < 0.5}


def quad(case):
    H, r, x = A(case["H"]), A(case["r"]), A(case["x"])
    n = len(r)
    f = lambda p: float(0.5 * (np.asarray(p) - r) @ H @ (np.asarray(p) - r) + 0.125)
    x0 = x.copy()
    d = A([0.25] * n)
    g, h = np.asarray(N.gradient(f, d, 1e-4)), np.asarray(N.hessian(f, d, 1e-3))
    if g.shape != (n,) or not np.allclose(g, H @ (d - r), atol=1e-6): return f"gradient {g.tolist()}, expected {(H @ (d - r)).tolist()}"
    if h.shape != (n, n) or not np.allclose(h, H, atol=1e-5): return f"second derivatives {h.tolist()}, expected {H.tolist()}"
    if not np.array_equal(d, [0.25] * n): return "the point changed"
    s = N.newtons_method(f, x, 1e-5, 200, True, case["full"])
    if not np.array_equal(x, x0): return "the starting point changed"
    if case["full"]:
        if len(s) != 4: return "full result"
        s, g, h, k = s
        if s is not None and (np.asarray(g).shape != (n,) or np.asarray(h).shape != (n, n) or not 0 <= k < 200): return "full result"
    if s is None: return "no convergence on a quadratic function"
    if not np.allclose(np.asarray(s), r, atol=1e-3): return f"stationary point {np.asarray(s).tolist()}, expected {r.tolist()}"


def gen_flat(rng, i):
    n = rng.choice([1, 2, 3])
    return {"g": [rng.choice([-1, 0, 2]) * 1.0 for _ in range(n)], "full": rng.random() < 0.5, "k": rng.randrange(n)}


def flat(case):
    """no curvature in one direction (the others do not depend on it): singular, the starting value there is not a solution"""
    g = A(case["g"])
    s = N.newtons_method(lambda p: 0.0, A([1.0] * len(g)), 1e-5, 20, True, case["full"])
    if case["full"]: s = s[0]
    if s is not None: return f"a singular Hessian is accepted, result {np.asarray(s).tolist()}"


def gen_cubic(rng, i):
    n = rng.choice([1, 2, 3])
    return {"T": [[[rng.choice([0, 0, 1, -1, 2]) * 1.0 for _ in range(n)] for _ in range(n)] for _ in range(n)], "x": [rng.randint(-4, 4) / 2 for _ in range(n)]}


def cubic(case):
    """sum T[a][b][c] x_a x_b x_c: central second differences are exact, first ones off by h^2 times the third derivative"""
    T, x = A(case["T"]), A(case["x"])
    n, h = len(x), 0.125
    f = lambda p: float(np.einsum("abc,a,b,c", T, np.asarray(p), np.asarray(p), np.asarray(p)))
    e = np.eye(n)
    g = [(f(x + h * e[i]) - f(x - h * e[i])) / (2 * h) for i in range(n)]
    S = sum(np.transpose(T, p) for p in itertools.permutations(range(3)))
    H = np.einsum("abc,c", S, x)
    x0 = x.copy()
    a, b = np.asarray(N.gradient(f, x, h)), np.asarray(N.hessian(f, x, h))
    if not np.allclose(a, g, atol=1e-8): return f"gradient {a.tolist()}, central differences {g}"
    if not np.allclose(b, H, atol=1e-8): return f"second derivatives {b.tolist()}, expected {H.tolist()}"
    if not np.array_equal(x, x0): return "the point changed"


KINDS = {"cubic": (gen_cubic, cubic), "linear": (gen_linear, linear), "singular": (gen_singular, singular), "quad": (gen_quad, quad), "flat": (gen_flat, flat)}
