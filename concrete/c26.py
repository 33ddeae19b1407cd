"""Executed contracts of Bernstein and monomial forms and of the Gauss map."""
import contextlib
import importlib
import io
import math

import numpy as np
MO = importlib.import_module("mmcore.numeric.monomial")
importlib.import_module("mmcore.numeric.intersection.ssx")      # gauss_map and ssx import one another: this order is the one that loads
GM = importlib.import_module("mmcore.numeric.gauss_map")
BI = importlib.import_module("mmcore.numeric.binom")
NU = importlib.import_module("mmcore.geom.nurbs")


def quiet(f):
    """f() with its standard output; (value, text)"""
    o = io.StringIO()
    with contextlib.redirect_stdout(o): r = f()
    return r, o.getvalue()


def bern(n, i, u): return math.comb(n, i) * u ** i * (1 - u) ** (n - i)


def bez(P, u, v):
    n, m = P.shape[:2]
    return sum(bern(n - 1, i, u) * bern(m - 1, j, v) * P[i, j] for i in range(n) for j in range(m))


def mono(A, u, v, a=0, b=0):
    n, m = A.shape[:2]
    return sum((math.perm(i, a) * math.perm(j, b) * u ** (i - a) * v ** (j - b) * A[i, j] for i in range(a, n) for j in range(b, m)), np.zeros(A.shape[2]))


def near(a, b, s, tol=1e-9): return float(np.max(np.abs(np.asarray(a, float) - np.asarray(b, float)), initial=0)) <= tol * s


def pgen(rng, i):
    n, m, d = rng.randint(2, 5), rng.randint(2, 5), 3
    g = lambda n, m: [[[rng.choice([0., 1., -1., rng.uniform(-3, 3)]) for _ in range(d)] for _ in range(m)] for _ in range(n)]
    n2, m2 = rng.randint(1, 4), rng.randint(1, 4)
    return {"P": g(n, m), "Q": g(n2, m2), "w": [[rng.choice([1., 2., rng.uniform(.3, 3)]) for _ in range(m)] for _ in range(n)], "uv": [[rng.choice([0., 1., rng.random()]), rng.choice([0., 1., rng.random()])] for _ in range(5)]}


def pcheck(c):
    P, Q, W = np.array(c["P"]), np.array(c["Q"]), np.array(c["w"])
    kP = P.copy()
    n, m = P.shape[:2]
    s = 1e3 * (1 + np.abs(P).max() ** 2 + np.abs(Q).max() ** 2)
    (A, B), text = quiet(lambda: (MO.bezier_to_monomial(P), MO.monomial_to_bezier(P)))
    H = np.concatenate([P, W[..., None]], axis=2)
    R, t2 = quiet(lambda: MO.homogeneous_monomial_to_rational_bezier(MO.bezier_to_monomial(H)))
    (N, NB), t3 = quiet(lambda: (MO.normal_vector_monomial(A), GM.compute_gauss_map(P)))
    (du, dv), t4 = quiet(lambda: MO.monomial_partial_derivatives(A))
    C, t5 = quiet(lambda: MO.cross_product_monomial(A, Q))
    M1, t6 = quiet(lambda: MO.Monomial2D.from_bernstein_basis(P))
    S0 = NU.NURBSSurface(P, (n - 1, m - 1))
    (M2, M3, S1, S2), t7 = quiet(lambda: (MO.Monomial2D.from_nurbs(S0), MO.Monomial2D.from_bezier(S0), M1.to_nurbs(), M1.to_bezier()))
    if text or t2 or t3 or t4 or t5 or t6 or t7: return f"printed {(text or t2 or t3 or t4 or t5 or t6 or t7)[:60]!r}"
    if tuple(S1.degree) != (n - 1, m - 1) or tuple(S2.degree) != (n - 1, m - 1): return f"a form of degrees {(n - 1, m - 1)} became a surface of degrees {tuple(S1.degree)}"
    for u, v in c["uv"]:
        x = bez(P, u, v)
        Du = bez((n - 1) * (P[1:] - P[:-1]), u, v)
        Dv = bez((m - 1) * (P[:, 1:] - P[:, :-1]), u, v)
        for nm, y, z in (("the monomial form of a patch", mono(A, u, v), x), ("evaluate_monomial2d", MO.evaluate_monomial2d(A, u, v), x), ("evaluate_bezier_patch", MO.evaluate_bezier_patch(P, u, v), x), ("the patch of a monomial form", bez(B, u, v), mono(P, u, v)),
                         ("homogeneous_monomial_to_rational_bezier", bez(np.concatenate([R[..., :3] * R[..., 3:], R[..., 3:]], axis=2), u, v), bez(H, u, v)),
                         ("the rational patch", MO.evaluate_rational_bezier_patch(P, W, u, v), bez(np.concatenate([P * W[..., None]], axis=2), u, v) / bez(W[..., None], u, v)[0]),
                         ("monomial_partial_derivatives, u", mono(du, u, v), Du), ("monomial_partial_derivatives, v", mono(dv, u, v), Dv), ("normal_vector_monomial", mono(N, u, v), np.cross(Du, Dv)), ("compute_gauss_map", bez(NB, u, v), np.cross(Du, Dv)),
                         ("cross_product_monomial", mono(C, u, v), np.cross(x, mono(Q, u, v))), ("Monomial2D.from_bernstein_basis", M1.evaluate_v2(u, v), x), ("Monomial2D.evaluate", M1.evaluate(np.array([u, v])), x),
                         ("Monomial2D.from_nurbs", M2.evaluate_v2(u, v), x), ("Monomial2D.from_bezier", M3.evaluate_v2(u, v), x), ("Monomial2D.to_nurbs", S1.evaluate_v2(u, v), x), ("Monomial2D.to_bezier", S2.evaluate_v2(u, v), x),
                         ("Monomial2D.monomial_normal", M1.monomial_normal().evaluate_v2(u, v), np.cross(Du, Dv)), ("Monomial2D.to_bernstein_basis", bez(M1.to_bernstein_basis(), u, v), x)):
            if not near(y, z, s): return f"{nm} at {(u, v)}: {np.asarray(y)} instead of {np.asarray(z)}"
    return None if np.array_equal(P, kP) else "the control points changed"


def bgen(rng, i): return {"n": rng.randint(0, 30), "k": rng.randint(0, 30), "d": rng.randint(0, 10)}


def bcheck(c):
    for f in ("binomial_coefficient_py", "binomial_coefficient"):
        g = getattr(BI, f, None)
        if g is not None and g(c["n"], c["k"]) != math.comb(c["n"], c["k"]): return f"{f}({c['n']}, {c['k']}) = {g(c['n'], c['k'])}"
    for meth in ("mmcore", "scipy"):
        b, n = MO.bpmat(c["d"], meth), c["d"]
        for j in range(n + 1):
            for k in range(n + 1):
                if b[j][k] != (math.comb(n, k) * math.comb(n - k, j - k) * (-1) ** (j - k) if j >= k else 0): return f"bpmat({n}, {meth!r})[{j}][{k}] = {b[j][k]}"


KINDS = {"patch": (pgen, pcheck), "binom": (bgen, bcheck)}
