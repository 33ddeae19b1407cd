import numpy as np
from .lib import *
from mmcore.geom import nurbs
from mmcore.geom.curves import deboor as db
from mmcore.geom.curves.bspline_utils import calc_basis_functions


def gen(rng, i):
    p, n1 = degree_size(rng, 5, 6)
    U = knots(rng, n1, p)
    u = rng.choice(params(rng, U, p, n1 - 1))
    return {"U": U, "p": p, "span": true_span(u, U, p, n1 - 1), "u": u}


def check(c):
    U, p, k, u = c["U"], c["p"], c["span"], c["u"]
    A = np.array(U, float)
    want = [float(x) for x in basis(k, u, p, U)]
    got = {"basis_functions": nurbs.basis_functions(k, u, p, A), "ders_basis_funs": np.asarray(nurbs.ders_basis_funs(k, u, p, 0, A))[0]}
    got["calc_basis_functions"] = np.asarray(calc_basis_functions(k, u, p, A))
    for f, N in got.items():
        if not close(np.asarray(N).reshape(-1), want): return f"{f} at {u}, span {k}, degree {p}: {list(np.asarray(N))}, expected {want}"
    N = np.asarray(nurbs.all_basis_funs(k, u, p, A))
    for q in range(p + 1):
        w = [float(x) for x in basis(k, u, q, U)]
        if not close(N[:q + 1, q], w): return f"all_basis_funs column {q}: {list(N[:q + 1, q])}, expected {w}"
    if list(A) != list(map(float, U)): return "the knot vector was changed"


def gen_all(rng, i):
    p, n1 = degree_size(rng, 4, 5)
    U = knots(rng, n1, p, "clamped")
    return {"U": U, "p": p, "n1": n1, "u": rng.choice(params(rng, U, p, n1 - 1))}


def check_all(c):
    U, p, n1, u = c["U"], c["p"], c["n1"], c["u"]
    k = true_span(u, U, p, n1 - 1)
    want = [0.0] * n1
    for j, x in enumerate(basis(k, u, p, U)): want[k - p + j] = float(x)
    A = np.array(U, float)
    got = [db.deboor(A, u, i, p) for i in range(n1)]
    if not close(got, want): return f"deboor(., {u}, i, {p}) = {got}, expected {want}"


KINDS = {"basis": (gen, check), "deboor": (gen_all, check_all)}
