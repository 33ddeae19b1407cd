import numpy as np
from .lib import *
from mmcore.geom.nurbs import find_span, NURBSCurve


def gen(rng, i):
    p, n1 = degree_size(rng, 5, 12)
    U = knots(rng, n1, p)
    n = n1 - 1
    u = rng.choice(params(rng, U, p, n))
    per = rng.random() < 0.4
    if per: u += rng.randint(-3, 3) * (U[n + 1] - U[p])
    elif rng.random() < 0.2: u = rng.choice([U[0] - 1, U[-1] + 1, U[p] - 1e-3, (U[0] + U[p]) / 2, U[n + 1] + 1e-3])
    return {"U": U, "p": p, "n": n, "u": u, "periodic": per}


def check(c):
    U, p, n, u = c["U"], c["p"], c["n"], c["u"]
    k = find_span(n, p, u, np.array(U, float), c["periodic"])
    if not p <= k <= n: return f"index {k} outside {p}..{n}"
    lo, hi = U[p], U[n + 1]
    if c["periodic"]:
        T = hi - lo
        if lo <= u < hi:                                    # nothing to wrap: the half-open rule
            return None if k == true_span(u, U, p, n) else f"periodic parameter {u} of the domain: interval {k} = [{U[k]}, {U[k+1]}], expected {true_span(u, U, p, n)}"
        t = (u - lo) % T
        ok = any(U[k] - 1e-9 * abs(T) <= lo + s <= U[k + 1] + 1e-9 * abs(T) for s in (t, t - T, t + T)) and U[k] < U[k + 1]
        if not ok and not (k == n and min(t, T - t) < 1e-9): return f"periodic parameter {u}: interval {k} = [{U[k]}, {U[k+1]}] does not hold it"
        return None
    want = true_span(u, U, p, n)
    if k != want: return f"find_span({n}, {p}, {u}, ...) = {k}, expected {want}"


KINDS = {"span": (gen, check)}
