"""Surfaces: knot insertion leaves the surface where it was, pieces of split, subdivided and decomposed surfaces are the surface
on their parameter rectangles.  Homogeneous control points (positive weights), knots and cut parameters are symbolic; degrees,
sizes and multiplicities are fixed per task.  find_multiplicity by contract (settled by C01)."""
from .lib import *
from .c04 import multiplicity, place, merged
from .c05 import interior, parent
from .c07 import net, grid, tensor, point_spec

LEVEL = "other"
FUNCTIONS = [NURBS + ":" + f for f in ("NURBSSurface.insert_knot_u", "NURBSSurface.insert_knot_v", "split_surface_u", "split_surface_v", "subdivide_surface", "decompose_surface", "knot_insertion", "knot_insertion_kv", "NURBSSurface.ccopy", "NURBSSurface.create", "NURBSSurface.normalize_knots")]
ASSUMPTIONS = ["positive weights; clamped knot vectors", "a knot either equals the cut parameter or differs by more than the tolerance of find_multiplicity (settled by C01)",
               "cut parameters are at least 1e-6 from the ends of the domain"]


def loaded(): return prog(overrides={(NURBS, "find_multiplicity"): multiplicity}).load(NURBS)


def strictly(c, a, b): return a is not b and c.decide(lt(a, b))


def restricted(c, U, p, lo, hi):
    old = [x for i, x in enumerate(U) if (i == 0 or U[i - 1] is not x) and strictly(c, lo, x) and strictly(c, x, hi)]
    inner = [x for x in old for _ in range(sum(1 for y in U if y is x))]
    W = [lo] * (p + 1) + inner + [hi] * (p + 1)
    return rt.arr_of(W, (len(W),))


def same_on(c, s, P, U, V, pu, pv, W, Z, what, nu=None, nv=None):
    """s has knots W x Z (normalised if nu / nv) and equals the surface (P, U, V) on every cell of W x Z"""
    f = lambda K: (lambda x: div(sub(x, K[0]), sub(K[-1], K[0])))
    fu, fv = f(W) if nu else (lambda x: x), f(Z) if nv else (lambda x: x)
    Q, KU, KV = s.control_points_w, s.knots_u, s.knots_v
    n, m = len(W) - pu - 1, len(Z) - pv - 1
    c.prove(tuple(Q.shape) == (n, m, 4) and len(KU) == len(W) and len(KV) == len(Z), what + ": sizes")
    if not (tuple(Q.shape) == (n, m, 4) and len(KU) == len(W) and len(KV) == len(Z)): raise sym.PathEnd()
    c.prove(tuple(s.degree) == (pu, pv), what + ": degrees")
    for a, b in zip(KU, W): c.prove(eq(a, fu(b)), what + ": knots in u")
    for a, b in zip(KV, Z): c.prove(eq(a, fv(b)), what + ": knots in v")
    (u0, u1), (v0, v1) = s.interval()
    c.prove(and_(eq(u0, fu(W[0])), eq(u1, fu(W[-1])), eq(v0, fv(Z[0])), eq(v1, fv(Z[-1]))), what + ": parameter rectangle")
    for j in nonempty_spans(W, pu, n - 1):
        ku = parent(c, U, pu, len(U) - pu - 1, W[j])
        for i in nonempty_spans(Z, pv, m - 1):
            kv = parent(c, V, pv, len(V) - pv - 1, Z[i])
            u, v = var(f"u{j}"), var(f"v{i}")
            a = point_spec(P, U, V, pu, pv, u, v, ku, kv)
            b = point_spec(Q, W, Z, pu, pv, u, v, j, i)
            for d in range(4): c.prove(eq(b[d], a[d]), what + ": same points and weights")
    flat = s.control_points_flat_w
    prove_eqs(c, flat.reshape(-1), Q.reshape(-1), what + ": flat view shows the same control points")


def insert(d, pu, mu, pv, mv, where, r):
    def body(c, ns):
        n, m, U, V, P = grid(c, pu, mu, pv, mv)
        c.inputs["dir"], c.inputs["r"] = d, r
        K, p, q = (U, pu, n) if d == "u" else (V, pv, m)
        t, k, s_ = place(c, K, p, q, where)
        c.cover("precondition is satisfiable")
        s = ns["NURBSSurface"](P.copy(), (pu, pv), U.copy(), V.copy())
        (s.insert_knot_u if d == "u" else s.insert_knot_v)(t, r)
        N = merged(K, k, t, r)
        same_on(c, s, P, U, V, pu, pv, N if d == "u" else U, N if d == "v" else V, "the surface is unchanged")
        for x in s.control_points_flat_w[:, 3]: c.prove(lt(0, x), "weights stay positive")
    return Task(f"insert_knot_{d}[{pu}x{pv},interior={mu}x{mv},{where[0]} {where[1]},r={r}]", body, f"degrees {pu}x{pv}, interior multiplicities {mu} and {mv}", setup=loaded)


def split(d, pu, mu, pv, mv, where):
    def body(c, ns):
        n, m, U, V, P = grid(c, pu, mu, pv, mv)
        c.inputs["dir"] = d
        K, p, q = (U, pu, n) if d == "u" else (V, pv, m)
        t, k, s_ = place(c, K, p, q, where)
        interior(c, K, t)
        c.cover("precondition is satisfiable")
        s = ns["NURBSSurface"](P.copy(), (pu, pv), U.copy(), V.copy())
        a, b = ns["split_surface_" + d](s, t)
        A, B = restricted(c, K, p, K[0], t), restricted(c, K, p, t, K[-1])
        for piece, X_, what in ((a, A, "first piece"), (b, B, "second piece")): same_on(c, piece, P, U, V, pu, pv, X_ if d == "u" else U, X_ if d == "v" else V, what)
        prove_eqs(c, s.control_points_w.reshape(-1), P.reshape(-1), "the original surface is unchanged")
        prove_eqs(c, s.knots_u, U, "the original surface is unchanged"); prove_eqs(c, s.knots_v, V, "the original surface is unchanged")
        a.control_points_w[0, 0, 0] = 77; a.insert_knot_u(div(add(a.knots_u[0], a.knots_u[-1]), 2), 1) if pu == 1 and not mu else None
        prove_eqs(c, s.control_points_w.reshape(-1), P.reshape(-1), "the pieces do not share points with the original")
        for bad in (K[0], K[-1], sub(K[0], 1), add(K[-1], 1)):
            try: ns["split_surface_" + d](s, bad)
            except ValueError: continue
            c.prove(False, "a split at or outside the ends is refused")
    return Task(f"split_surface_{d}[{pu}x{pv},interior={mu}x{mv},{where[0]} {where[1]}]", body, f"degrees {pu}x{pv}, interior multiplicities {mu} and {mv}", setup=loaded)


def quarters(pu, mu, pv, mv, wu, wv, norm):
    def body(c, ns):
        n, m, U, V, P = grid(c, pu, mu, pv, mv)
        tu, ku, _ = place(c, U, pu, n, wu, "tu"); tv, kv, _ = place(c, V, pv, m, wv, "tv")
        interior(c, U, tu); interior(c, V, tv)
        c.cover("precondition is satisfiable")
        s = ns["NURBSSurface"](P.copy(), (pu, pv), U.copy(), V.copy())
        out = ns["subdivide_surface"](s, tu, tv, Fraction(1, 10 ** 7), norm)
        c.prove(len(out) == 4, "four pieces")
        ul, ur = restricted(c, U, pu, U[0], tu), restricted(c, U, pu, tu, U[-1])
        vl, vr = restricted(c, V, pv, V[0], tv), restricted(c, V, pv, tv, V[-1])
        for piece, W, Z, what in zip(out, (ul, ul, ur, ur), (vl, vr, vl, vr), ("lower left", "upper left", "lower right", "upper right")):
            same_on(c, piece, P, U, V, pu, pv, W, Z, what, norm, norm)
        prove_eqs(c, s.control_points_w.reshape(-1), P.reshape(-1), "the original surface is unchanged")
    return Task(f"subdivide_surface[{pu}x{pv},interior={mu}x{mv},{wu[0]} {wu[1]},{wv[0]} {wv[1]},normalised={norm}]", body, f"degrees {pu}x{pv}, interior multiplicities {mu} and {mv}", setup=loaded)


def decompose(pu, mu, pv, mv, dirs):
    def body(c, ns):
        n, m, U, V, P = grid(c, pu, mu, pv, mv)
        c.inputs["dirs"] = dirs
        for K in (U, V):
            ks = [x for i, x in enumerate(K) if i == 0 or K[i - 1] is not x]
            for a, b in zip(ks, ks[1:]): c.assume(lt(Fraction(1, 10 ** 6), sub(b, a)))
        c.cover("precondition is satisfiable")
        s = ns["NURBSSurface"](P.copy(), (pu, pv), U.copy(), V.copy())
        out = ns["decompose_surface"](s, dirs)
        cut = lambda K, on: [(a, b) for a, b in zip(*(lambda ks: (ks, ks[1:]))([x for i, x in enumerate(K) if i == 0 or K[i - 1] is not x] if on else [K[0], K[-1]]))]
        cells = [(a, b) for a in cut(U, "u" in dirs) for b in cut(V, "v" in dirs)]
        c.prove(len(out) == len(cells), "one piece per cell")
        for piece, ((a, b), (e, f)) in zip(out, cells):
            same_on(c, piece, P, U, V, pu, pv, restricted(c, U, pu, a, b) if "u" in dirs else U, restricted(c, V, pv, e, f) if "v" in dirs else V, "piece")
        prove_eqs(c, s.control_points_w.reshape(-1), P.reshape(-1), "the original surface is unchanged")
    return Task(f"decompose_surface[{pu}x{pv},interior={mu}x{mv},{dirs}]", body, f"degrees {pu}x{pv}, interior multiplicities {mu} and {mv}", setup=loaded)


TASKS = []
for d in "uv":
    f = lambda pu, mu, pv, mv: (pu, mu, pv, mv) if d == "u" else (pv, mv, pu, mu)
    TASKS += [insert(d, *f(1, [1], 1, []), ("in", 0), 1), insert(d, *f(1, [], 2, [1]), ("in", 0), 1), insert(d, *f(2, [1], 1, [1]), ("in", 1), 2), insert(d, *f(2, [1], 1, []), ("at", 0), 1), insert(d, *f(2, [1, 1], 1, []), ("in", 1), 1), insert(d, *f(3, [2], 1, []), ("at", 0), 1), insert(d, *f(3, [1], 1, []), ("in", 0), 3),
              insert(d, *f(3, [1], 2, []), ("in", 1), 2)]
    TASKS += [split(d, *f(1, [1], 1, []), ("in", 0)), split(d, *f(1, [1], 2, [1]), ("at", 0)), split(d, *f(2, [1], 1, [1]), ("in", 1)), split(d, *f(2, [1], 1, []), ("at", 0)), split(d, *f(2, [2], 1, []), ("at", 0)), split(d, *f(3, [1], 1, []), ("in", 0)), split(d, *f(3, [2], 1, []), ("at", 0))]
TASKS += [quarters(1, [], 1, [], ("in", 0), ("in", 0), False), quarters(1, [1], 1, [1], ("at", 0), ("in", 1), True), quarters(2, [], 1, [1], ("in", 0), ("at", 0), True), quarters(1, [], 2, [1], ("in", 0), ("in", 0), False)]
TASKS += [decompose(1, [1], 1, [1], "uv"), decompose(2, [1], 1, [1, 1], "uv"), decompose(2, [2], 1, [1], "u"), decompose(1, [1], 2, [1, 1], "v")]
MODEL_CASE = {}
