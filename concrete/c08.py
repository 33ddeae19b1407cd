import numpy as np
from .lib import *
from .c07 import net, surf
from mmcore.geom.nurbs import NURBSSurface, split_surface_u, split_surface_v, subdivide_surface, decompose_surface


def gen(rng, i):
    (pu, n), (pv, m) = degree_size(rng, 3, 3), degree_size(rng, 3, 3)
    U, V = knots(rng, n, pu, "clamped"), knots(rng, m, pv, "clamped")
    cut = lambda K: rng.choice([x for x in K if K[0] < x < K[-1]] or [(K[0] + K[-1]) / 2]) if rng.random() < 0.4 else K[0] + (K[-1] - K[0]) * rng.choice([0.25, 0.5, 0.61, rng.uniform(0.05, 0.95)])
    return {"pu": pu, "pv": pv, "U": U, "V": V, "H": net(rng, n, m, rng.random() < 0.6), "tu": cut(U), "tv": cut(V), "g": [[rng.random(), rng.random()] for _ in range(6)] + [[0, 1], [1, 1], [0, 0]], "order": rng.random() < 0.5, "r": rng.randint(1, 3)}


def piece(s, c, lo, hi, what, norm=False):
    """s is the surface on the rectangle lo..hi"""
    (a, b), (e, f) = s.interval()
    want = [[0, 1], [0, 1]] if norm else [[lo[0], hi[0]], [lo[1], hi[1]]]
    if not close([[a, b], [e, f]], want, 1e-9): return f"{what}: parameter rectangle {[[a, b], [e, f]]}, expected {want}"
    for p, K, lo_, hi_, got, q in ((c["pu"], c["U"], lo[0], hi[0], s.knots_u, s.control_points_w.shape[0]), (c["pv"], c["V"], lo[1], hi[1], s.knots_v, s.control_points_w.shape[1])):
        k = [lo_] * (p + 1) + [x for x in K if lo_ < x < hi_] + [hi_] * (p + 1)
        if norm: k = [(x - lo_) / (hi_ - lo_) for x in k]
        if not close(got, k): return f"{what}: knots {np.asarray(got).tolist()}, expected {k}"
        if q != len(k) - p - 1: return f"{what}: {q} control points for {len(k)} knots"
    return points(s, c, lo, hi, what, norm)


def points(s, c, lo, hi, what, norm=False):
    for x, y in c["g"]:
        u, v = lo[0] + x * (hi[0] - lo[0]), lo[1] + y * (hi[1] - lo[1])
        u, v = min(max(u, lo[0]), hi[0]), min(max(v, lo[1]), hi[1])
        want = surf(c["U"], c["V"], c["pu"], c["pv"], c["H"], u, v)
        got = s.evaluate_v2(float(x), float(y)) if norm else s.evaluate_v2(u, v)
        if not close(got, want, 1e-6): return f"{what}: at ({u}, {v}) {np.asarray(got).tolist()}, the surface is {want}"


def check(c):
    U, V, pu, pv, H, tu, tv = c["U"], c["V"], c["pu"], c["pv"], np.array(c["H"]), c["tu"], c["tv"]
    gap = lambda K, t: min(b - a for a, b in zip(*(lambda k: (k, k[1:]))(sorted(set(K) | {t})))) < 1e-3
    if gap(U, tu) or gap(V, tv): return
    new = lambda: NURBSSurface(H.copy(), (pu, pv), np.array(U), np.array(V))
    s = new()
    A, Z = (U[0], V[0]), (U[-1], V[-1])
    for d, t, p, K in (("u", tu, pu, U), ("v", tv, pv, V)):
        a, b = (split_surface_u if d == "u" else split_surface_v)(s, t)
        m = piece(a, c, A, (t, Z[1]) if d == "u" else (Z[0], t), f"split_surface_{d} first") or piece(b, c, (t, A[1]) if d == "u" else (A[0], t), Z, f"split_surface_{d} second")
        if m: return m
        for bad in (K[0], K[-1], K[0] - 1, K[-1] + 1):
            try: (split_surface_u if d == "u" else split_surface_v)(s, bad)
            except ValueError: continue
            return f"split_surface_{d} at {bad} is not refused"
    for norm in (False, True):
        out = subdivide_surface(s, tu, tv, 1e-7, norm)
        for q, (lo, hi) in zip(out, ((A, (tu, tv)), ((A[0], tv), (tu, Z[1])), ((tu, A[1]), (Z[0], tv)), ((tu, tv), Z))):
            m = piece(q, c, lo, hi, f"subdivide_surface normalize={norm}", norm)
            if m: return m
    for dirs in ("u", "v", "uv"):
        out = decompose_surface(s, dirs)
        ks = lambda K, on: sorted(set(K)) if on else [K[0], K[-1]]
        cu, cv = ks(U, "u" in dirs), ks(V, "v" in dirs)
        cells = [((a, e), (b, f)) for a, b in zip(cu, cu[1:]) for e, f in zip(cv, cv[1:])]
        if len(out) != len(cells): return f"decompose_surface({dirs}) gives {len(out)} pieces, expected {len(cells)}"
        for q, (lo, hi) in zip(out, cells):
            m = piece(q, c, lo, hi, f"decompose_surface({dirs})")
            if m: return m
    if not np.array_equal(np.array(s.control_points_w), H) or not close(s.knots_u, U) or not close(s.knots_v, V): return "the original surface was changed"
    # insertions
    todo = [("u", tu, min(c["r"], pu - U.count(tu))), ("v", tv, min(c["r"], pv - V.count(tv)))]
    if c["order"]: todo.reverse()
    KU, KV = list(U), list(V)
    for d, t, r in todo:
        if r < 1: continue
        if d == "u": s.insert_knot_u(t, r); KU = sorted(KU + [t] * r)
        else: s.insert_knot_v(t, r); KV = sorted(KV + [t] * r)
        if not close(s.knots_u, KU) or not close(s.knots_v, KV): return f"knots after insert_knot_{d}"
        if tuple(np.array(s.control_points_w).shape) != (len(KU) - pu - 1, len(KV) - pv - 1, 4): return f"control net after insert_knot_{d}"
        if not np.array_equal(np.array(s.control_points_flat_w).reshape(-1), np.array(s.control_points_w).reshape(-1)): return "flat and grid control points differ"
        m = points(s, c, A, Z, f"after insert_knot_{d}({t}, {r})")
        if m: return m


KINDS = {"surface": (gen, check)}
