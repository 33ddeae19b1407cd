import numpy as np
from .lib import *
from .c03 import weighted
from mmcore.geom.nurbs import NURBSCurve, split_curve, split_curve2, decompose_curve, split_curve_multiple


def gen(rng, i):
    p, n1 = degree_size(rng, 5, 6)
    U = knots(rng, n1, p, "clamped")
    P = weighted(rng, n1, rng.random() < 0.3)
    inner = [x for x in sorted(set(U)) if U[0] < x < U[-1]]
    L = U[-1] - U[0]
    ts = sorted(rng.choice(inner) if inner and rng.random() < 0.4 else U[0] + L * rng.choice([0.1, 0.25, 0.37, 0.5, 0.61, 0.8, rng.uniform(0.05, 0.95)]) for _ in range(2))
    return {"U": U, "P": P, "p": p, "ts": ts, "us": [rng.uniform(U[0], U[-1]) for _ in range(12)] + inner, "before": rng.random() < 0.5}


def far(c):
    ks = sorted(set(c["U"]) | set(c["ts"]))
    return min(b - a for a, b in zip(ks, ks[1:])) > 1e-4


def piece(crv, c, lo, hi, f, what):
    """crv on its interval is the curve on [lo, hi]; f maps original to piece parameters"""
    if not close(crv.interval(), [f(lo), f(hi)], 1e-9): return f"{what}: interval {crv.interval()}, expected {[f(lo), f(hi)]}"
    V, p = np.asarray(crv.knots).tolist(), c["p"]
    if crv.degree != p or len(V) != len(np.asarray(crv.control_points)) + p + 1: return f"{what}: sizes"
    want = [f(lo)] * (p + 1) + [f(x) for x in c["U"] if lo < x < hi] + [f(hi)] * (p + 1)
    if not close(V, want): return f"{what}: knots {V}, expected {want}"
    iv = crv.interval()
    for u in [lo, hi, (lo + hi) / 2] + [u for u in c["us"] if lo <= u <= hi]:
        v = min(max(f(u), iv[0]), iv[1])
        want = curve(c["U"], p, c["P"], u)
        if not close(np.asarray(crv.evaluate(v))[:3], want, 1e-7): return f"{what}: evaluate({v}) = {np.asarray(crv.evaluate(v)).tolist()}, the curve at {u} is {want}"


def check(c):
    if not far(c): return
    U, P, p, ts = c["U"], c["P"], c["p"], c["ts"]
    new = lambda: NURBSCurve(np.array(P, float), p, np.array(U, float))
    same = lambda x: x
    crv = new()
    if c["before"]:
        for u in c["us"]: crv.evaluate(u)
    for t in ts:
        for fn in (split_curve, split_curve2):
            a, b = fn(crv, t)
            m = piece(a, c, U[0], t, same, f"{fn.__name__}({t}) first piece") or piece(b, c, t, U[-1], same, f"{fn.__name__}({t}) second piece")
            if m: return m
        a, b = split_curve(crv, t, normalize_knots=True)
        m = piece(a, c, U[0], t, lambda x: (x - U[0]) / (t - U[0]), "normalised first piece") or piece(b, c, t, U[-1], lambda x: (x - t) / (U[-1] - t), "normalised second piece")
        if m: return m
    for t1, t2 in [tuple(ts), (U[0], ts[0]), (ts[1], U[-1]), (U[0], U[-1]), (U[0] - 1, ts[1]), (ts[0], U[-1] + 2)]:
        if t2 - t1 < 1e-4: continue
        for x, y in ((t1, t2), (t2, t1)):
            lo, hi = max(t1, U[0]), min(t2, U[-1])
            m = piece(crv.trim(x, y), c, lo, hi, lambda v: v - lo, f"trim({x}, {y})")
            if m: return m
    ks = sorted(set(U))
    out = decompose_curve(crv)
    if len(out) != len(ks) - 1: return f"decompose_curve gives {len(out)} pieces"
    for o, a, b in zip(out, ks, ks[1:]):
        m = piece(o, c, a, b, same, f"decompose_curve piece [{a}, {b}]")
        if m: return m
    if ts[0] != ts[1]:
        out = split_curve_multiple(crv, np.array(ts, float))
        if len(out) != 3: return f"split_curve_multiple gives {len(out)} pieces"
        for o, a, b in zip(out, [U[0]] + ts, ts + [U[-1]]):
            m = piece(o, c, a, b, same, "split_curve_multiple piece")
            if m: return m
    for t in (U[0], U[-1], U[0] - 1, U[-1] + 1):
        for fn in (split_curve, split_curve2):
            try: fn(crv, t)
            except ValueError: continue
            return f"{fn.__name__} at {t} is not refused"
    return piece(crv, c, U[0], U[-1], same, "the curve itself after splitting")


KINDS = {"pieces": (gen, check)}
