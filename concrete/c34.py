import numpy as np
from .lib import *
from .c03 import weighted
from .c05 import piece as piece5, far
from mmcore.geom.nurbs import NURBSCurve, NURBSSurface
from mmcore.geom.curves import knot as K
import importlib
R = importlib.import_module("mmcore.construction.ruled")


def cgen(rng, pmax=4, extra=4, uniform=None):
    p, n1 = degree_size(rng, pmax, extra)
    return {"U": knots(rng, n1, p, "clamped"), "P": weighted(rng, n1, rng.random() < 0.3 if uniform is None else uniform), "p": p}


def mk(c): return NURBSCurve(np.array(c["P"], float), c["p"], np.array(c["U"], float))


def inner(c): return [x for x in sorted(set(c["U"])) if c["U"][0] < x < c["U"][-1]]


def gap(xs):
    xs = sorted(set(xs))
    return min([b - a for a, b in zip(xs, xs[1:])] or [1])


def samples(rng, c, n=10): return [rng.uniform(c["U"][0], c["U"][-1]) for _ in range(n)] + [c["U"][0], c["U"][-1]] + inner(c)


def untouched(crv, c, what):
    if not (np.array_equal(np.asarray(crv.knots), c["U"]) and np.array_equal(np.asarray(crv.control_pointsw), np.array(c["P"], float))): return f"{what} changed its operand"


def equal(crv, c, us, what, f=lambda x: x, tol=1e-7):
    """crv at f(u) is the curve of the case at u"""
    V, q = np.asarray(crv.knots).tolist(), crv.degree
    if len(V) != len(np.asarray(crv.control_points)) + q + 1: return f"{what}: {len(V)} knots for {len(np.asarray(crv.control_points))} points of degree {q}"
    iv = V[q], V[-q - 1]
    for u in us:
        v = min(max(f(u), iv[0]), iv[1])
        want = curve(c["U"], c["p"], c["P"], u)
        if not close(np.asarray(crv.evaluate(v))[:3], want, tol): return f"{what}: evaluate({v}) = {np.asarray(crv.evaluate(v)).tolist()}, the curve at {u} is {want}"


# ---- spans
def sgen(rng, i):
    c = cgen(rng)
    c["U"] = knots(rng, len(c["P"]), c["p"])
    n = len(c["P"]) - 1
    c["us"] = params(rng, c["U"], c["p"], n, 10)
    return c


def scheck(c):
    U, p, n = c["U"], c["p"], len(c["P"]) - 1
    for u in c["us"]:
        want = true_span(u, U, p, n)
        if (r := K.find_span_linear(p, U, n + 1, u)) != want and u != U[n + 1]: return f"find_span_linear at {u} is {r}, expected {want}"
        if u == U[n + 1] and r != n: return f"find_span_linear at the end is {r}"
        if (r := K.find_knot_span(n, p, u, np.array(U))) != want: return f"find_knot_span at {u} is {r}, expected {want}"
        if abs(u - U[n + 1]) > 2e-5 and (r := K.find_span_binsearch(p, U, n + 1, u)) != want: return f"find_span_binsearch at {u} is {r}, expected {want}"
        if (r := K.find_multiplicity(u, U)) != sum(abs(x - u) <= 1e-7 for x in U): return f"find_multiplicity at {u} is {r}"
    ws = [u for u in c["us"] if u != U[n + 1]]
    if K.find_spans(p, U, n + 1, ws) != [true_span(u, U, p, n) for u in ws]: return f"find_spans {K.find_spans(p, U, n + 1, ws)}"
    V = K.normalize_knot(U)
    if not close(V, [(x - U[0]) / (U[-1] - U[0]) for x in U], 1e-12): return f"normalize_knot {V}"
    for cl in (True, False):
        V = K.generate_knot(p, n + 1, cl)
        if len(V) != n + p + 2 or any(b - a not in (0.0, 1.0) for a, b in zip(V, V[1:])) or len(set(V)) != (n - p + 2 if cl else n + p + 2) or cl and V.count(V[0]) != p + 1: return f"generate_knot({p}, {n + 1}, {cl}) is {V}"


# ---- insertion, refinement, splitting
def igen(rng, i):
    c = cgen(rng, 4, 5)
    L = c["U"][-1] - c["U"][0]
    ks = inner(c)
    new = lambda: rng.choice(ks) if ks and rng.random() < 0.4 else c["U"][0] + L * rng.choice([0.1, 0.25, 0.37, 0.5, 0.61, 0.8, rng.uniform(0.05, 0.95)])
    c["ts"] = sorted(new() for _ in range(3))
    c["r"] = rng.randint(1, 3)
    c["us"] = samples(rng, c)
    return c


def icheck(c):
    if gap(list(c["U"]) + c["ts"]) < 1e-4: return
    U, p, P, ts = c["U"], c["p"], c["P"], c["ts"]
    room = lambda t: p - U.count(t)
    t = ts[1]
    r = min(c["r"], room(t))
    A = np.array(P, float)
    raw = A[:, :3]
    plain = {"U": U, "p": p, "P": raw.tolist()}
    if r > 0:
        crv = mk(c)
        for u in c["us"][:2]: crv.evaluate(u)
        K.insert_knot(crv, t, r)
        if not close(crv.knots, sorted(U + [t] * r), 1e-12): return f"insert_knot({t}, {r}): knots {np.asarray(crv.knots).tolist()}"
        if m := equal(crv, c, c["us"], f"insert_knot({t}, {r})"): return m
        keep = raw.copy()
        Q, V = K.knot_insertion(p, list(U), raw, t, r)
        if not np.array_equal(keep, raw): return "knot_insertion changed its operand"
        if not close(V, sorted(U + [t] * r), 1e-12): return f"knot_insertion({t}, {r}): knots {V}"
        for u in c["us"]:
            if not close(curve(list(V), p, np.asarray(Q).tolist(), u), curve(U, p, plain["P"], u), 1e-7): return f"knot_insertion({t}, {r}) changes the curve at {u}"
    new = [x for x in ts if room(x) > 0]
    new = sorted(x for i, x in enumerate(new) if new[:i].count(x) < room(x))
    if new:
        Q, V = K.knot_refinement2(len(P) - 1, p, np.array(U), raw, np.array(new))
        if not close(V, sorted(U + new), 1e-12): return f"knot_refinement2({new}): knots {V.tolist()}"
        for u in c["us"]:
            if not close(curve(V.tolist(), p, Q.tolist(), u), curve(U, p, plain["P"], u), 1e-7): return f"knot_refinement2({new}) changes the curve at {u}"
    new = sorted(set(ts))
    if all(room(x) > 0 for x in new):
        Q, V = K.knot_refinement1(p, list(U), raw, knot_list=list(new), density=0)
        want = sorted(list(U) + [x for x in new for _ in range(room(x))])
        if not close(V, want, 1e-12): return f"knot_refinement1({new}): knots {list(V)}"
        Q = [list(map(float, q)) for q in Q]
        for u in c["us"]:
            if not close(curve(list(V), p, Q, u), curve(U, p, plain["P"], u), 1e-7): return f"knot_refinement1({new}) changes the curve at {u}"
    crv = mk(c)
    a, b = K.nurbs_split(crv, t)
    same = lambda x: x
    for o, lo, hi, what in ((a, U[0], t, "first piece"), (b, t, U[-1], "second piece")):
        V = np.asarray(o.knots).tolist()
        if not close([V[0], V[-1]], [lo, hi], 1e-12): return f"nurbs_split({t}) {what}: knots {V}"
        if m := equal(o, c, [u for u in c["us"] if lo <= u <= hi] + [lo, hi, (lo + hi) / 2], f"nurbs_split({t}) {what}", tol=1e-7): return m
    if m := untouched(crv, c, "nurbs_split"): return m
    for d in range(1, p + 1):
        for k in sorted({true_span(u, U, p, len(P) - 1) for u in c["us"]}):
            PK = K.curve_deriv_cpts(3, p, U, raw.tolist(), (k - p, k), d)
            u = (U[k] + U[k + 1]) / 2
            D = dbasis(k, u, p, U, d)
            want = [float(sum(D[j] * Fraction(raw[k - p + j, x]) for j in range(p + 1))) for x in range(3)]
            N = basis(k, u, p - d, U)
            got = [float(sum(N[j] * Fraction(PK[d][j][x]) for j in range(p - d + 1))) for x in range(3)]
            if not close(got, want, 1e-7): return f"curve_deriv_cpts of order {d} on span {k}: {got} instead of {want}"


# ---- degree elevation
def egen(rng, i):
    c = cgen(rng, 3, 3)
    c["num"] = rng.randint(1, 3)
    c["us"] = samples(rng, c)
    c["B"] = pts(rng, rng.randint(2, 5), rng.choice([1, 2, 3, 4]))
    return c


def echeck(c):
    if gap(c["U"]) < 1e-4: return
    crv, num = mk(c), c["num"]
    o = K.degree_elevate_curve(crv, num)
    if o.degree != c["p"] + num: return f"degree {o.degree} after elevation by {num}"
    if m := equal(o, c, c["us"], f"degree_elevate_curve({num})"): return m
    if m := untouched(crv, c, "degree_elevate_curve"): return m
    B = np.array(c["B"], float)
    Q, d = K.degree_elevation_bez(B, len(B) - 1, num)
    if d != len(B) - 1 + num or len(Q) != d + 1: return f"degree_elevation_bez gives {len(Q)} points of degree {d}"
    for t in (0.0, 0.2, 0.5, 0.9, 1.0):
        ber = lambda p: np.array([math.comb(p, i) * t ** i * (1 - t) ** (p - i) for i in range(p + 1)])
        if not close(ber(d) @ Q, ber(len(B) - 1) @ B, 1e-9): return f"degree_elevation_bez of {B.tolist()} by {num} differs at {t}"


# ---- joining
def jgen(rng, i):
    a, b = cgen(rng, 3, 3), cgen(rng, 3, 3)
    ix = rng.choice([0, 1]), rng.choice([0, 1])
    s = a["P"][-1 if ix[0] else 0][:3]
    k = -1 if ix[1] else 0
    b["P"][k] = s + [b["P"][k][3]]
    a["us"], b["us"] = samples(rng, a), samples(rng, b)
    return {"a": a, "b": b, "ix": ix}


def jcheck(c):
    a, b, (i, j) = c["a"], c["b"], c["ix"]
    if min(gap(a["U"]), gap(b["U"])) < 1e-4: return
    ends = lambda x: (np.array(x["P"][0][:3]), np.array(x["P"][-1][:3]))
    if sum(np.linalg.norm(x - y) < 1e-3 for x in ends(a) for y in ends(b)) != 1: return
    A, B = mk(a), mk(b)
    o = K.join_two_curves(A, B)
    if o.degree != max(a["p"], b["p"]): return f"joined curve has degree {o.degree}"
    lo, hi = a["U"][0], a["U"][-1]
    l2, h2 = b["U"][0], b["U"][-1]
    f = (lambda u: u) if i == 1 else (lambda u: lo + hi - u)
    g = (lambda u: hi + u - l2) if j == 0 else (lambda u: hi + h2 - u)
    if not close(o.interval(), [lo, hi + h2 - l2], 1e-9): return f"joined curve on {o.interval()}, parts on {[lo, hi]} and {[l2, h2]}"
    return equal(o, a, a["us"], f"join_two_curves (ends {i}, {j}), first part", f) or equal(o, b, b["us"], f"join_two_curves (ends {i}, {j}), second part", g) or untouched(A, a, "join_two_curves") or untouched(B, b, "join_two_curves")


# ---- ruled surfaces
def rgen(rng, i):
    a, b = cgen(rng, 3, 3), cgen(rng, 3, 3)
    if rng.random() < 0.6:
        # breaks at shared places of the two intervals, multiplicities of their own
        for q in (a, b):
            p, x0, x1 = q["p"], q["U"][0], q["U"][-1]
            at = [k for t in (0.25, 0.5, 0.75) if rng.random() < 0.7 for k in [t] * rng.randint(1, p)]
            q["U"] = [x0] * (p + 1) + [x0 + t * (x1 - x0) for t in at] + [x1] * (p + 1)
            q["P"] = weighted(rng, p + 1 + len(at), rng.random() < 0.3)
    a["ts"] = sorted(rng.choice([0.0, 1.0, 0.5, rng.random()]) for _ in range(8))
    return {"a": a, "b": b}


def rcheck(c):
    a, b = c["a"], c["b"]
    na, nb = [[(x - q["U"][0]) / (q["U"][-1] - q["U"][0]) for x in q["U"]] for q in (a, b)]
    ks = sorted(na + nb)
    if any(0 < y - x < 1e-4 for x, y in zip(ks, ks[1:])): return
    A, B = mk(a), mk(b)
    s = R.ruled(A, B)
    for t in a["ts"]:
        for v, q in ((0.0, a), (1.0, b)):
            u = min(max(q["U"][0] + t * (q["U"][-1] - q["U"][0]), q["U"][0]), q["U"][-1])
            want = curve(q["U"], q["p"], q["P"], u)
            got = np.asarray(s.evaluate_v2(t, v)) if hasattr(s, "evaluate_v2") else np.asarray(s.evaluate(np.array([t, v])))
            if not close(got[:3], want, 1e-6): return f"ruled surface at ({t}, {v}) is {got.tolist()}, the curve is at {want}"
    return untouched(A, a, "ruled") or untouched(B, b, "ruled")


# ---- interpolation
def pgen(rng, i):
    p = rng.randint(1, 4)
    n = p + 1 + rng.randint(0, 5)
    P = pts(rng, n, 3)
    dup = sorted(rng.sample(range(n), min(n, rng.choice([0, 0, 1, 2]))))
    return {"P": [x for k, x in enumerate(P) for _ in range(2 if k in dup else 1)], "p": p, "n": n, "centripetal": rng.random() < 0.4}


def pcheck(c):
    P = np.array(c["P"], float)
    D = [P[0]] + [y for x, y in zip(P, P[1:]) if np.linalg.norm(y - x) > 1e-5]
    if len(D) != c["n"] or min(np.linalg.norm(y - x) for x, y in zip(D, D[1:])) < 1e-3: return
    keep = P.copy()
    Q, kv, p = K.interpolate_curve(P, c["p"], c["centripetal"])
    if not np.array_equal(keep, P): return "interpolate_curve changed the points"
    if p != c["p"] or len(Q) != len(D) or len(kv) != len(D) + p + 1: return f"interpolate_curve: {len(Q)} points, {len(kv)} knots"
    L = [np.linalg.norm(y - x) for x, y in zip(D, D[1:])]
    if c["centripetal"]: L = [x ** 0.5 for x in L]
    u = np.concatenate([[0], np.cumsum(L) / sum(L)])
    u[-1] = 1
    for x, q in zip(u, D):
        got = curve(list(map(float, kv)), p, Q.tolist(), float(x))
        if not close(got, q, 1e-6): return f"interpolating curve at {x} is {got}, the data point is {q.tolist()}"


KINDS = {"spans": (sgen, scheck), "refine": (igen, icheck), "elevate": (egen, echeck), "join": (jgen, jcheck), "ruled": (rgen, rcheck), "interpolate": (pgen, pcheck)}
