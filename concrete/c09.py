import copy
import pickle
import numpy as np
from .lib import *
from .c03 import weighted, agree
from mmcore.geom.nurbs import NURBSCurve, NURBSSurface

WAYS = {"copy": lambda c: c.copy(), "deepcopy": copy.deepcopy, "copy.copy": copy.copy, "pickle": lambda c: pickle.loads(pickle.dumps(c)), "serialize": lambda c: NURBSCurve.deserialize(c.serialize()),
        "bytearray": lambda c: NURBSCurve.deserialize(bytearray(c.serialize()))}


def state(c): return (np.array(c.control_pointsw).tolist(), np.array(c.knots).tolist(), int(c.degree), bool(c.periodic), [float(x) for x in c.interval()], np.asarray(c.greville_abscissae).tolist())


def gen(rng, i):
    p, n1 = degree_size(rng, 4, 6)
    per = rng.random() < 0.2 and n1 > p
    U = knots(rng, n1, p, "clamped")
    return {"U": U, "P": weighted(rng, n1), "p": p, "periodic": per, "us": params(rng, U, p, n1 - 1), "way": rng.choice(list(WAYS)), "side": rng.random() < 0.5,
            "ops": [rng.choice(["weights", "points", "knots", "insert", "normalize", "set"]) for _ in range(rng.randint(1, 3))], "x": rng.random(), "second": rng.choice(list(WAYS))}


def give(f, *arrays):
    """hand the arrays over, then overwrite them: they stay the caller's"""
    f(*arrays)
    for a in arrays: a[:] = 77


def change(c, op, x):
    if op == "weights": give(lambda w: setattr(c, "weights", w), np.asarray(c.weights) * (1 + x) + 0.25)
    elif op == "points": give(lambda w: setattr(c, "control_points", w), np.array(c.control_points) * (2 + x) + 1)
    elif op == "knots": give(lambda w: setattr(c, "knots", w), np.asarray(c.knots) * (2 + x) + 1)
    elif op == "insert":
        a, b = c.interval()
        c.insert_knot(a + (b - a) * (0.1 + 0.8 * x), 1)
    elif op == "normalize": c.normalize_knots()
    else: give(c.set, np.asarray(c.control_pointsw)[::-1].copy(), np.asarray(c.knots) + 3)


def check(c):
    P, U = np.array(c["P"], float), np.array(c["U"], float)
    crv = NURBSCurve(P, c["p"]) if c["periodic"] else NURBSCurve(P, c["p"], U)
    if c["periodic"]: crv.make_periodic()
    P[:] = 77; U[:] = 77                                 # the caller's arrays
    us = c["us"] if not c["periodic"] else np.linspace(crv.knots[c["p"]], crv.knots[-c["p"] - 1], 7)[:-1].tolist()
    if not c["periodic"]:
        m = agree(crv, c["U"], c["p"], c["P"], us, "after changing the caller's arrays")
        if m: return m
    before, pts_before = state(crv), [list(crv.evaluate(u)) for u in us]
    dup = WAYS[c["way"]](crv)
    if state(dup) != before: return f"{c['way']}: {state(dup)}, original {before}"
    if not (crv == dup) or hash(crv) != hash(dup): return f"{c['way']}: not equal to the original"
    dup = WAYS[c["second"]](dup)
    if state(dup) != before: return f"{c['way']} then {c['second']}: {state(dup)}, original {before}"
    a, b = (crv, dup) if c["side"] else (dup, crv)
    for k, op in enumerate(c["ops"]):
        if c["periodic"] and op in ("insert", "normalize"): continue
        was = state(a)
        want = {"knots": lambda: np.asarray(a.knots) * (2 + (c["x"] + 0.37 * k) % 1) + 1, "set": lambda: np.asarray(a.knots) + 3}.get(op, lambda: None)()
        change(a, op, (c["x"] + 0.37 * k) % 1)
        if want is not None and not np.array_equal(want, np.asarray(a.knots)): return f"after {op} the knots are {np.asarray(a.knots)} instead of {want}"
        if state(b) != before: return f"{c['way']}: {op} on one changes the other"
        if [list(b.evaluate(u)) for u in us] != pts_before: return f"{c['way']}: {op} on one changes points of the other"
        if state(a) != was and state(a) != state(b) and a == b: return f"different curves compare equal after {op}"
    if not c["periodic"]:
        Q, V = np.asarray(a.control_pointsw), np.asarray(a.knots)
        uu = [V[0] + (V[-1] - V[0]) * t for t in (0.0, 0.21, 0.5, 0.83, 1.0)]
        return agree(a, V.tolist(), c["p"], Q.tolist(), uu, f"{c['way']} after {c['ops']}")


def gen_bad(rng, i):
    c = gen(rng, i)
    return {"U": c["U"], "P": c["P"], "p": c["p"], "cut": rng.random(), "how": rng.choice(["cut", "cut", "cut", "magic", "version", "cpts", "knots", "empty", "huge"])}


def check_bad(c):
    d = bytearray(NURBSCurve(np.array(c["P"], float), c["p"], np.array(c["U"], float)).serialize())
    n = len(d)
    if n != 24 + 8 * (4 * len(c["P"]) + len(c["U"])): return f"{n} bytes for {len(c['P'])} control points and {len(c['U'])} knots"
    h = c["how"]
    if h == "cut": d = d[:int(c["cut"] * n)]
    elif h == "empty": d = d[:0]
    elif h == "magic": d[0] ^= 1
    elif h == "version": d[4] += 1
    elif h == "cpts": d[16] += 1
    elif h == "knots": d[20] += 1
    else: d[19] = 0x7f
    try: NURBSCurve.deserialize(bytes(d))
    except ValueError: return None
    return f"malformed data ({h}, {len(d)} of {n} bytes) is accepted"


def gen_srf(rng, i):
    p, n = degree_size(rng, 3, 5); q, m = degree_size(rng, 3, 5)
    return {"p": p, "q": q, "U": knots(rng, n, p, "clamped"), "V": knots(rng, m, q, "clamped"), "P": [weighted(rng, m) for _ in range(n)], "side": rng.random() < 0.5,
            "ops": [rng.choice(["ku", "kv", "iu", "iv", "norm", "pt"]) for _ in range(2)], "x": rng.random(), "uv": [[rng.random(), rng.random()] for _ in range(4)]}


def sstate(s): return (np.array(s.control_points_w).tolist(), np.array(s.control_points_flat_w).tolist(), np.array(s.knots_u).tolist(), np.array(s.knots_v).tolist(), list(s.degree), list(s.shape), np.array(s.interval()).tolist())


def schange(s, op, x):
    (a, b), (c, d) = np.array(s.interval()).tolist()
    if op == "ku": give(lambda k: setattr(s, "knots_u", k), np.asarray(s.knots_u) * 2 + 1)
    elif op == "kv": give(lambda k: setattr(s, "knots_v", k), np.asarray(s.knots_v) * 2 + 1)
    elif op == "iu": s.insert_knot_u(a + (b - a) * (0.1 + 0.8 * x), 1)
    elif op == "iv": s.insert_knot_v(c + (d - c) * (0.1 + 0.8 * x), 1)
    elif op == "norm": s.normalize_knots()
    else: s.control_points_w[0, 0, 0] = 5 + x


def check_srf(c):
    P, U, V = np.array(c["P"], float), np.array(c["U"], float), np.array(c["V"], float)
    s = NURBSSurface(P, (c["p"], c["q"]), U, V)
    ref = NURBSSurface(P.copy(), (c["p"], c["q"]), U.copy(), V.copy())
    P[:] = 77; U[:] = 77; V[:] = 77
    if sstate(s) != sstate(ref): return "changing the caller's arrays changes the surface"
    before = sstate(s)
    d = s.copy()
    if sstate(d) != before: return f"copy {sstate(d)}, original {before}"
    if not (s == d) or hash(s) != hash(d): return "a copy is not equal to the surface"
    a, b = (s, d) if c["side"] else (d, s)
    uv = [[c["U"][0] + (c["U"][-1] - c["U"][0]) * x, c["V"][0] + (c["V"][-1] - c["V"][0]) * y] for x, y in c["uv"]]
    pts0 = [np.asarray(b.evaluate(np.array(x))).tolist() for x in uv]
    for k, op in enumerate(c["ops"]):
        want = [np.asarray(getattr(a, "knots_" + d)) * (2 if op == "k" + d else 1) + (op == "k" + d) for d in "uv"]
        schange(a, op, (c["x"] + 0.37 * k) % 1)
        if op in ("ku", "kv", "pt") and not all(np.array_equal(w, np.asarray(getattr(a, "knots_" + d))) for w, d in zip(want, "uv")): return f"after {op} the knots are {np.asarray(a.knots_u)}, {np.asarray(a.knots_v)} instead of {want}"
        if sstate(b) != before: return f"{op} on one changes the other"
        if sstate(a)[:4] != before[:4] and a == b: return f"different surfaces compare equal after {op}"
    if [np.asarray(b.evaluate(np.array(x))).tolist() for x in uv] != pts0: return "points of the other change"


KINDS = {"curve": (gen, check), "malformed": (gen_bad, check_bad), "surface": (gen_srf, check_srf)}
