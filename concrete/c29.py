"""Reported intersections put into the curves, surfaces and implicit functions they were reported for."""


def gen_ccx(rng, i):
    n, m = rng.choice([2, 2, 3, 4]), rng.choice([2, 3, 4])
    pts = lambda n, s: [[rng.uniform(-s, s), rng.uniform(-s, s), 0.0] for _ in range(n)]
    return {"p": pts(n, 3), "q": pts(m, 3), "d": [min(n - 1, rng.choice([1, 2, 3])), min(m - 1, rng.choice([1, 2, 3]))], "fast": rng.choice([1, 1, 1e-3, 1e-4, 2.5]), "tol": rng.choice([.01, .02, .001]), "b": rng.choice([0, 0, 1]), "eager": rng.choice([True, True, True, False])}


def _curve(pts, d, scale=1.0):
    import numpy as np
    from mmcore.geom.nurbs import NURBSCurve
    c = NURBSCurve(np.array(pts, float), degree=d)
    if scale != 1: c = NURBSCurve(np.array(pts, float), degree=d, knots=np.array(c.knots) * scale)
    return c


def check_ccx(c):
    import numpy as np
    from mmcore.numeric.intersection.ccx import ccx, curve_ppx
    a, b = _curve(c["p"], c["d"][0], c["fast"]), _curve(c["q"], c["d"][1])
    (a0, a1), (b0, b1) = a.interval(), b.interval()
    if c["b"]:
        (a0, a1), (b0, b1) = (a0 + (a1 - a0) * .2, a0 + (a1 - a0) * .7), (b0, b0 + (b1 - b0) * .6)
        r = curve_ppx(a, b, c["tol"], bounds1=(a0, a1), bounds2=(b0, b1))
    elif not c["eager"]: r = curve_ppx(a, b, c["tol"], eager=False)
    else: r = ccx(a, b, tol=c["tol"])
    last = None
    for t, s in r:
        if not (a0 - 1e-12 <= t <= a1 + 1e-12 and b0 - 1e-12 <= s <= b1 + 1e-12): return f"ccx reports ({t}, {s}) outside {(a0, a1)} x {(b0, b1)}"
        d = np.linalg.norm(np.array(a.evaluate(t)) - np.array(b.evaluate(s)))
        if d > c["tol"] + 1e-9: return f"ccx reports ({t}, {s}) where the curves are {d} apart"
        if last is not None and t < last: return "ccx results are not in order"
        last = t


def gen_imp(rng, i):
    return {"o": [[rng.uniform(-2, 2), rng.uniform(-2, 2)] for _ in range(2)], "r": [rng.uniform(.8, 2.5) for _ in range(2)], "far": rng.choice([0, 0, 0, 30]), "line": [[rng.uniform(-4, 4), rng.uniform(-4, 4), 0.0] for _ in range(rng.choice([2, 3]))], "swap": rng.choice([0, 1])}


def check_imp(c):
    import numpy as np
    from mmcore.geom.implicit import Implicit2D
    from mmcore.numeric.intersection.ccx import ccx

    class Circle(Implicit2D):
        def __init__(self, o, r):
            super().__init__()
            self.o, self.r = np.array(o, float), r

        def implicit(self, v): return float(np.hypot(v[0] - self.o[0], v[1] - self.o[1]) - self.r)
    k = [Circle([x + c["far"] for x in o], r) for o, r in zip(c["o"], c["r"])]
    for p in ccx(*k):
        if any(abs(x.implicit(p)) > 1e-6 for x in k): return f"ccx of two implicit curves reports {p}, values {[x.implicit(p) for x in k]}"
    z = _curve(c["line"], len(c["line"]) - 1)
    lo, hi = z.interval()
    for t in (ccx(k[0], z) if c["swap"] else ccx(z, k[0])):
        if not lo <= t <= hi: return f"ccx with an implicit curve reports {t} outside {lo}..{hi}"
        if abs(k[0].implicit(z.evaluate(t))) > 1e-6: return f"ccx with an implicit curve reports {t} with value {k[0].implicit(z.evaluate(t))}"


def gen_csx(rng, i):
    n, m = rng.choice([2, 3, 4]), rng.choice([2, 3, 4])
    h = rng.choice([0, 0, 0, 20])
    return {"net": [[[float(x), float(y), rng.uniform(-.7, .7)] for y in range(m)] for x in range(n)], "dn": [min(n - 1, rng.choice([1, 2, 3])), min(m - 1, rng.choice([1, 2, 3]))],
            "c": [[rng.uniform(-.5, n - .5), rng.uniform(-.5, m - .5), z + h] for z in (-2, 0, 2)[:rng.choice([2, 3])]], "dc": rng.choice([1, 2]), "tol": rng.choice([1e-3, 1e-4]), "scale": rng.choice([1, 1, 3.0])}


def check_csx(c):
    import numpy as np
    from mmcore.geom.nurbs import NURBSSurface
    from mmcore.numeric.intersection.csx import csx
    from mmcore.numeric.intersection.csx import nurbs_csx
    s = NURBSSurface(np.array(c["net"], float), tuple(c["dn"]))
    k = _curve(c["c"], min(c["dc"], len(c["c"]) - 1), c["scale"])
    t0, t1 = k.interval()
    (u0, u1), (v0, v1) = s.interval()
    r = np.asarray(csx(k, s, tol=c["tol"]))
    if r.shape[1:] != (3,): return f"csx returns an array of shape {r.shape}"
    for t, u, v in r:
        if not (t0 <= t <= t1 and u0 <= u <= u1 and v0 <= v <= v1): return f"csx reports {t, u, v} outside the domains"
        d = np.linalg.norm(np.array(k.evaluate(t)) - np.array(s.evaluate_v2(u, v)))
        if d > c["tol"] + 1e-9: return f"csx reports {t, u, v} where curve and surface are {d} apart"
    if any(a > b for a, b in zip(r[:, 0], r[1:, 0])): return "csx results are not in order"
    for kind, p, (t, u, v) in nurbs_csx(k, s, tol=c["tol"]):
        if np.linalg.norm(np.array(p) - np.array(k.evaluate(t))) > 1e-9: return f"nurbs_csx reports a point that is not the curve's at {t}"


def gen_ppi(rng, i):
    w = rng.uniform(.2, 1)
    return {"x": [w * (j / 3 - 1) for j in range(7)], "y": [rng.uniform(-.5, .5), rng.uniform(-1, 1)], "h": rng.choice([rng.uniform(.02, .06), rng.uniform(-.5, .5)])}


def check_ppi(c):
    import numpy as np
    from mmcore.geom.curves.bspline import NURBSpline
    from mmcore.geom.surfaces import Surface
    from mmcore.numeric.intersection.csx import curve_surface_intersection, curve_surface_ppi

    class Bowl(Surface):
        def interval(self): return (-2, 2), (-2, 2)
        def derivative_u(self, uv): return np.array([1., 0., 2 * uv[0]])
        def derivative_v(self, uv): return np.array([0., 1., 2 * uv[1]])
        def evaluate(self, uv): return np.array([uv[0], uv[1], uv[0] ** 2 + uv[1] ** 2])
    x = np.array(c["x"])
    y = c["y"][0] + x * c["y"][1]
    k, s = NURBSpline(np.c_[x, y, x * x + y * y - c["h"]]), Bowl()
    a, b = k.interval()
    try: found = curve_surface_intersection(k, s), curve_surface_ppi(k, s)
    except np.linalg.LinAlgError: return None
    for what, r in zip(("curve_surface_intersection", "curve_surface_ppi"), found):
        for t, u, v in r:
            d = np.linalg.norm(k.evaluate(t) - s.evaluate((u, v)))
            if not d <= 1e-6 + 1e-9: return f"{what} reports {t, u, v} where curve and surface are {d} apart"
            if what == "curve_surface_intersection" and not (a <= t <= b and -2 <= u <= 2 and -2 <= v <= 2): return f"{what} reports {t, u, v} outside the domains"


KINDS = {"curves": (gen_ccx, check_ccx), "implicit": (gen_imp, check_imp), "surface": (gen_csx, check_csx), "bowl": (gen_ppi, check_ppi)}
