"""One-dimensional searches on known functions: polynomials with given roots, unimodal functions, polylines as curves."""
import math


def gen_min(rng, i):
    a = rng.choice([0, -3, 2.5, rng.uniform(-5, 5)])
    b = a + rng.choice([0, .5, 1, 7, rng.uniform(0, 20)])
    return {"a": a, "b": b, "best": rng.choice([a, b, (a + b) / 2, rng.uniform(a, b)]), "tol": rng.choice([1e-3, 1e-2, .1, 1e-6]), "l": rng.uniform(.1, 5), "r": rng.uniform(.1, 5), "p": rng.choice([1, 2, .5])}


def check_min(c):
    from mmcore.numeric import divide_and_conquer as m
    a, b, best, tol = c["a"], c["b"], c["best"], c["tol"]

    def f(t): return abs(t - best) ** c["p"] * (c["l"] if t < best else c["r"])
    for name, g in (("iterative_divide_and_conquer_min", f), ("recursive_divide_and_conquer_min", f), ("recursive_divide_and_conquer_max", lambda t: -f(t))):
        t, y = getattr(m, name)(g, (a, b), tol)
        if not a <= t <= b: return f"{name}: {t} outside {a}..{b}"
        if y != g(t): return f"{name}: the value is not the function's at the parameter"
        if abs(t - best) > tol / 2 + 1e-9: return f"{name}: {t} instead of {best}"
    x0, x1 = a, b + .5

    def f2(x, y):
        if not (x0 - 1e-12 <= x <= x1 + 1e-12 and -1 - 1e-12 <= y <= 2 + 1e-12): raise AssertionError(f"evaluated outside the range at {x}, {y}")
        return (x - best) ** 2 + (y - .3) ** 2 / 2
    try: x, y = m.divide_and_conquer_min_2d(f2, (x0, x1), (-1, 2), max(tol, 1e-5))
    except AssertionError as e: return f"divide_and_conquer_min_2d: {e}"
    if not (x0 <= x <= x1 and -1 <= y <= 2): return f"divide_and_conquer_min_2d: ({x}, {y}) outside the range"


def gen_roots(rng, i):
    a = rng.choice([0, -3, 2.5])
    b = a + rng.choice([.3, .5, 1, 2, 2.2, 4])
    return {"a": a, "b": b, "zeros": sorted(rng.uniform(a - 1, b + 1) for _ in range(rng.randint(0, 5))), "up": rng.choice([0, 0, 1]), "ax": rng.randint(0, 2), "step": rng.choice([.5, 1, .3, .25])}


class Poly:
    def __init__(self, c):
        self.c, self.bad = c, None

    def interval(self): return self.c["a"], self.c["b"]

    def f(self, t):
        return math.prod(t - z for z in self.c["zeros"]) + self.c["up"]

    def evaluate(self, t):
        import numpy as np
        if not self.c["a"] <= t <= self.c["b"]: self.bad = t
        p = np.array([t, 2 * t, -t])
        p[self.c["ax"]] = self.f(t)
        return p
    __call__ = evaluate


def check_roots(c):
    import numpy as np
    from mmcore.numeric.routines import divide_interval
    from mmcore.numeric.numeric import curve_roots
    from mmcore.numeric.intersection.ccx.ccx import curve_pix, curve_x_axis, curve_x_ray
    from mmcore.numeric.divide_and_conquer import test_all_roots
    a, b, k = c["a"], c["b"], Poly(c)
    d = divide_interval(a, b, step=c["step"]).tolist()
    if d[0][0] != a or abs(d[-1][1] - b) > 1e-9 or d[-1][1] > b: return f"divide_interval: pieces {d} of {a}..{b}"
    if any(x[1] != y[0] and abs(x[1] - y[0]) > 1e-12 for x, y in zip(d, d[1:])) or any(x[1] - x[0] > c["step"] + 1e-12 or x[1] <= x[0] for x in d): return f"divide_interval: pieces {d}"
    ax, o = c["ax"], [.5, -.25, .125]
    for name, call, val in (("curve_roots", lambda: curve_roots(k, axis=ax), k.f), ("curve_x_axis", lambda: curve_x_axis(k, axis=ax), k.f), ("curve_x_ray", lambda: curve_x_ray(k, list(o), axis=ax), lambda t: k.f(t) - o[ax]),
                            ("curve_pix", lambda: curve_pix(k, lambda p: p[ax] - .1), lambda t: k.f(t) - .1), ("test_all_roots", lambda: test_all_roots(k.f, (a, b), .01), k.f)):
        for t in call():
            if not a <= t <= b: return f"{name}: {t} outside {a}..{b}"
            if abs(val(t)) > 1e-6: return f"{name}: value {val(t)} at reported {t}"
        if k.bad is not None: return f"{name}: evaluates the curve outside its domain at {k.bad}"
    z = [x for x in c["zeros"] if a + .1 < x < b - .1]
    if len(c["zeros"]) == 1 and z and not c["up"]:
        if not any(abs(t - z[0]) < 1e-6 for t in test_all_roots(k.f, (a, b), .01)): return f"test_all_roots: misses the only zero {z[0]}"


def gen_close(rng, i):
    n = rng.randint(2, 4)
    return {"pts": [[rng.uniform(-3, 3) for _ in range(3)] for _ in range(n)], "q": [[rng.uniform(-4, 4) for _ in range(3)] for _ in range(3)], "a": rng.choice([0, 1, -2]), "s": rng.choice([1, .5, 1.3])}


class Line:
    """a straight or bent curve on a domain that is not a multiple of the search step"""
    def __init__(self, c):
        self.c, self.bad = c, None

    def interval(self): return self.c["a"], self.c["a"] + self.c["s"] * (len(self.c["pts"]) - 1)

    def evaluate(self, t):
        import numpy as np
        if not self.interval()[0] <= t <= self.interval()[1]: self.bad = t
        P = np.array(self.c["pts"])
        u = (t - self.c["a"]) / self.c["s"]
        i = min(max(int(u), 0), len(P) - 2)
        return P[i] + (u - i) * (P[i + 1] - P[i])
    __call__ = evaluate


def check_close(c):
    import numpy as np
    from mmcore.numeric.closest_point import closest_point_on_curve, closest_point_on_curve_single
    k = Line(c)
    a, b = k.interval()
    one = [closest_point_on_curve(k, np.array(q), tol=1e-4) for q in c["q"]]
    many = closest_point_on_curve(k, np.array(c["q"]), tol=1e-4)
    for q, (t, d), (t2, d2) in zip(c["q"], one, many):
        if abs(t - t2) > 1e-9 or abs(d - d2) > 1e-9: return "closest points of several points differ from those one by one"
        if not a <= t <= b or k.bad is not None: return f"closest point: parameter {t} or {k.bad} outside {a}..{b}"
        if abs(np.linalg.norm(k.evaluate(t) - q) - d) > 1e-9: return f"closest point: distance {d} is not the one at the parameter {t}"
        for e in (a, b):
            if np.linalg.norm(k.evaluate(e) - q) < d - 1e-9: return f"closest point: the end {e} is closer than {d}"
        if len(c["pts"]) == 2:
            s = np.linspace(a, b, 2001)
            true = min(np.linalg.norm(k.evaluate(x) - q) for x in s)
            if d > true + 1e-2: return f"closest point on a segment: {d} instead of {true}"


KINDS = {"minimum": (gen_min, check_min), "roots": (gen_roots, check_roots), "closest": (gen_close, check_close)}
