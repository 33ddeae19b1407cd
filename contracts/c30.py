"""One-dimensional searches.  The functions searched are arbitrary (uninterpreted); unimodality is instantiated at the parameters
that the code looks at.  Loops by invariants, recursive calls and the searches inside other searches by contract."""
from .lib import *

LEVEL = "proof"
D = "mmcore.numeric.divide_and_conquer"
FUNCTIONS = [f"{D}:{f}" for f in ("iterative_divide_and_conquer_min", "recursive_divide_and_conquer_min", "recursive_divide_and_conquer_max", "divide_and_conquer_min_2d", "test_all_roots", "sign")] + \
            ["mmcore.numeric.routines:divide_interval", "mmcore.numeric.closest_point:closest_point_on_curve_single", "mmcore.numeric.closest_point:closest_point_on_curve", "mmcore.numeric.numeric:curve_roots",
             "mmcore.numeric.intersection.ccx.ccx:curve_pix", "mmcore.numeric.intersection.ccx.ccx:curve_x_axis", "mmcore.numeric.intersection.ccx.ccx:curve_x_ray"]
ASSUMPTIONS = ["the function searched is continuous (root search)", "the function searched has one minimum, falling before and rising after it (minimum search)", "tolerances are positive", "numbers are real numbers: intervals shrink below the tolerance"]
TRUSTED = ["min over the nine candidates of the planar search is one of them", "scipy.optimize.bisect returns a zero between two parameters of opposite sign"]


def F(c, name="f", best=None, sign=1):
    """an arbitrary function; with `best`: strictly falling before it and strictly rising after it (rising/falling for sign -1)"""
    seen = []
    def f(t):
        y = X.uf(name, t)
        for u, z in seen:
            a, b = (y, z) if sign == 1 else (z, y)
            if best is not None: c.assume(and_(implies(and_(lt(t, u), le(u, best)), lt(b, a)), implies(and_(lt(u, t), le(t, best)), lt(a, b)),
                                               implies(and_(le(best, t), lt(t, u)), lt(a, b)), implies(and_(le(best, u), lt(u, t)), lt(b, a))))
        seen.append((t, y))
        return y
    return f


class Shrink:
    """the minimum stays between the ends"""
    modifies = ()
    def inv(self, c, e, ph):
        yield "the interval stays inside the bounds", and_(le(c.a, e["low"]), le(e["low"], e["high"]), le(e["high"], c.b))
        yield "the minimum stays in the interval", and_(le(e["low"], c.best), le(c.best, e["high"]))
    def start(self, c, e): c.w0 = sub(e["high"], e["low"])
    def decreases(self, c, e): yield "the interval shrinks to three quarters", le(mul(4, sub(e["high"], e["low"])), mul(3, c.w0))


def setting(c):
    c.a, c.b, c.best, tol = real(c, "a"), real(c, "b"), real(c, "best"), real(c, "tol")
    c.assume(and_(le(c.a, c.best), le(c.best, c.b), lt(0, tol)))
    return tol


def found(c, f, r, tol, what):
    t, y = r
    c.prove(and_(le(c.a, t), le(t, c.b)), what + " is inside the bounds")
    c.prove(eq(y, f(t)), what + " comes with the function's value there")
    c.prove(and_(lt(mul(2, sub(t, c.best)), tol), lt(mul(2, sub(c.best, t)), tol)), what + " is within the tolerance of the true one")


def minimum():
    def body(c, ns):
        tol = setting(c)
        f = F(c, best=c.best)
        c.cover("precondition is satisfiable")
        found(c, f, ns["iterative_divide_and_conquer_min"](f, (c.a, c.b), tol), tol, "the minimum")
    return Task("minimum[iterative]", body, "all", setup=lambda: prog((D,), loopspecs={D: {"iterative_divide_and_conquer_min": {0: Shrink()}}}).load(D))


def recursive(name, sign):
    def body(c, ns):
        tol = setting(c)
        f = F(c, best=c.best, sign=sign)
        c.cover("precondition is satisfiable")
        fn = ns[name]
        def contract(g, bounds, t):
            lo, hi = bounds
            c.prove(g is f and t is tol, "function and tolerance are handed down")
            c.prove(and_(le(c.a, lo), le(lo, c.best), le(c.best, hi), le(hi, c.b)), "the best parameter stays in the interval")
            c.prove(le(mul(4, sub(hi, lo)), mul(3, sub(c.b, c.a))), "the interval shrinks to three quarters")
            x = X.fresh("x")
            c.assume(and_(le(lo, x), le(x, hi), lt(mul(2, sub(x, c.best)), tol), lt(mul(2, sub(c.best, x)), tol)))
            return x, f(x)
        try:
            ns[name] = contract
            r = fn(f, (c.a, c.b), tol)
        finally: ns[name] = fn
        found(c, f, r, tol, "the minimum" if sign == 1 else "the maximum")
    return Task(f"{'minimum' if sign == 1 else 'maximum'}[recursive]", body, "all", setup=lambda: prog((D,)).load(D))


class Window:
    modifies = ()
    def inv(self, c, e, ph):
        for v, (a, b) in (("x", c.xr), ("y", c.yr)):
            yield "the window stays inside the range", and_(le(a, e[v + "_min"]), le(e[v + "_min"], e[v + "_max"]), le(e[v + "_max"], b))
    def start(self, c, e): c.w0 = sub(e["x_max"], e["x_min"]), sub(e["y_max"], e["y_min"])
    def decreases(self, c, e):
        for w, v in zip(c.w0, "xy"): yield "the window shrinks to a half", le(mul(2, sub(e[v + "_max"], e[v + "_min"])), w)


def minimum2d():
    def body(c, ns):
        c.xr, c.yr, tol = (real(c, "x0"), real(c, "x1")), (real(c, "y0"), real(c, "y1")), real(c, "tol")
        c.assume(and_(le(*c.xr), le(*c.yr), lt(0, tol)))
        c.cover("precondition is satisfiable")
        def f(x, y):
            c.prove(and_(le(c.xr[0], x), le(x, c.xr[1]), le(c.yr[0], y), le(y, c.yr[1])), "the function is evaluated inside the range only")
            return X.fresh("f")
        real_min = rt.b_min
        def smallest(*a, key=None):
            """min over candidates by contract: one of them"""
            if len(a) == 1 and key is not None and len(a[0]) == 9: return a[0][c.choose(9, "smallest")]
            return real_min(*a) if key is None else real_min(*a, key=key)
        ns["min"] = smallest
        x, y = ns["divide_and_conquer_min_2d"](f, c.xr, c.yr, tol)
        c.prove(and_(le(c.xr[0], x), le(x, c.xr[1]), le(c.yr[0], y), le(y, c.yr[1])), "the result is inside the range")
    return Task("minimum[2d]", body, "all", setup=lambda: prog((D,), loopspecs={D: {"divide_and_conquer_min_2d": {0: Window()}}}).load(D))


def some_min(c, log=None):
    """contract of the minimum search for any function"""
    def contract(g, bounds, tol):
        lo, hi = bounds
        c.prove(le(lo, hi), "a minimum is searched in an interval")
        t = X.fresh("t")
        c.assume(and_(le(lo, t), le(t, hi)))
        y = g(t)
        if log is not None: log.append((lo, hi, t, y))
        return t, y
    return contract


def roots():
    def body(c, ns):
        a, b, tol = real(c, "a"), real(c, "b"), real(c, "tol")
        c.assume(lt(0, tol))
        f = F(c)
        c.cover("precondition is satisfiable")
        zeros, tried = [], []
        def bis(g, lo, hi):
            c.prove(le(lo, hi), "bisection gets an interval")
            c.prove(le(mul(g(lo), g(hi)), 0), "bisection gets opposite signs")
            z = X.fresh("zero")
            c.assume(and_(le(lo, z), le(z, hi)))
            c.assume(eq(g(z), 0))
            zeros.append(z)
            return z
        ns["bisect"] = bis
        ns["iterative_divide_and_conquer_min"] = some_min(c, tried)
        fn = ns["test_all_roots"]
        def contract(g, bounds, t):
            lo, hi = bounds
            c.prove(g is f and t is tol, "function and tolerance are handed down")
            c.prove(or_(lt(hi, lo), and_(le(a, lo), le(hi, b))), "the recursion stays in the interval")
            c.prove(or_(le(sub(hi, lo), tol), le(sub(hi, lo), sub(sub(b, a), tol))), "the recursion terminates")
            if c.choose(2, "more roots") == 0: return []
            z = X.fresh("zero")
            c.assume(and_(le(lo, z), le(z, hi)))
            c.assume(eq(g(z), 0))
            return [z]
        try:
            ns["test_all_roots"] = contract
            r = fn(f, (a, b), tol)
        finally: ns["test_all_roots"] = fn
        for z in r: c.prove(and_(le(a, z), le(z, b), eq(f(z), 0)), "only zeros inside the bounds are reported")
        if len(tried) == 2:
            hi, lo = sub(0, tried[0][3]), tried[1][3]
            c.prove(implies(and_(lt(lo, 0), lt(0, hi)), bool(zeros) and any(x is zeros[0] for x in r)), "a change of sign between the extremes is reported")
    return Task("roots", body, "all", setup=lambda: prog((D,)).load(D))


R = "mmcore.numeric.routines"


def pieces():
    def body(c, ns):
        a, b, st = real(c, "start"), real(c, "end"), real(c, "step")
        c.assume(and_(le(a, b), lt(0, st), le(sub(b, a), mul(4, st))))
        c.cover("precondition is satisfiable")
        r = ns["divide_interval"](a, b, step=st)
        rows_ = [list(x) for x in r]
        if not rows_: c.prove(eq(a, b), "a proper interval has pieces"); return
        c.prove(eq(rows_[0][0], a), "the pieces start at the start")
        c.prove(eq(rows_[-1][1], b), "the pieces end at the end")
        for x, y in zip(rows_, rows_[1:]): c.prove(eq(x[1], y[0]), "the pieces follow each other")
        for x in rows_: c.prove(and_(lt(x[0], x[1]), le(sub(x[1], x[0]), st)), "no piece is longer than the step")
    return Task("divide_interval", body, "up to 4 pieces", setup=lambda: prog((R,)).load(R))


def divided(c, m, log):
    """contract of divide_interval"""
    def contract(start, end, step=1.):
        k = [X.fresh("k") for _ in range(m - 1)]
        ks = [start] + k + [end]
        for x, y in zip(ks, ks[1:]): c.assume(lt(x, y))
        log.append((start, end))
        return rt.arr_of([v for x in zip(ks, ks[1:]) for v in x], (m, 2))
    return contract


class Curve:
    def __init__(self, c):
        self.c, self.a, self.b = c, real(c, "t0"), real(c, "t1")
        c.assume(lt(self.a, self.b))
    def interval(self): return (self.a, self.b)
    def evaluate(self, t):
        self.c.prove(and_(le(self.a, t), le(t, self.b)), "the curve is evaluated in its domain only")
        return rt.arr_of([X.uf(f"x{k}", t) for k in range(3)], (3,))


CP = "mmcore.numeric.closest_point"


def closest(m):
    def body(c, ns):
        crv, p, log, tried = Curve(c), vec(c, "p", 3), [], []
        tol = real(c, "tol")
        c.assume(lt(0, tol))
        ns["scalar_norm"] = lambda v: X.uf("norm", *[v[k] for k in range(3)])
        ns["divide_interval"] = divided(c, m, log)
        ns["iterative_divide_and_conquer_min"] = some_min(c, tried)
        c.cover("precondition is satisfiable")
        r = ns["closest_point_on_curve_single"](crv, p, tol) if c.choose(2, "entry") else ns["closest_point_on_curve"](crv, p, tol)
        t, d = r
        dist = lambda s: X.uf("norm", *[sub(p[k], X.uf(f"x{k}", s)) for k in range(3)])
        c.prove(and_(le(crv.a, t), le(t, crv.b)), "the closest parameter is in the domain")
        c.prove(eq(d, dist(t)), "the distance reported is the distance at the parameter reported")
        for s in (crv.a, crv.b) + tuple(x[2] for x in tried): c.prove(le(d, dist(s)), "no end and no local minimum found is closer")
        c.prove(log and eq(log[0][0], crv.a) and eq(log[0][1], crv.b) and len(tried) == m, "the whole domain is searched")
    return Task(f"closest[{m} pieces]", body, f"{m} pieces", setup=lambda: prog((CP,)).load(CP))


def many():
    def body(c, ns):
        pts = mat(c, "p", 2, 3)
        crv, log = object(), []
        ns["closest_point_on_curve_single"] = lambda cv, p, tol=1e-3: (cv is crv, [p[k] for k in range(3)], tol)
        r = ns["closest_point_on_curve"](crv, pts, tol=5)
        c.prove(len(r) == 2 and all(x[0] and x[2] == 5 for x in r), "every point is searched for")
        for i in range(2): prove_eqs(c, r[i][1], [pts[i, k] for k in range(3)], "results are in the order of the points")
    return Task("closest[many points]", body, "2 points", setup=lambda: prog((CP,)).load(CP))


PIX = "mmcore.numeric.intersection.ccx.ccx"
NUM = "mmcore.numeric.numeric"


def axis_roots(kind, m):
    """curve x implicit, curve x axis, curve x ray, roots of a coordinate: all through test_all_roots on the pieces of the domain"""
    mod = NUM if kind == "curve_roots" else PIX
    def body(c, ns):
        crv, log, calls = Curve(c), [], []
        ns["divide_interval"] = divided(c, m, log)
        def roots(g, bounds, tol):
            lo, hi = bounds
            c.prove(lt(0, tol), "the tolerance is positive")
            calls.append((lo, hi))
            if c.choose(2, "root") == 0: return []
            z = X.fresh("zero")
            c.assume(and_(le(lo, z), le(z, hi)))
            c.assume(eq(g(z), 0))
            return [z]
        ns["test_all_roots"] = roots
        co = lambda t: [X.uf(f"x{k}", t) for k in range(3)]
        c.cover("precondition is satisfiable")
        ax = c.choose(3, "axis") if kind != "curve_pix" else 0
        o = [real(c, f"o{k}") for k in range(3)]
        if kind == "curve_pix":
            f = lambda p: X.uf("implicit", p[0], p[1], p[2])
            imp = f
            if c.choose(2, "form"):
                class I: implicit = staticmethod(f)
                imp = I()
            r, val = ns["curve_pix"](crv, imp), lambda t: X.uf("implicit", *co(t))
        elif kind == "curve_x_axis": r, val = ns["curve_x_axis"](crv, axis=ax), lambda t: co(t)[ax]
        elif kind == "curve_roots": r, val = ns["curve_roots"](crv, axis=ax), lambda t: co(t)[ax]
        else: r, val = ns["curve_x_ray"](crv, list(o), axis=ax), lambda t: sub(o[ax], co(t)[ax])
        for z in r: c.prove(and_(le(crv.a, z), le(z, crv.b), eq(val(z), 0)), "reported parameters are zeros inside the domain")
        c.prove(log and eq(log[0][0], crv.a) and eq(log[0][1], crv.b) and len(calls) == m, "the whole domain is searched")
    return Task(f"{kind}[{m} pieces]", body, f"{m} pieces", setup=lambda: prog((mod,)).load(mod))


TASKS = [minimum(), recursive("recursive_divide_and_conquer_min", 1), recursive("recursive_divide_and_conquer_max", -1), minimum2d(), roots(), pieces(), many()] + \
        [closest(m) for m in (1, 2, 3)] + [axis_roots(k, m) for k in ("curve_pix", "curve_x_axis", "curve_x_ray", "curve_roots") for m in (1, 3)]
