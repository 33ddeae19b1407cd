"""Newton iterations that bring a point to a foot point of a curve or surface, or onto implicit curves and surfaces: every iteration,
by invariant, over curves, surfaces and implicit functions known only by their values."""
from .lib import *

LEVEL = "proof"
V = "mmcore.numeric.vectors"
M = "mmcore.numeric.algorithms.point_inversion"
I = "mmcore.numeric.algorithms.implicit_point"
FUNCTIONS = [f"{M}:{f}" for f in ("point_inversion_curve", "point_inversion_surface")] + [
    f"{I}:{f}" for f in ("curve_point", "surface_point", "surface_plane", "intersection_curve_point", "_curve_point2", "_curve_point_newton_step")]
ASSUMPTIONS = ["curves, surfaces, functions and gradients are pure functions of the parameter or point", "tangents are not zero at the parameters visited (regular curves and surfaces)", "tolerances are not negative"]


def load(mod, loops=None, over=None): return prog((V, mod), loopspecs=loops, overrides=over).load(mod)
def arr(l): return rt.arr_of(list(l), (len(l),))
def dot(a, b): return lin(list(a), list(b))
def nrm(a): return X.sqrt(dot(a, a))
def dif(a, b): return [sub(x, y) for x, y in zip(a, b)]
def ab(x): return X.max_(x, sub(0, x))
def val(name, n, x): return [X.uf(f"{name}{k}", *x, sort="R") for k in range(n)]
def fresh(c, name, n): return arr([X.fresh(name, "R") for _ in range(n)])
def same(a, old): return all(x is y for x, y in zip(a, old))


class Base:
    modifies = ()
    vecs = {}
    def havoc(self, c, v, old, env):
        if v in self.vecs: return fresh(c, v, self.vecs[v])
        return NotImplemented


class Oracle:
    """a curve or surface known only by its values"""
    def __init__(self, c, names, dim, npar, regular):
        self.c, self.dim, self.npar = c, dim, npar
        for attr, name in names.items(): setattr(self, attr, self.make(name, name in regular))

    def make(self, name, regular):
        def f(u):
            u = [u] if self.npar == 1 else list(u)
            v = val(name, self.dim, u)
            if regular: self.c.assume(lt(0, dot(v, v)))
            return arr(v)
        return f


# ------------------------------------------------------------------ foot points
class CurveLoop(Base):
    def __init__(self, dim):
        self.dim = dim
        self.vecs = {"C_point": dim, "C_prime": dim, "C_double_prime": dim}

    def inv(self, c, e, ph):
        u = e["ui"]
        if ph == "enter": yield "the iteration starts at the given parameter", eq(u, c.u0)
        if ph == "back":
            q = c.q
            C, C1, C2 = (val(n, self.dim, [q]) for n in ("C", "D", "E"))
            d = dif(C, c.P)
            yield "a step is Newton's step for the foot point", eq(mul(sub(q, u), add(dot(C2, d), dot(C1, C1))), dot(C1, d))
        for n, loc in (("C", "C_point"), ("D", "C_prime"), ("E", "C_double_prime")):
            for k, x in enumerate(val(n, self.dim, [u])): yield "point and derivatives are those at the current parameter", eq(e[loc][k], x)

    def havoc_heap(self, c, e):
        for n, loc in (("C", "C_point"), ("D", "C_prime"), ("E", "C_double_prime")):
            for k, x in enumerate(val(n, self.dim, [e["ui"]])): e[loc][k] = x

    def start(self, c, e): c.q, c.it = e["ui"], e["_"]


def t_curve(dim):
    def body(c, ns):
        c.P = [real(c, f"P{k}") for k in range(dim)]
        P = strict(arr(c.P))
        c.u0, tol1, tol2, n = real(c, "u0"), real(c, "tol1"), real(c, "tol2"), integer(c, "max_iter")
        c.assume(and_(lt(0, tol1), lt(0, tol2), lt(0, n)))
        o = Oracle(c, {"evaluate": "C", "derivative": "D", "second_derivative": "E"}, dim, 1, "D")
        ns["abs"] = ab
        c.cover("precondition is satisfiable")
        r = ns["point_inversion_curve"](o, P, c.u0, tol1, tol2, n)
        q = c.q
        C, C1, C2 = (val(k, dim, [q]) for k in ("C", "D", "E"))
        d = dif(C, c.P)
        fp = add(dot(C2, d), dot(C1, C1))
        R, R1 = val("C", dim, [r]), val("D", dim, [r])
        dr = dif(R, c.P)
        c.prove(same(P, c.P), "the point is unchanged")
        if r is q:
            c.prove(or_(le(n, c.it), le(ab(fp), lin([1, 1], [0, frac(1e-8)]))), "the iteration ends early without a step only where the second derivative of the distance vanishes")
            return
        c.cover("the iteration ends with a step")
        c.prove(eq(mul(sub(q, r), fp), dot(C1, d)), "the parameter returned is one Newton step from the one before")
        crit = [le(mul(ab(sub(r, q)), nrm(C1)), tol1), le(nrm(dr), tol1), le(ab(dot(R1, dr)), mul(tol2, mul(nrm(R1), nrm(dr))))]
        c.prove(or_(*crit), "the parameter returned satisfies a convergence criterion itself")
    return Task(f"point_inversion_curve[{dim}D]", body, "any number of steps", setup=lambda: load(M, {M: {"point_inversion_curve": {0: CurveLoop(dim)}}}))


def frac(x):
    from fractions import Fraction
    return Fraction(x)


class SurfaceLoop(Base):
    modifies = ("delta",)
    def __init__(self, dim): self.dim, self.vecs = dim, {"uivi": 2}

    def inv(self, c, e, ph):
        uv = e["uivi"]
        if ph == "enter": yield "the iteration starts at the given parameters", and_(eq(uv[0], c.u0), eq(uv[1], c.v0))
        if ph == "back":
            for nm, g in step(c, self.dim, c.q, list(uv)): yield nm, g

    def start(self, c, e): c.q, c.it = list(e["uivi"]), e["_"]


def step(c, dim, q, r):
    S, U, W = (val(n, dim, q) for n in "SUV")
    d = dif(S, c.P)
    s = dif(q, r)
    for a in (U, W): yield "a step is the Gauss-Newton step for the foot point", eq(add(mul(dot(a, U), s[0]), mul(dot(a, W), s[1])), dot(a, d))


def t_surface(dim):
    def body(c, ns):
        c.P = [real(c, f"P{k}") for k in range(dim)]
        P = strict(arr(c.P))
        c.u0, c.v0, tol1, tol2, n = real(c, "u0"), real(c, "v0"), real(c, "tol1"), real(c, "tol2"), integer(c, "max_iter")
        c.assume(and_(lt(0, tol1), lt(0, tol2), lt(0, n)))
        o = Oracle(c, {"evaluate": "S", "derivative_u": "U", "derivative_v": "V"}, dim, 2, "UV")
        ns["abs"] = ab
        c.steps = []
        inner = ns["solve2x2"]

        def solve(J, k, x):
            ok = inner(J, k, x)
            c.steps.append(list(x))
            return ok
        ns["solve2x2"] = solve
        c.cover("precondition is satisfiable")
        try: r = ns["point_inversion_surface"](o, P, c.u0, c.v0, tol1, tol2, n)
        except ValueError:
            U, W = (val(k, dim, c.q) for k in "UV")
            c.prove(eq(sub(mul(dot(U, U), dot(W, W)), mul(dot(U, W), dot(U, W))), 0), "only a degenerate tangent plane is refused")
            return
        r, q = list(r), c.q
        c.prove(same(P, c.P), "the point is unchanged")
        U, W = val("U", dim, q), val("V", dim, q)

        def reached(n):
            """n, the parameters after q, satisfy a criterion"""
            R, RU, RW = val("S", dim, n), val("U", dim, n), val("V", dim, n)
            dr, s = dif(R, c.P), dif(q, n)
            both = and_(*[le(ab(dot(a, dr)), mul(tol2, mul(nrm(a), nrm(dr)))) for a in (RU, RW)])
            return or_(le(mul(nrm(s), add(nrm(U), nrm(W))), tol1), le(nrm(dr), tol1), both)
        if all(a is b for a, b in zip(r, q)):
            # open finding: the function returns the parameters one step before those that satisfy the criterion
            if not c.steps:
                c.prove(le(n, c.it), "the iteration ends without a step only when no steps are left")
                return
            c.cover("the iteration ends with a step")
            n1 = dif(q, c.steps[-1])
            for nm, g in step(c, dim, q, n1): c.prove(g, "the step the criterion is tested with is the one for the foot point")
            c.prove(reached(n1), "the parameters one step after those returned satisfy a convergence criterion")
            return
        for nm, g in step(c, dim, q, r): c.prove(g, "the parameters returned are one step from those before")
        c.prove(reached(r), "the parameters returned satisfy a convergence criterion themselves")
    return Task(f"point_inversion_surface[{dim}D]", body, "any number of steps", setup=lambda: load(M, {M: {"point_inversion_surface": {0: SurfaceLoop(dim)}}}))


# ------------------------------------------------------------------ implicit curves and surfaces
def F(name): return lambda p: X.uf(name, *list(p), sort="R")
def Gr(name, n): return lambda p: arr(val(name, n, list(p)))


class PointLoop(Base):
    """curve_point, surface_point: the new point is a Newton step along the gradient from the point kept"""
    def __init__(self, dim, head, vecs):
        self.dim, self.head, self.vecs = dim, head, {v: dim for v in vecs}

    def havoc(self, c, v, old, env):
        if v in self.vecs: return fresh(c, v, self.vecs[v])
        return NotImplemented

    def inv(self, c, e, ph):
        if self.head == "new_point":
            q, r = list(e["initial_point"]), list(e["new_point"])
            for nm, g in newton(self.dim, q, r): yield nm, g
            dd = dif(q, r)
            yield "the length of the last step", and_(le(0, e["d"]), eq(mul(e["d"], e["d"]), dot(dd, dd)))
        elif ph == "enter": yield "the iteration starts at the given point", and_(*[eq(a, b) for a, b in zip(e[self.head], c.p0)])
        elif ph == "back":
            for nm, g in newton(self.dim, c.q, list(e[self.head])): yield nm, g

    def start(self, c, e): c.q = list(e["initial_point" if self.head == "new_point" else self.head])


def newton(dim, q, r):
    """r = q - f g / |g|^2, or q where the gradient vanishes"""
    f, g = X.uf("f", *q, sort="R"), val("g", dim, q)
    for k in range(dim): yield "a step is Newton's along the gradient", eq(mul(sub(q[k], r[k]), dot(g, g)), mul(f, g[k]))
    yield "no step without a gradient", or_(lt(0, dot(g, g)), and_(*[eq(a, b) for a, b in zip(q, r)]))


def t_curve_point(dim):
    def body(c, ns):
        c.p0 = [real(c, f"p{k}") for k in range(dim)]
        p, tol = strict(arr(c.p0)), real(c, "delta")
        c.assume(lt(0, tol))
        c.cover("precondition is satisfiable")
        r = list(ns["curve_point"](F("f"), p, tol, Gr("g", dim)))
        c.prove(same(p, c.p0), "the starting point is unchanged")
        for nm, g in newton(dim, c.q, r): c.prove(g, "the last step is Newton's along the gradient")
        d = dif(c.q, r)
        c.prove(le(dot(d, d), mul(tol, tol)), "the last step is no longer than the tolerance")
    return Task(f"curve_point[{dim}D]", body, "any number of steps", setup=lambda: load(I, {I: {"curve_point": {0: PointLoop(dim, "new_point", ("initial_point", "new_point", "g"))}}}))


def t_surface_point(dim):
    def body(c, ns):
        c.p0 = [real(c, f"p{k}") for k in range(dim)]
        p, tol = strict(arr(c.p0)), real(c, "tol")
        c.assume(lt(0, tol))
        c.cover("precondition is satisfiable")
        r = list(ns["surface_point"](F("f"), p, Gr("g", dim), tol))
        c.prove(same(p, c.p0), "the starting point is unchanged")
        for nm, g in newton(dim, c.q, r): c.prove(g, "the last step is Newton's along the gradient")
        d = dif(c.q, r)
        c.prove(lt(dot(d, d), mul(tol, tol)), "the last step is shorter than the tolerance")
    return Task(f"surface_point[{dim}D]", body, "any number of steps", setup=lambda: load(I, {I: {"surface_point": {0: PointLoop(dim, "p_i", ("p_i", "p_i1", "gradfi", "dv"))}}}))


def t_curve_point2():
    class Loop(Base):
        modifies = ("x0",)
        def inv(self, c, e, ph):
            x = list(e["x0"])
            if ph == "assume": c.g = [X.fresh("q", "R"), X.fresh("q", "R")]
            if ph == "back": c.g = c.head
            if ph == "enter": yield "the first step is always made", le(1, e["delta"])
            else:
                # the point is a step of length delta from the one before, or the start
                hyp = and_(*[g for _, g in newton(2, c.g, x)], eq(e["delta"], add(ab(sub(c.g[0], x[0])), ab(sub(c.g[1], x[1])))))
                yield "the point is one Newton step, of the length kept, from the one before", (hyp if ph == "back" else or_(hyp, le(1, e["delta"])))
        def start(self, c, e): c.head, c.e = list(e["x0"]), e["delta"]

    def body(c, ns):
        p = strict(vec(c, "p", 2))
        tol = real(c, "tol")
        c.assume(and_(lt(0, tol), lt(tol, 1)))
        old = list(p)
        ns["abs"] = ab
        c.cover("precondition is satisfiable")
        r = list(ns["_curve_point2"](F("f"), p, tol, Gr("g", 2)))
        c.prove(same(p, old), "the starting point is unchanged")
        for nm, g in newton(2, c.g, r): c.prove(g, "the last step is Newton's along the gradient")
        c.prove(lt(add(ab(sub(c.g[0], r[0])), ab(sub(c.g[1], r[1]))), tol), "the last step is shorter than the tolerance")
    return Task("_curve_point2", body, "any number of steps", setup=lambda: load(I, {I: {"_curve_point2": {0: Loop()}}}))


def t_plane():
    def body(c, ns):
        p = vec(c, "p", 3)
        q = [X.fresh("q", "R") for _ in range(3)]
        calls = []
        g = Gr("g", 3)
        def sp(f, p0, grad, tol):
            calls.append((f, p0, tol))
            return arr(q)
        ns["surface_point"] = sp
        f = F("f")
        gv = val("g", 3, q)
        c.assume(lt(0, dot(gv, gv)))
        c.cover("precondition is satisfiable")
        r, n, a, b = ns["surface_plane"](f, p, g, real(c, "tol"))
        c.prove(same(r, q) and calls[0][0] is f and calls[0][1] is p and calls[0][2] is c.inputs["tol"], "the origin is the point of the surface")
        k = nrm(gv)
        for d in range(3): c.prove(eq(mul(n[d], k), gv[d]), "the normal is the unit gradient")
        for x, y, nm in ((n, n, 1), (a, a, 1), (n, a, 0), (n, b, 0), (a, b, 0)): c.prove(eq(dot(x, y), nm), "the frame is orthonormal")
        cr = [sub(mul(n[(d + 1) % 3], a[(d + 2) % 3]), mul(n[(d + 2) % 3], a[(d + 1) % 3])) for d in range(3)]
        for d in range(3): c.prove(eq(b[d], cr[d]), "the frame is right-handed")
    return Task("surface_plane", body, "all", setup=lambda: load(I))


class CrossLoop(Base):
    modifies = ("alpha_beta", "g")
    def __init__(self): self.vecs = {"qk": 3, "qk_next": 3, "delta": 3, "g1": 3, "g2": 3}
    def havoc(self, c, v, old, env):
        if v == "J": return rt.arr_of([X.fresh("J", "R") for _ in range(4)], (2, 2))
        if v == "regular": return X.fresh("regular", "B") if X.is_e(old) else (c.choose(2, "regular") == 1)
        if v == "success": return old
        return super().havoc(c, v, old, env)
    def havoc_heap(self, c, e):
        for nm in "12":
            for k, x in enumerate(val("g" + nm, 3, list(e["qk"]))): e["g" + nm][k] = x
    def inv(self, c, e, ph):
        q, r = list(e["qk"]), list(e["qk_next"])
        if ph == "enter": yield "the iteration starts at the given point", and_(*[eq(a, b) for a, b in zip(q, c.p0)])
        yield "no failure so far", e["success"] is True
        for nm in "12":
            yield "values are those at the current point", eq(e["f" + nm], X.uf("f" + nm, *q, sort="R"))
            for k, x in enumerate(val("g" + nm, 3, q)): yield "gradients are those at the current point", eq(e["g" + nm][k], x)
        if e["regular"]:
            for nm, g in both(q, r): yield nm, g
            d = dif(q, r)
            yield "the length of the step", and_(le(0, e["d"]), eq(mul(e["d"], e["d"]), dot(d, d)))
        else:
            G1, G2 = val("g1", 3, q), val("g2", 3, q)
            yield "gradients are parallel", eq(sub(mul(dot(G1, G1), dot(G2, G2)), mul(dot(G1, G2), dot(G1, G2))), 0)
    def start(self, c, e): c.q, c.reg, c.i = list(e["qk"]), e["regular"], e["i"]


def both(q, r):
    for nm in "12":
        yield "a step solves both linearised equations", eq(add(X.uf("f" + nm, *q, sort="R"), dot(val("g" + nm, 3, q), dif(r, q))), 0)


def t_cross(grads, noerr):
    def body(c, ns):
        c.p0 = [real(c, f"p{k}") for k in range(3)]
        p, tol, n = strict(arr(c.p0)), real(c, "tol"), integer(c, "max_iter")
        c.assume(and_(lt(0, tol), lt(0, n)))
        ns["abs"] = ab
        c.cover("precondition is satisfiable")
        try: r = ns["intersection_curve_point"](F("f1"), F("f2"), p, Gr("g1", 3), Gr("g2", 3), tol=tol, max_iter=n, return_grads=grads, no_err=noerr)
        except ValueError:
            c.prove(not noerr, "no exception when a flag is asked for")
            return
        c.prove(same(p, c.p0), "the starting point is unchanged")
        ok = True
        if noerr: ok, r = r
        if grads: r, v1, v2, h1, h2 = r
        r = list(r)
        at = c.q
        if ok:
            c.cover("a point is returned")
            f1, f2 = (X.uf(k, *at, sort="R") for k in ("f1", "f2"))
            d = dif(r, at)
            good = and_(*[g for _, g in both(at, r)], le(dot(d, d), mul(tol, tol)))
            stay = and_(*[eq(a, b) for a, b in zip(r, at)], le(ab(f1), tol), le(ab(f2), tol))
            c.prove(or_(good, stay), "the point returned is a step no longer than the tolerance away from where both linearised equations hold, or on both surfaces")
        if grads:
            c.prove(and_(eq(v1, X.uf("f1", *at, sort="R")), eq(v2, X.uf("f2", *at, sort="R"))), "the values returned are those at the last point evaluated")
            for h, k in ((h1, "g1"), (h2, "g2")):
                for a, b in zip(h, val(k, 3, at)): c.prove(eq(a, b), "the gradients returned are those at the last point evaluated")
    return Task(f"intersection_curve_point[grads={grads},flag={noerr}]", body, "any number of steps", setup=lambda: load(I, {I: {"intersection_curve_point": {0: CrossLoop()}}}))


TASKS = [t_curve(2), t_curve(3), t_surface(3), t_curve_point(2), t_curve_point(3), t_surface_point(3), t_curve_point2(), t_plane()]
TASKS += [t_cross(g, e) for g in (False, True) for e in (False, True)]
