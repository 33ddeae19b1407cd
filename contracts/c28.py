"""Ruled, bilinear and cylinder surfaces are the maps they are defined to be and their derivative routines are the derivatives of
those maps.  A ruled surface is executed over two arbitrary curves (uninterpreted functions with the contract of C06: value, first
and second derivative), on arbitrary parameter intervals; bilinear patches over arbitrary corners."""
from .lib import *

LEVEL = "proof"
PM = "mmcore.geom.parametric"
FUNCTIONS = [f"{PM}:{c}.{f}" for c, fs in (("Ruled", ("cevaluate", "cderivative_u", "cderivative_v", "csecond_derivative_uu", "csecond_derivative_vv", "csecond_derivative_uv", "__reduce__")),
    ("BiLinear", ("cevaluate", "cderivative_u", "cderivative_v", "csecond_derivative_uu", "csecond_derivative_vv", "csecond_derivative_uv", "__reduce__")),
    ("ParametricSurface", ("evaluate", "evaluate_v2", "evaluate_multi", "derivative_u", "derivative_v", "second_derivative_uu", "second_derivative_vv", "second_derivative_uv", "csecond_derivative_uv", "cderivatives", "derivatives", "cnormal", "normal", "normal_multi", "cplane_at", "plane_at", "interval")),) for f in fs]
ASSUMPTIONS = ["the two curves of a ruled surface return their value and derivatives (C03 and C06 for NURBS curves)"]
H = Fraction(float("1e-3"))


class Curve:
    """a curve known only by its value and derivatives"""
    def __init__(self, c, name):
        lo, hi = real(c, name + "_lo"), real(c, name + "_hi")
        c.assume(lt(lo, hi))
        self._interval = [lo, hi]
        self.name = name
    def val(self, t, k, d=0): return X.uf(f"{self.name}{k}" + "'" * d, t)
    def put(self, t, r, d):
        for k in range(3): r[k] = self.val(t, k, d)
    def cevaluate(self, t, r): self.put(t, r, 0)
    def cderivative(self, t, r): self.put(t, r, 1)
    def csecond_derivative(self, t, r): self.put(t, r, 2)


def uvs(c):
    u, v = real(c, "u"), real(c, "v")
    c.assume(and_(le(0, u), le(u, 1), le(0, v), le(v, 1)))
    return u, v


def strictvec(u, v): return strict(rt.arr_of([u, v], (2,)))


def mix(v, a, b): return add(mul(sub(1, v), a), mul(v, b))


def all_of(c, s, u, v, S, du, dv, duu, duv, what):
    uv = strictvec(u, v)
    for nm, got in (("evaluate", s.evaluate(uv)), ("evaluate_v2", s.evaluate_v2(u, v)), ("evaluate_multi", s.evaluate_multi(strict(rt.arr_of([0, 1, u, v], (2, 2))))[1])): prove_eqs(c, got, S, f"{what}: {nm}")
    prove_eqs(c, s.derivative_u(uv), du, f"{what}: derivative in u")
    prove_eqs(c, s.derivative_v(uv), dv, f"{what}: derivative in v")
    prove_eqs(c, s.second_derivative_uu(uv), duu, f"{what}: second derivative in u")
    prove_eqs(c, s.second_derivative_uv(uv), duv, f"{what}: mixed derivative")
    prove_eqs(c, s.second_derivative_vv(uv), [0, 0, 0], f"{what}: second derivative in v")
    iv = s.interval()
    prove_eqs(c, [iv[0][0], iv[0][1], iv[1][0], iv[1][1]], [0, 1, 0, 1], f"{what}: the domain is the unit square")
    prove_eqs(c, uv, [u, v], f"{what}: the parameters are unchanged")


def ruled():
    def body(c, ns):
        a, b = Curve(c, "a"), Curve(c, "b")
        u, v = uvs(c)
        c.cover("precondition is satisfiable")
        s = ns["Ruled"](a, b)
        if c.choose(2, "copy"):
            f, args = s.__reduce__()
            s = f(*args)
        la, lb = sub(a._interval[1], a._interval[0]), sub(b._interval[1], b._interval[0])
        ta, tb = add(a._interval[0], mul(u, la)), add(b._interval[0], mul(u, lb))
        R = range(3)
        all_of(c, s, u, v, [mix(v, a.val(ta, k), b.val(tb, k)) for k in R], [mix(v, mul(la, a.val(ta, k, 1)), mul(lb, b.val(tb, k, 1))) for k in R],
               [sub(b.val(tb, k), a.val(ta, k)) for k in R], [mix(v, mul(mul(la, la), a.val(ta, k, 2)), mul(mul(lb, lb), b.val(tb, k, 2))) for k in R],
               [sub(mul(lb, b.val(tb, k, 1)), mul(la, a.val(ta, k, 1))) for k in R], "ruled")
    return Task("ruled surface", body, "all", setup=lambda: prog((PM,)).load(PM))


def patch(c):
    return [strict(vec(c, n, 3)) for n in ("p00", "p10", "p11", "p01")]


def bilinear():
    def body(c, ns):
        p = p00, p10, p11, p01 = patch(c)
        u, v = uvs(c)
        c.cover("precondition is satisfiable")
        s = ns["BiLinear"](*p)
        if c.choose(2, "copy"):
            f, args = s.__reduce__()
            s = f(*args)
        R = range(3)
        du = [mix(v, sub(p10[k], p00[k]), sub(p11[k], p01[k])) for k in R]
        dv = [mix(u, sub(p01[k], p00[k]), sub(p11[k], p10[k])) for k in R]
        all_of(c, s, u, v, [mix(v, mix(u, p00[k], p10[k]), mix(u, p01[k], p11[k])) for k in R], du, dv, [0, 0, 0],
               [add(sub(sub(p00[k], p01[k]), p10[k]), p11[k]) for k in R], "bilinear")
        n = [sub(mul(du[1], dv[2]), mul(du[2], dv[1])), sub(mul(du[2], dv[0]), mul(du[0], dv[2])), sub(mul(du[0], dv[1]), mul(du[1], dv[0]))]
        uv = strictvec(u, v)
        prove_eqs(c, s.normal(uv), n, "bilinear: normal is the cross product of the derivatives")
        prove_eqs(c, s.normal_multi(strict(rt.arr_of([0, 1, u, v], (2, 2))))[1], n, "bilinear: normals of several parameters")
        D = s.derivatives(uv)
        prove_eqs(c, list(D[0]) + list(D[1]), du + dv, "bilinear: derivatives")
        for q, (x, y) in zip(p, ((0, 0), (1, 0), (1, 1), (0, 1))): prove_eqs(c, s.evaluate_v2(Fraction(x), Fraction(y)), q, "bilinear: corners")
    return Task("bilinear patch", body, "all", setup=lambda: prog((PM,)).load(PM))


def dot(a, b): return lin(list(a), list(b))


def frame():
    """the plane at a point of any surface: orthonormal, along du, spanned by the derivatives"""
    def body(c, ns):
        d, e, o = (strict(vec(c, n, 3)) for n in ("du", "dv", "o"))
        n = [sub(mul(d[1], e[2]), mul(d[2], e[1])), sub(mul(d[2], e[0]), mul(d[0], e[2])), sub(mul(d[0], e[1]), mul(d[1], e[0]))]
        c.assume(lt(0, dot(d, d))); c.assume(lt(0, dot(n, n)))
        u, v = uvs(c)
        c.cover("precondition is satisfiable")
        s = ns["ParametricSurface"]()
        def put(w):
            def f(a, b, r):
                c.prove(and_(eq(a, u), eq(b, v)), "the derivatives are taken at the parameters")
                for k in range(3): r[k] = w[k]
            return f
        s.cevaluate, s.cderivative_u, s.cderivative_v = put(o), put(d), put(e)
        P = s.plane_at(strictvec(u, v))
        prove_eqs(c, P[0], o, "origin is the point of the surface")
        nd = X.sqrt(dot(d, d))
        for k in range(3): c.prove(eq(mul(P[1][k], nd), d[k]), "x axis is the unit derivative in u")
        x = [div(d[k], nd) for k in range(3)]
        m = [sub(mul(x[1], e[2]), mul(x[2], e[1])), sub(mul(x[2], e[0]), mul(x[0], e[2])), sub(mul(x[0], e[1]), mul(x[1], e[0]))]
        nm = X.sqrt(dot(m, m))
        for k in range(3): c.prove(eq(mul(P[3][k], nm), m[k]), "z axis is the unit normal")
        z = [div(m[k], nm) for k in range(3)]
        y = [sub(mul(z[1], x[2]), mul(z[2], x[1])), sub(mul(z[2], x[0]), mul(z[0], x[2])), sub(mul(z[0], x[1]), mul(z[1], x[0]))]
        prove_eqs(c, P[2], y, "y axis completes the frame")
    return Task("plane at a point", body, "all", setup=lambda: prog((PM,)).load(PM))


TASKS = [ruled(), bilinear(), frame()]
