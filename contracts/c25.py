"""Implicit sphere, cylinder and tube, and the parametric cylinder: the implicit value is the signed distance (to the sphere, the
axis' cylinder, the middle of the tube wall), the gradient is the unit vector away from the centre or axis, bounds contain the
solid, and every setter leaves exactly the state a fresh object would have."""
from .lib import *

LEVEL = "proof"
PR = "mmcore.geom.primitives"
FUNCTIONS = [f"{PR}:{c}.{f}" for c, fs in (("Sphere", ("__init__", "cimplicit", "cgradient", "_calculate_bounds", "radius", "origin", "astuple", "bounds")),
    ("ImplicitCylinder", ("__init__", "cimplicit", "cgradient", "_normal_not_unit", "_calculate_direction", "_calculate_bounds", "start", "end", "radius", "direction", "astuple", "bounds")),
    ("Tube", ("__init__", "cimplicit", "_calculate_bounds", "astuple")), ("Cylinder", ("__init__", "cevaluate", "interval"))) for f in fs] + [PR + ":cylinder_aabb"]
ASSUMPTIONS = ["radius positive, axis of a cylinder not zero", "sin and cos uninterpreted with sin^2 + cos^2 = 1"]


def dot(a, b): return lin(list(a), list(b))
def vsub(a, b): return [sub(x, y) for x, y in zip(a, b)]
def load(): return prog((PR,)).load(PR)


def is_root(c, v, q, what):
    """v is the non-negative square root of q"""
    c.prove(le(0, v), what + " (sign)")
    c.prove(eq(mul(v, v), q), what)


def sphere():
    def body(c, ns):
        o, x = strict(vec(c, "o", 3)), strict(vec(c, "x", 3))
        r = real(c, "r")
        c.assume(lt(0, r))
        c.assume(lt(0, dot(vsub(x, o), vsub(x, o))))
        c.cover("precondition is satisfiable")
        how = c.choose(3, "made")
        if how == 0: s = ns["Sphere"](o, r)
        else:
            s = ns["Sphere"](strict(rt.arr_of([5, 6, 7], (3,))), Fraction(2))
            if how == 1: s.radius = r; s.origin = o
            else: s.origin = o; s.radius = r
        prove_eqs(c, list(s.astuple()), list(o) + [r], "sphere: stored values")
        prove_eqs(c, list(s.origin) + [s.radius], list(o) + [r], "sphere: properties")
        d = vsub(x, o)
        f = s.implicit(x)
        is_root(c, add(f, r), dot(d, d), "sphere: implicit value plus radius is the distance from the centre")
        g = s.gradient(x)
        n = X.sqrt(dot(d, d))
        for k in range(3): c.prove(eq(mul(g[k], n), d[k]), "sphere: gradient is the unit vector from the centre")
        b = s.bounds()
        for k in range(3): c.prove(and_(eq(b[0][k], sub(o[k], r)), eq(b[1][k], add(o[k], r))), "sphere: bounds touch the sphere")
        prove_eqs(c, x, [var(f"x{k}") for k in range(3)], "sphere: the point is unchanged")
    return Task("sphere", body, "all", setup=load)


def axis(c):
    s, e, x = (strict(vec(c, n, 3)) for n in ("s", "e", "x"))
    d = vsub(e, s)
    c.assume(lt(0, dot(d, d)))
    r = real(c, "r")
    c.assume(lt(0, r))
    return s, e, x, d, r


def box_contract(pax, pay, paz, pbx, pby, pbz, ax, ay, az, r, res):
    """contract of cylinder_aabb (proved in its own task)"""
    c = X.HOOK["ctx"]
    for g, w in zip((ax, ay, az), (sub(pbx, pax), sub(pby, pay), sub(pbz, paz))): c.prove(eq(g, w), "cylinder_aabb is given the direction from start to end")
    c.boxed = [pax, pay, paz, pbx, pby, pbz, r]
    for i in range(2):
        for k in range(3): res[i][k] = X.fresh("box", "R")
    c.box = res


def stored_box(c, b, s, e, R, what):
    c.prove(hasattr(c, "boxed"), what + ": bounds are computed")
    prove_eqs(c, c.boxed, list(s) + list(e) + [R], what + ": bounds are those of the present axis and radius")
    prove_eqs(c, [b[i][k] for i in (0, 1) for k in range(3)], [c.box[i][k] for i in (0, 1) for k in range(3)], what + ": bounds are the computed ones")


def box_task():
    """the box of a capped cylinder: ends widened by R sqrt(1 - (d_k/|d|)^2)"""
    def body(c, ns):
        s, e = strict(vec(c, "s", 3)), strict(vec(c, "e", 3))
        d = vsub(e, s)
        c.assume(lt(0, dot(d, d)))
        R = real(c, "R")
        c.assume(lt(0, R))
        c.cover("precondition is satisfiable")
        b = strict(rt.arr_of([var(f"junk{i}") for i in range(6)], (2, 3)))
        ns["cylinder_aabb"](*s, *e, *d, R, b)
        box_checks(c, b, s, e, d, R, "capped cylinder")
    return Task("cylinder_aabb", body, "all", setup=load)


def box_checks(c, b, s, e, d, R, what):
    for k in range(3):
        w2 = mul(mul(R, R), sub(1, div(mul(d[k], d[k]), dot(d, d))))
        for side in (0, 1):
            vs = [sub(s[k], b[0][k]), sub(e[k], b[0][k])] if side == 0 else [sub(b[1][k], s[k]), sub(b[1][k], e[k])]
            near, far = vs if c.decide(le(s[k], e[k])) == (side == 0) else vs[::-1]
            c.prove(le(0, near), what + ": the nearer end is inside the bounds")
            c.prove(eq(mul(near, near), w2), what + ": bounds touch the circle at the nearer end")
            c.prove(eq(sub(far, near), sub(e[k], s[k]) if c.decide(le(s[k], e[k])) else sub(s[k], e[k])), what + ": the farther end is inside the bounds by more")


def foot(s, d, x):
    a = vsub(x, s)
    t = div(dot(a, d), dot(d, d))
    return [sub(a[k], mul(t, d[k])) for k in range(3)]


def cylinder(tube):
    def body(c, ns):
        s, e, x, d, r = axis(c)
        th = real(c, "th")
        c.assume(and_(lt(0, th), lt(div(th, 2), r)))
        c.cover("precondition is satisfiable")
        make = (lambda a, b, q: ns["Tube"](a, b, q, th)) if tube else ns["ImplicitCylinder"]
        how = c.choose(3, "made")
        if how == 0: o = make(s, e, r)
        else:
            o = make(strict(rt.arr_of([5, 6, 7], (3,))), strict(rt.arr_of([5, 6, 9], (3,))), Fraction(7) if not tube else add(th, 7))
            if how == 1: o.radius = r; o.start = s; o.end = e
            else: o.end = e; o.start = s; o.radius = r
        nm = "tube" if tube else "cylinder"
        prove_eqs(c, list(o.astuple()), list(s) + list(e) + [r] + ([th] if tube else []), nm + ": stored values")
        prove_eqs(c, list(o.start) + list(o.end) + [o.radius] + list(o.direction), list(s) + list(e) + [r] + d, nm + ": properties")
        w = foot(s, d, x)
        q = dot(w, w)
        f = o.implicit(x)
        if tube:
            n = X.sqrt(q)
            m = add(f, div(th, 2))
            c.prove(le(0, m), "tube: distance to the middle of the wall (sign)")
            c.prove(eq(mul(m, m), mul(sub(r, n), sub(r, n))), "tube: implicit value is the distance to the middle of the wall minus half the thickness")
        else:
            is_root(c, add(f, r), q, "cylinder: implicit value plus radius is the distance from the axis")
            if c.decide(lt(0, q)):
                g = o.gradient(x)
                n = X.sqrt(q)
                for k in range(3): c.prove(eq(mul(g[k], n), w[k]), "cylinder: gradient is the unit vector from the axis")
                c.prove(eq(dot(g, d), 0), "cylinder: gradient is orthogonal to the axis")
        stored_box(c, o.bounds(), s, e, add(r, div(th, 2)) if tube else r, nm)
    return Task("tube" if tube else "implicit cylinder", body, "all", setup=lambda: prog(overrides={(PR, "cylinder_aabb"): box_contract}, mods=()).load(PR))


def surface():
    def body(c, ns):
        s, e = strict(vec(c, "s", 3)), strict(vec(c, "e", 3))
        d = vsub(e, s)
        c.assume(lt(0, dot(d, d)))
        r, u, v = real(c, "r"), real(c, "u"), real(c, "v")
        c.assume(lt(0, r))
        c.cover("precondition is satisfiable")
        o = ns["Cylinder"](s, e, r)
        iv = o.interval()
        n = X.sqrt(dot(d, d))
        prove_eqs(c, [iv[0][0], iv[1][0], iv[1][1]], [0, 0, n], "cylinder surface: height runs from 0 to the length of the axis")
        P = o.evaluate_v2(u, v)
        w = [sub(sub(P[k], s[k]), mul(v, div(d[k], n))) for k in range(3)]
        c.prove(eq(dot(w, d), 0), "cylinder surface: the point is at height v")
        cs, sn = X.uf("cos", u), X.uf("sin", u)
        c.prove(eq(dot(w, w), mul(mul(r, r), add(mul(cs, cs), mul(sn, sn)))), "cylinder surface: the point is at the radius from the axis")
    return Task("cylinder surface", body, "all", setup=load)


TASKS = [surface(), sphere(), cylinder(False), cylinder(True), box_task()]
