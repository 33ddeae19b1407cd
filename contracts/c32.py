"""Differential geometry of surfaces: the evaluator's difference quotients on every cubic surface and every step, fundamental forms,
curvatures, principal directions, classification and the Christoffel symbols, for all real derivatives."""
from .lib import *

LEVEL = "proof"
EV = "mmcore.geom.evaluator.surface_evaluator"
FF = "mmcore.geom.surfaces.fundamental_forms"
GE = "mmcore.geom.surfaces.geodesic"
FUNCTIONS = [f"{EV}:{f}" for f in ("c_derivative_u", "c_derivative_v", "c_derivative_uu", "c_derivative_vv", "c_derivative_uv", "c_derivatives", "c_normal", "c_second_derivatives", "c_origin_derivatives_normal", "second_derivatives", "derivatives_normal",
    "derivatives_normal_array", "origin_derivatives_normal", "origin_derivatives_normal_array", "second_derivatives_array", "derivatives", "derivatives_array")] + [
    f"{FF}:{f}" for f in ("first_fundamental_form", "second_fundamental_form", "gaussian_curvature", "mean_curvature", "principal_curvatures", "normal_curvature", "principal_directions", "_principal_direction", "euler_curvature", "infinitesimal_arc_length",
    "classify_point", "classify_point_dupin", "fundamental_forms_from_surface", "first_fundamental_form_from_surface", "classify_point_on_surface", "surface_distance")] + [
    f"{GE}:{f}" for f in ("compute_metric", "compute_metric_derivatives", "compute_christoffel_symbols", "geodesic_equations")]
ASSUMPTIONS = ["np.isclose is |a-b| <= atol + rtol |b|", "cos and sin are uninterpreted with cos^2 + sin^2 = 1"]


def dot(a, b): return lin(list(a), list(b))
def cross(a, b): return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]
def v3(c, name): return vec(c, name, 3)
def pw(x, k):
    r = 1
    for _ in range(k): r = mul(r, x)
    return r


class Surf:
    """a polynomial surface of total degree d with arbitrary coefficients"""
    def __init__(self, c, d):
        self.k = {(i, j): v3(c, f"c{i}{j}") for i in range(d + 1) for j in range(d + 1 - i)}
        self.asked = []

    def at(self, u, v, a=0, b=0):
        """derivative of order a in u and b in v"""
        out = []
        for x in range(3):
            ts = []
            for (i, j), q in self.k.items():
                if i < a or j < b: continue
                f = 1
                for n in range(a): f *= i - n
                for n in range(b): f *= j - n
                ts.append(mul(f, mul(q[x], mul(pw(u, i - a), pw(v, j - b)))))
            out.append(lin(ts, [1] * len(ts)))
        return out

    def __call__(self, u, v): return rt.arr_of(self.at(u, v), (3,))


def load(loops=None): return prog((EV,), loopspecs=loops).load(EV)


ORD = {"u": (1, 0), "v": (0, 1), "uu": (2, 0), "vv": (0, 2), "uv": (1, 1)}


def t_single(which):
    def body(c, ns):
        a, b = ORD[which]
        S = Surf(c, 1 + a + b)
        u, v = real(c, "u"), real(c, "v")
        c.cover("precondition is satisfiable")
        r = vec(c, "r", 3)
        ns["c_derivative_" + which](S, u, v, r)
        for x, y in zip(r, S.at(u, v, a, b)): c.prove(eq(x, y), "the derivative")
    return Task(f"c_derivative_{which}", body, "all", setup=load)


def t_frame():
    def body(c, ns):
        du, dv, n, h = v3(c, "du"), v3(c, "dv"), v3(c, "n"), real(c, "h")
        N = cross(du, dv)
        c.assume(and_(lt(0, h), eq(mul(h, h), dot(N, N))))
        for k in range(3): c.assume(eq(n[k], div(N[k], h)))
        c.cover("precondition is satisfiable")
        c.prove(eq(dot(n, n), 1), "the normal is a unit vector")
        for x in (du, dv): c.prove(eq(dot(n, x), 0), "the normal is orthogonal to the derivatives")
        c.prove(eq(dot(n, N), h), "the normal's side: along the product, not against it")
    return Task("lemma: a vector whose product with its length is du x dv", body, "all", setup=load, div="assume")


def t_point(which):
    def body(c, ns):
        second = which == "second_derivatives"
        S = Surf(c, 3 if second else 2)
        u, v = real(c, "u"), real(c, "v")
        c.cover("precondition is satisfiable")
        lens = []

        def root(x):
            h = X.fresh("length", "R")
            c.assume(and_(lt(0, h), eq(mul(h, h), x)))
            lens.append(h)
            return h
        if "normal" in which: ns["sqrt"] = root
        r = ns[which](S, u, v)
        if second:
            # first derivatives of a cubic carry the error of the central difference: only the second ones are exact
            want = {0: (0, 0), 3: (2, 0), 4: (0, 2), 5: (1, 1)}
            c.prove(r.shape == (6, 3), "shape")
            Q = Surf(c, 2)
            r2 = ns[which](Q, u, v)
            for k, o in ((1, (1, 0)), (2, (0, 1))):
                for x, y in zip(r2[k], Q.at(u, v, *o)): c.prove(eq(x, y), "first derivatives")
        else:
            want = {0: (1, 0), 1: (0, 1)} if which.startswith("der") else {0: (0, 0), 1: (1, 0), 2: (0, 1)}
            c.prove(r.shape == (len(want) + ("normal" in which), 3), "shape")
        for k, o in want.items():
            for x, y in zip(r[k], S.at(u, v, *o)): c.prove(eq(x, y), "point and derivatives")
        if "normal" in which:
            # on any surface: the six points of the stencil are arbitrary
            h2 = mul(2, ns["DEFAULT_H"])
            P, D, E, A, B = (v3(c, k) for k in ("p", "du", "dv", "a", "b"))
            N = cross(D, E)
            pts = {}

            def point(x, y):
                for key, val in (((0, 0), P), ((-1, 0), A), ((1, 0), [add(p, mul(h2, d)) for p, d in zip(A, D)]), ((0, -1), B), ((0, 1), [add(p, mul(h2, d)) for p, d in zip(B, E)])):
                    if c.decide(and_(eq(x, add(u, mul(key[0], ns["DEFAULT_H"]))), eq(y, add(v, mul(key[1], ns["DEFAULT_H"]))))): return rt.arr_of(val, (3,))
                raise X.Unsupported("a point off the stencil")

            def length(x):
                c.prove(eq(x, dot(N, N)), "the length that is taken is the one of the product of the derivatives")
                h = X.fresh("length", "R")
                c.assume(and_(lt(0, h), eq(mul(h, h), dot(N, N))))
                lens.append(h)
                return h
            ns["sqrt"] = length
            del lens[:]
            r = ns[which](point, u, v)
            m = len(want)
            c.prove(len(lens) == 1, "one length is taken")
            for k in range(3):
                c.prove(eq(r[m - 2, k], D[k]), "derivative in u")
                c.prove(eq(r[m - 1, k], E[k]), "derivative in v")
                c.prove(eq(mul(r[m, k], lens[-1]), N[k]), "the normal times the length is the product of the derivatives, with its sign")
    return Task(which, body, "all", setup=load, div="assume")


class Rows:
    def __init__(self, one, sh): self.one, self.sh = one, sh

    def inv(self, c, e, ph):
        r = c.ghost
        o = e["result"]
        for a in range(self.sh[0]):
            for b in range(self.sh[1]):
                yield "rows done so far hold the scalar form's value", implies(lt(r, e["i"]), eq(o.load(r, (a, b)), c.want[a, b]))
    modifies = ("result",)


def t_array(which, sh):
    def body(c, ns):
        n = integer(c, "n")
        c.assume(le(1, n))
        U, V = rows(c, "us", n, None), rows(c, "vs", n, None)

        def by(name, sh, args):
            def f(S, u, v, res):
                for a in range(sh[0]):
                    for b in range(sh[1]): res[a, b] = X.uf(f"{name}{a}{b}", u, v, sort="R")
            ns[name] = f
        if which == "origin_derivatives_normal": by("c_origin_derivatives_normal", (4, 3), None)
        elif which == "second_derivatives": by("c_second_derivatives", (6, 3), None)
        else: by("c_derivatives", (2, 3), None)

        def normal(res):
            d = [res[a, b] for a in range(2) for b in range(3)]
            for k in range(3): res[2, k] = X.uf(f"normal{k}", *d, sort="R")
        ns["c_normal"] = normal
        r = ghost_row(c, n)

        def S(u, v): return rt.arr_of([X.uf(f"S{k}", u, v, sort="R") for k in range(3)], (3,))
        c.want = ns[which](S, U[r], V[r])
        c.cover("precondition is satisfiable")
        out = ns[which + "_array"](S, U, V)
        for a in range(sh[0]):
            for b in range(sh[1]): c.prove(eq(out.load(r, (a, b)) if hasattr(out, "load") else out[r][a][b], c.want[a, b]), "row i is the scalar form at the i-th parameters")
    return Task(which + "_array", body, "all", setup=lambda: load({EV: {which + "_array": {0: Rows(which, sh)}}}), div="assume")


# ---- curvatures
def ffload():
    ns = prog((FF,)).load(FF)
    return ns


def forms(c):
    E, F, G, L, M, N = (real(c, k) for k in "EFGLMN")
    c.assume(lt(0, E))
    c.assume(lt(mul(F, F), mul(E, G)))
    return E, F, G, L, M, N


def t_forms():
    def body(c, ns):
        a, b, n = v3(c, "ru"), v3(c, "rv"), v3(c, "n")
        x, y, z = v3(c, "ruu"), v3(c, "ruv"), v3(c, "rvv")
        c.cover("precondition is satisfiable")
        prove_eqs(c, ns["first_fundamental_form"](a, b), [dot(a, a), dot(a, b), dot(b, b)], "first form")
        prove_eqs(c, ns["second_fundamental_form"](x, y, z, n), [dot(x, n), dot(y, n), dot(z, n)], "second form")
    return Task("fundamental forms", body, "all", setup=ffload)


def t_curv():
    def body(c, ns):
        f = forms(c)
        E, F, G, L, M, N = f
        c.cover("precondition is satisfiable")
        g = sub(mul(E, G), mul(F, F))
        K, H = ns["gaussian_curvature"](*f), ns["mean_curvature"](*f)
        c.prove(eq(mul(K, g), sub(mul(L, N), mul(M, M))), "Gaussian curvature is the quotient of the determinants")
        # lemma: the discriminant is a sum of squares over E^2
        B = sub(sub(mul(2, mul(M, F)), mul(E, N)), mul(G, L))
        D = sub(mul(B, B), mul(4, mul(g, sub(mul(L, N), mul(M, M)))))
        s, t = sub(mul(E, M), mul(F, L)), sub(mul(E, N), mul(G, L))
        q = sub(mul(E, t), mul(mul(2, F), s))
        c.prove(eq(mul(mul(E, E), D), add(mul(q, q), mul(mul(4, g), mul(s, s)))), "discriminant is a sum of squares")
        c.assume(le(0, D))          # follows from the lemma just proved and E, g > 0
        k1, k2 = ns["principal_curvatures"](*f)
        c.prove(eq(mul(k1, k2), K), "product of the principal curvatures")
        c.prove(eq(add(k1, k2), mul(2, H)), "mean of the principal curvatures")
        c.prove(le(k2, k1), "order of the principal curvatures")
        du, dv = real(c, "du"), real(c, "dv")
        c.assume(or_(not_(eq(du, 0)), not_(eq(dv, 0))))
        n = lin([mul(du, du), mul(du, dv), mul(dv, dv)], [L, mul(2, M), N])
        d = lin([mul(du, du), mul(du, dv), mul(dv, dv)], [E, mul(2, F), G])
        kn = ns["normal_curvature"](*f, du, dv)
        c.prove(eq(mul(kn, d), n), "normal curvature is the quotient of the forms")
    return Task("curvatures", body, "all", setup=ffload, div="assume")


def t_lemma():
    """arithmetic behind the assumption of the curvature task, from its proved identity"""
    def body(c, ns):
        E, g, D, q, s = (real(c, k) for k in ("E", "g", "D", "q", "s"))
        c.assume(lt(0, E)); c.assume(lt(0, g))
        c.assume(eq(mul(mul(E, E), D), add(mul(q, q), mul(mul(4, g), mul(s, s)))))
        c.cover("precondition is satisfiable")
        c.prove(le(0, D), "the discriminant is not negative")
    return Task("lemma: discriminant", body, "all", setup=ffload)


def t_dirs(equal):
    """k1 and k2 are any roots of det(II - k I) with k2 <= k1"""
    def body(c, ns):
        f = forms(c)
        E, F, G, L, M, N = f
        k1, k2 = real(c, "k1"), real(c, "k2")
        c.assume(le(k2, k1))
        for k in (k1, k2):
            a, b, d = sub(L, mul(k, E)), sub(M, mul(k, F)), sub(N, mul(k, G))
            c.assume(eq(mul(a, d), mul(b, b)))
        g = sub(mul(E, G), mul(F, F))
        c.assume(eq(mul(add(k1, k2), g), sub(add(mul(E, N), mul(G, L)), mul(2, mul(F, M)))))
        c.assume(eq(mul(mul(k1, k2), g), sub(mul(L, N), mul(M, M))))
        c.cover("precondition is satisfiable")
        raw = []

        def norm(v):
            h = X.fresh("length", "R")
            raw.append((h, list(v)))
            c.assume(and_(le(0, h), eq(mul(h, h), lin(list(v), list(v)))))
            return h
        la = rt.NPC.linalg
        old = la.__dict__.get("norm") if hasattr(la, "__dict__") else None
        la.norm = norm
        try: d1, d2 = ns["principal_directions"](*f, k1, k2)
        finally:
            if old is not None: la.norm = old
            else: del la.norm
        near = le(sub(k1, k2), mul(Fraction(1e-7), X.max_(X.ite(le(0, k1), k1, sub(0, k1)), X.ite(le(0, k2), k2, sub(0, k2)))))
        isnear = c.decide(near)
        for k, (h, v), d in ((k1, raw[0], d1), (k2, raw[1], d2)):
            for x, y in zip(d, v): c.prove(eq(mul(x, h), y), "directions are scaled to unit length")
            c.prove(or_(not_(eq(v[0], 0)), not_(eq(v[1], 0))), "a direction is not zero")
            if not isnear:
                c.prove(eq(add(mul(sub(L, mul(k, E)), v[0]), mul(sub(M, mul(k, F)), v[1])), 0), "principal direction, first equation")
                c.prove(eq(add(mul(sub(M, mul(k, F)), v[0]), mul(sub(N, mul(k, G)), v[1])), 0), "principal direction, second equation")
        (_, a), (_, b) = raw
        if isnear: c.prove(eq(add(add(mul(E, mul(a[0], b[0])), mul(F, add(mul(a[0], b[1]), mul(a[1], b[0])))), mul(G, mul(a[1], b[1]))), 0), "the pair is orthogonal on the surface")
    return Task("principal_directions", body, "all", setup=ffload, div="assume")


def t_class():
    def body(c, ns):
        PT = ns["PointOnSurfaceType"]
        k1, k2 = real(c, "k1"), real(c, "k2")
        c.cover("precondition is satisfiable")
        z = lambda x: c.decide(eq(x, 0))
        r = ns["classify_point_dupin"](k1, k2)
        p = mul(k1, k2)
        want = PT.FLAT if z(k1) and z(k2) else PT.PARABOLIC if z(k1) or z(k2) else PT.ELLIPTIC if c.decide(lt(0, p)) else PT.HYPERBOLIC
        c.prove(r == want, "type of the point from the principal curvatures")
        K, H = real(c, "K"), real(c, "H")
        tiny = lambda x: and_(le(x, Fraction(1e-8)), le(sub(0, x), Fraction(1e-8)))
        isc = rt.NPC.__dict__.get("isclose")
        rt.NPC.isclose = lambda a, b: c.decide(tiny(sub(a, b))) if b == 0 else X.iff(a, b)
        try: r = ns["classify_point"](K, H)
        finally:
            del rt.NPC.isclose
            if isc: rt.NPC.isclose = isc
        want = (PT.FLAT if c.decide(tiny(H)) else PT.PARABOLIC) if c.decide(tiny(K)) else PT.ELLIPTIC if c.decide(lt(0, K)) else PT.HYPERBOLIC
        c.prove(r == want, "type of the point from Gaussian and mean curvature")
    return Task("classification", body, "all", setup=ffload)


def t_euler():
    def body(c, ns):
        k1, k2, t = real(c, "k1"), real(c, "k2"), real(c, "theta")
        co, si = real(c, "cos"), real(c, "sin")
        c.assume(eq(add(mul(co, co), mul(si, si)), 1))
        c.cover("precondition is satisfiable")
        saved = {k: rt.NPC.__dict__.get(k) for k in ("cos", "sin")}
        rt.NPC.cos, rt.NPC.sin = (lambda x: co), (lambda x: si)
        try: r = ns["euler_curvature"](k1, k2, t)
        finally:
            for k, v in saved.items():
                if v is None: delattr(rt.NPC, k)
                else: setattr(rt.NPC, k, v)
        c.prove(eq(r, add(mul(k1, mul(co, co)), mul(k2, mul(si, si)))), "Euler's formula")
        E, F, G, *_ = forms(c)
        du, dv = real(c, "du"), real(c, "dv")
        c.assume(le(0, lin([mul(du, du), mul(du, dv), mul(dv, dv)], [E, mul(2, F), G])))
        s = ns["infinitesimal_arc_length"](E, F, G, du, dv)
        c.prove(and_(le(0, s), eq(mul(s, s), lin([mul(du, du), mul(du, dv), mul(dv, dv)], [E, mul(2, F), G]))), "arc length is the root of the first form")
    return Task("Euler's formula and arc length", body, "all", setup=ffload)


def ders(c):
    return [v3(c, k) for k in ("o", "ru", "rv", "ruu", "rvv", "ruv")]


class SurfObj:
    def evaluate_v2(self, u, v): raise X.Unsupported("evaluator called directly")


def t_surface(kind):
    """the functions of a surface pass the evaluator's derivatives to the forms above (evaluator by its contract)"""
    def body(c, ns):
        D = ders(c)
        o, a, b, aa, bb, ab = D
        S = SurfObj()
        u, v = real(c, "u"), real(c, "v")
        cr = cross(a, b)
        c.assume(lt(0, dot(cr, cr)))
        c.cover("precondition is satisfiable")

        class Ev:
            @staticmethod
            def second_derivatives(f, x, y):
                c.prove(f == S.evaluate_v2 and x is u and y is v, "the surface is evaluated at the point asked for")
                return rt.arr_of([x for r in D for x in r], (6, 3))
        ns["surface_evaluator"] = Ev
        ns["scalar_cross"] = lambda p, q: rt.arr_of(cross(p, q), (3,))
        ln = X.fresh("length", "R")
        c.assume(and_(lt(0, ln), eq(mul(ln, ln), dot(cr, cr))))

        def is_cross(p):
            for x, y in zip(p, cr): c.prove(eq(x, y), "the normal is the product of the derivatives")
        def snorm(p): is_cross(p); return ln
        def snormalize(p):
            is_cross(p)
            for k in range(3): p[k] = div(p[k], ln)
        ns["scalar_norm"], ns["scalar_normalize"] = snorm, snormalize
        n = [div(x, ln) for x in cr]
        want = [dot(a, a), dot(a, b), dot(b, b), dot(aa, n), dot(ab, n), dot(bb, n)]
        if kind == "forms":
            f, ds = ns["fundamental_forms_from_surface"](S, u, v)
            prove_eqs(c, f, want, "both forms at the point")
            for got, w in zip(ds, [o, a, b, aa, ab, bb, n]): prove_eqs(c, got, w, "derivatives and normal at the point")
        else:
            got = []
            ns["mean_curvature"] = lambda *x: got.append(("H", x)) or "H"
            ns["gaussian_curvature"] = lambda *x: got.append(("K", x)) or "K"
            ns["principal_curvatures"] = lambda *x: got.append(("k", x)) or ("k1", "k2")
            ns["classify_point"] = lambda K, H: ("type", K, H)
            ns["classify_point_dupin"] = lambda p, q: ("dupin", p, q)
            ns["dupin_indicatrix"] = lambda p, q: ("curve", p, q)
            r = [ns["classify_point_on_surface"](S, u, v), ns["classify_point_on_surface"](S, u, v, True), ns["classify_point_on_surface"](S, u, v, True, True), ns["dupin_indicatrix_on_surface"](S, u, v)]
            c.prove(r == [("type", "K", "H"), ("dupin", "k1", "k2"), ("curve", "k1", "k2"), ("curve", "k1", "k2")], "the point is classified by its curvatures")
            c.prove(sorted(k for k, _ in got) == ["H", "K", "k", "k", "k"], "every curvature is asked for")
            for _, x in got: prove_eqs(c, x, want, "curvatures of the point's forms")
    return Task(f"surface functions[{kind}]", body, "all", setup=ffload, div="assume")


def t_distance(n):
    def body(c, ns):
        u1, v1, u2, v2 = (real(c, k) for k in ("u1", "v1", "u2", "v2"))
        c.cover("precondition is satisfiable")
        at = []

        class S:
            def derivatives(self, uv):
                d = [X.uf(f"D{k}", uv[0], uv[1], sort="R") for k in range(6)]
                at.append((list(uv), d))
                return rt.arr_of(d, (2, 3))
        steps = []
        ns["infinitesimal_arc_length"] = lambda E, F, G, du, dv: steps.append((E, F, G, du, dv)) or X.uf("ds", E, F, G, du, dv, sort="R")
        r = ns["surface_distance"](S(), u1, v1, u2, v2, n)
        m = n - 1
        c.prove(len(at) == m and len(steps) == m, "one piece per step")
        tot = []
        for i, ((uv, d), st) in enumerate(zip(at, steps)):
            w = [add(u1, mul(Fraction(i, m), sub(u2, u1))), add(v1, mul(Fraction(i, m), sub(v2, v1)))]
            prove_eqs(c, uv, w, "metric at the start of the step")
            prove_eqs(c, st, [dot(d[:3], d[:3]), dot(d[:3], d[3:]), dot(d[3:], d[3:]), div(sub(u2, u1), m), div(sub(v2, v1), m)], "step of the straight path")
            tot.append(X.uf("ds", *st, sort="R"))
        c.prove(eq(r, lin(tot, [1] * m)), "sum of the steps")
    return Task(f"surface_distance[{n}]", body, "sized", setup=ffload)


# ---- geodesics
def t_geo():
    def body(c, ns):
        a, b, aa, bb, ab = (v3(c, k) for k in ("ru", "rv", "ruu", "rvv", "ruv"))
        uv = (real(c, "u"), real(c, "v"))
        p, q = real(c, "p"), real(c, "q")
        cr = cross(a, b)

        class S:
            def _at(self, x):
                c.prove(x[0] is uv[0] and x[1] is uv[1], "the surface is evaluated at the point asked for")
            def derivative_u(self, x): self._at(x); return a
            def derivative_v(self, x): self._at(x); return b
            def second_derivative_uu(self, x): self._at(x); return aa
            def second_derivative_uv(self, x): self._at(x); return ab
            def second_derivative_vv(self, x): self._at(x); return bb
        E, F, G = ns["compute_metric"](S(), uv)
        g = sub(mul(E, G), mul(F, F))
        c.assume(lt(0, g))
        c.cover("precondition is satisfiable")
        prove_eqs(c, [E, F, G], [dot(a, a), dot(a, b), dot(b, b)], "metric")
        d = ns["compute_metric_derivatives"](S(), uv)
        prove_eqs(c, d, [mul(2, dot(aa, a)), mul(2, dot(ab, a)), add(dot(aa, b), dot(a, ab)), add(dot(ab, b), dot(a, bb)), mul(2, dot(ab, b)), mul(2, dot(bb, b))], "derivatives of the metric")
        X1, X2, X3, Y1, Y2, Y3 = ns["compute_christoffel_symbols"](S(), uv)
        for x, y, w in ((X1, Y1, aa), (X2, Y2, ab), (X3, Y3, bb)):
            c.prove(eq(add(mul(x, E), mul(y, F)), dot(w, a)), "tangential part of the second derivative, first direction")
            c.prove(eq(add(mul(x, F), mul(y, G)), dot(w, b)), "tangential part of the second derivative, second direction")
        r = ns["geodesic_equations"](0, [uv[0], uv[1], p, q], S())
        c.prove(and_(eq(r[0], p), eq(r[1], q)), "velocities")
        # the acceleration in space has no tangential part
        acc = [lin([r[2], r[3], mul(p, p), mul(2, mul(p, q)), mul(q, q)], [a[k], b[k], aa[k], ab[k], bb[k]]) for k in range(3)]
        c.prove(eq(dot(acc, a), 0), "no acceleration in the first direction")
        c.prove(eq(dot(acc, b), 0), "no acceleration in the second direction")
    return Task("geodesic equations", body, "all", setup=lambda: prog((GE,)).load(GE), div="assume")


TASKS = [t_frame()] + [t_single(w) for w in ORD] + [t_point(w) for w in ("derivatives", "derivatives_normal", "origin_derivatives_normal", "second_derivatives")]
TASKS += [t_array("derivatives", (2, 3)), t_array("derivatives_normal", (3, 3)), t_array("origin_derivatives_normal", (4, 3)), t_array("second_derivatives", (6, 3))]
TASKS += [t_forms(), t_curv(), t_lemma(), t_dirs(False), t_class(), t_euler(), t_surface("forms"), t_surface("class"), t_distance(2), t_distance(4), t_geo()]
