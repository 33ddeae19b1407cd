"""Bernstein and monomial forms of patches: exact conversions, polynomial arithmetic on coefficients and the normal (Gauss) map, for
all real control points and parameters at stated degrees; the binomial table entry by entry."""
from .lib import *
import itertools, math

LEVEL = "other"
M = "mmcore.numeric.monomial"
G = "mmcore.numeric.gauss_map"
B = "mmcore.numeric.binom"
FUNCTIONS = [f"{M}:{f}" for f in ("bpmat", "bezier_to_monomial", "monomial_to_bezier", "homogeneous_monomial_to_rational_bezier", "evaluate_bezier_patch", "evaluate_rational_bezier_patch", "evaluate_monomial2d", "cross_product_monomial", "monomial_partial_derivatives", "normal_vector_monomial",
    "Monomial2D.evaluate", "Monomial2D.evaluate_v2", "Monomial2D.to_bernstein_basis", "Monomial2D.from_bernstein_basis", "Monomial2D.to_bezier", "Monomial2D.from_bezier", "Monomial2D.from_nurbs", "Monomial2D.to_nurbs", "Monomial2D.cross", "Monomial2D.monomial_derivatives", "Monomial2D.monomial_normal")] + [
    f"{G}:{f}" for f in ("compute_partial_derivative", "cross_product", "compute_gauss_map")] + [f"{B}:binomial_coefficient", f"{B}:binomial_coefficient_py"]
ASSUMPTIONS = ["np.linalg.inv of a matrix of numbers is its exact inverse", "scipy.special.comb is the binomial coefficient", "degrees up to 30 (the table of binomial coefficients)"]
TRUSTED = ["Surface.__init__ (finite differences of the base class) only sets attributes of its own: C32", "functools.lru_cache returns the value of an earlier equal call (no caller changes the matrices)", "NURBSSurface: C07"]


def comb(n, k, **kw): return math.comb(int(n), int(k))


def load():
    P = prog((B, M))
    ns = P.load(M)
    ns["comb"] = comb
    ns["Monomial2D"].__mro__[1].__init__ = lambda self, *a, **k: None      # finite differences of the base class: no part in these contracts
    return ns


def gload():
    P = prog((B, M, G))
    P.load(M)["comb"] = comb
    return P.load(G)


def bern(n, i, u):
    r = math.comb(n, i)
    for _ in range(i): r = mul(r, u)
    for _ in range(n - i): r = mul(r, sub(1, u))
    return r


def pw(u, i):
    r = 1
    for _ in range(i): r = mul(r, u)
    return r


def bez(P, u, v, d):
    n, m = P.shape[:2]
    return lin([mul(bern(n - 1, i, u), bern(m - 1, j, v)) for i in range(n) for j in range(m)], [P[i, j, d] for i in range(n) for j in range(m)])


def mono(A, u, v, d, a=0, b=0):
    """derivative of order a, b of the monomial form"""
    n, m = A.shape[:2]
    return lin([mul(math.perm(i, a) * math.perm(j, b), mul(pw(u, i - a), pw(v, j - b))) for i in range(a, n) for j in range(b, m)], [A[i, j, d] for i in range(a, n) for j in range(b, m)])


def net(c, name, n, m, dim=3):
    P = mat(c, name, n, m, dim)
    return P


def same(P, keep): return P.shape == keep.shape and all(x is y for x, y in zip(P.flat, keep.flat))


def t_binom():
    def body(c, ns):
        c.cover("precondition is satisfiable")
        for f in ("binomial_coefficient", "binomial_coefficient_py"):
            bad = [(i, j) for i in range(31) for j in range(31) if ns[f](i, j) != math.comb(i, j)]
            c.prove(not bad, f"the table of binomial coefficients ({f}) {bad[:3]}")
    return Task("binomial coefficients", body, "all", setup=lambda: prog((B,)).load(B))


def t_mat(method):
    def body(c, ns):
        c.cover("precondition is satisfiable")
        for n in range(0, 11):
            b = ns["bpmat"](n, method)
            c.prove(tuple(b.shape) == (n + 1, n + 1), "the matrix is square")
            # row j: coefficients of u^j of the Bernstein polynomials
            bad = [(j, k) for j in range(n + 1) for k in range(n + 1) if b[j][k] != (math.comb(n, k) * math.comb(n - k, j - k) * (-1) ** (j - k) if j >= k else 0)]
            c.prove(not bad, f"the matrix of degree {n} converts Bernstein polynomials to powers")
    return Task(f"bpmat[{method}]", body, "degrees to 10", setup=load)


def t_to(n, m, dim, method="mmcore"):
    def body(c, ns):
        P = net(c, "P", n, m, dim)
        keep = P.copy()
        u, v = real(c, "u"), real(c, "v")
        c.cover("precondition is satisfiable")
        A = ns["bezier_to_monomial"](P, method)
        c.prove(tuple(A.shape) == (n, m, dim), "shape")
        for d in range(dim): c.prove(eq(mono(A, u, v, d), bez(P, u, v, d)), "the monomial form is the patch everywhere")
        for d in range(dim): c.prove(eq(ns["evaluate_monomial2d"](A, u, v)[d], mono(A, u, v, d)), "evaluation of the monomial form")
        for d in range(dim): c.prove(eq(ns["evaluate_bezier_patch"](P, u, v)[d], bez(P, u, v, d)), "evaluation of the patch")
        Q = ns["monomial_to_bezier"](P, method)
        for d in range(dim): c.prove(eq(bez(Q, u, v, d), mono(P, u, v, d)), "the patch is the monomial form everywhere")
        c.prove(same(P, keep), "the input is unchanged")
    return Task(f"conversion[{n},{m},{dim}{'' if method == 'mmcore' else ',' + method}]", body, "sized", setup=load)


def t_rational(n, m):
    def body(c, ns):
        H = net(c, "H", n, m, 4)
        u, v = real(c, "u"), real(c, "v")
        c.cover("precondition is satisfiable")
        R = ns["homogeneous_monomial_to_rational_bezier"](H)
        c.prove(tuple(R.shape) == (n, m, 4), "shape")
        w = lin([mul(bern(n - 1, i, u), bern(m - 1, j, v)) for i in range(n) for j in range(m)], [R[i, j, 3] for i in range(n) for j in range(m)])
        c.prove(eq(w, mono(H, u, v, 3)), "weights")
        for d in range(3):
            x = lin([mul(mul(bern(n - 1, i, u), bern(m - 1, j, v)), R[i, j, 3]) for i in range(n) for j in range(m)], [R[i, j, d] for i in range(n) for j in range(m)])
            c.prove(eq(x, mono(H, u, v, d)), "weighted points")
    return Task(f"rational patch of homogeneous coefficients[{n},{m}]", body, "sized", setup=load, div="assume")


def t_reval(n, m):
    def body(c, ns):
        P, W = net(c, "P", n, m), mat(c, "W", n, m)
        u, v = real(c, "u"), real(c, "v")
        den = lin([mul(bern(n - 1, i, u), bern(m - 1, j, v)) for i in range(n) for j in range(m)], list(W.flat))
        c.assume(not_(eq(den, 0)))
        c.cover("precondition is satisfiable")
        r = ns["evaluate_rational_bezier_patch"](P, W, u, v)
        for d in range(3):
            num = lin([mul(mul(bern(n - 1, i, u), bern(m - 1, j, v)), W[i, j]) for i in range(n) for j in range(m)], [P[i, j, d] for i in range(n) for j in range(m)])
            c.prove(eq(mul(r[d], den), num), "the rational point")
    return Task(f"evaluate_rational_bezier_patch[{n},{m}]", body, "sized", setup=load, div="assume")


def cross(a, b): return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]


def t_cross(s1, s2, which="monomial"):
    def body(c, ns):
        P, Q = net(c, "P", *s1), net(c, "Q", *s2)
        k1, k2 = P.copy(), Q.copy()
        u, v = real(c, "u"), real(c, "v")
        c.cover("precondition is satisfiable")
        R = ns["cross_product_monomial" if which == "monomial" else "cross_product"](P, Q)
        want = cross([mono(P, u, v, d) for d in range(3)], [mono(Q, u, v, d) for d in range(3)])
        for d in range(3): c.prove(eq(mono(R, u, v, d), want[d]), "the product of the polynomials at every parameter")
        c.prove(same(P, k1) and same(Q, k2), "the factors are unchanged")
        if which == "monomial":
            X_ = ns["Monomial2D"].__new__(ns["Monomial2D"]); X_.coeffs = P
            Y_ = ns["Monomial2D"].__new__(ns["Monomial2D"]); Y_.coeffs = Q
            Z = X_.cross(Y_)
            for a, b in zip(Z.coeffs.flat, R.flat): c.prove(eq(a, b), "the product of two forms")
    return Task(f"{'cross_product_monomial' if which == 'monomial' else 'cross_product'}[{s1},{s2}]", body, "sized", setup=load if which == "monomial" else gload)


def t_deriv(n, m):
    def body(c, ns):
        P = net(c, "P", n, m)
        keep = P.copy()
        u, v = real(c, "u"), real(c, "v")
        c.cover("precondition is satisfiable")
        du, dv = ns["monomial_partial_derivatives"](P)
        for d in range(3):
            c.prove(eq(mono(du, u, v, d), mono(P, u, v, d, 1, 0)), "derivative in u")
            c.prove(eq(mono(dv, u, v, d), mono(P, u, v, d, 0, 1)), "derivative in v")
        N = ns["normal_vector_monomial"](P)
        want = cross([mono(P, u, v, d, 1, 0) for d in range(3)], [mono(P, u, v, d, 0, 1) for d in range(3)])
        for d in range(3): c.prove(eq(mono(N, u, v, d), want[d]), "the normal is the product of the derivatives")
        X_ = ns["Monomial2D"](P)
        a, b = X_.monomial_derivatives()
        for x, y in zip([*a.coeffs.flat, *b.coeffs.flat, *X_.monomial_normal().coeffs.flat], [*du.flat, *dv.flat, *N.flat]): c.prove(eq(x, y), "derivatives and normal of a form")
        c.prove(same(P, keep), "the input is unchanged")
    return Task(f"derivatives and normal[{n},{m}]", body, "sized", setup=load)


def t_gauss(n, m):
    def body(c, ns):
        P = net(c, "P", n, m)
        keep = P.copy()
        u, v = real(c, "u"), real(c, "v")
        c.cover("precondition is satisfiable")
        for k, o in (("u", (1, 0)), ("v", (0, 1))):
            D = ns["compute_partial_derivative"](P, k)
            for d in range(3): c.prove(eq(mono(D, u, v, d), mono(P, u, v, d, *o)), f"derivative in {k}")
        N = ns["compute_gauss_map"](P)
        # derivatives of the patch: differences of its control points
        du = [lin([mul((n - 1) * bern(n - 2, i, u), bern(m - 1, j, v)) for i in range(n - 1) for j in range(m)], [sub(P[i + 1, j, d], P[i, j, d]) for i in range(n - 1) for j in range(m)]) for d in range(3)]
        dv = [lin([mul((m - 1) * bern(n - 1, i, u), bern(m - 2, j, v)) for i in range(n) for j in range(m - 1)], [sub(P[i, j + 1, d], P[i, j, d]) for i in range(n) for j in range(m - 1)]) for d in range(3)]
        want = cross(du, dv)
        for d in range(3): c.prove(eq(bez(N, u, v, d), want[d]), "the Gauss map is the normal of the patch at every parameter")
        c.prove(same(P, keep), "the patch is unchanged")
    return Task(f"compute_gauss_map[{n},{m}]", body, "sized", setup=gload)


def t_class(n, m):
    def body(c, ns):
        P = net(c, "P", n, m)
        u, v = real(c, "u"), real(c, "v")

        class Surf:
            """a Bezier patch known by its net"""
            def __init__(self, net, degree, *a): self.control_points, self.degree = net, tuple(degree)
        ns["NURBSSurface"] = Surf
        c.cover("precondition is satisfiable")
        X_ = ns["Monomial2D"].from_bernstein_basis(P)
        for d in range(3):
            c.prove(eq(X_.evaluate_v2(u, v)[d], bez(P, u, v, d)), "the form of Bernstein coefficients is the patch")
            c.prove(eq(X_.evaluate(rt.arr_of([u, v], (2,)))[d], bez(P, u, v, d)), "evaluation at a pair")
        for which in ("from_bezier", "from_nurbs"):
            Y = getattr(ns["Monomial2D"], which)(Surf(P, (n - 1, m - 1)))
            for d in range(3): c.prove(eq(Y.evaluate_v2(u, v)[d], bez(P, u, v, d)), "the form of a surface is the surface")
        Z = ns["Monomial2D"](P)
        for which in ("to_bezier", "to_nurbs"):
            S = getattr(Z, which)()
            c.prove(S.degree == (n - 1, m - 1), "the degrees of the surface")
            for d in range(3): c.prove(eq(bez(S.control_points, u, v, d), mono(P, u, v, d)), "the surface of a form is the form")
        Q = Z.to_bernstein_basis()
        for d in range(3): c.prove(eq(bez(Q, u, v, d), mono(P, u, v, d)), "Bernstein coefficients of a form")
        try:
            ns["Monomial2D"].from_nurbs(Surf(P, (n, m - 1)))
            c.prove(False, "surfaces of several patches are refused")
        except NotImplementedError: c.prove(True, "surfaces of several patches are refused")
    return Task(f"Monomial2D[{n},{m}]", body, "sized", setup=load)


TASKS = [t_binom(), t_mat("mmcore"), t_mat("scipy"), t_to(1, 2, 3), t_to(2, 2, 3), t_to(3, 2, 3), t_to(2, 4, 1), t_to(4, 3, 4), t_to(4, 4, 3), t_to(3, 3, 3, "scipy"), t_rational(2, 2), t_rational(3, 2), t_reval(2, 2), t_reval(2, 3)]
TASKS += [t_cross((2, 2), (2, 2)), t_cross((3, 2), (2, 3)), t_cross((1, 3), (3, 2)), t_cross((3, 3), (3, 3)), t_cross((2, 2), (2, 2), "gauss"), t_cross((3, 2), (3, 2), "gauss"), t_cross((3, 3), (3, 3), "gauss")]
TASKS += [t_deriv(2, 2), t_deriv(3, 2), t_deriv(3, 4), t_gauss(2, 2), t_gauss(3, 2), t_gauss(3, 3), t_gauss(2, 4), t_class(2, 2), t_class(3, 2), t_class(3, 4)]
