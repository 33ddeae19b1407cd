"""Row-wise vector algebra: every row of a batch result is the mathematical value of that row's operands, for every number of
rows (loop invariant about an arbitrary row); widths 2, 3 and 4 are enumerated.  Scalar forms, projections, orthogonalisation,
2x2 solves and coordinate changes are settled for all real inputs."""
from .lib import *

LEVEL = "proof"
V = "mmcore.numeric.vectors"
F = ["dot", "dot_array_x_array", "dot_vec_x_array", "dot_array_x_vec", "norm", "unit", "cross", "gram_schmidt", "scalar_dot", "scalar_norm", "scalar_unit", "scalar_normalize", "scalar_cross",
     "vector_projection", "closest_point_on_ray", "closest_point_on_line", "solve2x2", "cinvert_jacobian", "cinvert_jacobian_vec", "invert_jacobian", "decompose_vector", "decompose_vectors",
     "scalar_gram_schmidt", "matmul_array", "support_vector", "multi_support_vector", "spherical_to_cartesian", "cartesian_to_spherical", "cylindrical_to_xyz", "courtesan_to_cylindrical", "normal_from_4pt", "det", "points_order"]
FUNCTIONS = [f"{V}:{f}" for f in F]
ASSUMPTIONS = ["sin, cos, atan2 are uninterpreted: coordinate changes are settled up to the identities sin(atan2(y,x)) r = y, cos(atan2(y,x)) r = x"]


def D(a, b): return lin(list(a), list(b))
def cr(a, b): return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]
def R(a, r, w): return [a.load(r, (k,)) for k in range(w)]


# name -> (argument kinds, result width, spec(rows of the operands) )
BATCH = {
    "dot": ("rr", None, lambda a, b: [D(a, b)]), "dot_array_x_array": ("rr", None, lambda a, b: [D(a, b)]),
    "dot_vec_x_array": ("vr", None, lambda a, b: [D(a, b)]), "dot_array_x_vec": ("rv", None, lambda a, b: [D(a, b)]),
    "norm": ("r", None, lambda a: [X.sqrt(D(a, a))]), "unit": ("r", "w", lambda a: [div(x, X.sqrt(D(a, a))) for x in a]),
    "cross": ("rr", 3, cr), "gram_schmidt": ("rr", "w", lambda a, b: [sub(y, mul(x, D(a, b))) for x, y in zip(a, b)]),
}
ARGS = {"dot_vec_x_array": ("vec_a", "vec_b"), "norm": ("vec",), "unit": ("vec",)}


def operands(c, kinds, w, n=None):
    out = []
    for i, k in enumerate(kinds):
        out.append(vec(c, f"x{i}", w) if k == "v" else rows(c, f"x{i}", n, w))
    return out


def batch(name, w):
    kinds, rw, spec = BATCH[name]

    def sp(c, e, r):
        return spec(*[(list(a) if isinstance(a, rt.Arr) else R(a, r, w)) for a in c.ops])

    def setup(): return prog((V,), loopspecs={V: {name: {0: RowMap("res", sp)}}}).load(V)

    def body(c, ns):
        n = integer(c, "n")
        c.assume(lt(0, n))
        r = ghost_row(c, n)
        c.ops = operands(c, kinds, w, n)
        if name == "unit":                                # every row is a non-zero vector
            i = var("q!", "I")
            c.assume(X.forall([i], implies(and_(le(0, i), lt(i, n)), lt(0, D(R(c.ops[0], i, w), R(c.ops[0], i, w)))), [tuple(R(c.ops[0], i, w))]))
        c.cover("precondition is satisfiable")
        before = [list(o.store.arr.values()) if not isinstance(o, rt.Arr) else list(o) for o in c.ops]
        res = ns[name](*c.ops)
        want = sp(c, None, r)
        c.prove(eq(res.length, n), "as many rows as the operands")
        for k, x in enumerate(want): c.prove(eq(res.load(r, (k,)) if res.store.tail else res.load(r), x), "every row holds its own value")
        after = [list(o.store.arr.values()) if not isinstance(o, rt.Arr) else list(o) for o in c.ops]
        c.prove(all(x is y for a, b in zip(before, after) for x, y in zip(a, b)), "the operands are unchanged")
    return Task(f"{name}[w={w}]", body, "all", fallback=f"fixed {name}", setup=setup, div="assume" if name == "unit" else "prove")


def fixed(name, w, n=3):
    kinds, rw, spec = BATCH[name]

    def setup(): return prog((V,)).load(V)

    def body(c, ns):
        ops = [vec(c, f"x{i}", w) if k == "v" else mat(c, f"x{i}", n, w) for i, k in enumerate(kinds)]
        c.inputs["f"] = name
        if name == "unit":
            for r in range(n): c.assume(lt(0, D(ops[0][r], ops[0][r])))
        c.cover("precondition is satisfiable")
        res = ns[name](*[strict(o) for o in ops])
        for r in range(n):
            want = spec(*[(list(o) if k == "v" else list(o[r])) for k, o in zip(kinds, ops)])
            got = list(res[r]) if res.ndim == 2 else [res[r]]
            c.prove(len(got) == len(want), "width of a row")
            for g, x in zip(got, want): c.prove(eq(g, x), "every row holds its own value")
    return Task(f"fixed {name}[w={w},n={n}]", body, f"{n} rows of width {w}", setup=setup)


def scalars(w):
    def setup(): return prog((V,)).load(V)

    def body(c, ns):
        a, b = strict(vec(c, "a", w)), strict(vec(c, "b", w))
        c.assume(lt(Fraction(1, 10 ** 29), D(a, a)))
        c.cover("precondition is satisfiable")
        c.prove(eq(ns["scalar_dot"](a, b), D(a, b)), "scalar_dot")
        nrm = X.sqrt(D(a, a))
        c.prove(eq(ns["scalar_norm"](a), nrm), "scalar_norm")
        u = ns["scalar_unit"](a)
        for k in range(w): c.prove(eq(mul(u[k], nrm), a[k]), "scalar_unit is parallel and scaled by the norm")
        c.prove(eq(D(u, u), 1), "scalar_unit has length one")
        v = a.copy()
        c.prove(eq(ns["scalar_normalize"](strict(v)), 1), "scalar_normalize reports success")
        for k in range(w): c.prove(eq(mul(v[k], nrm), a[k]), "scalar_normalize in place")
    return Task(f"scalar forms[w={w}]", body, "all", setup=setup)


def space():
    def setup(): return prog((V,)).load(V)

    def body(c, ns):
        a, b, s, p = (strict(vec(c, nm, 3)) for nm in "absp")
        c.assume(lt(0, D(b, b)))
        c.cover("precondition is satisfiable")
        x = ns["scalar_cross"](a, b)
        for g, w in zip(x, cr(a, b)): c.prove(eq(g, w), "scalar_cross")
        c.prove(eq(D(x, a), 0), "the cross product is orthogonal to its operands")
        t = div(D(a, b), D(b, b))
        for g, y in zip(ns["vector_projection"](a, b), b): c.prove(eq(g, mul(t, y)), "projection of a vector onto another")
        q = ns["closest_point_on_ray"](s, b, p)
        k = [sub(p[i], s[i]) for i in range(3)]
        t = div(D(k, b), D(b, b))
        for i in range(3): c.prove(eq(q[i], add(s[i], mul(t, b[i]))), "foot of the perpendicular on the line of a ray")
        c.prove(eq(D([sub(p[i], q[i]) for i in range(3)], b), 0), "the residual is orthogonal")
        e = strict(rt.arr_of([add(s[i], b[i]) for i in range(3)], (3,)))
        q = ns["closest_point_on_line"](s, e, p)
        for i in range(3): c.prove(eq(q[i], add(s[i], mul(t, b[i]))), "foot of the perpendicular on the line through two points")
        g = strict(rt.NPC.empty((3,)))
        ns["scalar_gram_schmidt"](b, a, g)
        for i in range(3): c.prove(eq(g[i], sub(a[i], mul(b[i], D(a, b)))), "scalar_gram_schmidt")
        h = a.copy()
        ns["scalar_gram_schmidt_emplace"](b, strict(h))
        for i in range(3): c.prove(eq(h[i], g[i]), "in-place gram_schmidt")
        d = strict(vec(c, "d", 3))
        nn = ns["normal_from_4pt"](a, b, s, d)
        for g, w in zip(nn, cr([sub(s[i], a[i]) for i in range(3)], [sub(d[i], b[i]) for i in range(3)])): c.prove(eq(g, w), "normal of four points is the cross product of the diagonals")
    return Task("3-d constructions", body, "all", setup=setup)


def systems():
    def setup(): return prog((V,)).load(V)

    def body(c, ns):
        M, y = strict(mat(c, "M", 2, 2)), strict(vec(c, "y", 2))
        det = sub(mul(M[0, 0], M[1, 1]), mul(M[0, 1], M[1, 0]))
        x = strict(rt.NPC.empty((2,)))
        ok = ns["solve2x2"](M, y, x)
        J = strict(rt.NPC.empty((2, 2)))
        st = ns["cinvert_jacobian"](M, J)
        if c.decide(eq(det, 0)):
            c.prove(eq(ok, 0), "a singular system is reported")
            c.prove(eq(st, -1), "a singular matrix is reported")
            return
        c.prove(eq(ok, 1), "a regular system is reported solved")
        for i in range(2): c.prove(eq(D(M[i], x), y[i]), "the solution satisfies the system")
        c.prove(eq(st, 0), "a regular matrix is reported inverted")
        for i in range(2):
            for j in range(2): c.prove(eq(add(mul(M[i, 0], J[0, j]), mul(M[i, 1], J[1, j])), 1 if i == j else 0), "matrix times inverse is the identity")
        v = rt.arr_of([M[i, j] for k in range(2) for i in range(2) for j in range(2)], (2, 2, 2))
        Ji, sts = ns["invert_jacobian"](v)
        for k in range(2):
            c.prove(eq(sts[k], 0), "batch inverse status")
            for i in range(2):
                for j in range(2): c.prove(eq(Ji[k, i, j], J[i, j]), "batch inverse")
    return Task("2x2 systems", body, "all", setup=setup)


def decompose(w):
    def setup(): return prog((V,)).load(V)

    def body(c, ns):
        a, b, v, z = (strict(vec(c, nm, w)) for nm in "abvz")
        g = sub(mul(D(a, a), D(b, b)), mul(D(a, b), D(a, b)))
        c.assume(X.ne(g, 0))
        c.cover("precondition is satisfiable")
        xy = ns["decompose_vector"](v, a, b)
        B = rt.arr_of(list(v) + list(z), (2, w))
        XY = ns["decompose_vectors"](strict(B), a, b)
        for x, t in ((xy, v), (XY[0], v), (XY[1], z)):
            res = [sub(t[i], add(mul(x[0], a[i]), mul(x[1], b[i]))) for i in range(w)]
            c.prove(eq(D(res, a), 0), "the residual is orthogonal to the first basis vector")
            c.prove(eq(D(res, b), 0), "the residual is orthogonal to the second basis vector")
    return Task(f"decomposition[w={w}]", body, "all", setup=setup)


def products(n, r, k, m):
    def setup(): return prog((V,)).load(V)

    def body(c, ns):
        A, B = strict(mat(c, "A", n, r, k)), strict(mat(c, "B", n, k, m))
        C = ns["matmul_array"](A, B)
        for w in range(n):
            for i in range(r):
                for j in range(m): c.prove(eq(C[w, i, j], lin([A[w, i, t] for t in range(k)], [B[w, t, j] for t in range(k)])), "batch matrix product")
    return Task(f"matmul_array[{n}x{r}x{k}x{m}]", body, f"{n} products {r}x{k} by {k}x{m}", setup=setup)


def support(n, w):
    def setup(): return prog((V,)).load(V)

    def body(c, ns):
        P, d, e = strict(mat(c, "P", n, w)), strict(vec(c, "d", w)), strict(vec(c, "e", w))
        if c.choose(2, "form") == 0:
            s = ns["support_vector"](P, d)
            c.prove(any(all(s[k] is P[i, k] for k in range(w)) for i in range(n)), "the support point is one of the points")
            for i in range(n): c.prove(le(D(P[i], d), D(s, d)), "no point lies further in the direction")
            return
        S = ns["multi_support_vector"](P, strict(rt.arr_of(list(d) + list(e), (2, w))))
        for row, dr in ((S[0], d), (S[1], e)):
            for i in range(n): c.prove(le(D(P[i], dr), D(row, dr)), "batch: no point lies further in the direction")
    return Task(f"support[{n} points,w={w}]", body, f"{n} points of dimension {w}", setup=setup)


def coords():
    def setup(): return prog((V,)).load(V)

    def body(c, ns):
        P = strict(mat(c, "P", 1, 3))
        x, y, z = P[0]
        rho = X.sqrt(add(mul(x, x), mul(y, y)))
        at = lambda a, b: X.uf("atan2", a, b)
        S = ns["cartesian_to_spherical"](P)
        want = [X.sqrt(add(add(mul(x, x), mul(y, y)), mul(z, z))), at(rho, z), at(y, x)]
        for g, w in zip(S[0], want): c.prove(eq(g, w), "spherical: radius, polar angle, azimuth")
        C = ns["courtesan_to_cylindrical"](P)
        for g, w in zip(C[0], [rho, at(y, x), z]): c.prove(eq(g, w), "cylindrical: radius, azimuth, height")
        sn, cs = (lambda t: X.uf("sin", t)), (lambda t: X.uf("cos", t))
        r, t, f = x, y, z
        for g, w in zip(ns["spherical_to_cartesian"](P)[0], [mul(mul(r, sn(t)), cs(f)), mul(mul(r, sn(t)), sn(f)), mul(r, cs(t))]): c.prove(eq(g, w), "from spherical")
        for g, w in zip(ns["cylindrical_to_xyz"](P)[0], [mul(x, cs(y)), mul(x, sn(y)), z]): c.prove(eq(g, w), "from cylindrical")
    return Task("coordinate changes", body, "all", setup=setup)


def area(n):
    def setup(): return prog((V,)).load(V)

    def body(c, ns):
        Q = mat(c, "Q", n, 2)
        P = strict(rt.arr_of(list(Q.reshape(-1)) + list(Q[0]), (n + 1, 2)))      # closed polygon
        twice = 0
        for i in range(n): twice = add(twice, sub(mul(P[i, 0], P[i + 1, 1]), mul(P[i + 1, 0], P[i, 1])))
        c.prove(eq(ns["det"](P), sub(0, twice)), "minus twice the signed area of a closed polygon")
        k = ns["points_order"](P)
        c.prove(eq(k, X.ite(lt(twice, 0), 0, X.ite(lt(0, twice), 1, -1))), "orientation of a closed polygon")
    return Task(f"polygon order[{n}]", body, f"closed polygons of {n} vertices", setup=setup)


TASKS = []
for nm in BATCH:
    for w in ((3,) if nm == "cross" else (2, 3, 4) if nm in ("dot", "norm", "unit", "gram_schmidt") else (3,)):
        TASKS += [batch(nm, w), fixed(nm, w)]
TASKS += [scalars(2), scalars(3), space(), systems(), decompose(2), decompose(3), products(2, 2, 3, 2), products(1, 3, 3, 1), support(1, 3), support(2, 3), support(3, 2), coords(), area(3), area(4)]


def _fixed(inp, task):
    return {"kind": "batch", "case": {"f": inp["f"], "a": inp["x0"], "b": inp.get("x1")}}


MODEL_CASE = {k: _fixed for k in ["fixed " + n for n in BATCH]}
