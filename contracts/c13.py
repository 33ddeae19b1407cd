"""Planes.  The elimination solvers are proved with an invariant per step: the current matrix still has a left inverse (ghost) and
every row still satisfies the system at the true solution (ghost), so no pivot is zero and the result is the solution.  Plane
intersections are then solved by contract; frames, coordinates, projections and ray hits are settled for all real inputs."""
from .lib import *

LEVEL = "proof"
M = "mmcore.numeric.plane.cplane"
N = "mmcore.numeric.plane"
FUNCTIONS = [f"{M}:{f}" for f in ("find_max_row", "find_max_row_3x3", "solve_system_5x5", "solve_system_3x3", "cevaluate_plane", "cinverse_evaluate_plane", "evaluate_plane", "inverse_evaluate_plane", "evaluate_plane_arr", "inverse_evaluate_plane_arr",
    "cross_product", "dot_product", "cplane_plane_intersect", "cplane_plane_normal_intersect", "plane_plane_intersect", "plane_plane_normal_intersect", "planes_plane_intersect", "planes_planes_intersect", "cplane_plane_plane_intersect",
    "cplane_plane_plane_intersect_points_and_normals", "plane_plane_plane_intersect", "plane_plane_plane_intersect_points_and_normals", "plane_plane_intersection", "_ray_plane_intersect", "ray_plane_intersection", "_ray_param_plane_intersect", "ray_plane_parametric_intersection")] + \
    [f"{N}:{f}" for f in ("distance", "plane_from_normal2", "project_point_by_normal", "plane_from_3pt", "plane_from_eq", "plane_eq_from_pts", "perp_to_vector", "plane_line_intersection", "plane_ray_intersection", "plane_from_normal_origin", "project", "plane_signed_distance")]
ASSUMPTIONS = ["the order of rows of a batch is by the loop of the batch routine, unrolled at 3 rows"]
PAR = Fraction(float("1e-15"))


def loadm(loops=None, over=None): return prog((M,), loopspecs=loops, overrides=over).load(M)
def loadn(): return prog((M, N)).load(N)


def dot(a, b): return lin(list(a), list(b))
def cross(a, b): return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]
def minus(a, b): return [sub(x, y) for x, y in zip(a, b)]
def arr(l): return strict(rt.arr_of(list(l), (len(l),)))
def same(a, o): return all(x is y for x, y in zip(a.reshape(-1), o))
def flat(a): return list(a.reshape(-1))
def le_abs(a, b): return le(X.abs_(a), X.abs_(b)) if hasattr(X, "abs_") else le(mul(a, a), mul(b, b))


# ---- elimination
def pivot(name, n, shape):
    def body(c, ns):
        m = strict(mat(c, "m", shape, shape))
        ns["fabs"] = lambda x: X.max_(x, sub(0, x))
        c.inputs["i"] = i = c.choose(n, "column")
        old = flat(m)
        c.cover("precondition is satisfiable")
        r = ns[name](m, i, n)
        r = c.concretize(r) if X.is_e(r) else r
        c.prove(i <= r < n, "a row of the part not yet eliminated")
        for k in range(i, n): c.prove(and_(le(m[k][i], X.max_(m[r][i], sub(0, m[r][i]))), le(sub(0, m[k][i]), X.max_(m[r][i], sub(0, m[r][i])))), "the entry has the largest absolute value")
        c.prove(same(m, old), "the matrix is unchanged")
    return Task(f"{name}", body, "all", setup=loadm)


def pivot_contract(c, calls):
    def f(m, i, n):
        r = i + c.choose(n - i, "pivot row")
        c.assume(and_(*[implies(eq(m[r][i], 0), eq(m[k][i], 0)) for k in range(i, n)]))
        calls.append(r)
        return r
    return f


class Elim:
    """step i: rows and columns before i are eliminated; G m = I and m x* = v"""
    modifies = ("m", "v")
    extra = ()
    def __init__(self, n): self.n = n

    def havoc(self, c, v, old, env):
        if v == "i":
            k = c.choose(self.n + 1, "step")
            return k
        if v in ("max_row", "j", "k", "h"): return 0
        return NotImplemented

    def start(self, c, e):
        n = self.n
        i = e["i"]
        if i == 0: return
        c.G = [[var(f"G{a}_{b}_{i}") for b in range(n)] for a in range(n)]
        for t in self.facts(c, e["m"], e["v"], c.G, i): c.assume(t)

    def facts(self, c, m, v, G, i):
        n = self.n
        for a in range(n):
            for b in range(n): yield eq(lin(G[a], [m[j][b] for j in range(n)]), 1 if a == b else 0)
        for j in range(n): yield eq(lin([m[j][k] for k in range(n)], c.xs), v[j])

    def inv(self, c, e, ph):
        n, i, m, v = self.n, e["i"], e["m"], e["v"]
        for b in range(min(i, n) if ph != "enter" else 0):
            yield "the columns done are upper triangular", and_(*[eq(m[j][b], 0) for j in range(b + 1, n)], not_(eq(m[b][b], 0)))
        if ph == "enter":
            c.G0 = c.G
            for t in self.facts(c, m, v, c.G, 0): yield "the system is solvable", t
            c.m0 = None
        if ph == "assume":
            # the elimination step needs a pivot: the left inverse rules out a column of zeros
            c.old_m = [[m[j][b] for b in range(n)] for j in range(n)]
            c.old_v = list(v)
        if ph == "back":
            i = i - 1                                       # the index of the step just made
            r = c.rows.pop()
            mo, vo = [list(x) for x in c.old_m], list(c.old_v)
            G = [list(x) for x in c.G]
            mo[i], mo[r] = mo[r], mo[i]
            vo[i], vo[r] = vo[r], vo[i]
            for g in G: g[i], g[r] = g[r], g[i]
            f = [div(mo[j][i], mo[i][i]) if j > i else 0 for j in range(n)]
            G2 = [list(g) for g in G]
            for a in range(n): G2[a][i] = add(G[a][i], lin(f[i + 1:], G[a][i + 1:]))
            for a in range(n):
                for b in range(n):
                    yield "a left inverse is kept", eq(sub(lin(G2[a], [m[j][b] for j in range(n)]), lin(G[a], [mo[j][b] for j in range(n)])), 0)
            for j in range(n):
                yield "the rows hold at the solution", eq(sub(sub(lin([m[j][k] for k in range(n)], c.xs), v[j]),
                                                             sub(sub(lin(mo[j], c.xs), vo[j]), mul(f[j], sub(lin(mo[i], c.xs), vo[i])))), 0)


class Back:
    """step i: the last i unknowns are found and eliminated from the right-hand side"""
    modifies = ("v", "x")
    def __init__(self, n): self.n = n

    def havoc(self, c, v, old, env):
        if v == "i": return c.choose(self.n + 1, "back step")
        if v in ("j",): return 0
        return NotImplemented

    def inv(self, c, e, ph):
        n, i, m, v, x = self.n, e["i"], e["m"], e["v"], e["x"]
        for k in range(n - i, n): yield "unknowns found are those of the solution", eq(x[k], c.xs[k])
        for j in range(n - i): yield "rows left hold at the solution", eq(lin([m[j][k] for k in range(n - i)], c.xs[:n - i]), v[j])


def pivot_lemma(c, m, G, i, n):
    """G m = I, columns before i upper triangular: column i is not zero from row i on"""
    g = list(G[i])
    col = lambda b: lin(g, [m[j][b] for j in range(n)])
    for b in range(i):
        # row i of G m, column b: only g[b] m[b][b] is left
        c.assume(eq(col(b), 0))
        c.prove(eq(g[b], 0), "lemma: the ghost row vanishes on finished columns")
        g[b] = 0
    c.assume(eq(col(i), 1))
    c.prove(not_(and_(*[eq(m[j][i], 0) for j in range(i, n)])), "lemma: the column still holds a non-zero entry")


class ElimStep(Elim):
    def start(self, c, e):
        n, i = self.n, e["i"]
        m, v = e["m"], e["v"]
        c.G = [[var(f"G{a}_{b}") for b in range(n)] for a in range(n)]
        c.assume(and_(*[eq(m[j][b], 0) for b in range(min(i, n)) for j in range(b + 1, n)]))
        for j in range(n): c.assume(eq(lin([m[j][k] for k in range(n)], c.xs), v[j]))
        if i < n:
            # zero entries are known: substitute them in the equations
            for b in range(i):
                for j in range(b + 1, n): m[j, b] = 0
            c.old_m = [[m[j][b] for b in range(n)] for j in range(n)]
            pivot_lemma(c, m, c.G, i, n)
        else:
            for b in range(n):
                for j in range(b + 1, n): m[j, b] = 0


def solver(name, n):
    piv = "find_max_row" if n == 5 else "find_max_row_3x3"

    def setup(): return loadm({M: {name: {0: ElimStep(n), 4: Back(n)}}})

    def body(c, ns):
        m = mat(c, "m", n, n)
        v, x = vec(c, "v", n), vec(c, "junk", n)
        c.xs = [var(f"xs{k}") for k in range(n)]
        c.G = [[var(f"H{a}_{b}") for b in range(n)] for a in range(n)]
        for t in ElimStep(n).facts(c, m, v, c.G, 0): c.assume(t)
        c.rows = []
        ns[piv] = pivot_contract(c, c.rows)
        ns[name](m, v, x)
        c.cover("the end is reached")
        prove_eqs(c, [x[k] for k in range(n)], c.xs, "the solution of the system")
    return Task(name, body, "all", setup=setup)


def solve_contract(c, n, wit):
    """ensures: x is the solution; requires: the matrix has an inverse (witness given by the caller)"""
    def f(m, v, x):
        G = wit(m)
        I = [[1 if a == b else 0 for b in range(n)] for a in range(n)]
        for a in range(n):
            for b in range(n):
                c.prove(eq(lin(G[a], [m[j][b] for j in range(n)]), I[a][b]), "the system solved is regular")
        b = [v[j] for j in range(n)]
        xs = [lin(G[a], b) for a in range(n)]
        for j in range(n): c.prove(eq(lin([m[j][k] for k in range(n)], xs), b[j]), "the system solved has its solution")
        for k in range(n): x[k] = xs[k]
        for j in range(n):
            v[j] = X.fresh("gone", "R")
            for k in range(n): m[j, k] = X.fresh("gone", "R")
    return f


def wit5(n1, n2):
    """inverse of [[2I, Nt], [N, 0]]"""
    a, b, d = dot(n1, n1), dot(n1, n2), dot(n2, n2)
    det = sub(mul(a, d), mul(b, b))
    S = [[div(d, det), div(sub(0, b), det)], [div(sub(0, b), det), div(a, det)]]
    NN = [list(n1), list(n2)]
    P = [[lin([NN[r][k] for r in range(2)], [S[r][q] for r in range(2)]) for q in range(2)] for k in range(3)]     # Nt S^-1
    half = Fraction(1, 2)
    def f(m):
        G = [[None] * 5 for _ in range(5)]
        for i in range(3):
            for j in range(3): G[i][j] = mul(half, sub(1 if i == j else 0, lin(P[i], [NN[0][j], NN[1][j]])))
            for q in range(2): G[i][3 + q] = G[3 + q][i] = P[i][q]
        for q in range(2):
            for r in range(2): G[3 + q][3 + r] = mul(-2, S[q][r])
        return G
    return f


def wit3(ns):
    a, b, d = ns
    det = dot(a, cross(b, d))
    cols = [cross(b, d), cross(d, a), cross(a, b)]
    return lambda m: [[div(cols[q][k], det) for q in range(3)] for k in range(3)]


def plane(c, nm): return strict(mat(c, nm, 4, 3))


def line(c, got, p1, p2):
    """p: (origin, normal)"""
    for o, n in (p1, p2): c.prove(eq(dot(n, minus(list(got[0]), o)), 0), "the point of the line lies on both planes")
    prove_eqs(c, list(got[1]), cross(p1[1], p2[1]), "the direction is the cross product of the normals")


ENTRY2 = ["plane_plane_intersect", "cplane_plane_intersect", "plane_plane_intersection", "plane_plane_normal_intersect", "cplane_plane_normal_intersect"]


def two(entry):
    def body(c, ns):
        a, b = plane(c, "a"), plane(c, "b")
        c.inputs["f"] = entry
        n1, n2 = list(a[3]), list(b[3])
        det = sub(mul(dot(n1, n1), dot(n2, n2)), mul(dot(n1, n2), dot(n1, n2)))
        c.assume(lt(0, det))
        c.cover("precondition is satisfiable")
        ns["solve_system_5x5"] = solve_contract(c, 5, wit5(n1, n2))
        oa, ob = flat(a), flat(b)
        out = strict(rt.arr_of([var(f"o{k}") for k in range(6)], (2, 3)))
        if "normal" in entry:
            r = ns[entry](a[0], a[3], b[0], b[3], out)
        elif entry == "cplane_plane_intersect": r = ns[entry](a, b, out)
        else: r = ns[entry](a, b)
        if entry[0] == "c": r = out
        line(c, r, (list(a[0]), n1), (list(b[0]), n2))
        c.prove(same(a, oa) and same(b, ob), "the planes are unchanged")
    return Task(f"two planes {entry}", body, "all", setup=loadm)


def batch(entry, ka, kb):
    """ka, kb: shapes of the operands before (4, 3); the pair solver is by contract"""
    def body(c, ns):
        import numpy as np
        A, B = strict(mat(c, "a", *ka, 4, 3)), strict(mat(c, "b", *kb, 4, 3))
        c.inputs["f"] = entry
        c.cover("precondition is satisfiable")

        def pair(p, q, r):
            for t in range(6): r[t // 3][t % 3] = X.uf(f"line{t}", *flat(p), *flat(q))
        ns["cplane_plane_intersect"] = pair
        oa, ob = flat(A), flat(B)
        r = ns[entry](A, B)
        sh = ka or kb
        c.prove(tuple(r.shape) == tuple(sh) + (2, 3), "one line per pair")
        for ix in np.ndindex(*sh):
            p, q = A[ix] if ka else A, B[ix] if kb else B
            g, rev = flat(r[ix]), flat(p) + flat(q)
            fw = and_(*[eq(x, X.uf(f"line{t}", *rev)) for t, x in enumerate(g)])
            bw = and_(*[eq(x, X.uf(f"line{t}", *flat(q), *flat(p))) for t, x in enumerate(g)])
            c.prove(or_(fw, bw), "the line of a pair is that of its planes")
        c.prove(same(A, oa) and same(B, ob), "the planes are unchanged")
    return Task(f"batch {entry}[{ka}x{kb}]", body, "sized", setup=loadm)


def three(entry):
    def body(c, ns):
        ps = [plane(c, n) for n in "abd"]
        c.inputs["f"] = entry
        nn = [list(p[3]) for p in ps]
        c.assume(not_(eq(dot(nn[0], cross(nn[1], nn[2])), 0)))
        c.cover("precondition is satisfiable")
        ns["solve_system_3x3"] = solve_contract(c, 3, wit3(nn))
        r = ns[entry](*([q for p in ps for q in (p[0], p[3])] if "points" in entry else ps))
        for p, n in zip(ps, nn): c.prove(eq(dot(n, minus(list(r), list(p[0]))), 0), "the point lies on the three planes")
    return Task(f"three planes {entry}", body, "all", setup=loadm)


# ---- coordinates
def coords(many):
    def body(c, ns):
        p = plane(c, "a")
        pts = strict(mat(c, "pts", 2, 3))
        op, oq = flat(p), flat(pts)
        c.cover("precondition is satisfiable")
        ev = ns["evaluate_plane_arr"](p, pts) if many else [ns["evaluate_plane"](p, q) for q in pts]
        iv = ns["inverse_evaluate_plane_arr"](p, pts) if many else [ns["inverse_evaluate_plane"](p, q) for q in pts]
        for r, q in enumerate(pts):
            prove_eqs(c, list(ev[r]), [add(p[0][k], lin(list(q), [p[1 + j][k] for j in range(3)])) for k in range(3)], "origin plus coordinates times axes")
            prove_eqs(c, list(iv[r]), [dot(p[1 + j], minus(list(q), list(p[0]))) for j in range(3)], "coordinates along the axes")
        c.prove(same(p, op) and same(pts, oq), "inputs are unchanged")
    return Task(f"coordinates[{'batch' if many else 'one'}]", body, "all", setup=loadm)


# ---- rays
def ray(entry):
    def body(c, ns):
        p = mat(c, "a", 4, 3) if entry.startswith("plane_") else plane(c, "a")
        ry = mat(c, "ray", 2, 3)
        c.inputs["f"] = entry
        o, d = list(ry[0]), list(ry[1])
        pl = p
        if entry == "plane_ray_intersection(2)": pl = strict(rt.arr_of(list(p[0]) + list(p[3]), (2, 3)))
        if entry == "ray_plane_intersection": pl = strict(rt.arr_of(list(p[0]) + list(p[3]), (2, 3)))
        nm = list(p[3])
        den = dot(nm, d)
        fx = lambda x: X.max_(x, sub(0, x))
        c.cover("precondition is satisfiable")
        if entry.startswith("plane_"):
            r = ns["plane_line_intersection"](p, ry) if "line" in entry else ns["plane_ray_intersection"](pl, ry)
        else: r = ns[entry](pl, ry)
        t = div(dot(nm, minus(list(p[0]), o)), den) if True else None
        par = and_(lt(sub(0, PAR), den), lt(den, PAR))
        if r is None:
            behind = lt(t, 0)
            if entry == "ray_plane_parametric_intersection":
                x, y = list(p[1]), list(p[2])
                dd = sub(mul(dot(x, x), dot(y, y)), mul(dot(x, y), dot(x, y)))
                c.prove(or_(par, behind, and_(lt(sub(0, PAR), dd), lt(dd, PAR))), "no hit is reported only for parallel, backward or degenerate cases")
            else: c.prove(par if "line" in entry else or_(par, behind), "no hit is reported only for parallel or backward rays")
            return
        c.prove(not_(par), "parallel rays are no hit")
        pt = list(r[0]) if entry == "ray_plane_parametric_intersection" else list(r)
        prove_eqs(c, pt, [add(a, mul(t, b)) for a, b in zip(o, d)], "the hit is on the ray's line, at the plane")
        c.prove(eq(dot(nm, minus(pt, list(p[0]))), 0), "the hit is on the plane")
        if "line" not in entry: c.prove(le(0, mul(dot(nm, minus(list(p[0]), o)), den)), "the hit is not behind the ray")
        if entry == "ray_plane_parametric_intersection":
            u, v = r[1]
            x, y = list(p[1]), list(p[2])
            w = minus(minus(minus(pt, list(p[0])), [mul(u, k) for k in x]), [mul(v, k) for k in y])
            for ax in (x, y): c.prove(eq(dot(w, ax), 0), "the parameters are those of the hit in the plane's axes")
    return Task(f"ray {entry}", body, "all", setup=loadn if entry.startswith("plane_") else loadm, div="assume")


# ---- frames
def unit_vec(c, nm):
    v = strict(vec(c, nm, 3))
    c.assume(eq(dot(v, v), 1))
    return v


def frame(c, f, o, n=None, right=None):
    f = [list(f[k]) for k in range(4)]
    prove_eqs(c, f[0], list(o), "the origin is the point given")
    for i in range(1, 4):
        c.prove(eq(dot(f[i], f[i]), 1), "axes have length one")
        for j in range(i): 
            if j: c.prove(eq(dot(f[i], f[j]), 0), "axes are orthogonal")
    return f


def normal2(zero):
    def body(c, ns):
        o, n = strict(vec(c, "o", 3)), strict(vec(c, "n", 3))
        tol = Fraction(float("1e-5"))
        s = dot(n, n)
        c.assume(le(s, tol) if zero else lt(tol, s))
        c.cover("precondition is satisfiable")
        L = X.sqrt(s)
        ax = {}

        def unit(v):
            """contract of scalar_unit (C12): v / |v|, v not zero"""
            c.prove(lt(0, dot(v, v)), "a vector that is made a unit vector is not zero")
            k = X.fresh("len", "R")
            c.assume(and_(lt(0, k), eq(mul(k, k), dot(v, v))))
            r = [div(x, k) for x in v]
            c.assume(eq(dot(r, r), 1))
            ax[len(ax)] = (r, k)
            return arr(r)
        ns["scalar_unit"] = unit
        f = ns["plane_from_normal2"](o, n)
        f = frame(c, f, o)
        if zero: prove_eqs(c, f[3], [0, 0, 1], "without a normal the plane is horizontal")
        else:
            prove_eqs(c, cross(f[3], n), [0, 0, 0], "the normal keeps its direction")
            c.prove(lt(0, dot(f[3], n)), "the normal keeps its sense")
    return Task(f"plane_from_normal2[{'zero' if zero else 'normal'}]", body, "all", setup=loadn, div="assume")


def three_pt():
    def body(c, ns):
        pts = [strict(vec(c, n, 3)) for n in ("p", "q", "r")]
        n = cross(minus(pts[1], pts[0]), minus(pts[2], pts[0]))
        c.assume(lt(0, dot(n, n)))
        c.cover("precondition is satisfiable")
        ax = []

        def unit(v):
            v = list(v)
            k = X.sqrt(dot(v, v))
            r = [div(x, k) for x in v]
            ax.append((v, k))
            return arr(r)
        ns["scalar_unit"] = unit
        old = [list(p) for p in pts]
        f, e = ns["plane_from_3pt"](*pts)
        prove_eqs(c, list(e[:3]), n, "the equation's normal is the triangle's")
        for p in pts: c.prove(eq(add(dot(list(e[:3]), p), e[3]), 0), "the three points satisfy the equation")
        f = [list(f[k]) for k in range(4)]
        prove_eqs(c, f[0], old[0], "the origin is the first point")
        d = minus(pts[1], pts[0])
        k1, k2 = X.sqrt(dot(n, n)), X.sqrt(dot(d, d))
        prove_eqs(c, f[3], [div(x, k1) for x in n], "the normal is the triangle's unit normal")
        prove_eqs(c, f[1], [div(x, k2) for x in d], "the first axis points to the second point")
        prove_eqs(c, f[2], cross(f[3], f[1]), "the second axis completes a right-handed frame")
        c.prove(all(all(x is y for x, y in zip(p, o)) for p, o in zip(pts, old)), "inputs are unchanged")
    return Task("plane_from_3pt", body, "all", setup=loadn, div="assume")


def eq_plane():
    def body(c, ns):
        e = strict(vec(c, "e", 4))
        n = list(e[:3])
        c.assume(lt(0, dot(n, n)))
        c.cover("precondition is satisfiable")
        k = real(c, "k")
        c.assume(and_(lt(0, k), eq(mul(k, k), dot(n, n))))
        ns["scalar_unit"] = lambda v: arr([div(x, k) for x in v])
        ns["scalar_norm"] = lambda v: k
        o, m = ns["plane_from_eq"](e)
        prove_eqs(c, [mul(k, x) for x in m], n, "the normal is the equation's, made unit")
        c.prove(eq(add(dot(n, o), e[3]), 0), "the origin satisfies the equation")
    return Task("plane_from_eq", body, "all", setup=loadn, div="assume")


def normal_origin():
    def body(c, ns):
        n, o = unit_vec(c, "n"), strict(vec(c, "o", 3))
        c.assume(lt(mul(dot(n, o), dot(n, o)), dot(o, o)))           # the foot of the perpendicular from 0 is not the origin itself
        c.cover("precondition is satisfiable")
        k = real(c, "k")
        seen = []

        def norm(v):
            v = list(v)
            c.assume(and_(lt(0, k), eq(mul(k, k), dot(v, v))))
            seen.append(v)
            return k
        ns["scalar_norm"] = norm
        f = ns["plane_from_normal_origin"](n, o)
        f = [list(f[j]) for j in range(4)]
        prove_eqs(c, f[0], list(o), "the origin is the point given")
        prove_eqs(c, f[3], list(n), "the normal is the vector given")
        c.prove(eq(dot(f[1], n), 0), "the first axis lies in the plane")
        c.prove(eq(mul(mul(k, k), dot(f[1], f[1])), mul(k, k)), "the first axis has length one")
        prove_eqs(c, f[2], cross(n, f[1]), "the second axis completes a right-handed frame")
    return Task("plane_from_normal_origin", body, "all", setup=loadn, div="assume")


def measures():
    def body(c, ns):
        p = mat(c, "a", 4, 3)
        q = vec(c, "q", 3)
        n = list(p[3])
        c.assume(eq(dot(n, n), 1))
        c.cover("precondition is satisfiable")
        s = dot(n, minus(q, list(p[0])))
        foot = [sub(a, mul(s, b)) for a, b in zip(q, n)]
        old = list(q)
        prove_eqs(c, list(ns["project"](p, q)), foot, "the foot of the perpendicular")
        prove_eqs(c, list(ns["project_point_by_normal"](q, p[3], p[0])), foot, "the foot of the perpendicular, by normal and origin")
        ns["sqrt"] = lambda v: (c.prove(eq(v, 1), "length of the normal"), 1)[1]
        d = ns["distance"](p, q)
        c.prove(and_(le(0, d), eq(mul(d, d), mul(s, s))), "the distance to the plane")
        e = [var(f"e{k}") for k in range(4)]
        r = ns["plane_signed_distance"](e, [list(q), list(n)])
        for x, y in zip(r, (q, n)): c.prove(eq(x, add(dot(e[:3], y), e[3])), "value of the plane equation")
        c.prove(all(x is y for x, y in zip(q, old)), "inputs are unchanged")
    return Task("project, distance, plane_signed_distance", body, "all", setup=loadn)


TASKS = [pivot("find_max_row", 5, 5), pivot("find_max_row_3x3", 3, 3), solver("solve_system_3x3", 3), solver("solve_system_5x5", 5)]
TASKS += [two(e) for e in ENTRY2] + [three("plane_plane_plane_intersect"), three("plane_plane_plane_intersect_points_and_normals")]
TASKS += [batch("planes_plane_intersect", (3,), ()), batch("planes_planes_intersect", (3,), (3,)), batch("plane_plane_intersection", (3,), (3,)), batch("plane_plane_intersection", (3,), ()), batch("plane_plane_intersection", (), (3,)),
          batch("plane_plane_intersection", (2, 2), (2, 2)), batch("plane_plane_intersection", (2, 1), ()), batch("plane_plane_intersection", (), (2, 2))]
TASKS += [coords(False), coords(True)] + [ray(e) for e in ("ray_plane_intersection", "ray_plane_parametric_intersection", "plane_line_intersection", "plane_ray_intersection", "plane_ray_intersection(2)")]
TASKS += [normal2(False), normal2(True), three_pt(), eq_plane(), normal_origin(), measures()]
