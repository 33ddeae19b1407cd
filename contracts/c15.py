"""Axis-aligned boxes as sets of points.  The box of a point collection is proved for any number of points (loop invariant:
contains every point so far, each face touches one) in dimensions 2 and 3; intersection tests, intersections, overlap and point
membership are proved to be the corresponding statements about sets for all real boxes (the common point is exhibited)."""
from .lib import *
from .c10 import Box

LEVEL = "proof"
A, AA = "mmcore.numeric._aabb", "mmcore.numeric.aabb"
FUNCTIONS = [A + ":" + f for f in ("aabb", "caabb", "caabb_segm3d", "aabb_segm3d", "caabb_intersect", "caabb_intersect_3d", "aabb_intersect", "aabb_intersect_fast_3d", "caabb_intersection_3d", "aabb_intersection")] + \
            [AA + ":point_in_aabb", AA + ":aabb_overlap"]
ASSUMPTIONS = ["a box is valid (low corner not above the high corner) where it is an argument", "at least one point"]


class PBox(Box):
    def __init__(self):
        super().__init__(lambda c, e, r, k: e["points"].load(r, (k,)), lambda e, k: e["min_point"][k], lambda e, k: e["max_point"][k])
        self.modifies = ("min_point", "max_point")


def any_size(w):
    def setup(): return prog((A,), loopspecs={A: {"caabb": {"j": PBox(), 1: PBox()}}}).load(A)

    def body(c, ns):
        n = integer(c, "n")
        c.assume(lt(0, n)); c.dim, c.wit = w, {}
        ghost_row(c, n)
        P = rows(c, "P", n, w)
        c.cover("precondition is satisfiable")
        before = list(P.store.arr.values())
        if c.choose(2, "result"):
            out = strict(rt.arr_of([var(f"junk{i}") for i in range(2 * w)], (2, w)))
            box = ns["aabb"](P, out)
        else: box = ns["aabb"](P)
        c.prove(tuple(box.shape) == (2, w), "two corners of the width of the points")
        c.prove(all(a is b for a, b in zip(before, P.store.arr.values())), "the points are unchanged")
        for k in range(w):
            q = P.load(c.ghost, (k,))
            c.prove(and_(le(box[0, k], q), le(q, box[1, k])), "the box contains every point")
            for s in (0, 1):
                t = [c.wit[s, k]] if (s, k) in c.wit else [0]
                c.prove(and_(*[eq(box[s, k], P.load(i, (k,))) for i in t]), "each face touches a point")
    return Task(f"aabb[any number of points,w={w}]", body, "all", fallback=f"aabb of points[w={w}]", setup=setup)


def some(n, w):
    def body(c, ns):
        P = strict(mat(c, "P", n, w))
        c.cover("precondition is satisfiable")
        given = c.choose(2, "result")
        box = ns["aabb"](P, strict(rt.arr_of([var(f"junk{i}") for i in range(2 * w)], (2, w)))) if given else ns["aabb"](P)
        c.prove(tuple(box.shape) == (2, w), "two corners of the width of the points")
        for k in range(w):
            for r in range(n): c.prove(and_(le(box[0, k], P[r, k]), le(P[r, k], box[1, k])), "the box contains every point")
            for s in (0, 1): c.prove(or_(*[eq(box[s, k], P[r, k]) for r in range(n)]), "each face touches a point")
    return Task(f"aabb of points[w={w},n={n}]", body, f"{n} points of width {w}", setup=lambda: prog((A,)).load(A))


def box(c, name, w):
    b = strict(mat(c, name, 2, w))
    for k in range(w): c.assume(le(b[0, k], b[1, k]))
    return b


def member(b, q): return and_(*[and_(le(b[0, k], q[k]), le(q[k], b[1, k])) for k in range(b.shape[1])])


def mods():
    P = prog((A, AA))
    ns = dict(P.load(A))
    ns.update({k: v for k, v in P.load(AA).items() if k in ("point_in_aabb", "aabb_overlap")})
    return ns


def truth(c, x):
    """the value of a returned flag on this path"""
    return c.decide(ne0(x)) if X.is_e(x) else bool(x)


def ne0(x): return x if getattr(x, "sort", None) == "B" else not_(eq(x, 0))


def intersect(w, f):
    def body(c, ns):
        a, b = box(c, "a", w), box(c, "b", w)
        q = strict(vec(c, "q", w))
        c.inputs["f"] = f
        c.cover("precondition is satisfiable")
        r = truth(c, ns[f](a, b))
        if r:     # a common point exists: the larger of the low corners
            for k in range(w):
                m = X.ite(le(a[0, k], b[0, k]), b[0, k], a[0, k])
                for x in (a, b): c.prove(and_(le(x[0, k], m), le(m, x[1, k])), "boxes reported to intersect have a common point")
        else: c.prove(not_(and_(member(a, q), member(b, q))), "boxes reported apart have no common point")
    return Task(f"{f}[w={w}]", body, "all", setup=mods)


def intersection():
    def body(c, ns):
        a, b = box(c, "a", 3), box(c, "b", 3)
        q = strict(vec(c, "q", 3))
        c.cover("precondition is satisfiable")
        out = strict(rt.arr_of([var(f"junk{i}") for i in range(6)], (2, 3)))
        r = ns["aabb_intersection"](a, b, out) if c.choose(2, "result") else ns["aabb_intersection"](a, b)
        both = and_(member(a, q), member(b, q))
        if r is None: c.prove(not_(both), "no result only when there is no common point")
        else:
            for k in range(3): c.prove(le(r[0, k], r[1, k]), "the common box is valid")
            c.prove(implies(both, member(r, q)), "every common point is in the common box")
            c.prove(implies(member(r, q), both), "every point of the common box is common")
    return Task("aabb_intersection", body, "all", setup=mods)


def inside(w):
    def body(c, ns):
        a, q = box(c, "a", w), strict(vec(c, "q", w))
        c.cover("precondition is satisfiable")
        r = truth(c, ns["point_in_aabb"](a, q))
        c.prove(member(a, q) if r else not_(member(a, q)), "membership of a point")
    return Task(f"point_in_aabb[w={w}]", body, "all", setup=mods)


def segm():
    def body(c, ns):
        s, e = strict(vec(c, "s", 3)), strict(vec(c, "e", 3))
        t = real(c, "t")
        c.assume(and_(le(0, t), le(t, 1)))
        out = strict(rt.arr_of([var(f"junk{i}") for i in range(6)], (2, 3)))
        c.cover("precondition is satisfiable")
        ns["aabb_segm3d"](s, e, out)
        for k in range(3):
            c.prove(or_(and_(eq(out[0, k], s[k]), eq(out[1, k], e[k]), le(s[k], e[k])), and_(eq(out[0, k], e[k]), eq(out[1, k], s[k]), le(e[k], s[k]))), "the ends are the corners")
            x = add(s[k], mul(t, sub(e[k], s[k])))
            c.prove(and_(le(out[0, k], x), le(x, out[1, k])), "the box contains the segment")
    return Task("aabb_segm3d", body, "all", setup=mods)


TASKS = [any_size(w) for w in (2, 3)] + [some(n, w) for w, n in ((2, 1), (2, 3), (3, 2), (4, 1), (4, 2))] + [intersect(w, "aabb_intersect") for w in (2, 3, 4)] + [intersect(3, "aabb_intersect_fast_3d"), intersect(2, "aabb_overlap"), intersect(3, "aabb_overlap"),
         intersection(), inside(2), inside(3), segm()]
