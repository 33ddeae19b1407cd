"""Segments and rays against triangles and triangle meshes.  The single test is proved for every triangle and segment: inputs are
written through the solution (t, u, v) of  S + t d = V0 + u e1 + v e2,  which exists and is unique off the parallel case.  The
array versions are proved for any number of triangles, the mesh queries for any tree, over the contract of the single test."""
from .lib import *
from .c31 import M as BVH, World, Worklist, Work, Found, Obj, Segs, box, keep, holds, inside, Top, corners, load as load_bvh

LEVEL = "proof"
M = "mmcore.numeric.algorithms.moller"
FUNCTIONS = [f"{M}:{f}" for f in ("_is_close", "_point_equals", "_point_on_edge", "_classify_intersection", "_intersect_triangle_segment", "intersect_triangle_segment", "intersect_triangles_segment_one", "intersect_triangles_segment", "intersect_triangles_segment_parallel")] + \
            [f"{BVH}:{f}" for f in ("bvh_triangle_segment_intersection_one", "mesh_bvh_segment_intersection_one", "mesh_bvh_ray_intersection", "build_bvh_from_mesh", "build_bvh_from_triangles", "Triangle.__init__", "Segment.__init__", "Segment.evaluate", "Segment.subdivide", "Segment.clip", "Ray.__init__")]
ASSUMPTIONS = ["built without OpenMP, as build.py does: iterations of prange run in order", "box tests, clips and hierarchies by their contracts (C15, C16, C31)", "a point of a triangle lies in the triangle's box"]
EPS = Fraction(float("1e-8"))


def load(loops=None, over=None): return prog((M,), loopspecs=loops, overrides=over).load(M)


def cross(a, b): return [sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))]
def dot(a, b): return lin(list(a), list(b))
def minus(a, b): return [sub(x, y) for x, y in zip(a, b)]


def comb(p, *tv):
    return [add(p[k], lin([t for t, _ in tv], [v[k] for _, v in tv])) for k in range(3)]


def single(case):
    """case: all edges and directions, or the parallel ones"""
    def body(c, ns):
        V0, e1, e2, d = (strict(vec(c, n, 3)) for n in ("V0", "e1", "e2", "d"))
        det = dot(e1, cross(d, e2))
        if case == "crossing":
            t, u, v = (real(c, n) for n in "tuv")
            # the determinant is named: the argument is linear in everything else
            D = c.D = real(c, "det")
            c.assume(eq(D, det))
            S = comb(V0, (u, e1), (v, e2), (sub(0, t), d))
            c.assume(or_(le(EPS, D), le(D, -EPS)))
        else:
            S = list(strict(vec(c, "S", 3)))
            c.assume(and_(lt(-EPS, det), lt(det, EPS)))
        E = comb(S, (1, d))
        V1, V2 = comb(V0, (1, e1)), comb(V0, (1, e2))
        arrs = [strict(rt.arr_of(list(x), (3,))) for x in (V0, V1, V2, S, E)]
        old = [list(a) for a in arrs]
        out = strict(rt.arr_of([var(f"junk{k}") for k in range(3)], (3,)))
        junk = list(out)
        c.cover("precondition is satisfiable")
        r = ns["intersect_triangle_segment"](*arrs, out)
        if case == "crossing":
            ok = and_(le(-EPS, u), le(u, 1 + EPS), le(-EPS, v), le(add(u, v), 1 + EPS), le(-EPS, t), le(t, 1 + EPS))
            c.prove(X.iff(not_(eq(r, 0)), ok) if X.is_e(r) else (ok if r else not_(ok)), "a hit is reported exactly when the crossing is in the triangle and in the segment, up to the tolerance")
            if not X.is_e(r) and r:
                c.prove(r == 1, "the flag of a hit")
                prove_eqs(c, list(out), comb(S, (t, d)), "the point reported is the crossing point")
        else: c.prove(eq(r, 0), "parallel segments and flat triangles are no hit")
        if not (not X.is_e(r) and r): c.prove(all(x is y for x, y in zip(out, junk)), "without a hit the result is left alone")
        for a, o in zip(arrs, old): c.prove(all(x is y for x, y in zip(a, o)), "inputs are unchanged")
    return Task(f"intersect_triangle_segment[{case}]", body, "all", setup=load)


def classes():
    def body(c, ns):
        P, V0, V1, V2 = (strict(vec(c, n, 3)) for n in ("P", "V0", "V1", "V2"))
        V = [V0, V1, V2]
        c.cover("precondition is satisfiable")
        which = c.choose(3, "helper")
        near = lambda x: and_(lt(-EPS, x), lt(x, EPS))
        if which == 0:
            r = ns["_point_equals"](P, V0)
            c.prove(X.iff(ne0(r), and_(*[near(sub(P[k], V0[k])) for k in range(3)])), "a point is at a vertex when it is within the tolerance on every axis")
        elif which == 1:
            r = ns["_point_on_edge"](P, V0, V1)
            e, w = minus(V1, V0), minus(P, V0)
            x = cross(w, e)
            want = and_(*[near(v) for v in x], le(-EPS, dot(w, e)), le(dot(w, e), add(dot(e, e), EPS)))
            c.prove(X.iff(ne0(r), want), "a point is on an edge when it is on its line, between its ends, up to the tolerance")
        else:
            at, on = [var(f"at{i}", "B") for i in range(3)], [var(f"on{i}", "B") for i in range(3)]
            idx = lambda a: [i for i in range(3) if a is V[i] or all(x is y for x, y in zip(a, V[i]))][0]
            def eqs(p, q):
                c.prove(all(x is y for x, y in zip(p, P)), "the point is looked at")
                return 1 if c.decide(at[idx(q)]) else 0
            def edge(p, a, b):
                c.prove(all(x is y for x, y in zip(p, P)), "the point is looked at")
                i, j = idx(a), idx(b)
                c.prove(i != j, "an edge joins two vertices")
                return 1 if c.decide(on[3 - i - j]) else 0
            saved = ns["_point_equals"], ns["_point_on_edge"]
            ns["_point_equals"], ns["_point_on_edge"] = eqs, edge
            try: r = ns["_classify_intersection"](P, V0, V1, V2)
            finally: ns["_point_equals"], ns["_point_on_edge"] = saved
            v, w = or_(*at), or_(*on)
            c.prove({2: v, 3: and_(not_(v), w), 1: and_(not_(v), not_(w))}.get(r, False), "2 at a vertex, 3 on an edge, 1 inside")
    return Task("classification", body, "all", setup=load)


def ne0(x): return x if getattr(x, "sort", None) == "B" else (not_(eq(x, 0)) if X.is_e(x) else bool(x))


def hit_of(V, S): return X.uf("triangle_is_hit", *V, *S, sort="B")
def point_of(V, S): return [X.uf(f"crossing{k}", *V, *S) for k in range(3)]
def class_of(P, V): return X.uf("class_of_point", *P, *V, sort="I")


def callee(V0, V1, V2, S, E, I):
    """contract of the single test: whether, and where, is a function of the triangle and the segment"""
    c = X.HOOK["ctx"]
    V, s = [a[k] for a in (V0, V1, V2) for k in range(3)], [a[k] for a in (S, E) for k in range(3)]
    if not c.decide(hit_of(V, s)): return 0
    for k, x in enumerate(point_of(V, s)): I[k] = x
    return 1


def classify(P, V0, V1, V2):
    c = X.HOOK["ctx"]
    r = class_of([P[k] for k in range(3)], [a[k] for a in (V0, V1, V2) for k in range(3)])
    c.assume(and_(le(1, r), le(r, 3)))
    return r


OVER = {(M, "_intersect_triangle_segment"): callee, (M, "_classify_intersection"): classify}


def row(e, r): return [e[n].load(r, (k,)) for n in ("V0", "V1", "V2") for k in range(3)]
def seg(e): return [e[n][k] for n in ("S", "E") for k in range(3)]


class All:
    """rows done so far hold their flag and, when hit, their point; other points are as they were"""
    ghost_index = "ixs"
    modifies = ("outs", "flags", "c_V0", "c_V1", "c_V2", "c_I")

    def inv(self, c, e, ph):
        r = c.ghost
        V, s = row(e, r), seg(e)
        h, P = hit_of(V, s), point_of(V, s)
        done = lt(r, e["ixs"])
        f = e["flags"].load(r)
        yield "flags of the rows done", implies(done, eq(f, X.ite(h, class_of(P, V), 0)))
        for k in range(3):
            o = e["outs"].load(r, (k,))
            yield "points of the rows done", implies(and_(done, h), eq(o, P[k]))
            yield "points without a hit are left alone", implies(or_(not_(done), not_(h)), eq(o, c.junk[k]))


class NotYet:
    ghost_index = "ixs"
    modifies = ("c_V0", "c_V1", "c_V2", "c_I")
    def inv(self, c, e, ph):
        yield "no row done so far is hit", implies(lt(c.ghost, e["ixs"]), not_(hit_of(row(e, c.ghost), seg(e))))


def many(fn, par):
    loops = {M: {fn: {0: All()}}}

    def body(c, ns):
        n = integer(c, "n")
        c.assume(le(1, n))
        ghost_row(c, n)
        V = [rows(c, f"V{i}", n, 3) for i in range(3)]
        S, E = strict(vec(c, "S", 3)), strict(vec(c, "E", 3))
        outs, flags = rows(c, "outs", n, 3), rows(c, "flags", n, None)
        c.junk = [outs.load(c.ghost, (k,)) for k in range(3)]
        c.cover("precondition is satisfiable")
        before = [list(x.store.arr.values()) for x in V]
        ns[fn](*V, S, E, outs, flags)
        e = {"V0": V[0], "V1": V[1], "V2": V[2], "S": S, "E": E}
        v, s = row(e, c.ghost), seg(e)
        h, P = hit_of(v, s), point_of(v, s)
        c.prove(eq(flags.load(c.ghost), X.ite(h, class_of(P, v), 0)), "every triangle has its flag, 0 without a hit")
        for k in range(3): c.prove(implies(h, eq(outs.load(c.ghost, (k,)), P[k])), "every triangle that is hit has its point")
        c.prove(all(x is y for a, b in zip(V, before) for x, y in zip(a.store.arr.values(), b)), "triangles are unchanged")
    return Task(f"{fn}[any number]", body, "any number of triangles", fallback=f"{fn} of", setup=lambda: load(loops, OVER))


def many_fixed(fn, n):
    def body(c, ns):
        V = [strict(mat(c, f"V{i}", n, 3)) for i in range(3)]
        S, E = strict(vec(c, "S", 3)), strict(vec(c, "E", 3))
        s = [S[k] for k in range(3)] + [E[k] for k in range(3)]
        rv = [[V[i][r, k] for i in range(3) for k in range(3)] for r in range(n)]
        c.cover("precondition is satisfiable")
        if fn == "intersect_triangles_segment_one":
            out = strict(rt.arr_of([var(f"junk{k}") for k in range(3)], (3,)))
            point, flag = ns[fn](*V, S, E, out)
            hs = [hit_of(v, s) for v in rv]
            if point is None: c.prove(and_(flag == 0, *[not_(h) for h in hs]), "no hit is reported only when no triangle is hit")
            else:
                c.prove(flag == 1, "the flag of a hit")
                c.prove(or_(*[and_(h, *[eq(point[k], p) for k, p in enumerate(point_of(v, s))], *[eq(out[k], p) for k, p in enumerate(point_of(v, s))]) for h, v in zip(hs, rv)]), "the point is that of a triangle that is hit")
        else:
            outs, flags = strict(mat(c, "outs", n, 3)), strict(rt.arr_of([var(f"f{i}", "I") for i in range(n)], (n,)))
            ns[fn](*V, S, E, outs, flags)
            for r, v in enumerate(rv):
                h, P = hit_of(v, s), point_of(v, s)
                c.prove(eq(flags[r], X.ite(h, class_of(P, v), 0)), "every triangle has its flag, 0 without a hit")
                for k in range(3): c.prove(implies(h, eq(outs[r, k], P[k])), "every triangle that is hit has its point")
    return Task(f"{fn} of {n}", body, f"{n} triangles", setup=lambda: load(None, OVER))


def first():
    fn = "intersect_triangles_segment_one"
    def body(c, ns):
        n = integer(c, "n")
        c.assume(le(1, n))
        ghost_row(c, n)
        V = [rows(c, f"V{i}", n, 3) for i in range(3)]
        S, E = strict(vec(c, "S", 3)), strict(vec(c, "E", 3))
        out = strict(rt.arr_of([var(f"junk{k}") for k in range(3)], (3,)))
        c.cover("precondition is satisfiable")
        c.tested = []
        point, flag = ns[fn](*V, S, E, out)
        e = {"V0": V[0], "V1": V[1], "V2": V[2], "S": S, "E": E}
        if point is None:
            c.prove(flag == 0, "the flag without a hit")
            c.prove(not_(hit_of(row(e, c.ghost), seg(e))), "no hit is reported only when no triangle is hit")
        else:
            c.prove(flag == 1, "the flag of a hit")
            v, s = c.tested[-1]
            c.prove(hit_of(v, s), "a hit is reported only of a triangle that is hit")
            for k, p in enumerate(point_of(v, s)): c.prove(and_(eq(point[k], p), eq(out[k], p)), "the point is the one of that triangle")
            c.prove(and_(*[eq(x, y) for x, y in zip(s, seg(e))]), "the segment is tested")
            i = c.at
            c.prove(and_(le(0, i), lt(i, n), *[eq(x, y) for x, y in zip(v, row(e, i))]), "the triangle is one of those given")

    def recording(*a):
        c = X.HOOK["ctx"]
        if hasattr(c, "tested"): c.tested.append(([x[k] for x in a[:3] for k in range(3)], [x[k] for x in a[3:5] for k in range(3)]))
        return callee(*a)

    class Spec(NotYet):
        def start(self, c, e): c.at = e["ixs"]
    return Task(f"{fn}[any number]", body, "any number of triangles", fallback=f"{fn} of", setup=lambda: load({M: {fn: {0: Spec()}}}, {**OVER, (M, "_intersect_triangle_segment"): recording}))


# ------------------------------------------------------------------ meshes
class Tri:
    def __init__(self, c, name, b):
        self.bounding_box = b
        self.pts = strict(mat(c, name, 3, 3))
        self.a, self.b, self.c = self.pts[0], self.pts[1], self.pts[2]
    def vals(self): return [self.pts[i, k] for i in range(3) for k in range(3)]


class Stack(Worklist):
    def __init__(self):
        self.extra = ("stack",)
        self.modifies = ("bb", "a", "b", "c")

    def havoc(self, c, v, old, env):
        if v == "stack":
            c.pend = c.choose(2, "pending")
            return Work(c, c.pend, c.make)
        return None

    def inv(self, c, e, ph):
        w = e["stack"]
        pend = w.pending + sum(1 for x in w.new if c.covers(x)) if isinstance(w, Work) else sum(1 for x in w if c.covers(x))
        if ph == "back":
            for x in w.new: yield "work goes down", c.goes_down(x)
        yield "a triangle that is hit is pending", X.implies(c.hit_g, pend >= 1)


def one(size):
    """size: triangles per leaf (0: single triangles as leaf objects)"""
    spec = Stack()
    if size < 2: spec.modifies = ("bb",)
    def setup(): return load_bvh({BVH: {"bvh_triangle_segment_intersection_one": {0: spec}}})

    def body(c, ns):
        g = Obj(box(c, ns, "g"))
        W = World(c, ns, g)
        tris = {}
        def leaf(o):
            """the triangle(s) of a leaf object"""
            if id(o) not in tris: tris[id(o)] = [Tri(c, f"tri{len(tris)}_{i}_", o.bounding_box) for i in range(size or 1)]
            return tris[id(o)]
        def furnish(o):
            ts = leaf(o)
            if size: o.objects = ts
            else: o.a, o.b, o.c, o.pts = ts[0].a, ts[0].b, ts[0].c, ts[0].pts
        furnish(g)
        S = strict(mat(c, "S", 2, 3))
        s = [S[i, k] for i in range(2) for k in range(3)]
        which = c.choose(size, "triangle") if size else 0
        c.hit_g = hit_of(leaf(g)[which].vals(), s)
        c.hit = var("segment_meets_box_of_g", "B")
        c.assume(implies(c.hit_g, c.hit))
        sg = Segs(c, ns, W, S)
        c.seen = []

        def seg_ok(st, en):
            k = [st[i] for i in range(3)] + [en[i] for i in range(3)]
            c.prove(all(x is y for x, y in zip(k, s)), "the triangles of a leaf are tested with the segment itself, which its box may clip to a point")
            return k
        def single(a, b, cc, st, en, out):
            v = [x[k] for x in (a, b, cc) for k in range(3)]
            k = seg_ok(st, en)
            c.seen.append(v)
            if not c.decide(hit_of(v, k)): return 0
            for i, x in enumerate(point_of(v, k)): out[i] = x
            return 1
        def several(a, b, cc, st, en, out):
            k = seg_ok(st, en)
            for r in range(a.shape[0]):
                v = [x[r, i] for x in (a, b, cc) for i in range(3)]
                c.seen.append(v)
                if c.decide(hit_of(v, k)):
                    for i, x in enumerate(point_of(v, k)): out[i] = x
                    return out, 1
            return None, 0
        ns["intersect_triangle_segment"], ns["intersect_triangles_segment_one"] = single, several
        c.cover("precondition is satisfiable")

        def make(pending):
            mine = pending and c.choose(2, "ghost is next") == 1
            n = c.popped = W.node(bool(mine))
            if n.object is not None and n.object is not g: furnish(n.object)
            return (n, S), mine
        c.make = make
        c.covers = lambda p: W.below[id(p[0])]
        def down(p):
            c.prove(p[0] is c.popped.left or p[0] is c.popped.right, "the search goes down")
            k = sg.key(p[1])
            if not all(x is y for x, y in zip(k, s)): sg.usable(k, p[0].bounding_box)
            return True
        c.goes_down = down
        root = W.stub(True, Top(c, ns))
        root.max_objects_in_leaf = size or 1
        found, point, obj = ns["bvh_triangle_segment_intersection_one"](root, S)
        if not found:
            c.prove(point is None and obj is None, "nothing is reported without a hit")
            c.prove(not_(c.hit_g), "no hit is reported only when no triangle is hit")
        else:
            c.prove(obj is c.popped.object, "a hit comes with the object of its leaf")
            ts = leaf(obj)
            c.prove(or_(*[and_(hit_of(t.vals(), s), *[eq(point[k], p) for k, p in enumerate(point_of(t.vals(), s))]) for t in ts]), "the point is where the segment hits a triangle of the leaf")
    return Task(f"bvh_triangle_segment_intersection_one[{size or 'one'} per leaf]", keep(body), f"any tree, {size} triangles per leaf" if size else "any tree", setup=setup)


def one_wrapped():
    def body(c, ns):
        got = []
        hit = bool(c.choose(2, "hit"))
        ns["bvh_triangle_segment_intersection_one"] = lambda m, s: (got.append((m, s)) or ((True, "point", "triangle") if hit else (False, None, None)))
        r = ns["mesh_bvh_segment_intersection_one"]("mesh", "segment")
        c.cover("precondition is satisfiable")
        c.prove(got == [("mesh", "segment")] and r == (("point", "triangle") if hit else None), "the first hit as a pair, or nothing")
    return Task("mesh_bvh_segment_intersection_one", keep(body), "all", setup=load_bvh)


def rays(sizes):
    """sizes: triangles in the leaves whose boxes the ray meets (0: a leaf that is a triangle)"""
    def body(c, ns):
        Compound = ns["CompoundObject3D"]
        root = ns["BVHNode"](box(c, ns, "root"))
        class R: pass
        ray = R()
        ray._arr = strict(mat(c, "ray", 2, 3))
        ray.start = ray._arr[0]
        objs, tris = [], []
        for i, n in enumerate(sizes):
            ts = [Tri(c, f"tri{i}_{j}_", None) for j in range(n or 1)]
            tris += ts
            if n:
                o = Compound.__new__(Compound)
                o.objects = ts
            else: o = ts[0]
            objs.append(o)
        met = bool(c.choose(2, "met"))
        def clip(arr, seg, out):
            c.prove(seg is ray._arr, "the ray is clipped")
            for k in range(3): c.prove(and_(lt(arr[0, k], root.bounding_box.min_point[k]), lt(root.bounding_box.max_point[k], arr[1, k])), "the ray is clipped by a box with the root's box in its interior, so that it does not shrink to a point")
            if not met: return None
            for i in range(2):
                for k in range(3): out[i, k] = X.fresh("clipped")
            c.piece = [out[i, k] for i in range(2) for k in range(3)]
            return out
        def query(n, s):
            c.prove(n is root and all(s[i, k] is c.piece[3 * i + k] for i in range(2) for k in range(3)), "the clipped ray is searched for in the tree")
            return [(o, s) for o in objs]
        def single(a, b, cc, st, en, out):
            v, k = [x[i] for x in (a, b, cc) for i in range(3)], [st[i] for i in range(3)] + [en[i] for i in range(3)]
            c.prove(all(x is y for x, y in zip(k, c.piece)), "the clipped ray is tested")
            if not c.decide(hit_of(v, k)): return 0
            for i, x in enumerate(point_of(v, k)): out[i] = x
            return 1
        unit = [X.fresh("unit") for _ in range(3)]
        def scalar_unit(v):
            prove_eqs(c, [v[k] for k in range(3)], [sub(c.piece[3 + k], c.piece[k]) for k in range(3)], "the direction is the ray's")
            return rt.arr_of(list(unit), (3,))
        ns.update(segment_aabb_clip=clip, bvh_segment_intersection=query, intersect_triangle_segment=single, scalar_unit=scalar_unit, scalar_dot=lambda a, b: dot([a[k] for k in range(3)], [b[k] for k in range(3)]))
        c.cover("precondition is satisfiable")
        r = ns["mesh_bvh_ray_intersection"](root, ray)
        if not met: return c.prove(len(r) == 0, "no hit outside the box of the mesh")
        for t in tris:
            k = sum(1 for x in r if x[1] is t)
            h = hit_of(t.vals(), c.piece)
            c.prove(X.iff(k == 1, h), "a triangle is reported exactly when the ray hits it")
            c.prove(k <= 1, "a triangle is reported once")
        for p, t, dist in r:
            prove_eqs(c, [p[k] for k in range(3)], point_of(t.vals(), c.piece), "with the point of the hit")
            c.prove(eq(dist, dot(minus([p[k] for k in range(3)], ray.start), unit)), "with its distance along the ray")
        for a, b in zip(r, r[1:]): c.prove(le(a[2], b[2]), "hits are sorted by distance")
    return Task(f"mesh_bvh_ray_intersection{list(sizes)}", keep(body), "leaves met: " + ", ".join(map(str, sizes)), setup=load_bvh)


def segments():
    def body(c, ns):
        p, q = strict(vec(c, "p", 3)), strict(vec(c, "q", 3))
        t, x, y = real(c, "t"), real(c, "x"), real(c, "y")
        def hull(a):
            r = strict(rt.arr_of([least_(a, k, X.min_) for k in range(3)] + [least_(a, k, X.max_) for k in range(3)], (2, 3)))
            return r
        ns["aabb"] = hull
        c.cover("precondition is satisfiable")
        s = ns["Segment"](p, q)
        at = lambda z: [add(p[k], mul(sub(q[k], p[k]), z)) for k in range(3)]
        prove_eqs(c, list(s.start) + list(s.end), list(p) + list(q), "a segment knows its ends")
        prove_eqs(c, list(s.evaluate(t)), at(t), "points of a segment")
        prove_eqs(c, list(s.bounding_box.min_point), [X.min_(p[k], q[k]) for k in range(3)], "the box of a segment")
        prove_eqs(c, list(s.bounding_box.max_point), [X.max_(p[k], q[k]) for k in range(3)], "the box of a segment")
        a, b = s.subdivide(t)
        prove_eqs(c, list(a.start) + list(a.end) + list(b.start) + list(b.end), list(p) + at(t) + at(t) + list(q), "the two parts of a segment")
        B = box(c, ns, "box")
        got = []
        def inter(arr, sarr):
            got.append(1)
            c.prove(arr is B._arr and all(u is v for u, v in zip([sarr[i, k] for i in range(2) for k in range(3)], list(s.start) + list(s.end))), "the box and the segment are tested")
            return [x, y] if c.choose(2, "hit") else None
        ns["segment_aabb_intersect"] = inter
        r = s.clip(B)
        c.prove(len(got) == 1, "one test")
        if r is not None: prove_eqs(c, list(r.start) + list(r.end), at(x) + at(y), "the clipped segment has the points at the ends of the interval")
        T = ns["Triangle"](strict(rt.arr_of(list(p) + list(q) + at(t), (3, 3))))
        prove_eqs(c, list(T.a) + list(T.b) + list(T.c), list(p) + list(q) + at(t), "a triangle knows its corners")
        prove_eqs(c, corners(T.bounding_box)[:3], [X.min_(X.min_(p[k], q[k]), at(t)[k]) for k in range(3)], "the box of a triangle")
    return Task("segments and triangles", keep(body), "all", setup=load_bvh)


def least_(a, k, f):
    r = a[0, k]
    for i in range(1, a.shape[0]): r = f(r, a[i, k])
    return r


TASKS = [single("crossing"), single("parallel"), classes()] + [many(f, f.endswith("parallel")) for f in ("intersect_triangles_segment", "intersect_triangles_segment_parallel")] + [first()] + \
        [many_fixed(f, 2) for f in ("intersect_triangles_segment", "intersect_triangles_segment_parallel", "intersect_triangles_segment_one")] + \
        [one(0), one(2), one(3), one_wrapped(), rays((0, 0)), rays((2,)), rays((1, 0)), segments()]
