"""Box hierarchies.  A node is known by its box, its depth and whether the ghost object g lies below it (then its box contains g's);
recursive calls go by contract, and the worklist loops carry the invariant that g is pending in exactly one entry or already
reported.  Trees of any shape and size; building one for any number of objects over the contract of the split, which is proved
for 2 to 5 objects."""
from .lib import *
from cyvc.sym import PathEnd
from .c15 import truth

LEVEL = "proof"
M = "mmcore.geom.bvh"
FUNCTIONS = [f"{M}:{f}" for f in ("BoundingBox.__init__", "BoundingBox.split", "BoundingBox.split4", "BoundingBox.split8", "BoundingBox.evaluate", "BoundingBox.centroid", "BoundingBox.volume", "BoundingBox.intersect", "BoundingBox.intersect_disjoint",
             "BoundingBox.intersection", "BoundingBox.merge", "BoundingBox.expand", "BoundingBox.contains_point", "BoundingBox.contains_points", "BoundingBox.get_corners", "BoundingBox.get_edges", "BoundingBox.get_faces", "get_aabb_corners_numpy",
             "CompoundObject3D.__init__", "split_objects", "build_bvh", "is_leaf", "traverse_bvh", "contains_point", "traverse_bvh_point", "traverse_leafs", "traverse_all_objects_in_node", "traverse_all_bbox", "intersect_bvh_objects", "intersect_bvh",
             "bvh_segment_intersection", "bvh_segment_intersection_recursive", "bvh_ray_intersection", "sdBox", "sd_aabb")]
ASSUMPTIONS = ["boxes are valid (low corner not above the high corner) and three-dimensional", "trees are finite: leaves hold an object and no children, inner nodes hold two children and no object",
               "aabb_intersect and the clip of a segment by their contracts (C15, C16)"]
TRUSTED = ["list.sort only reorders"]


def load(loops=None):
    ns = prog((M,), loopspecs=loops).load(M)
    ns["min"], ns["max"] = least, greatest
    return ns


def fold(f):
    def g(*xs, **k):
        xs = list(xs[0]) if len(xs) == 1 else list(xs)
        r = xs[0]
        for x in xs[1:]: r = f(r, x)
        return r
    return g
least, greatest = fold(X.min_), fold(X.max_)


def columns(f):
    def g(a, axis=None, **k):
        a = rt.conv_arr(a)
        if axis == 0: return rt.arr_of([f([a[i, j] for i in range(a.shape[0])]) for j in range(a.shape[1])], (a.shape[1],))
        return f(list(a.reshape(-1)))
    return g


def keep(body):
    """what a path replaces (callees by their contracts) is put back at its end; minima and maxima are terms, not case splits"""
    def run(c, ns):
        saved, cls = dict(ns), {n: dict(vars(ns[n])) for n in ("BoundingBox", "BVHNode")}
        rt.NPC.min, rt.NPC.max = columns(least), columns(greatest)
        try: body(c, ns)
        finally:
            for k in ("min", "max", "argmax", "linalg"):
                if k in vars(rt.NPC): delattr(rt.NPC, k)
            ns.clear(); ns.update(saved)
            for n, d in cls.items():
                for k, v in d.items():
                    if callable(v) and vars(ns[n])[k] is not v: setattr(ns[n], k, v)
    return run


def box(c, ns, name, valid=True):
    lo, hi = strict(vec(c, name + "_lo", 3)), strict(vec(c, name + "_hi", 3))
    if valid:
        for k in range(3): c.assume(le(lo[k], hi[k]))
    return ns["BoundingBox"](lo, hi)


def inside(a, b): return and_(*[and_(le(b.min_point[k], a.min_point[k]), le(a.max_point[k], b.max_point[k])) for k in range(3)])
def meets(a, b): return and_(*[and_(le(a.min_point[k], b.max_point[k]), le(b.min_point[k], a.max_point[k])) for k in range(3)])
def member(b, q): return and_(*[and_(le(b.min_point[k], q[k]), le(q[k], b.max_point[k])) for k in range(3)])
def corners(b): return [b.min_point[k] for k in range(3)] + [b.max_point[k] for k in range(3)]


def fresh_state(c, b, what):
    """the derived fields are those of the corners"""
    for k in range(3):
        c.prove(eq(b.center[k], div(add(b.min_point[k], b.max_point[k]), 2)), what + ": centre")
        c.prove(eq(b.dims[k], sub(b.max_point[k], b.min_point[k])), what + ": sides")
        c.prove(and_(eq(b._arr[0, k], b.min_point[k]), eq(b._arr[1, k], b.max_point[k])), what + ": corners as an array")


def holds(c, x): return c.decide(x) if X.is_e(x) else bool(x)


def boxes():
    def body(c, ns):
        a, b = box(c, ns, "a"), box(c, ns, "b")
        q = strict(vec(c, "q", 3))
        c.cover("precondition is satisfiable")
        old = corners(a) + corners(b)
        which = c.choose(8, "operation")
        if which == 0:
            r = truth(c, a.intersect(b))
            c.prove(meets(a, b) if r else not_(meets(a, b)), "boxes intersect exactly when they share a point")
        elif which == 1:
            r = holds(c, a.contains_point(q))
            c.prove(member(a, q) if r else not_(member(a, q)), "membership of a point")
        elif which == 2:
            r = a & b if c.choose(2, "spelling") else a.intersection(b)
            both = and_(member(a, q), member(b, q))
            if r is None: c.prove(not_(both), "no intersection only without a common point")
            else:
                c.prove(X.iff(member(r, q), both), "the intersection holds exactly the common points")
                fresh_state(c, r, "intersection")
        elif which == 3:
            r = a | b if c.choose(2, "spelling") else a.merge(b)
            c.prove(and_(inside(a, r), inside(b, r)), "the merged box contains both")
            for k in range(3): c.prove(and_(or_(eq(r.min_point[k], a.min_point[k]), eq(r.min_point[k], b.min_point[k])), or_(eq(r.max_point[k], a.max_point[k]), eq(r.max_point[k], b.max_point[k]))), "the merged box is the least one")
            fresh_state(c, r, "merge")
        elif which == 4:
            a.expand(b)
            for k in range(3):
                c.prove(eq(a.min_point[k], X.min_(old[k], old[k + 6])), "expanding gives the merged box")
                c.prove(eq(a.max_point[k], X.max_(old[k + 3], old[k + 9])), "expanding gives the merged box")
            fresh_state(c, a, "expand")
            prove_eqs(c, corners(b), old[6:], "the other box is unchanged")
            return
        elif which == 5:
            for k in range(3):
                c.prove(eq(a.centroid()[k], div(add(old[k], old[k + 3]), 2)), "centroid")
                c.prove(eq(a.evaluate(q)[k], add(old[k], mul(q[k], sub(old[k + 3], old[k])))), "evaluate maps the unit cube onto the box")
            s = [sub(old[k + 3], old[k]) for k in range(3)]
            c.prove(eq(a.volume(), mul(mul(s[0], s[1]), s[2])), "volume")
            fresh_state(c, a, "new box")
        elif which == 6:
            r = holds(c, a.intersect_disjoint(b))
            m = and_(*[and_(lt(a.min_point[k], b.max_point[k]), lt(b.min_point[k], a.max_point[k])) for k in range(3)])
            c.prove(m if r else not_(m), "boxes overlap in more than a face")
        else:
            p = strict(vec(c, "p", 3))
            r = a.contains_points(strict(rt.arr_of(list(p) + list(q), (2, 3))))
            for x, z in ((r[0], p), (r[1], q)): c.prove(X.iff(x, member(a, z)), "membership of points")
        prove_eqs(c, corners(a) + corners(b), old, "operands are unchanged")
    return Task("boxes", keep(body), "all", setup=load)


def splits(kind):
    def body(c, ns):
        a = box(c, ns, "a")
        q = strict(vec(c, "q", 3))
        ps = [real(c, f"t{i}") for i in range(3)]
        for p in ps: c.assume(and_(le(0, p), le(p, 1)))
        c.cover("precondition is satisfiable")
        old = corners(a)
        if kind == 2: axes = [c.choose(3, "axis")]; parts = a.split(axes[0], ps[0])
        elif kind == 4: axes = [(0, 1), (1, 2), (2, 0)][c.choose(3, "axes")]; parts = a.split4(axes[0], axes[1], ps[0], ps[1])
        else: axes = (0, 1, 2); parts = a.split8(0, 1, 2, *ps)
        c.prove(len(parts) == kind, "number of parts")
        m = [member(b, q) for b in parts]
        c.prove(X.iff(or_(*m), member(a, q)), "the parts together are the box")
        for b in parts:
            fresh_state(c, b, "part")
            for k in range(3): c.prove(le(b.min_point[k], b.max_point[k]), "parts are valid")
            c.prove(b.min_point is not a.min_point and b.max_point is not a.max_point, "parts share no corners with the box")
        for i in range(kind):
            for j in range(i):
                c.prove(or_(*[or_(le(parts[i].max_point[k], parts[j].min_point[k]), le(parts[j].max_point[k], parts[i].min_point[k])) for k in axes]), "parts overlap in faces at most")
        if kind == 2:
            k = axes[0]
            c.prove(eq(parts[0].max_point[k], add(old[k], mul(ps[0], sub(old[k + 3], old[k])))), "the cut is at the parameter")
        prove_eqs(c, corners(a), old, "the box is unchanged")
    return Task(f"split[{kind}]", keep(body), "all", setup=load)


def frame():
    """corners, edges, faces"""
    def body(c, ns):
        a = box(c, ns, "a")
        for k in range(3): c.assume(lt(a.min_point[k], a.max_point[k]))
        c.cover("precondition is satisfiable")
        cs = a.get_corners()
        c.prove(tuple(cs.shape) == (8, 3), "eight corners")
        bits = []
        for r in range(8):
            b = []
            for k in range(3):
                b.append(holds(c, eq(cs[r, k], a.max_point[k])))
                c.prove(or_(eq(cs[r, k], a.min_point[k]), eq(cs[r, k], a.max_point[k])), "corners are corners")
            bits.append(tuple(b))
        c.prove(len(set(bits)) == 8, "every corner once")
        def name(p): return tuple(holds(c, eq(p[k], a.max_point[k])) for k in range(3))
        es = {frozenset((name(e[0]), name(e[1]))) for e in a.get_edges()}
        want = {frozenset((x, y)) for x in bits for y in bits if sum(i != j for i, j in zip(x, y)) == 1}
        c.prove(len(a.get_edges()) == 12 and es == want, "the edges are the twelve edges")
        fs = [[name(p) for p in f] for f in a.get_faces()]
        c.prove(len(fs) == 6 and all(sum(i != j for i, j in zip(f[k], f[k - 1])) == 1 for f in fs for k in range(4)), "faces go around by edges")
        c.prove({frozenset(f) for f in fs} == {frozenset(x for x in bits if x[k] == v) for k in range(3) for v in (False, True)}, "the faces are the six faces")
    return Task("frame of a box", keep(body), "all", setup=load)


class Obj:
    """an object of the hierarchy"""
    def __init__(self, b): self.bounding_box = b


class Objs(list):
    def sort(self, key=None, reverse=False):
        """list.sort by its contract; the objects are arbitrary, so any one order stands for all of them"""
        for x in self: key(x)


def halves(n):
    def body(c, ns):
        obs = [Obj(box(c, ns, f"b{i}")) for i in range(n)]
        rt.NPC.argmax = lambda a, *r: c.choose(3, "axis")
        c.cover("precondition is satisfiable")
        l, r = ns["split_objects"](Objs(obs))
        c.prove(len(l) >= 1 and len(r) >= 1, "no half is empty")
        c.prove(len(l) + len(r) == n and all(any(x is y for y in list(l) + list(r)) for x in obs), "every object is in exactly one half")
    return Task(f"split_objects[{n}]", keep(body), f"{n} objects", setup=load)


def compound(n):
    def body(c, ns):
        obs = [ns["Object3D"](box(c, ns, f"b{i}")) for i in range(n)]
        c.cover("precondition is satisfiable")
        def hull(a):
            """aabb by its contract (C15)"""
            r = strict(rt.arr_of([X.fresh("hull") for _ in range(6)], (2, 3)))
            for k in range(3):
                col = [a[i, k] for i in range(a.shape[0])]
                for x in col: c.assume(and_(le(r[0, k], x), le(x, r[1, k])))
                for s in (0, 1): c.assume(or_(*[eq(r[s, k], x) for x in col]))
            return r
        ns["aabb"] = hull
        r = ns["CompoundObject3D"](obs)
        c.prove(len(r.objects) == n and all(x is y for x, y in zip(r.objects, obs)), "a compound holds its objects")
        for o in obs: c.prove(inside(o.bounding_box, r.bounding_box), "a compound's box contains its objects' boxes")
        for k in range(3):
            c.prove(or_(*[eq(r.bounding_box.min_point[k], o.bounding_box.min_point[k]) for o in obs]), "a compound's box is the least one")
            c.prove(or_(*[eq(r.bounding_box.max_point[k], o.bounding_box.max_point[k]) for o in obs]), "a compound's box is the least one")
    return Task(f"compound[{n}]", keep(body), f"{n} objects", setup=load)


class Many:
    """a list of n objects (n symbolic); has: whether the ghost object is one of them"""
    def __init__(self, c, ns, n, has): self.c, self.ns, self.n, self.has = c, ns, n, has
    def _cyvc_len(self): return self.n
    def __len__(self): raise X.Unsupported("length of an abstract list")
    def __iter__(self): raise X.Unsupported("iteration over an abstract list")
    def __getitem__(self, i):
        self.c.prove(and_(le(0, i), lt(i, self.n)), "an object of the list is taken")
        if not holds(self.c, eq(self.n, 1)): raise X.Unsupported("an object of a longer list")
        return self.c.g if self.has else self.c.other


def build(leaf1):
    """any number of objects: the ghost object g is held by exactly one leaf below the root if it was given, and the root's box contains its box"""
    def body(c, ns):
        n, k = integer(c, "n"), integer(c, "objects_in_leaf")
        c.assume(lt(0, n))
        c.assume(eq(k, 1) if leaf1 else le(2, k))
        g = c.g = Obj(box(c, ns, "g"))
        c.other = Obj(box(c, ns, "other"))
        has = bool(c.choose(2, "g is given"))
        objs = Many(c, ns, n, has)
        c.cover("precondition is satisfiable")

        def compound(o):
            c.prove(o is objs, "a compound is made of the objects given")
            c.prove(le(o.n, k), "a leaf holds no more objects than allowed")
            r = Obj(box(c, ns, "compound"))
            r.has = o.has
            if o.has: c.assume(inside(g.bounding_box, r.bounding_box))
            return r

        def split(o):
            c.prove(o is objs and lt(1, o.n) is not False, "the objects given are split")
            c.prove(lt(1, o.n), "two objects at least are split")
            m = X.fresh("half", "I")
            c.assume(and_(lt(0, m), lt(m, o.n)))
            left = o.has and bool(c.choose(2, "half of g"))
            c.halves = [Many(c, ns, m, left), Many(c, ns, sub(o.n, m), o.has and not left)]
            return tuple(c.halves)
        subs = []

        def rec(o, objects_in_leaf=1):
            c.prove(lt(o.n, n), "recursion is on fewer objects")
            c.prove(lt(0, o.n), "recursion is on some objects")
            c.prove(eq(objects_in_leaf, k), "the leaf size is handed down")
            node = ns["BVHNode"](box(c, ns, f"sub{len(subs)}"))
            if o.has: c.assume(inside(g.bounding_box, node.bounding_box))
            subs.append((o, node))
            return node
        real_build = ns["build_bvh"]
        ns.update(CompoundObject3D=compound, split_objects=split, build_bvh=rec)
        r = real_build(objs, k) if c.choose(2, "spelling") or not leaf1 else real_build(objs)
        c.prove(eq(r.max_objects_in_leaf, k), "nodes know the leaf size")
        if r.object is not None:
            c.prove(r.left is None and r.right is None, "leaves have no children")
            c.prove(r.bounding_box is r.object.bounding_box or inside(r.object.bounding_box, r.bounding_box), "a leaf's box contains its object's")
            c.prove((r.object is g) == has and (r.object is g or r.object is c.other) if leaf1 else getattr(r.object, "has", None) == has, "the leaf holds the objects given")
            c.prove(le(n, k), "no leaf holds more objects than allowed")
        else:
            c.prove(len(subs) == 2 and {id(o) for o, _ in subs} == {id(o) for o in c.halves}, "a subtree is built for each half")
            c.prove({id(r.left), id(r.right)} == {id(x) for _, x in subs}, "both subtrees are below the node")
            for x in (r.left, r.right): c.prove(inside(x.bounding_box, r.bounding_box), "a node's box contains its children's boxes")
            for d in range(3):
                c.prove(or_(*[eq(r.bounding_box.min_point[d], x.bounding_box.min_point[d]) for x in (r.left, r.right)]), "a node's box is the least one")
                c.prove(or_(*[eq(r.bounding_box.max_point[d], x.bounding_box.max_point[d]) for x in (r.left, r.right)]), "a node's box is the least one")
        if has: c.prove(inside(g.bounding_box, r.bounding_box), "the root's box contains every object's box")
    return Task(f"build[{'one object' if leaf1 else 'several objects'} per leaf]", keep(body), "any number of objects", setup=load)


class World:
    """nodes of an arbitrary tree, known through the ghost object g"""
    def __init__(self, c, ns, g): self.c, self.ns, self.g, self.n, self.below, self.known, self.up = c, ns, g, 0, {}, [], {}

    def node(self, below, leaf=None, parent=None):
        """an arbitrary node; children are made when it is an inner one"""
        c, ns = self.c, self.ns
        self.n += 1
        b = box(c, ns, f"n{self.n}_")
        if leaf is None: leaf = bool(c.choose(2, "leaf"))
        if leaf:
            r = ns["BVHNode"](self.g.bounding_box if below else b, object=self.g if below else Obj(b))
        else:
            r = ns["BVHNode"](b)
            if below: c.assume(inside(self.g.bounding_box, b))
            side = c.choose(2, "side of g") if below else None
            r.left, r.right = (self.stub(below and side == i, r) for i in range(2))
        self.put(r, below)
        return r

    def stub(self, below, parent):
        """a subtree nothing else is known about"""
        self.n += 1
        b = box(self.c, self.ns, f"s{self.n}_")
        if below: self.c.assume(inside(self.g.bounding_box, b))
        self.c.assume(inside(b, parent.bounding_box))
        r = self.ns["BVHNode"](b)
        self.put(r, below)
        self.up[id(r)] = parent
        return r

    def put(self, r, below): self.below[id(r)] = bool(below); self.known.append(r)


def ghost(c, ns): return Obj(box(c, ns, "g"))


def recursion(name, run, check):
    """one level of a recursive traversal; calls on children by contract: the ghost object is added exactly once when it is below and passes the test"""
    def body(c, ns):
        g = ghost(c, ns)
        W = World(c, ns, g)
        below = bool(c.choose(2, "g below"))
        root = W.node(below)
        c.cover("precondition is satisfiable")
        real_f = ns[name]
        res = ["before"]
        calls = []
        run(c, ns, W, root, g, real_f, res, calls, below)
    return Task(name, keep(body), "any tree", setup=load)


def traverse(c, ns, W, root, g, real_f, res, calls, below):
    q = box(c, ns, "target")
    def rec(n, t, r):
        c.prove(t is q and r is res, "target and results are handed down")
        c.prove(n is root.left or n is root.right, "traversal goes down")
        calls.append(n)
        if W.below[id(n)] and c.decide(meets(g.bounding_box, q)): r.append(g)
    ns["traverse_bvh"] = rec
    real_f(root, q, res)
    c.prove(res[0] == "before", "earlier results are kept")
    c.prove(len(calls) == len({id(x) for x in calls}), "no subtree is searched twice")
    k = sum(1 for x in res if x is g)
    c.prove(X.iff(k == 1, meets(g.bounding_box, q)) if below else k == 0, "an object is found exactly when its box meets the target")
    c.prove(k <= 1, "an object is found once")
    for x in res[1:]:
        if x is not g: c.prove(x is root.object and meets(x.bounding_box, q) is not False, "only objects of the tree are found"); c.prove(meets(x.bounding_box, q), "only objects whose box meets the target are found")


def leafs(c, ns, W, root, g, real_f, res, calls, below):
    def rec(n, r):
        c.prove(r is res and (n is root.left or n is root.right), "traversal goes down")
        calls.append(n)
        if W.below[id(n)]: r.append(g)
    ns["traverse_leafs"] = ns["traverse_all_objects_in_node"] = rec
    real_f(root, res)
    c.prove(res[0] == "before" and sum(1 for x in res if x is g) == int(below), "every object of the tree is listed once")
    c.prove(len(calls) == (0 if root.object is not None else 2) and all(x is g or x is root.object for x in res[1:]), "nothing else is listed")


def boxlist(c, ns, W, root, g, real_f, res, calls, below):
    def rec(n, r):
        c.prove(r is res and (n is root.left or n is root.right), "traversal goes down")
        calls.append(n); r.append(("box of", n))
    ns["traverse_all_bbox"] = rec
    real_f(root, res)
    mine = [x for x in res if isinstance(x, (list, tuple)) and x[0] != "box of"]
    c.prove(len(mine) == 1 and len(calls) == (0 if root.object is not None else 2) and len(res) == 2 + len(calls), "every box of the tree is listed once")
    prove_eqs(c, list(mine[0][0]) + list(mine[0][1]), corners(root.bounding_box), "the box of a node is listed")


def pointwise(c, ns, W, root, g, real_f, res, calls, below):
    q = strict(vec(c, "q", 3))
    def rec(n, p):
        c.prove(p is q and (n is root.left or n is root.right), "traversal goes down")
        if not c.decide(member(n.bounding_box, q)): return None
        r = ns["BVHNode"](box(c, ns, f"deep{len(calls)}_"))
        calls.append((n, r, W.below[id(n)]))
        return r
    ns["traverse_bvh_point"] = rec
    r = real_f(root, q)
    if r is None: return c.prove(not_(member(root.bounding_box, q)), "no node is found only when the point is outside the box")
    c.prove(member(root.bounding_box, q), "a node is found only when the point is in the box")
    ok = r is root and below or any(r is y and b for _, y, b in calls)
    if below: c.prove(implies(member(g.bounding_box, q), ok), "every object whose box contains the point is below the node found")
    c.prove(r is root or any(r is y for _, y, _ in calls), "a node of the tree is found")


def point_query():
    def body(c, ns):
        q = strict(vec(c, "q", 3))
        seen = []
        def rec(n, t, r): seen.append((n, t)); r.append("found")
        ns["traverse_bvh"] = rec
        r = ns["contains_point"]("root", q)
        c.prove(r == ["found"] and len(seen) == 1 and seen[0][0] == "root", "the tree is searched once")
        prove_eqs(c, corners(seen[0][1]), list(q) + list(q), "the target is the point")
    return Task("contains_point", keep(body), "all", setup=load)


class Work(list):
    """a worklist: entries unknown but for whether the ghost is pending in one of them; then what this iteration pushed"""
    def __init__(self, c, pending, make): super().__init__(); self.c, self.pending, self.make, self.new, self.asked = c, pending, make, [], False
    def __bool__(self):
        if self.new or self.pending: return True
        self.asked = True
        return bool(self.c.choose(2, "more work"))
    def _cyvc_len(self): return 1 if bool(self) else 0
    def pop(self, i=-1):
        if self.new: return self.new.pop(i)
        r, mine = self.make(self.pending)
        if mine: self.pending = 0
        return r
    def append(self, x): self.new.append(x)
    def extend(self, xs): self.new.extend(xs)


class Found(list):
    """results: unknown but for whether the ghost was reported"""
    def __init__(self, done): super().__init__(); self.done, self.new = done, []
    def append(self, x): self.new.append(x)


class Worklist:
    extra = ("stack", "intersections", "OUT")
    stack, found = "stack", "intersections"

    def __init__(self): self.extra = (self.stack, self.found)

    def havoc(self, c, v, old, env):
        if v == self.stack:
            c.pend = c.choose(2, "pending")
            return Work(c, c.pend, c.make)
        if v == self.found:
            done = 0 if c.pend else c.choose(2, "reported")
            return Found(done)
        return c.free(v, old) if hasattr(c, "free") else NotImplemented

    def inv(self, c, e, ph):
        w, f = e[self.stack], e[self.found]
        if isinstance(w, Work):
            pend = w.pending + sum(1 for x in w.new if c.covers(x))
            done = f.done + sum(1 for x in f.new if c.reports(x))
        else:
            pend, done = sum(1 for x in w if c.covers(x)), sum(1 for x in f if c.reports(x))
        if ph == "back":
            for x in w.new: yield "work goes down", c.goes_down(x)
            for x in f.new: yield "results", c.sound(x)
        yield "the ghost is pending or reported once", X.and_(pend + done <= 1, X.implies(c.hit, pend + done == 1), X.implies(done == 1, c.hit))


def pairs():
    spec = Worklist()
    def setup(): return load({M: {"intersect_bvh_objects": {0: spec}}})

    def body(c, ns):
        g1, g2 = Obj(box(c, ns, "g")), Obj(box(c, ns, "h"))
        W1, W2 = World(c, ns, g1), World(c, ns, g2)
        c.hit = meets(g1.bounding_box, g2.bounding_box)
        c.cover("precondition is satisfiable")

        def make(pending):
            mine = pending and c.choose(2, "ghost is next") == 1
            k = (True, True) if mine else [(True, False), (False, True), (False, False)][c.choose(3, "kind")]
            c.popped = W1.node(k[0]), W2.node(k[1])
            return c.popped, mine
        c.make = make
        c.covers = lambda p: W1.below[id(p[0])] and W2.below[id(p[1])]
        c.reports = lambda p: p[0].object is g1 and p[1].object is g2
        def down(x):
            n, d = c.popped, []
            for i in (0, 1):
                if x[i] is n[i]: d.append(0)
                elif x[i] is n[i].left or x[i] is n[i].right: d.append(1)
                else: return False
            return sum(d) > 0
        c.goes_down = down
        c.sound = lambda p: and_(p[0].object is not None and p[1].object is not None, meets(p[0].bounding_box, p[1].bounding_box))
        c.popped = None
        r1, r2 = W1.stub(True, Top(c, ns)), W2.stub(True, Top(c, ns))
        r = ns["intersect_bvh_objects"](r1, r2)
        c.prove(isinstance(r, Found) and not r.new, "the results collected are returned")
        c.prove(X.iff(r.done == 1, c.hit), "a pair of objects is reported exactly when their boxes meet")
    return Task("intersect_bvh_objects", keep(body), "any two trees", setup=setup)


class Top:
    def __init__(self, c, ns): self.bounding_box = box(c, ns, "top", False)


def merged():
    def body(c, ns):
        a, b = [ns["BVHNode"](box(c, ns, f"a{i}_")) for i in range(2)], [ns["BVHNode"](box(c, ns, f"b{i}_")) for i in range(2)]
        for x, y in zip(a, b): c.assume(meets(x.bounding_box, y.bounding_box))
        ns["intersect_bvh_objects"] = lambda p, q: list(zip(a, b)) if (p, q) == ("one", "two") else None
        c.cover("precondition is satisfiable")
        r = ns["intersect_bvh"]("one", "two")
        c.prove(len(r) == 2 and all(x is not None for x in r), "a box for every pair")
        for x, p, q in zip(r, a, b):
            prove_eqs(c, corners(x), [X.max_(p.bounding_box.min_point[k], q.bounding_box.min_point[k]) for k in range(3)] + [X.min_(p.bounding_box.max_point[k], q.bounding_box.max_point[k]) for k in range(3)], "the common part of the two boxes")
    return Task("intersect_bvh", keep(body), "two pairs", setup=load)


class Segs:
    """pieces of the segment: a clip gives an array with new corners, remembered as the piece inside that box.  hit(node): the segment meets
    the node's box; a piece inside box b meets a box contained in b exactly when the whole segment does"""
    def __init__(self, c, ns, W, S):
        self.c, self.ns, self.W, self.S, self.hits, self.pieces = c, ns, W, S, {}, [(self.key(S), None)]
        ns["segment_aabb_clip"], ns["aabb_segm3d"] = self.clip, self.segm
        ns["aabb_intersect"] = ns["aabb_intersect_fast_3d"] = self.test
        self.bound = None

    def key(self, a): return [a[i, k] for i in range(2) for k in range(3)]
    def owner(self, k):
        for q, b in self.pieces:
            if all(x is y or (not X.is_e(x) and x == y) for x, y in zip(k, q)): return True, b
        return False, None

    def hit(self, arr):
        n = [x for x in self.W.known if x.bounding_box._arr is arr]
        self.c.prove(len(n) >= 1, "boxes of the tree are tested")
        b = n[0].bounding_box
        if id(b) not in self.hits:
            h = self.hits[id(b)] = var(f"hit{len(self.hits)}", "B")
            if any(self.W.below[id(x)] for x in n): self.c.assume(implies(self.c.hit, h))
            if b is self.W.g.bounding_box: self.c.assume(X.iff(h, self.c.hit))
        return self.hits[id(b)], b

    def usable(self, k, b):
        """the segment at hand has, inside b, all points of the segment: it is the segment itself or a piece cut by a box that contains b"""
        ok, o = self.owner(k)
        self.c.prove(ok, "what is tested is the segment or a clipped piece of it")
        if o is not None: self.c.prove(inside(b, o), "a piece is tested only against boxes inside the one that cut it")

    def clip(self, arr, seg, out):
        h, b = self.hit(arr)
        self.usable(self.key(seg), b)
        if not self.c.decide(h): return None
        for i in range(2):
            for k in range(3): out[i, k] = X.fresh("clipped")
        self.pieces.append((self.key(out), b))
        return out

    def segm(self, s, e, out):
        k = [s[i] for i in range(3)] + [e[i] for i in range(3)]
        for i in range(2):
            for j in range(3): out[i, j] = X.fresh("bound")
        self.bound = (self.key(out), k)

    def test(self, arr, bb):
        h, b = self.hit(arr)
        self.c.prove(self.bound is not None and all(x is y for x, y in zip(self.key(bb), self.bound[0])), "the box of the current segment is tested")
        self.usable(self.bound[1], b)
        r = X.fresh("boxes_meet", "B")
        self.c.assume(implies(h, r))
        return r


def segment(fn):
    spec = Worklist()
    spec.modifies = ("bb",)
    def setup(): return load({M: {"bvh_segment_intersection": {0: spec}}})

    def body(c, ns):
        g = ghost(c, ns)
        W = World(c, ns, g)
        c.hit = var("segment_meets_g", "B")
        S = strict(mat(c, "S", 2, 3))
        sg = Segs(c, ns, W, S)
        c.cover("precondition is satisfiable")

        def make(pending):
            mine = pending and c.choose(2, "ghost is next") == 1
            n = c.popped = W.node(bool(mine))
            seg = S
            if c.choose(2, "piece") == 1:
                top = Top(c, ns).bounding_box
                c.assume(inside(n.bounding_box, top))
                seg = strict(mat(c, f"piece{W.n}", 2, 3))
                sg.pieces.append((sg.key(seg), top))
            return (n, seg), mine
        c.make = make
        c.covers = lambda p: W.below[id(p[0])]
        c.reports = lambda p: p[0] is g
        def down(p):
            c.prove(p[0] is c.popped.left or p[0] is c.popped.right, "the search goes down")
            sg.usable(sg.key(p[1]), p[0].bounding_box)
            return True
        c.goes_down = down
        def sound(p):
            h = [sg.hits.get(id(p[0].bounding_box))]
            return and_(p[0] is c.popped.object, h[0] is not None and h[0])
        c.sound = sound
        root = W.stub(True, Top(c, ns))
        r = ns["bvh_segment_intersection"](root, S)
        c.prove(isinstance(r, Found) and not r.new, "the results collected are returned")
        c.prove(X.iff(r.done == 1, c.hit), "an object is reported exactly when the segment meets its box")
    return Task("bvh_segment_intersection", keep(body), "any tree", setup=setup)


def segment_recursive():
    class Inner:
        def __init__(self): self.depth = 0
    def nested(f):
        def call(n, s, ints):
            c = X.HOOK["ctx"]
            if c.depth == 0:
                c.depth = 1
                c.root_call(n, s)
                return f(c.level, s, c.list_)
            return c.contract(n, s, ints)
        return call

    def setup(): return load({M: {"@nested": {"bvh_segment_intersection_recursive.inner": nested}}})

    def body(c, ns):
        g = ghost(c, ns)
        W = World(c, ns, g)
        c.depth, c.hit = 0, var("segment_meets_g", "B")
        hits = {}

        def hit(b):
            if id(b) not in hits:
                n = [x for x in W.known if x.bounding_box is b]
                c.prove(len(n) >= 1, "boxes of the tree are tested")
                h = hits[id(b)] = var(f"hit{len(hits)}", "B")
                if any(W.below[id(x)] for x in n): c.assume(implies(c.hit, h))
                if b is g.bounding_box: c.assume(X.iff(h, c.hit))
            return hits[id(b)]

        class Seg:
            def __init__(self, cut=None): self.cut, self.bounding_box = cut, SegBox(self)
            def clip(self, b):
                if self.cut is not None: c.prove(inside(b, self.cut), "a piece is tested only against boxes inside the one that cut it")
                return Seg(b) if c.decide(hit(b)) else None

        class SegBox:
            def __init__(self, seg): self.seg = seg

        real_int = ns["BoundingBox"].intersect
        def intersect(self, o):
            if not isinstance(o, SegBox): return real_int(self, o)
            r = X.fresh("boxes_meet", "B")
            if o.seg.cut is not None: c.prove(inside(self, o.seg.cut), "a piece is tested only against boxes inside the one that cut it")
            c.assume(implies(hit(self), r))
            return c.decide(r)
        ns["BoundingBox"].intersect = intersect
        below = bool(c.choose(2, "g below"))
        c.level = W.node(below)
        c.list_, c.calls = [], []
        S = Seg()
        def root_call(n, s): c.prove(n is c.level and s is S, "the search starts at the root with the segment")
        def contract(n, s, ints):
            c.prove(ints is c.list_ and (n is c.level.left or n is c.level.right), "the search goes down")
            if s.cut is not None: c.prove(inside(n.bounding_box, s.cut), "a piece is handed only to boxes inside the one that cut it")
            c.calls.append(n)
            if W.below[id(n)] and c.decide(c.hit): ints.append(("leaf of g", "piece"))
        c.root_call, c.contract = root_call, contract
        c.cover("precondition is satisfiable")
        ns["bvh_segment_intersection_recursive"](c.level, S)
        k = sum(1 for x in c.list_ if x[0] == "leaf of g" or x[0].object is g)
        c.prove(len(c.calls) == len({id(x) for x in c.calls}), "no subtree is searched twice")
        c.prove(X.iff(k == 1, c.hit) if below else k == 0, "an object is reported exactly when the segment meets its box")
        for x in c.list_:
            if x[0] != "leaf of g":
                c.prove(x[0] is c.level and x[0].object is not None, "leaves are reported")
                c.prove(hit(c.level.bounding_box), "only leaves whose box the segment meets are reported")
                c.prove(isinstance(x[1], Seg) and x[1].cut is c.level.bounding_box, "with the piece of the segment inside the box")
    return Task("bvh_segment_intersection_recursive", keep(body), "any tree", setup=setup)


def ray():
    def body(c, ns):
        root = ns["BVHNode"](box(c, ns, "root"))
        class R: pass
        r = R()
        r._arr = strict(mat(c, "ray", 2, 3))
        met = bool(c.choose(2, "met"))
        def clip(arr, seg, out):
            c.prove(seg is r._arr, "the ray is clipped")
            for k in range(3): c.prove(and_(le(arr[0, k], root.bounding_box.min_point[k]), le(root.bounding_box.max_point[k], arr[1, k])), "the ray is clipped by a box that contains the root's")
            if not met: return None
            for i in range(2):
                for k in range(3): out[i, k] = X.fresh("clipped")
            c.out = [out[i, k] for i in range(2) for k in range(3)]
            return out
        ns["segment_aabb_clip"] = clip
        def query(n, s):
            c.prove(n is root and all(s[i, k] is c.out[3 * i + k] for i in range(2) for k in range(3)), "the clipped ray is searched for in the tree")
            return "found"
        ns["bvh_segment_intersection"] = query
        c.cover("precondition is satisfiable")
        res = ns["bvh_ray_intersection"](root, r)
        c.prove(res == ("found" if met else []), "a ray meets the objects its piece inside the root's box meets")
    return Task("bvh_ray_intersection", keep(body), "all", setup=load)


def distance():
    """signed distance to a box: zero on it, negative inside, and outside no point of the box is nearer while the clamped point is that near"""
    def body(c, ns):
        p, q = strict(vec(c, "p", 3)), strict(vec(c, "q", 3))
        b = box(c, ns, "b")
        sq = []
        def norm(v):
            s = lin([v[k] for k in range(3)], [v[k] for k in range(3)])
            r = X.fresh("norm")
            c.assume(and_(le(0, r), eq(mul(r, r), s)))
            sq.append((v, r))
            return r
        class LA: pass
        rt.NPC.linalg = LA
        LA.norm = staticmethod(norm)
        c.cover("precondition is satisfiable")
        d = ns["sd_aabb"](b._arr, p)
        v, r = sq[0]
        m = member(b, p)
        lo, hi = b.min_point, b.max_point
        inner = lambda k: X.min_(sub(p[k], lo[k]), sub(hi[k], p[k]))
        ins = c.decide(m)
        over = [X.ite(lt(p[k], lo[k]), sub(lo[k], p[k]), X.ite(lt(hi[k], p[k]), sub(p[k], hi[k]), 0)) for k in range(3)]
        prove_eqs(c, [v[k] for k in range(3)], over, "the excess over the box on each axis")
        if ins:
            c.prove(eq(r, 0), "nothing is over inside the box")
            c.prove(le(d, 0), "the distance is not positive inside the box")
            c.prove(eq(d, sub(0, X.min_(X.min_(inner(0), inner(1)), inner(2)))), "inside it is the distance to the nearest face")
        else:
            c.prove(or_(*[lt(0, o) for o in over]), "outside something is over")
            c.prove(eq(d, r), "outside it is the length of the excess")
            c.prove(le(0, d), "the distance is not negative outside the box")
            c.assume(member(b, q))
            for k in range(3): c.prove(or_(and_(le(0, over[k]), le(over[k], sub(q[k], p[k]))), and_(le(0, over[k]), le(over[k], sub(p[k], q[k])))), "no point of the box is nearer on any axis")
    return Task("sd_aabb", keep(body), "all", setup=load)


TASKS = [boxes()] + [splits(k) for k in (2, 4, 8)] + [frame()] + [halves(n) for n in (2, 3, 4, 5)] + [compound(n) for n in (1, 2, 3)] + [build(True), build(False)] + \
        [recursion("traverse_bvh", traverse, None), recursion("traverse_leafs", leafs, None), recursion("traverse_all_objects_in_node", leafs, None), recursion("traverse_all_bbox", boxlist, None), recursion("traverse_bvh_point", pointwise, None),
         point_query(), pairs(), merged(), segment("bvh_segment_intersection"), segment_recursive(), ray(), distance()]
