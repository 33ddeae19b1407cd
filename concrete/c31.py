import numpy as np
from .lib import *
from mmcore.geom import bvh as M


def corner(rng):
    lo = [rng.choice([-2, -1, 0, 1, 2, rng.uniform(-4, 4)]) for _ in range(3)]
    return [lo, [x + rng.choice([0, 1, 1, 2, rng.uniform(0, 2)]) for x in lo]]


def bgen(rng, i):
    return {"a": corner(rng), "b": corner(rng), "t": [rng.choice([0.0, 0.25, 0.5, 1.0, 0.8]) for _ in range(3)], "q": vec(rng, 3, 3.0)}


def state(b, what):
    if not (close(b.center, (b.min_point + b.max_point) / 2, 1e-12) and close(b.dims, b.max_point - b.min_point, 1e-12) and np.array_equal(b._arr, np.array([b.min_point, b.max_point]))):
        return f"{what}: centre {b.center}, sides {b.dims}, corners {b._arr.tolist()} of the box {b.min_point} {b.max_point}"


def bcheck(c):
    A, B, q, t = np.array(c["a"], float), np.array(c["b"], float), np.array(c["q"], float), c["t"]
    mk = lambda x: M.BoundingBox(x[0], x[1])
    a, b = mk(A), mk(B)
    lo, hi = np.maximum(A[0], B[0]), np.minimum(A[1], B[1])
    meet = bool(np.all(lo <= hi))
    if bool(a.intersect(b)) != meet: return f"boxes {A.tolist()} {B.tolist()}: intersect {not meet}"
    r = a & b
    if (r is not None) != meet: return f"boxes {A.tolist()} {B.tolist()}: intersection {r}"
    if meet and not np.array_equal(r._arr, np.array([lo, hi])): return f"intersection {r}"
    r = a | b
    want = np.array([np.minimum(A[0], B[0]), np.maximum(A[1], B[1])])
    if not np.array_equal(r._arr, want): return f"merge of {A.tolist()} and {B.tolist()} is {r}"
    e = mk(A)
    e.expand(b)
    if not (np.array_equal(e.min_point, want[0]) and np.array_equal(e.max_point, want[1])): return f"{A.tolist()} expanded by {B.tolist()} is {e}"
    if m := state(e, "expanded box"): return m
    if bool(a.contains_point(q)) != bool(np.all(A[0] <= q) and np.all(q <= A[1])): return f"{a} contains {q}: {a.contains_point(q)}"
    if not close(a.evaluate(np.array(t)), A[0] + np.array(t) * (A[1] - A[0]), 1e-12): return f"{a} at {t}: {a.evaluate(np.array(t))}"
    if not close(a.volume(), np.prod(A[1] - A[0]), 1e-12): return f"volume of {a}: {a.volume()}"
    for k in range(3):
        parts = a.split(k, t[k])
        cut = A[0][k] + (A[1][k] - A[0][k]) * t[k]
        L, R = A.copy(), A.copy()
        L[1][k] = R[0][k] = cut
        for p, w in zip(parts, (L, R)):
            if not close(np.array([p.min_point, p.max_point]), w, 1e-12): return f"{a} split on axis {k} at {t[k]}: {parts}"
            if m := state(p, "part of a box"): return m
    ps = a.split8(0, 1, 2, *t)
    if len(ps) != 8 or not close(sum(p.volume() for p in ps), a.volume(), 1e-9): return f"{a} split in eight at {t}: volumes {[p.volume() for p in ps]}"
    if not (np.array_equal(a._arr, A) and np.array_equal(b._arr, B) and np.array_equal(a.min_point, A[0])): return "operands were changed"
    d = M.sd_aabb(A, q)
    over = np.maximum(np.maximum(A[0] - q, q - A[1]), 0)
    want = np.linalg.norm(over) if over.any() else -min(np.min(q - A[0]), np.min(A[1] - q))
    if not close(d, want, 1e-9): return f"distance of {q} to {a}: {d} instead of {want}"
    cs = {tuple(x) for x in a.get_corners()}
    if cs != {(x, y, z) for x in A[:, 0] for y in A[:, 1] for z in A[:, 2]}: return f"corners of {a}: {cs}"
    if sorted(np.linalg.norm(e[1] - e[0]) for e in a.get_edges()) != sorted(list(np.linalg.norm(np.diag(A[1] - A[0]), axis=1)) * 4): return f"edges of {a}"


def tgen(rng, i):
    n = rng.randint(1, 14)
    return {"boxes": [corner(rng) for _ in range(n)], "other": [corner(rng) for _ in range(rng.randint(1, 7))], "q": corner(rng), "leaf": rng.choice([1, 1, 2, 3]),
            "S": [[rng.choice([-5.0, -1, 0, 0.5, 1, 3, 6, rng.uniform(-6, 6)]) for _ in range(3)] for _ in range(2)]}


def hits(A, S):
    """does the segment meet the box: True, False, or None when too close to call"""
    def test(A):
        t0, t1 = 0.0, 1.0
        for k in range(3):
            d = S[1][k] - S[0][k]
            if d == 0:
                if not A[0][k] <= S[0][k] <= A[1][k]: return False
                continue
            x, y = sorted(((A[0][k] - S[0][k]) / d, (A[1][k] - S[0][k]) / d))
            t0, t1 = max(t0, x), min(t1, y)
        return t0 <= t1
    e = 1e-9
    r = {test(np.array([A[0] - e, A[1] + e])), test(np.array([A[0] + e, A[1] - e])) if np.all(A[1] - A[0] > 2 * e) else test(A)}
    return r.pop() if len(r) == 1 else None


def objects(o): return o.objects if isinstance(o, M.CompoundObject3D) else [o]


def tcheck(c):
    mk = lambda bs: [M.Object3D(M.BoundingBox(*b), value=i) for i, b in enumerate(bs)]
    obs, others = mk(c["boxes"]), mk(c["other"])
    k = c["leaf"]
    tree = M.build_bvh(list(obs), k)
    nodes = []

    def walk(n):
        nodes.append(n)
        if n.object is not None:
            os = objects(n.object)
            if len(os) > k: return f"a leaf of at most {k} holds {len(os)} objects"
            kids = [o.bounding_box for o in os]
        else:
            for x in (n.left, n.right):
                if m := walk(x): return m
            kids = [n.left.bounding_box, n.right.bounding_box]
        for b in kids:
            if not (np.all(n.bounding_box.min_point <= b.min_point) and np.all(b.max_point <= n.bounding_box.max_point)): return f"the box {n.bounding_box} does not contain {b} below it"
        if not np.array_equal(n.bounding_box._arr, np.array([n.bounding_box.min_point, n.bounding_box.max_point])): return f"box {n.bounding_box} has corners {n.bounding_box._arr.tolist()}"
    if m := walk(tree): return m
    ls = []
    M.traverse_leafs(tree, ls)
    ids = lambda os: sorted(o.value for x in os for o in objects(x))
    if ids(ls) != list(range(len(obs))): return f"leaves hold objects {ids(ls)} of {len(obs)}"
    la = []
    M.traverse_all_objects_in_node(tree, la)
    if ids(la) != list(range(len(obs))): return f"nodes hold objects {ids(la)} of {len(obs)}"
    nb = []
    M.traverse_all_bbox(tree, nb)
    if len(nb) != len(nodes): return f"{len(nb)} boxes of {len(nodes)} nodes"
    q = np.array(c["q"], float)
    meet = lambda b: bool(np.all(b.min_point <= q[1]) and np.all(q[0] <= b.max_point))
    res = ["before"]
    M.traverse_bvh(tree, M.BoundingBox(*q), res)
    got = sorted(map(id, res[1:]))
    if res[0] != "before" or got != sorted(id(o) for o in ls if meet(o.bounding_box)): return f"query {q.tolist()} on boxes {c['boxes']} (leaf size {k}): {ids(res[1:])}"
    inb = sorted(id(o) for o in ls if np.all(o.bounding_box.min_point <= q[0]) and np.all(q[0] <= o.bounding_box.max_point))
    if sorted(map(id, M.contains_point(tree, q[0]))) != inb: return f"objects at {q[0].tolist()} of boxes {c['boxes']}: {ids(M.contains_point(tree, q[0]))}"
    n = M.traverse_bvh_point(tree, q[0])
    if (n is None) == bool(tree.bounding_box.contains_point(q[0])): return f"node at {q[0].tolist()}: {n}"
    if n is not None:
        below = []
        M.traverse_leafs(n, below)
        if not set(inb) <= set(map(id, below)): return f"the node found at {q[0].tolist()} does not hold all objects there (boxes {c['boxes']})"
    t2 = M.build_bvh(list(others), c["leaf"])
    l2 = []
    M.traverse_leafs(t2, l2)
    want = sorted((id(a), id(b)) for a in ls for b in l2 if np.all(a.bounding_box.min_point <= b.bounding_box.max_point) and np.all(b.bounding_box.min_point <= a.bounding_box.max_point))
    got = sorted((id(a.object), id(b.object)) for a, b in M.intersect_bvh_objects(tree, t2))
    if got != want: return f"{len(got)} pairs of boxes {c['boxes']} and {c['other']} reported, {len(want)} meet (leaf size {k})"
    if len(M.intersect_bvh(tree, t2)) != len(want): return "intersect_bvh reports another number of pairs"
    S = np.array(c["S"], float)
    hs = {id(o): hits(o.bounding_box._arr, S) for o in ls}
    if np.any(S[0] != S[1]):
        for name, got in (("bvh_segment_intersection", [id(o) for o, _ in M.bvh_segment_intersection(tree, S)]), ("bvh_segment_intersection of a Segment", [id(o) for o, _ in M.bvh_segment_intersection(tree, M.Segment(S[0], S[1]))]),
                          ("bvh_segment_intersection_recursive", [id(n.object) for n, _ in M.bvh_segment_intersection_recursive(tree, M.Segment(S[0], S[1]))])):
            if len(got) != len(set(got)): return f"{name} reports an object twice"
            for o in ls:
                if hs[id(o)] is not None and hs[id(o)] != (id(o) in got): return f"{name}({S.tolist()}): box {o.bounding_box} is {'missed' if hs[id(o)] else 'reported'}"
        got = [id(o) for o, _ in M.bvh_ray_intersection(tree, M.Ray(S[0], S[1] - S[0]))]
        d = (S[1] - S[0]) / np.linalg.norm(S[1] - S[0])
        for o in ls:
            h = hits(o.bounding_box._arr, np.array([S[0], S[0] + 1e3 * d]))
            if h is not None and np.all(o.bounding_box.dims > 1e-6) and h != (id(o) in got): return f"ray from {S[0]} along {S[1] - S[0]}: box {o.bounding_box} is {'missed' if h else 'reported'}"


KINDS = {"tree": (tgen, tcheck), "box": (bgen, bcheck)}
