"""R*-tree searches against scanning all entries."""


def gen(rng, i):
    mx, mn = rng.choice([(4, 2), (4, 2), (3, 2), (2, 1), (5, 2), (8, 3)])
    g = rng.choice([3, 8, 20])
    def bx():
        a = [rng.randint(0, g) for _ in range(3)]
        return a + [v + rng.randint(0, 3) for v in a]
    return {"mx": mx, "mn": mn, "R": [bx() for _ in range(rng.choice([1, 5, 9, 20, 60]))], "Q": [bx() for _ in range(6)] + [[-1, -1, -1, 99, 99, 99]], "w": rng.choice([2, 3])}


def check(c):
    from mmcore.ds.tree.rtree import RStarTree, Box, Rectangle
    w = c["w"]
    mk = (lambda b: Box(*b)) if w == 3 else (lambda b: Rectangle(b[0], b[1], b[3], b[4]))
    t = RStarTree(c["mx"], c["mn"])
    rs = []
    box = lambda b: [getattr(b, k) for k in ("minx", "miny", "minz")[:w]] + [getattr(b, k) for k in ("maxx", "maxy", "maxz")[:w]]
    meet = lambda a, b: all(x <= y for x, y in zip(a[:w], b[w:])) and all(x <= y for x, y in zip(b[:w], a[w:]))

    def valid(n, depth):
        if n.is_leaf: return {depth}
        ds = set()
        for ch in n.children:
            bs = [box(x.mbr) for x in ch.children]
            want = [min(b[k] for b in bs) for k in range(w)] + [max(b[k + w] for b in bs) for k in range(w)]
            got = box(ch.mbr)
            if not (all(g <= v for g, v in zip(got[:w], want[:w])) and all(g >= v for g, v in zip(got[w:], want[w:]))): return f"box {got} of a node does not contain {want}"
            r = valid(ch, depth + 1)
            if isinstance(r, str): return r
            ds |= r
        return ds
    for i, b in enumerate(c["R"]):
        r = mk(b)
        rs.append((r, box(r)))
        t.insert(r)
        if i % 7 and i < len(c["R"]) - 1: continue
        v = valid(t.root, 0)
        if isinstance(v, str): return f"after {i + 1} entries: {v}"
        if len(v) > 1: return f"after {i + 1} entries: leaves at depths {sorted(v)}"
        for q in c["Q"]:
            Q = mk(q)
            got = t.search(Q)
            want = [x for x, bb in rs if meet(bb, box(Q))]
            if sorted(map(id, got)) != sorted(map(id, want)): return f"after {i + 1} entries the search for {box(Q)} finds {len(got)} of {len(want)} entries"
    if any(box(r) != b for r, b in rs): return "an entry was changed"
    return None


KINDS = {"history": (gen, check)}
