"""R*-tree.  The statement is proved for an arbitrary entry g of a tree of any depth: a subtree is known by its box, whether g lies
below it, and that its box then contains g's; recursive calls (search, choice of the leaf, parent lookup, split of the parent) go by
contract.  Fan-out is fixed per task (up to 4).  Box algebra for all real boxes; areas and perimeters only steer the choice of
subtrees and are left arbitrary."""
from .lib import *

LEVEL = "proof"
M = "mmcore.ds.tree.rtree"
FUNCTIONS = [f"{M}:{f}" for f in ("Box.intersect", "Box.union", "Box.enlarge", "Box.area", "Box.perimeter", "Rectangle.intersect", "Rectangle.union", "Rectangle.enlarge", "Node.add_child", "Node.update_mbr",
             "RStarTree.insert", "RStarTree._choose_leaf", "RStarTree._split_node", "RStarTree._choose_split_axis", "RStarTree._compute_margin", "RStarTree._compute_mbr", "RStarTree._find_parent", "RStarTree.search", "RStarTree._search_subtree")]
ASSUMPTIONS = ["boxes are valid (low corner not above the high corner)", "2 min_children <= max_children + 1"]


def load(): return prog((M,)).load(M)
LO, HI = {3: ("minx", "miny", "minz"), 2: ("minx", "miny")}, {3: ("maxx", "maxy", "maxz"), 2: ("maxx", "maxy")}


def lo(b, w=3): return [getattr(b, k) for k in LO[w]]
def hi(b, w=3): return [getattr(b, k) for k in HI[w]]


def box(c, ns, name, w=3):
    vs = [real(c, f"{name}{k}") for k in range(2 * w)]
    for k in range(w): c.assume(le(vs[k], vs[k + w]))
    return ns["Box" if w == 3 else "Rectangle"](*vs)


def inside(a, b, w=3): return and_(*[le(y, x) for x, y in zip(lo(a, w), lo(b, w))], *[le(x, y) for x, y in zip(hi(a, w), hi(b, w))])
def meets(a, b, w=3): return and_(*[le(x, y) for x, y in zip(lo(a, w), hi(b, w))], *[le(x, y) for x, y in zip(lo(b, w), hi(a, w))])


def loose(ns):
    """areas and perimeters are arbitrary numbers; union goes by its contract (the least box containing both, a new object), and so does intersect"""
    for n in ("area", "perimeter"): setattr(ns["Box"], n, lambda self: X.fresh("size"))
    def union(self, o): return ns["Box"](*[X.min_(x, y) for x, y in zip(lo(self), lo(o))], *[X.max_(x, y) for x, y in zip(hi(self), hi(o))])
    ns["Box"].union = union
    def intersect(self, o):
        return meets(self, o)
    ns["Box"].intersect = intersect


def boxes(w):
    def body(c, ns):
        a, b, g = (box(c, ns, n, w) for n in "abg")
        c.cover("precondition is satisfiable")
        old = lo(a, w) + hi(a, w) + lo(b, w) + hi(b, w)
        u = a.union(b)
        c.prove(and_(inside(a, u, w), inside(b, u, w)), "the union contains both boxes")
        c.prove(implies(and_(inside(a, g, w), inside(b, g, w)), inside(u, g, w)), "the union is the least such box")
        prove_eqs(c, lo(a, w) + hi(a, w) + lo(b, w) + hi(b, w), old, "union changes neither box")
        r = a.intersect(b)
        c.prove(X.iff(r if X.is_e(r) else bool(r), meets(a, b, w)), "boxes intersect exactly when they share a point")
        d = [sub(y, x) for x, y in zip(lo(a, w), hi(a, w))]
        s = 1
        for v in d: s = mul(s, v)
        c.prove(eq(a.area(), s), "area is the product of the sides")
        c.prove(eq(a.perimeter(), mul(2, lin(d, [1] * w))), "perimeter is twice the sum of the sides")
        a.enlarge(b)
        prove_eqs(c, lo(a, w) + hi(a, w), lo(u, w) + hi(u, w), "enlarging gives the union")
    return Task(f"boxes[{w}d]", body, "all", setup=load)


def child(c, ns, i, leaf, cover=None):
    """a subtree known by its box (containing `cover` when given); leaf: the entries themselves"""
    return ns["Node"](is_leaf=leaf, mbr=box(c, ns, f"child{i}_"))


def searches(m, leaf):
    def body(c, ns):
        loose(ns)
        t = ns["RStarTree"](4, 2)
        g, q = box(c, ns, "g"), box(c, ns, "query")
        n = ns["Node"](is_leaf=leaf)
        n.children = [child(c, ns, i, leaf) for i in range(m)]
        j = c.choose(m + 1, "place of g") - 1
        if j >= 0:
            if leaf: n.children[j].mbr = g
            else: c.assume(inside(g, n.children[j].mbr))
        c.cover("precondition is satisfiable")
        real = ns["RStarTree"]._search_subtree

        def contract(self, ch, r):
            """the entries below ch that meet r; as far as g is concerned"""
            c.prove(r is q, "the query is handed down")
            return [g] if j >= 0 and ch is n.children[j] and c.decide(meets(g, q)) else []
        before = list(n.children)
        if leaf:
            t.root = n
            r = t.search(q)
            c.prove(all(any(x is e.mbr for e in n.children) for x in r), "search returns entries")
            for e in n.children: c.prove(implies(any(x is e.mbr for x in r), meets(e.mbr, q)), "search returns only entries that meet the query")
        else:
            try:
                ns["RStarTree"]._search_subtree = contract
                r = real(t, n, q)
            finally: ns["RStarTree"]._search_subtree = real
        k = sum(1 for x in r if x is g)
        c.prove(k <= 1, "search returns an entry once")
        c.prove(X.iff(k == 1, meets(g, q)) if j >= 0 else k == 0, "search finds an entry exactly when it meets the query")
        c.prove(all(x is y for x, y in zip(n.children, before)), "search leaves the tree as it is")
    return Task(f"search[{m} {'entries' if leaf else 'subtrees'}]", body, f"fan-out {m}, any depth", setup=load)


def choose(m):
    """the chosen path covers the rectangle, other subtrees keep their boxes"""
    def body(c, ns):
        loose(ns)
        t = ns["RStarTree"](4, 2)
        r = box(c, ns, "r")
        n = ns["Node"]()
        n.children = [child(c, ns, i, False) for i in range(m)]
        old = [x.mbr for x in n.children]
        olds = [lo(x) + hi(x) for x in old]
        c.cover("precondition is satisfiable")
        real = ns["RStarTree"]._choose_leaf
        went = []

        def contract(self, ch, rect):
            went.append(ch)
            c.prove(rect is r and any(ch is x for x in n.children), "the search for a leaf goes down to a child")
            return "leaf"
        try:
            ns["RStarTree"]._choose_leaf = contract
            got = real(t, n, r)
        finally: ns["RStarTree"]._choose_leaf = real
        c.prove(got == "leaf" and len(went) == 1, "one child is chosen")
        for x, b in zip(n.children, old):
            if x is went[0]: c.prove(and_(inside(b, x.mbr), inside(r, x.mbr)), "the chosen subtree's box covers its old box and the new entry")
            else: c.prove(x.mbr is b, "the boxes of other subtrees are unchanged")
        for b, o in zip(old, olds): prove_eqs(c, lo(b) + hi(b), o, "no box object is modified")
        lf = ns["Node"](is_leaf=True)
        c.prove(real(t, lf, r) is lf, "a leaf is its own choice")
    return Task(f"choose_leaf[{m} subtrees]", body, f"fan-out {m}, any depth", setup=load)


def parent(m):
    def body(c, ns):
        t = ns["RStarTree"](4, 2)
        n = ns["Node"]()
        n.children = [ns["Node"](is_leaf=bool(c.choose(2, "leaf"))) for _ in range(m)]
        target, P = ns["Node"](), ns["Node"]()
        j, deep = c.choose(m + 1, "place") - 1, c.choose(2, "depth")
        if j >= 0 and not deep: n.children[j] = target
        real = ns["RStarTree"]._find_parent
        def contract(self, cur, tg): return P if deep and j >= 0 and cur is n.children[j] else None
        try:
            ns["RStarTree"]._find_parent = contract
            got = real(t, n, target)
        finally: ns["RStarTree"]._find_parent = real
        c.prove(got is (None if j < 0 else P if deep else n), "the parent of a node is found")
        n.is_leaf = True
        c.prove(j >= 0 or real(t, n, target) is None, "a leaf is the parent of no inner node")
    return Task(f"find_parent[{m}]", body, f"fan-out {m}, any depth", setup=load)


def hull(c, node, what):
    """the node's box is the least one containing its children's boxes"""
    for x in node.children: c.prove(inside(x.mbr, node.mbr), what + ": a box contains the boxes below it")
    for side, f, best in ((0, lo, X.min_), (1, hi, X.max_)):
        for k in range(3):
            v = f(node.children[0].mbr)[k]
            for x in node.children[1:]: v = best(v, f(x.mbr)[k])
            c.prove(eq(f(node.mbr)[k], v), what + ": a box is no larger than needed")


def split(mx, mn, where):
    k = mx + 1
    def body(c, ns):
        loose(ns)
        t = ns["RStarTree"](mx, mn)
        leaf = bool(c.choose(2, "leaf"))
        n = ns["Node"](is_leaf=leaf)
        n.children = Kids(child(c, ns, i, leaf) for i in range(k))
        n.update_mbr()
        kids = list(n.children)
        others = [child(c, ns, f"o{i}", leaf) for i in range(0 if where == "root" else mx if where == "full parent" else mx - 1)][:max(0, mx - 1) if where != "full parent" else mx]
        c.cover("precondition is satisfiable")
        again = []
        real = ns["RStarTree"]._split_node
        def axis(node):
            """by contract: one of the two axes; the order of the children may change (they are arbitrary, so any order stands for all)"""
            c.prove(node is n, "the axis is chosen for the node to be split")
            return [("minx", "maxx"), ("miny", "maxy")][c.choose(2, "axis")]
        t._choose_split_axis = axis
        if where == "root": t.root = n
        else:
            P = ns["Node"]()
            sibs = others[:mx - 1] if where == "full parent" else others[:max(mx - 2, 0)]
            P.children = [n] + sibs
            P.update_mbr()
            A = box(c, ns, "ancestor")
            c.assume(inside(P.mbr, A))
            t.root = ns["Node"]()
            t.root.children = [P]
            t.root.mbr = A
            if where == "full parent":
                t._split_node = lambda m: again.append(m)
        real(t, n)
        if where == "root":
            c.prove(not t.root.is_leaf and len(t.root.children) == 2 and any(x is n for x in t.root.children), "a split root gets a new root above it")
            parts = t.root.children
        else:
            c.prove(len(P.children) == len(sibs) + 2 and all(any(x is y for y in P.children) for x in [n] + sibs), "the parent gets one more child")
            new = [x for x in P.children if x is not n and not any(x is y for y in sibs)]
            c.prove(len(new) == 1, "the new node is the parent's")
            parts = [n] + new
            hull(c, P, "split")
            c.prove(inside(P.mbr, A), "the parent's box still fits its ancestors' boxes")
            c.prove(len(t.root.children) == 1 and t.root.children[0] is P, "the rest of the tree is unchanged")
            c.prove(([P] if where == "full parent" else []) == again, "an overfull parent is split in turn")
        got = [x for p in parts for x in p.children]
        c.prove(len(got) == k and all(any(x is y for y in got) for x in kids), "every child is in exactly one part")
        for p in parts:
            c.prove(p.is_leaf == leaf and mn <= len(p.children) <= mx, "both parts have an allowed number of children")
            hull(c, p, "split")
    return Task(f"split[max={mx},min={mn},{where}]", body, f"fan-out {mx}, any depth", setup=load)


class Kids(list):
    """list.sort by its contract: it only reorders.  The children are arbitrary, so any one order stands for all of them."""
    def sort(self, key=None, reverse=False):
        for x in self: key(x)


def axes(m, mn):
    def body(c, ns):
        loose(ns)
        t = ns["RStarTree"](m - 1, mn)
        n = ns["Node"]()
        n.children = Kids(child(c, ns, i, False) for i in range(m))
        kids, bxs = list(n.children), [x.mbr for x in n.children]
        vals = [lo(b) + hi(b) for b in bxs]
        c.cover("precondition is satisfiable")
        r = t._choose_split_axis(n)
        c.prove(r in (("minx", "maxx"), ("miny", "maxy")), "the split axis is one of the box's axes")
        c.prove(len(n.children) == m and all(any(x is y for y in n.children) for x in kids), "choosing the axis only reorders the children")
        c.prove(all(x.mbr is b for x, b in zip(kids, bxs)), "choosing the axis changes no box")
        for b, v in zip(bxs, vals): prove_eqs(c, lo(b) + hi(b), v, "choosing the axis changes no box")
    return Task(f"split_axis[{m}]", body, f"fan-out {m - 1}", setup=load)


def inserts(m):
    """the leaf gets the entry; its box grows to the hull; an overfull leaf is split; ancestors that covered both cover the hull"""
    def body(c, ns):
        loose(ns)
        t = ns["RStarTree"](4, 2)
        r, A = box(c, ns, "r"), box(c, ns, "ancestor")
        n = ns["Node"](is_leaf=True)
        n.children = [child(c, ns, i, True) for i in range(m)]
        if m: n.update_mbr()
        for x in n.children: c.assume(inside(x.mbr, A))
        c.assume(inside(r, A))
        kids = list(n.children)
        split = []
        t._choose_leaf = lambda a, b: n if a is t.root and b is r else None
        t._split_node = lambda x: split.append(x)
        c.cover("precondition is satisfiable")
        t.insert(r)
        c.prove(len(n.children) == m + 1 and all(any(x is y for y in n.children) for x in kids), "no entry is lost")
        new = [x for x in n.children if not any(x is y for y in kids)]
        c.prove(len(new) == 1 and new[0].mbr is r, "the new entry is in the leaf")
        hull(c, n, "insert")
        c.prove(inside(n.mbr, A), "ancestors that contain the entries and the new one contain the leaf's box")
        c.prove(split == ([n] if m == 4 else []), "an overfull leaf is split")
    return Task(f"insert[{m} entries]", body, "leaf of 4 entries at most, any depth", setup=load)


TRUSTED = ["list.sort only reorders"]
TASKS = [boxes(3), boxes(2)] + [searches(m, f) for m in (1, 2, 3, 4) for f in (True, False)] + [choose(m) for m in (2, 3, 4)] + [parent(m) for m in (1, 2, 4)] + \
        [split(*a) for a in ((2, 1, "root"), (2, 1, "full parent"), (3, 2, "root"), (3, 2, "parent"), (3, 2, "full parent"), (4, 2, "root"), (4, 2, "parent"), (4, 2, "full parent"))] + [axes(3, 1), axes(4, 2), axes(5, 2)] + [inserts(m) for m in range(5)]
