"""k-d tree.  Proved for a tree of any size and an arbitrary point q: a subtree is known by its size and how often q occurs in it
(q then satisfies every ordering constraint of the nodes above); a subtree is opened one level only when the code looks inside and
recursive calls go by the contract being proved.  Lists of any length go by the contracts of list.sort and slicing, the bounded
priority queue by the contracts of heapq."""
from .lib import *

LEVEL = "proof"
M = "mmcore.ds.bkdtree"
FUNCTIONS = [f"{M}:{f}" for f in ("_update_size", "_collect_points", "_build_balanced")] + [f"{M}:BalancedKDTree.{f}" for f in (
    "__init__", "_is_unbalanced", "_rebalance_subtree", "_insert_rec", "insert", "_find_min", "_delete_rec", "delete", "_distance_sq", "_nearest_rec", "nearest_neighbor", "_k_nearest_rec", "k_nearest_neighbors")]
ASSUMPTIONS = ["points are tuples of 2 or 3 numbers", "coordinates are real numbers (no NaN)"]
TRUSTED = ["list.sort and slicing", "heapq.heappush, heapreplace (the largest distance is first)"]
inf = float("inf")


def same(p, q): return and_(*[eq(x, y) for x, y in zip(p, q)])
def one(b): return X.ite(b, 1, 0) if X.is_e(b) else int(bool(b))
def point(c, name, k): return tuple(real(c, f"{name}{i}") for i in range(k))
def fresh(k): return tuple(X.fresh("x") for _ in range(k))
def dist(p, q):
    s = 0
    for x, y in zip(p, q): s = add(s, mul(sub(x, y), sub(x, y)))
    return s


def distances(c, A, x, q, k):
    """_distance_sq by its contract (own task): a number that depends on the points only and is at least the square of each
    difference of coordinates"""
    known = []
    def D(p):
        for r, d in known:
            if r is p: return d
        d = X.fresh("distance")
        c.assume(and_(le(0, d), *[le(mul(sub(x[i], p[i]), sub(x[i], p[i])), d) for i in range(k)] if p is q else [le(0, d)]))
        for r, e in known:
            if r is q: c.assume(implies(same(p, r), eq(d, e)))
        known.append((p, d))
        return d
    D(q)
    def contract(self, a, b):
        c.prove((a is x) != (b is x), "distances are taken to the target")
        return D(b if a is x else a)
    A._distance_sq = contract
    return D


def distance(k):
    def body(c, ns):
        a, b = point(c, "a", k), point(c, "b", k)
        d = ns["BalancedKDTree"]()._distance_sq(a, b)
        c.cover("precondition is satisfiable")
        c.prove(eq(d, dist(a, b)), "the squared distance is the sum of the squared differences")
        for i in range(k): c.prove(le(mul(sub(a[i], b[i]), sub(a[i], b[i])), d), "the squared distance is at least each squared difference")
    return Task(f"distance[{k}d]", body, f"{k} dimensions", setup=load)


def world(c, ns, k, marks):
    """class of abstract nonempty subtrees; abs = size, occurrences of each mark, constraints its points obey"""
    Node = ns["BalancedKDTree"].KDNode
    c.k, c.marks = k, marks

    class T(Node):
        __slots__ = ("abs", "p", "ax", "l", "r", "sz")
        def __init__(self, n=None, cnt=None, cons=()):
            n = X.fresh("n", "I") if n is None else n
            cnt = [X.fresh("cnt", "I") for _ in c.marks] if cnt is None else cnt
            self.abs = dict(n=n, cnt=cnt, cons=cons)
            c.assume(le(1, n))
            for m, x in zip(c.marks, cnt): c.assume(and_(le(0, x), le(x, n), implies(le(1, x), and_(*[f(m) for f in cons]))))
            if len(cnt) > 1: c.assume(implies(same(*c.marks[:2]), eq(cnt[0], cnt[1])))

        def open(self):
            if self.abs is None: return
            a, self.abs = self.abs, None
            p, ax = fresh(k), c.choose(k, "axis")
            for f in a["cons"]: c.assume(f(p))
            self.p, self.ax, self.sz, self.l, self.r = p, ax, a["n"], None, None
            shape = c.choose(4, "children")
            if shape & 1: self.l = T(cons=a["cons"] + (lambda x: le(x[ax], p[ax]),))
            if shape & 2: self.r = T(cons=a["cons"] + (lambda x: le(p[ax], x[ax]),))
            kids = [s.abs for s in (self.l, self.r) if s is not None]
            c.assume(eq(a["n"], lin([1] + [s["n"] for s in kids], [1] * (1 + len(kids)))))
            for i, m in enumerate(c.marks): c.assume(eq(a["cnt"][i], lin([one(same(p, m))] + [s["cnt"][i] for s in kids], [1] * (1 + len(kids)))))

        def prop(name, slot):
            def get(self):
                if name == "size" and self.abs is not None: return self.abs["n"]
                self.open()
                return getattr(self, slot)
            def put(self, v):
                self.open()
                setattr(self, slot, v)
            return property(get, put)
        point, axis, left, right, size = prop("point", "p"), prop("axis", "ax"), prop("left", "l"), prop("right", "r"), prop("size", "sz")
    return T


def zero(c): return dict(n=0, cnt=[0] * len(c.marks))


def check(c, t, what):
    """t is a valid tree: its size and the occurrences of the marks in it"""
    if t is None: return zero(c)
    if getattr(t, "abs", None) is not None: return t.abs
    q, ax, p = c.marks[0], t.axis, t.point
    c.prove(type(ax) is int and 0 <= ax < c.k, what + ": a node splits along one of the axes")
    L, R = check(c, t.left, what), check(c, t.right, what)
    c.prove(implies(le(1, L["cnt"][0]), le(q[ax], p[ax])), what + ": points on the left of a node are not greater along its axis")
    c.prove(implies(le(1, R["cnt"][0]), le(p[ax], q[ax])), what + ": points on the right of a node are not less along its axis")
    n = add(1, add(L["n"], R["n"]))
    c.prove(eq(t.size, n), what + ": a node knows the size of its subtree")
    return dict(n=n, cnt=[add(one(same(p, m)), add(L["cnt"][i], R["cnt"][i])) for i, m in enumerate(c.marks)])


def rebalance(c, T):
    def f(self, node, depth=0):
        """by contract (own task): the same points in a valid tree"""
        a = check(c, node, "a subtree to be rebuilt")
        return T(a["n"], a["cnt"])
    return f


def either(c): return lambda self, node: bool(c.choose(2, "unbalanced"))


def unbalanced():
    def body(c, ns):
        T, A, tree, (q,) = start(c, ns, 2)
        t = T() if c.choose(2, "empty") else None
        c.cover("precondition is satisfiable")
        r = tree._is_unbalanced(t)
        c.prove(r is True or r is False, "the balance test has an answer")
        if t is None: c.prove(not r, "the empty tree is balanced")
        else:
            l, m = t.left.size if t.left else 0, t.right.size if t.right else 0
            c.prove(implies(and_(le(l, add(m, 1)), le(m, add(l, 1)), le(4, t.size)), not r), "a balanced tree is not rebuilt")
            check(c, t, "the balance test")
    return Task("unbalanced", body, "any size", setup=load)


def load(): return prog((M,)).load(M)


class Sub:
    """temporarily replaces methods or functions by contracts"""
    def __init__(self, ns, cls=None, **kw): self.ns, self.cls, self.kw = ns, cls, kw
    def __enter__(self):
        self.old = {k: getattr(self.cls, k) if self.cls else self.ns[k] for k in self.kw}
        for k, v in self.kw.items(): self.put(k, v)
    def put(self, k, v):
        if self.cls: setattr(self.cls, k, v)
        else: self.ns[k] = v
    def __exit__(self, *a):
        for k, v in self.old.items(): self.put(k, v)


def start(c, ns, k, marks=1):
    ms = [point(c, "qd"[i], k) for i in range(marks)]
    T = world(c, ns, k, ms)
    A = ns["BalancedKDTree"]
    return T, A, A(), ms


def insert(k):
    def body(c, ns):
        T, A, tree, (q,) = start(c, ns, k)
        p = point(c, "p", k)
        if c.choose(2, "part"):
            with Sub(ns, A, _insert_rec=lambda self, n, pt, depth=0: (n, pt)):
                tree.root = t = T() if c.choose(2, "empty tree") else None
                tree.insert(p)
                if t is None: b = check(c, tree.root, "insert"); c.prove(and_(eq(b["n"], 1), eq(b["cnt"][0], one(same(p, q)))), "inserting into an empty tree gives the point")
                else: c.prove(tree.root[0] is t and tree.root[1] is p, "insert starts at the root")
            return
        t = T() if c.choose(2, "empty") else None
        a = dict(t.abs) if t else zero(c)
        depth = c.choose(2 * k, "depth") if t is None else 1
        c.cover("precondition is satisfiable")
        real = A._insert_rec

        def contract(self, s, pt, depth=0):
            b = check(c, s, "recursion")
            c.prove(lt(b["n"], a["n"]), "the recursion of insert terminates")
            return T(add(b["n"], 1), [add(x, one(same(pt, m))) for x, m in zip(b["cnt"], c.marks)])
        with Sub(ns, A, _insert_rec=contract, _rebalance_subtree=rebalance(c, T), _is_unbalanced=either(c)): r = real(tree, t, p, depth)
        c.prove(r is not None, "insert gives a tree")
        b = check(c, r, "insert")
        c.prove(eq(b["cnt"][0], add(a["cnt"][0], one(same(p, q)))), "insert adds the point once and keeps the others")
        c.prove(eq(b["n"], add(a["n"], 1)), "insert adds one point")
    return Task(f"insert[{k}d]", body, f"{k} dimensions, any size", fallback="histories", setup=load)


def find_min(k):
    def body(c, ns):
        T, A, tree, (q,) = start(c, ns, k)
        ax = c.choose(k, "axis")
        t = T() if c.choose(2, "empty") else None
        a = dict(t.abs) if t else zero(c)
        c.cover("precondition is satisfiable")
        real = A._find_min
        def contract(self, s, axis, depth=0):
            c.prove(axis == ax, "the axis is handed down")
            return least(c, T, s, axis)
        with Sub(ns, A, _find_min=contract): r = real(tree, t, ax, 0)
        c.prove((r is None) == (t is None), "a nonempty tree has a least point")
        if r is not None:
            c.prove(implies(le(1, a["cnt"][0]), le(r.point[ax], q[ax])), "no point is less along the axis")
            c.prove(implies(same(r.point, q), le(1, a["cnt"][0])), "the least point is in the tree")
    return Task(f"find_min[{k}d]", body, f"{k} dimensions, any size", fallback="histories", setup=load)


class Found:
    def __init__(self, p, s=None): self.point, self.sub = p, s


def least(c, T, s, axis):
    """contract of _find_min"""
    if s is None: return None
    a = check(c, s, "recursion")
    p = fresh(c.k)
    for f in a.get("cons", ()): c.assume(f(p))
    for m, x in zip(c.marks, a["cnt"]): c.assume(and_(implies(le(1, x), le(p[axis], m[axis])), implies(same(p, m), le(1, x))))
    return Found(p, s)


def delete(k):
    def body(c, ns):
        T, A, tree, (q, d) = start(c, ns, k, 2)
        if c.choose(2, "part"):
            with Sub(ns, A, _delete_rec=lambda self, n, pt, depth=0: (n, pt)):
                tree.root = t = T() if c.choose(2, "empty tree") else None
                tree.delete(d)
                c.prove(tree.root is None if t is None else tree.root[0] is t and tree.root[1] is d, "delete starts at the root")
            return
        t = T() if c.choose(2, "empty") else None
        a = dict(t.abs) if t else zero(c)
        c.cover("precondition is satisfiable")
        mins = []
        real = A._delete_rec

        def find(self, s, axis, depth=0):
            r = least(c, T, s, axis)
            if r is not None: mins.append(r)
            return r

        def contract(self, s, pt, depth=0):
            if s is None: return None
            b = check(c, s, "recursion")
            c.prove(lt(b["n"], a["n"]), "the recursion of delete terminates")
            hit = X.fresh("hit", "B")
            for m, x in zip(c.marks, b["cnt"]): c.assume(implies(same(m, pt), X.iff(hit, le(1, x))))
            if any(r.point is pt and r.sub is s for r in mins): c.assume(hit)      # the least point of s is in s
            n = sub(b["n"], one(hit))
            cnt = [sub(x, one(and_(same(m, pt), le(1, x)))) for x, m in zip(b["cnt"], c.marks)]
            if c.decide(eq(n, 0)):
                for x in b["cnt"]: c.assume(le(x, b["n"]))
                for x in cnt: c.assume(eq(x, 0))
                return None
            return T(n, cnt, b.get("cons", ()))
        with Sub(ns, A, _delete_rec=contract, _find_min=find, _rebalance_subtree=rebalance(c, T), _is_unbalanced=either(c)): r = real(tree, t, d, 0)
        b = check(c, r, "delete")
        c.prove(eq(b["cnt"][0], sub(a["cnt"][0], one(and_(same(q, d), le(1, a["cnt"][0]))))), "delete removes one occurrence of the point and keeps the others")
        c.prove(eq(b["n"], sub(a["n"], one(le(1, a["cnt"][1])))), "delete removes one point when it is in the tree")
    return Task(f"delete[{k}d]", body, f"{k} dimensions, any size", fallback="histories", setup=load)


def nearest(k):
    def body(c, ns):
        T, A, tree, (q,) = start(c, ns, k)
        t = T() if c.choose(2, "empty") else None
        a = dict(t.abs) if t else zero(c)
        x = point(c, "target", k)
        first = c.choose(2, "best so far")
        p0 = fresh(k)
        dist = distances(c, A, x, q, k)
        best = (None, inf) if first else (Found(p0), dist(p0))
        c.cover("precondition is satisfiable")
        real = A._nearest_rec

        def contract(self, s, target, best, depth=0):
            c.prove(target is x, "the target is handed down")
            if s is None: return best
            b = check(c, s, "recursion")
            if first and best[0] is None or c.choose(2, "improved"):
                p = fresh(k)
                dp = dist(p)
                c.assume(and_(implies(same(p, q), le(1, b["cnt"][0])), *([] if best[0] is None else [lt(dp, best[1])])))
                for f in b.get("cons", ()): c.assume(f(p))
                best = (Found(p), dp)
            c.assume(implies(le(1, b["cnt"][0]), le(best[1], dist(q))))
            return best
        with Sub(ns, A, _nearest_rec=contract): r = real(tree, t, x, best, 0)
        if t is None: c.prove(r is best, "an empty subtree changes nothing"); return
        c.prove(r[0] is not None, "a nonempty tree has a nearest point")
        c.prove(implies(le(1, a["cnt"][0]), le(r[1], dist(q))), "no point is nearer")
        if not first: c.prove(le(r[1], best[1]), "the best distance never grows")
        c.prove(eq(r[1], dist(r[0].point)), "the best distance is the best point's")
        if r[0] is not best[0]: c.prove(implies(same(r[0].point, q), le(1, a["cnt"][0])), "the nearest point is in the tree")
        n = Found(p0)
        with Sub(ns, A, _nearest_rec=lambda self, r, pt, b, depth=0: (n, 0) if r is t and pt is x and b[0] is None and b[1] == inf else None):
            tree.root = t
            c.prove(tree.nearest_neighbor(x) is p0, "the search starts at the root with nothing found")
            tree.root = None
            c.prove(tree.nearest_neighbor(x) is None, "an empty tree has no nearest point")
    return Task(f"nearest[{k}d]", body, f"{k} dimensions, any size", fallback="histories", setup=load)


class Heap:
    """at most k (distance, point) entries, the farthest first"""
    def __init__(self, c, k, q, dq):
        self.c, self.k, self.q, self.dq = c, k, q, dq
        self.tot, self.N = integer(c, "tot"), integer(c, "N")
        self.havoc()
    def havoc(self, full=None, was=None):
        self.n, self.hc, self.worst = X.fresh("n", "I"), X.fresh("hc", "I"), X.fresh("worst")
        for _, f in self.inv(): self.c.assume(f)
        if full is not None: self.c.assume(implies(full, le(self.worst, was)))
    def inv(self):
        yield "the queue holds the points so far, k at most", eq(self.n, X.min_(self.k, self.N))
        yield "the queue holds only points of the tree, as often as they occur", and_(le(0, self.hc), le(self.hc, self.tot), le(self.hc, self.n), le(0, self.N), le(self.tot, self.N))
        yield "no entry is farther than the first", implies(le(1, self.hc), le(self.dq, self.worst))
        yield "a point is left out only for k points that are not farther", implies(lt(self.hc, self.tot), and_(eq(self.n, self.k), le(self.worst, self.dq)))
    def _cyvc_len(self): return self.n
    def __getitem__(self, i):
        self.c.prove(and_(i == 0, le(1, self.n)), "the first entry of a nonempty queue is read")
        return (X.neg(self.worst) if hasattr(X, "neg") else sub(0, self.worst), None)
    def add(self, e, what):
        nd, p = e
        d = sub(0, nd)
        c = self.c
        if what == "push":
            self.worst = X.ite(le(1, self.n), X.max_(self.worst, d), d)
            self.n = add(self.n, 1)
            self.hc = add(self.hc, one(same(p, self.q)))
        else:
            c.prove(le(1, self.n), "an entry of a nonempty queue is replaced")
            rq, w = X.fresh("removed", "B"), X.fresh("worst")
            c.assume(and_(implies(rq, and_(le(1, self.hc), eq(self.dq, self.worst))), implies(eq(self.hc, self.n), rq)))
            hc = sub(add(self.hc, one(same(p, self.q))), one(rq))
            c.assume(and_(le(d, w), or_(eq(w, d), le(w, self.worst)), implies(le(1, hc), le(self.dq, w)), implies(eq(hc, self.n), eq(w, self.dq))))
            self.worst, self.hc = w, hc


def k_nearest(k):
    def body(c, ns):
        T, A, tree, (q,) = start(c, ns, k)
        x = point(c, "target", k)
        kk = integer(c, "k")
        c.assume(le(1, kk))
        dist = distances(c, A, x, q, k)
        dq = dist(q)
        h = Heap(c, kk, q, dq)
        t = T() if c.choose(2, "empty") else None
        a = dict(t.abs) if t else zero(c)
        tot0, N0, full, was = h.tot, h.N, eq(h.n, kk), h.worst
        c.cover("precondition is satisfiable")
        real = A._k_nearest_rec
        todo = []

        def contract(self, s, target, k_, heap, depth=0):
            c.prove(target is x and k_ is kk and heap is h, "the target and the queue are handed down")
            if s is None: return
            b = check(c, s, "recursion")
            f, w = eq(h.n, kk), h.worst
            for what, g in h.inv(): c.prove(g, what)
            h.tot, h.N = add(h.tot, b["cnt"][0]), add(h.N, b["n"])
            h.havoc(f, w)
        push0 = h.add
        def counted(e, what):
            h.tot, h.N = add(h.tot, one(same(e[1], q))), add(h.N, 1)
            c.prove(eq(e[0], sub(0, dist(e[1]))), "an entry carries its distance")
            push0(e, what)
        h.add = counted
        if t is not None:
            t.open()
            p = t.point
        with Sub(ns, A, _k_nearest_rec=contract): real(tree, t, x, kk, h, 0)
        h.tot, h.N = add(tot0, a["cnt"][0]), add(N0, a["n"])
        for what, g in h.inv(): c.prove(g, what)
        c.prove(implies(full, le(h.worst, was)), "the largest distance of a full queue never grows")
    ov = {("heapq", "heappush"): lambda h, e: h.add(e, "push"), ("heapq", "heapreplace"): lambda h, e: h.add(e, "replace")}
    return Task(f"k_nearest[{k}d]", body, f"{k} dimensions, any size and k", fallback="histories", setup=lambda: prog((M,), overrides=ov).load(M))


def results(m):
    def body(c, ns):
        T, A, tree, (q,) = start(c, ns, 2)
        ds = [real(c, f"d{i}") for i in range(m)]
        pts = [(i, i) for i in range(m)]
        def contract(self, s, target, k, heap, depth=0):
            import heapq
            c.prove(s is tree.root and target is q and k == 3 and not heap, "the search starts at the root with an empty queue")
            for d, p in zip(ds, pts): heapq.heappush(heap, (sub(0, d), p))
        c.cover("precondition is satisfiable")
        with Sub(ns, A, _k_nearest_rec=contract):
            tree.root = "root"
            r = tree.k_nearest_neighbors(q, 3)
            c.prove(sorted(r) == pts, "the queue's points are returned")
            for u, v in zip(r, r[1:]): c.prove(le(ds[u[0]], ds[v[0]]), "the k nearest are sorted by distance")
            c.prove(tree.k_nearest_neighbors(q, 0) == [], "no neighbours are asked for")
            tree.root = None
            c.prove(tree.k_nearest_neighbors(q, 3) == [], "an empty tree has no neighbours")
    return Task(f"results[{m}]", body, f"{m} neighbours", setup=load)


class PL:
    """a list of points of any length, known by its length and the occurrences of q; after sort(key), by its elements' keys"""
    def __init__(self, c, n, cnt, cons=()):
        self.c, self.n, self.cnt, self.key, self.seen, self.log = c, n, cnt, None, [], []
        c.assume(and_(le(0, n), le(0, cnt), le(cnt, n)))
    def _cyvc_len(self): return self.n
    def __bool__(self): return self.c.decide(le(1, self.n))
    def sort(self, key=None, reverse=False):
        if reverse: raise X.Unsupported("reverse")
        self.key, self.seen, self.fn = key, [], X.fresh("pre", "I")
        self.pre_ = []
    def _cyvc_sorted(self, key, reverse):
        r = PL(self.c, self.n, self.cnt)
        r.sort(key, reverse)
        return r
    def at(self, i):
        """element i with the facts that sorting gives"""
        c, q = self.c, self.c.marks[0]
        c.prove(and_(le(0, i), lt(i, self.n)), "an element of the list is read")
        e = fresh(c.k)
        if self.key is None: return e
        for j, f in self.seen:
            c.assume(and_(implies(eq(i, j), same(e, f)), implies(lt(i, j), le(self.key(e), self.key(f))), implies(lt(j, i), le(self.key(f), self.key(e)))))
        self.seen.append((i, e))
        P, Q = self.pre(i), self.pre(add(i, 1))
        c.assume(and_(eq(Q, add(P, one(same(e, q)))), implies(le(1, P), le(self.key(q), self.key(e))), implies(lt(Q, self.cnt), le(self.key(e), self.key(q)))))
        return e
    def pre(self, i):
        """occurrences of q among the first i"""
        c = self.c
        for j, v in self.pre_:
            if X.is_e(i) == X.is_e(j) and (i is j or (not X.is_e(i) and i == j)): return v
        v = X.fresh("pre", "I")
        c.assume(and_(le(0, v), le(v, i), le(v, self.cnt), le(sub(self.cnt, v), sub(self.n, i)), implies(eq(i, 0), eq(v, 0)), implies(eq(i, self.n), eq(v, self.cnt))))
        for j, w in self.pre_: c.assume(and_(implies(le(i, j), and_(le(v, w), le(sub(w, v), sub(j, i)))), implies(le(j, i), and_(le(w, v), le(sub(v, w), sub(i, j))))))
        self.pre_.append((i, v))
        return v
    def __getitem__(self, i):
        if isinstance(i, slice):
            c = self.c
            if self.key is None or i.step is not None: raise X.Unsupported("slice of an unsorted list")
            a, b = 0 if i.start is None else i.start, self.n if i.stop is None else i.stop
            a, b = X.min_(a, self.n), X.min_(b, self.n)
            c.prove(and_(le(0, a), le(0, b)), "slices count from the front")
            n = X.max_(0, sub(b, a))
            r = PL(c, n, X.ite(le(a, b), sub(self.pre(b), self.pre(a)), 0))
            return r
        return self.at(i)


def build(k):
    def body(c, ns):
        T, A, tree, (q,) = start(c, ns, k)
        pts = PL(c, integer(c, "n"), integer(c, "cnt"))
        depth = c.choose(2 * k, "depth")
        c.cover("precondition is satisfiable")
        real = ns["_build_balanced"]
        sizes = []
        def contract(p, depth=0):
            c.prove(lt(p.n, pts.n), "the recursion of building terminates")
            sizes.append(p.n)
            return T(p.n, [p.cnt]) if c.decide(le(1, p.n)) else None
        with Sub(ns, None, _build_balanced=contract): r = real(pts, depth)
        a = check(c, r, "building")
        c.prove(and_(eq(a["n"], pts.n), eq(a["cnt"][0], pts.cnt)), "the tree holds the points of the list")
        c.prove((r is None) if not c.decide(le(1, pts.n)) else (r is not None), "an empty list gives an empty tree")
        if len(sizes) == 2: c.prove(and_(le(sub(sizes[0], sizes[1]), 1), le(sub(sizes[1], sizes[0]), 1)), "a tree built from a list is balanced")
    return Task(f"build[{k}d]", body, f"{k} dimensions, lists of any length", fallback="histories", setup=load)


def collect(k):
    def body(c, ns):
        T, A, tree, (q,) = start(c, ns, k)
        t = T() if c.choose(2, "empty") else None
        a = dict(t.abs) if t else zero(c)
        c.cover("precondition is satisfiable")
        class Buf:
            n, cnt = 0, 0
            def append(self, p): self.n, self.cnt = add(self.n, 1), add(self.cnt, one(same(p, q)))
        buf = Buf()
        def contract(s, b):
            c.prove(b is buf, "the buffer is handed down")
            if s is None: return
            e = check(c, s, "recursion")
            b.n, b.cnt = add(b.n, e["n"]), add(b.cnt, e["cnt"][0])
        real = ns["_collect_points"]
        with Sub(ns, None, _collect_points=contract): real(t, buf)
        c.prove(and_(eq(buf.n, a["n"]), eq(buf.cnt, a["cnt"][0])), "every point of the subtree is collected once")
        log = []
        with Sub(ns, None, _collect_points=lambda s, b: log.append((s, b)), _build_balanced=lambda b, d=0: (b, d)):
            r = tree._rebalance_subtree(t, 3)
            c.prove(r is None if t is None else len(log) == 1 and log[0][0] is t and r[0] is log[0][1] and r[1] == 3, "a subtree is rebuilt from its points")
        p = [(1, 2), (0, 5), (3, 3)][:c.choose(4, "points")]
        old = list(p)
        def built(pts, depth=0):
            c.prove(pts is not p and list(pts) == old and depth == 0, "the tree is built from a copy of the points")
            pts.clear()
            return "root"
        with Sub(ns, None, _build_balanced=built): g = A(p)
        c.prove(g.root == ("root" if p else None) and p == old, "a tree is built from the points, which are left alone")
    return Task(f"collect[{k}d]", body, f"{k} dimensions, any size", setup=load)


def histories(m):
    """real trees on a small grid (bounded)"""
    def body(c, ns):
        A = ns["BalancedKDTree"]
        P = [(c.choose(2, "x"), c.choose(3, "y")) for _ in range(m)]
        t = A(P[:m - 1])
        t.insert(P[-1])
        want = list(P)
        d = (c.choose(2, "x"), c.choose(3, "y"))
        t.delete(d)
        if d in want: want.remove(d)
        got = []
        ns["_collect_points"](t.root, got)
        c.prove(sorted(got) == sorted(want), "the tree holds the inserted points that were not deleted")
        D = lambda p: (p[0] - d[0]) ** 2 + (p[1] - d[1]) ** 2
        n = t.nearest_neighbor(d)
        c.prove(n is None if not want else D(n) == min(map(D, want)), "the nearest point is found")
        r = t.k_nearest_neighbors(d, 2)
        c.prove([D(p) for p in r] == sorted(map(D, want))[:2], "the k nearest points are found")
    return Task(f"histories[{m}]", body, f"{m} points of a 2x3 grid", setup=load)


TASKS = [f(k) for k in (2, 3) for f in (distance, insert, find_min, delete, nearest, k_nearest, build, collect)] + [unbalanced()] + [results(m) for m in (1, 2, 3)] + [histories(3)]
