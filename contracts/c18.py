"""Union-find.  Proved for any number of elements and any history: `find` and `union` are verified against a representation
invariant over a ghost partition R (element -> representative) and a ghost height H (termination); the recursive call of find is
taken by its own contract.  group_tuples over all equality patterns of a few tuples (bounded)."""
from .lib import *

LEVEL = "proof"
M = "mmcore.ds.union_find"
FUNCTIONS = [f"{M}:{f}" for f in ("UnionFind.__init__", "UnionFind.find", "UnionFind.union", "group_tuples")]
ASSUMPTIONS = ["elements are 0..n-1 (no negative list indices)"]


def load(): return prog((M,)).load(M)


class Ghost:
    """partition R, height H as functions of the element; fresh versions are fresh function symbols"""
    def __init__(self, c, tag): self.R, self.H = (lambda i: X.uf("R" + tag, i, sort="I")), (lambda i: X.uf("H" + tag, i, sort="I"))


def sel(a, i): return X.select(a, i)


def wf(p, g, n, i):
    """the representation invariant at element i"""
    pi, ri = sel(p, i), g.R(i)
    return and_(le(0, pi), lt(pi, n), le(0, ri), lt(ri, n), eq(g.R(pi), ri), eq(g.R(ri), ri), eq(sel(p, ri), ri), le(0, g.H(i)),
                or_(eq(pi, i), lt(g.H(pi), g.H(i))), X.iff(eq(ri, i), eq(g.H(i), 0)), implies(eq(pi, i), eq(ri, i)))


def at(c, p, g, n, *xs):
    """instances of the invariant (which holds for every element) at the terms the argument is about"""
    for x in xs: c.assume(implies(and_(le(0, x), lt(x, n)), wf(p, g, n, x)))


def state(c, ns):
    n = integer(c, "n")
    c.assume(lt(0, n))
    u = ns["UnionFind"].__new__(ns["UnionFind"])
    u.parent = rt.SMV(rt.SStore("parent", n, (), "AI"))
    u.rank = rt.SMV(rt.SStore("rank", n, (), "AI"))
    return n, u


def element(c, n, name):
    x = integer(c, name)
    c.assume(and_(le(0, x), lt(x, n)))
    return x


def arr(o): return o.store.arr[()]


class FindContract:
    """find(y): same partition and heights, the invariant again, result R(y); parents may change"""
    def __init__(self, g, n, below=None): self.g, self.n, self.below, self.calls = g, n, below, 0

    def __call__(self, u, y):
        c = X.HOOK["ctx"]
        c.prove(and_(le(0, y), lt(y, self.n)), "find is called with an element")
        if self.below is not None: c.prove(lt(self.g.H(y), self.g.H(self.below)), "the recursion of find terminates")
        p = arr(u.parent)
        k = integer(c, "ghost")
        c.prove(implies(and_(le(0, k), lt(k, self.n)), wf(p, self.g, self.n, k)), "find is called on a well-formed forest")
        u.parent.store.arr[()] = q = X.fresh("parent", "AI")
        for z in c.terms: at(c, q, self.g, self.n, z, self.g.R(z), sel(q, z))
        return self.g.R(y)


def find():
    def body(c, ns):
        n, u = state(c, ns)
        g = Ghost(c, "")
        x, k = element(c, n, "x"), element(c, n, "ghost")
        p = arr(u.parent)
        c.terms = [x, k, sel(p, x)]
        for z in c.terms: at(c, p, g, n, z, g.R(z), sel(p, z))
        c.cover("precondition is satisfiable")
        real = ns["UnionFind"].find
        rank = arr(u.rank)
        try:
            ns["UnionFind"].find = lambda s, y: FindContract(g, n, x)(s, y)
            r = real(u, x)
        finally: ns["UnionFind"].find = real
        c.prove(eq(r, g.R(x)), "find returns the representative of the element")
        q = arr(u.parent)
        c.prove(wf(q, g, n, k), "the forest stays well-formed and keeps its partition")
        c.prove(arr(u.rank) is rank, "find changes no rank")
    return Task("find[any number of elements]", body, "all", fallback="histories", setup=load)


def union():
    def body(c, ns):
        n, u = state(c, ns)
        g = Ghost(c, "")
        x, y, k = element(c, n, "x"), element(c, n, "y"), element(c, n, "ghost")
        p = arr(u.parent)
        c.terms = [x, y, k]
        for z in c.terms: at(c, p, g, n, z, g.R(z), sel(p, z))
        c.cover("precondition is satisfiable")
        real = ns["UnionFind"].find
        try:
            ns["UnionFind"].find = lambda s, z: FindContract(g, n)(s, z)
            ns["UnionFind"].union(u, x, y)
        finally: ns["UnionFind"].find = real
        q = arr(u.parent)
        a, b = g.R(x), g.R(y)
        if c.decide(eq(a, b)):
            c.prove(wf(q, g, n, k), "joining two elements of one set changes nothing")
            return
        top, low = (a, b) if c.decide(eq(sel(q, b), a)) else (b, a)
        h = Ghost(c, "'")
        h.R = lambda i: X.ite(eq(g.R(i), low), top, g.R(i))
        h.H = lambda i: X.ite(eq(g.R(i), low), add(g.H(i), 1), g.H(i))
        c.prove(wf(q, h, n, k), "afterwards the two sets are one, and every other set is as before")
    return Task("union[any number of elements]", body, "all", fallback="histories", setup=load)


def start():
    def body(c, ns):
        n = c.choose(7, "n")
        u = ns["UnionFind"](n)
        for i in range(n): c.prove(u.find(i) == i, "at first every element is its own set")
        c.prove(len(u.parent) == n and len(u.rank) == n, "one entry per element")
    return Task("new", body, "up to 6 elements", setup=load)


def histories(n, m):
    def body(c, ns):
        u = ns["UnionFind"](n)
        part = list(range(n))
        for k in range(m):
            x, y = c.choose(n, f"x{k}"), c.choose(n, f"y{k}")
            u.union(x, y)
            a, b = part[x], part[y]
            part = [a if v == b else v for v in part]
        for i in range(n):
            for j in range(n): c.prove((u.find(i) == u.find(j)) == (part[i] == part[j]), "two elements share a representative exactly when they were joined")
    return Task(f"histories[n={n},unions={m}]", body, f"{n} elements, {m} unions", setup=load)


def groups(shape):
    """tuples of the given lengths over all equality patterns of their entries"""
    def body(c, ns):
        m, ts, names = 0, [], 0
        for w in shape:
            t = []
            for _ in range(w):
                v = c.choose(names + 1, "entry")
                names = max(names, v + 1)
                t.append(v * 7)
            ts.append(tuple(t))
        r = ns["group_tuples"](list(ts))
        part = list(range(len(ts)))
        for i in range(len(ts)):
            for j in range(i):
                if set(ts[i]) & set(ts[j]): part = [part[j] if v == part[i] else v for v in part]
        want = [[t for t, q in zip(ts, part) if q == v] for v in dict.fromkeys(part)]
        c.prove(sorted(map(sorted, r)) == sorted(map(sorted, want)), "groups are the connected components")
    return Task(f"group_tuples[{shape}]", body, f"tuples of lengths {shape}", setup=load)


TASKS = [find(), union(), start(), histories(3, 3), groups((2, 2, 2)), groups((1, 3, 2)), groups((2, 1, 0, 2))]
