"""Doubly linked circular list, for any length: each operation is executed on a symbolic heap that holds the list as a ghost
sequence at(0..n-1) of distinct nodes; afterwards the heap holds exactly the sequence the operation promises, linked both ways (at an
arbitrary position).  Search and walk loops by loop invariants.  Iteration and construction over short lists (bounded)."""
from .heap import *

LEVEL = "proof"
M = "mmcore.ds.cdll.cdll"
OPS = ("append", "append_node", "insert", "remove", "remove_by_index", "index", "get", "get_node", "replace_node", "size", "__len__", "__contains__", "__getitem__", "__setitem__", "__delitem__")
FUNCTIONS = [f"{M}:CDLL.{f}" for f in OPS + ("__init__", "__iter__", "iter_nodes", "__repr__")] + ["mmcore.ds.cdll.node:Node.__init__"]
ASSUMPTIONS = ["a node given to append_node or replace_node is not in the list already", "elements are compared by =="]


def AT(k): return X.uf("at", k, sort="I")
def POS(a): return X.uf("pos", a, sort="I")


class Walk:
    """temp has walked `_` (or i) steps from the place it started at"""
    modifies = ()
    def __init__(self, idx="_", search=False): self.idx, self.search = idx, search
    def cur(self, e): return e["temp"] if "temp" in e else e["target"]
    def havoc(self, c, v, old, env): return Ref(c.h, X.fresh("node", "I")) if isinstance(old, Ref) else NotImplemented
    def inv(self, c, e, ph):
        i = e[self.idx]
        if self.search:
            yield "the walk is at its step", eq(self.cur(e)._id, AT(X.ite(eq(i, c.n), 0, i)))
            yield "no earlier element is equal", implies(and_(le(0, c.g), lt(c.g, i)), not_(eq(c.old["data"](AT(c.g)), c.data)))
        else: yield "the walk is at its step", eq(self.cur(e)._id, c.walk(i))
    def start(self, c, e):
        c.inst(e[self.idx])
        c.found = e[self.idx]



def load(search=False):
    w, s = Walk(), Walk("i", True)
    p = prog(loopspecs={M: {"CDLL.insert": {0: w}, "CDLL.remove_by_index": {0: w}, "CDLL.get": {0: w}, "CDLL.get_node": {0: w}, "CDLL.replace_node": {0: w}, "CDLL.remove": {0: s}, "CDLL.index": {0: s}}}, mods=())
    return p.load(M)


def world(c, ns):
    """a list of n >= 1 nodes at AT(0..n-1) in a heap"""
    n = integer(c, "n")
    c.assume(lt(0, n))
    h = Heap(("next", "previous"), ("data",))
    c.h, c.n = h, n
    c.old = {f: (lambda a: (lambda i: X.select(a, i)))(h.fields[f]) for f in h.fields}
    c.g = integer(c, "ghost")
    c.walk = AT

    def inst(*ks):
        for k in ks:
            for j in (k, sub(k, 1), add(k, 1)):
                s = X.ite(eq(add(j, 1), n), 0, add(j, 1))
                c.assume(implies(and_(le(0, j), lt(j, n)), and_(eq(POS(AT(j)), j), eq(POS(AT(s)), s), eq(c.old["next"](AT(j)), AT(s)), eq(c.old["previous"](AT(s)), AT(j)))))
    c.inst = inst
    inst(c.g, 0, sub(n, 1))
    Node, base = rt.PROGRAM.load("mmcore.ds.cdll.node")["Node"], ns["CDLL"]
    c.log = []

    def make(*a):
        i = X.fresh("new", "I")
        c.assume(eq(POS(i), -1))
        r = Ref(h, i)
        Node.__init__(r, *a)
        c.made = r
        return r

    class L(base):
        nodetype = staticmethod(make)
        def insert_hook(self, node): c.log.append(("insert", node))
        def remove_hook(self, node): c.log.append(("remove", node))
    l = L.__new__(L)
    l.head, l.count = Ref(h, AT(0)), n
    c.make = make
    return l


def holds(c, l, at, n, data, what):
    """the list is the sequence at(0..n-1) with the given data, linked both ways"""
    g = c.g
    c.prove(eq(l.count, n), what + ": number of elements")
    c.prove(isinstance(l.head, Ref) and eq(l.head._id, at(0)), what + ": first element")
    if not isinstance(l.head, Ref): return
    s = X.ite(eq(add(g, 1), n), 0, add(g, 1))
    F = c.h.fields
    inr = and_(le(0, g), lt(g, n))
    c.prove(implies(inr, eq(X.select(F["next"], at(g)), at(s))), what + ": every element is linked to the next one")
    c.prove(implies(inr, eq(X.select(F["previous"], at(s)), at(g))), what + ": every element is linked to the one before")
    c.prove(implies(inr, eq(X.select(F["data"], at(g)), data(g))), what + ": the elements are the expected ones")


def hooks(c, *want): c.prove(len(c.log) == len(want) and all(a == b and x == y for (a, x), (b, y) in zip(c.log, want)), "the hook is called once with the node")


def refused(c, f, exc=ValueError):
    try: f()
    except exc: return True
    return False


def untouched(c, l, what):
    holds(c, l, AT, c.n, lambda k: c.old["data"](AT(k)), what)
    for f in c.h.fields: c.prove(c.h.fields[f] is c.start[f], what + ": no node is changed")


def task(name, op, **kw):
    def body(c, ns):
        l = world(c, ns)
        c.start = dict(c.h.fields)
        op(c, ns, l)
    return Task(name, body, "all", fallback="short lists", setup=load, **kw)


def olddata(c, k): return c.old["data"](AT(k))


def inserted(c, l, i, node, v, what):
    at = lambda k: X.ite(lt(k, i), AT(k), X.ite(eq(k, i), node._id, AT(sub(k, 1))))
    holds(c, l, at, add(c.n, 1), lambda k: X.ite(lt(k, i), olddata(c, k), X.ite(eq(k, i), v, olddata(c, sub(k, 1)))), what)
    hooks(c, ("insert", node))


def removed(c, l, i, what):
    at = lambda k: X.ite(lt(k, i), AT(k), AT(add(k, 1)))
    if c.decide(eq(c.n, 1)):
        c.prove(l.head is None and l.count == 0 if not X.is_e(l.count) else and_(l.head is None, eq(l.count, 0)), what + ": the only element leaves an empty list")
    else: holds(c, l, at, sub(c.n, 1), lambda k: c.old["data"](at(k)), what)
    hooks(c, ("remove", Ref(c.h, AT(i))))


def op_insert(c, ns, l):
    v, i = integer(c, "v"), integer(c, "index")
    c.inst(i)
    first = c.decide(eq(i, 0))
    c.walk = (lambda k: AT(sub(c.n, 1))) if first else AT
    c.cover("precondition is satisfiable")
    if refused(c, lambda: l.insert(v, i)):
        c.prove(or_(lt(i, 0), lt(c.n, i)), "insert refuses only positions outside the list")
        untouched(c, l, "refused insert")
    else:
        c.prove(and_(le(0, i), le(i, c.n)), "insert refuses positions outside the list")
        inserted(c, l, i, c.made, v, "insert")


def op_append(c, ns, l):
    v = integer(c, "v")
    if c.choose(2, "as node"):
        l.append(v)
        node = c.made
    else:
        node = c.make(v)
        l.append_node(node)
    inserted(c, l, c.n, node, v, "append")


def op_remove_index(c, ns, l):
    i = integer(c, "index")
    c.inst(i)
    f = l.remove_by_index if c.choose(2, "form") else l.__delitem__
    if refused(c, lambda: f(i)):
        c.prove(or_(lt(i, 0), le(c.n, i)), "remove_by_index refuses only positions outside the list")
        untouched(c, l, "refused removal")
    else:
        c.prove(and_(le(0, i), lt(i, c.n)), "remove_by_index refuses positions outside the list")
        removed(c, l, i, "remove_by_index")


def op_remove(c, ns, l):
    c.data = integer(c, "v")
    if refused(c, lambda: l.remove(c.data)):
        c.prove(implies(and_(le(0, c.g), lt(c.g, c.n)), not_(eq(olddata(c, c.g), c.data))), "remove refuses only missing elements")
        untouched(c, l, "refused removal")
    else:
        i = c.found
        c.prove(and_(le(0, i), lt(i, c.n), eq(olddata(c, i), c.data)), "remove removes an equal element")
        c.prove(implies(and_(le(0, c.g), lt(c.g, i)), not_(eq(olddata(c, c.g), c.data))), "remove removes the first equal element")
        removed(c, l, i, "remove")


def op_index(c, ns, l):
    c.data = integer(c, "v")
    k = c.choose(2, "form")
    r = l.index(c.data) if k else (c.data in l)
    hit = (r is not None) if k else r
    if hit:
        i = r if k else c.found
        c.prove(and_(le(0, i), lt(i, c.n), eq(olddata(c, i), c.data)), "index finds an equal element")
        c.prove(implies(and_(le(0, c.g), lt(c.g, i)), not_(eq(olddata(c, c.g), c.data))), "index finds the first equal element")
    else: c.prove(implies(and_(le(0, c.g), lt(c.g, c.n)), not_(eq(olddata(c, c.g), c.data))), "index gives None only for missing elements")
    untouched(c, l, "index")


def op_get(c, ns, l):
    i, v = integer(c, "index"), integer(c, "v")
    k = c.choose(4, "form")
    j = X.ite(lt(i, 0), add(i, c.n), i) if k in (0, 1) else i
    c.inst(i, j)
    got = []
    f = (lambda: got.append(l.get(i)), lambda: got.append(l[i]), lambda: got.append(l.get_node(i)), lambda: l.__setitem__(i, v))[k]
    if refused(c, f):
        c.prove(or_(lt(j, 0), le(c.n, j)), "get refuses only positions outside the list")
        return untouched(c, l, "refused get")
    c.prove(and_(le(0, j), lt(j, c.n)), "get refuses positions outside the list")
    if k < 2: c.prove(eq(got[0], olddata(c, j)), "get returns the element at the position")
    if k == 2: c.prove(eq(got[0]._id, AT(j)), "get_node returns the node at the position")
    if k == 3: holds(c, l, AT, c.n, lambda q: X.ite(eq(q, i), v, olddata(c, q)), "assignment to a position")
    else: untouched(c, l, "get")


def op_replace(c, ns, l):
    i, v = integer(c, "index"), integer(c, "v")
    c.inst(i)
    node = c.make(v)
    c.start = dict(c.h.fields)
    if refused(c, lambda: l.replace_node(i, node)):
        c.prove(or_(lt(i, 0), le(c.n, i)), "replace_node refuses only positions outside the list")
        return untouched(c, l, "refused replacement")
    c.prove(and_(le(0, i), lt(i, c.n)), "replace_node refuses positions outside the list")
    holds(c, l, lambda k: X.ite(eq(k, i), node._id, AT(k)), c.n, lambda k: X.ite(eq(k, i), v, olddata(c, k)), "replace_node")


def op_size(c, ns, l):
    c.prove(and_(eq(l.size(), c.n), eq(l.count, c.n)), "size is the number of elements")
    untouched(c, l, "size")


def short(m):
    """the real list class over short lists: any operation, then iteration both ways (bounded)"""
    def body(c, ns):
        n = c.choose(m + 1, "n")
        want = [7 + i % 2 for i in range(n)]
        l = ns["CDLL"](want) if c.choose(2, "constructed") else ns["CDLL"]()
        if not l.count:
            for v in want: l.append(v)
        k = c.choose(6, "operation")
        if k == 0:
            i = c.choose(n + 1, "at")
            l.insert(5, i); want.insert(i, 5)
        if k == 1 and n:
            i = c.choose(n, "at")
            l.remove_by_index(i); del want[i]
        if k == 2:
            v = c.choose(3, "v") + 6
            if v in want: l.remove(v); want.remove(v)
            else: c.prove(refused(c, lambda: l.remove(v)), "remove refuses a missing element")
        if k == 3 and n:
            i = c.choose(n, "at")
            l.replace_node(i, ns["Node"](5)); want[i] = 5
        if k == 4: l.append_node(ns["Node"](5)); want.append(5)
        if k == 5 and n: i = c.choose(n, "at"); l[i] = 5; want[i] = 5
        c.prove(list(l) == want and [x.data for x in l.iter_nodes()] == want, "iteration gives the elements in order")
        c.prove(len(l) == l.size() == len(want), "length")
        back, x = [], l.head
        for _ in want: x = x.previous; back.append(x.data)
        c.prove(back == want[::-1], "walking backwards gives the elements in reverse")
        c.prove([l.index(v) for v in (5, 7, 8)] == [want.index(v) if v in want else None for v in (5, 7, 8)], "index")
        c.prove(repr(l).endswith("Empty" if not want else " -> ".join(map(str, want))), "text form")
    return Task(f"short lists[n<={m}]", body, f"up to {m} elements", setup=lambda: prog((M,)).load(M))


TASKS = [task("insert", op_insert), task("append", op_append), task("remove_by_index", op_remove_index), task("remove", op_remove), task("index", op_index),
         task("get", op_get), task("replace_node", op_replace), task("size", op_size), short(4)]
