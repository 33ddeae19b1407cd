"""AVL tree.  insert, delete and search are verified for a tree of any size: subtrees are abstract (height, key bounds, membership
and data of an arbitrary key q) and are opened one level only when the code looks inside; recursive calls go by the contract being
proved (with decreasing height), the descent to the successor and the search loop by invariants.  Traversal over short histories."""
from .lib import *

LEVEL = "proof"
M = "mmcore.ds.tree.avl"
FUNCTIONS = [f"{M}:AVL.{f}" for f in ("__init__", "insert", "delete", "search", "rebalance", "update_heights", "update_balances", "rotate_left", "rotate_right", "inorder_traverse", "__getitem__", "__setitem__", "__delitem__")] + [f"{M}:AVLNode.__init__"]
ASSUMPTIONS = ["keys are totally ordered numbers"]


def b_(v): return v if X.is_e(v) else bool(v)


def world(c, ns):
    """class of symbolic trees over the extracted AVL class"""
    A, Node = ns["AVL"], ns["AVLNode"]
    q = c.q = real(c, "q")

    class T(A):
        def __init__(self, h, lo, hi, has=None, val=None):
            self.height, self.balance, self.bounds = h, X.fresh("balance", "I"), (lo, hi)
            self.abs = dict(h=h, lo=lo, hi=hi, has=X.fresh("has", "B") if has is None else has, val=X.fresh("val", "I") if val is None else val, b=self.balance)
            c.assume(and_(le(-1, h), le(-1, self.balance), le(self.balance, 1)))
            c.assume(implies(self.abs["has"], and_(lt(lo, q), lt(q, hi))))
            c.assume(implies(eq(h, -1), and_(not_(self.abs["has"]), eq(self.balance, 0))))

        @property
        def node(self):
            if self.abs is not None:
                a, self.abs = self.abs, None
                if c.decide(eq(a["h"], -1)): self.opened = None
                else:
                    k = X.fresh("key")
                    c.assume(and_(lt(a["lo"], k), lt(k, a["hi"])))
                    n = Node.__new__(Node)
                    n.key, n.data = k, X.fresh("data", "I")
                    hl, hr = X.fresh("hl", "I"), X.fresh("hr", "I")
                    n.left, n.right = T(hl, a["lo"], k), T(hr, k, a["hi"])
                    c.assume(and_(eq(a["h"], add(1, X.max_(hl, hr))), eq(a["b"], sub(hl, hr))))
                    L, R = n.left.abs, n.right.abs
                    c.assume(X.iff(a["has"], or_(eq(q, k), L["has"], R["has"])))
                    c.assume(implies(a["has"], eq(a["val"], X.ite(eq(q, k), n.data, X.ite(L["has"], L["val"], R["val"])))))
                    self.opened = n
            return self.opened
        @node.setter
        def node(self, n): self.abs, self.opened = None, n

        def take(self):
            """the abstract value before a contract call: the subtree must be a valid tree"""
            lo, hi = (self.abs["lo"], self.abs["hi"]) if self.abs else self.bounds
            return self.abs or check(c, self, lo, hi, "a subtree handed to a recursive call")
        def become(self, h, lo, hi, has, val):
            T.__init__(self, h, lo, hi, has, val)
        def insert(self, key, data=None):
            a = self.take()
            c.prove(lt(a["h"], c.h0), "the recursion of insert terminates")
            c.prove(and_(lt(a["lo"], key), lt(key, a["hi"])), "insert goes to the side of the key")
            h = X.fresh("h'", "I")
            c.assume(or_(eq(h, a["h"]), eq(h, add(a["h"], 1))))
            c.assume(implies(eq(a["h"], -1), eq(h, 0)))
            self.become(h, a["lo"], a["hi"], or_(a["has"], eq(q, key)), X.ite(a["has"], a["val"], data))
        def delete(self, key):
            a = self.take()
            c.prove(lt(a["h"], c.h0), "the recursion of delete terminates")
            h = X.fresh("h'", "I")
            c.assume(or_(eq(h, a["h"]), and_(eq(h, sub(a["h"], 1)), le(0, a["h"]))))
            has = and_(a["has"], not_(eq(q, key)))
            lo = a["lo"]
            if getattr(c, "least", None) is not None:       # the smallest key of this subtree is removed: q is arbitrary
                c.prove(implies(has, lt(c.least, q)), "the successor is the smallest key of the right subtree")
                c.prove(eq(key, c.least), "the successor is removed from the right subtree")
                lo = c.least
            self.become(h, lo, a["hi"], has, a["val"])
        def update_heights(self, recursive=True):
            if self.abs is None: A.update_heights(self, recursive)      # a valid tree is unchanged: own task
        def update_balances(self, recursive=True):
            if self.abs is None: A.update_balances(self, recursive)
    return T


def check(c, t, lo, hi, what):
    """t is a valid AVL tree with keys in (lo, hi); its abstract value"""
    a = getattr(t, "abs", None)
    if a is not None:
        c.prove(and_(le(lo, a["lo"]), le(a["hi"], hi)), what + ": keys are in order")
        c.prove(and_(eq(t.height, a["h"]), eq(t.balance, a["b"])), what + ": stored height and balance are right")
        return a
    n = t.node
    if n is None:
        c.prove(and_(eq(t.height, -1), eq(t.balance, 0)), what + ": stored height and balance are right")
        return dict(h=-1, lo=lo, hi=hi, has=False, val=0, b=0)
    c.prove(and_(lt(lo, n.key), lt(n.key, hi)), what + ": keys are in order")
    L, R = check(c, n.left, lo, n.key, what), check(c, n.right, n.key, hi, what)
    h, b = add(1, X.max_(L["h"], R["h"])), sub(L["h"], R["h"])
    c.prove(and_(eq(t.height, h), eq(t.balance, b)), what + ": stored height and balance are right")
    c.prove(and_(le(-1, b), le(b, 1)), what + ": heights of siblings differ by one at most")
    return dict(h=h, lo=lo, hi=hi, has=or_(eq(c.q, n.key), L["has"], R["has"]), val=X.ite(eq(c.q, n.key), n.data, X.ite(L["has"], L["val"], R["val"])), b=b)


def root(c, ns):
    T = world(c, ns)
    lo, hi, h = real(c, "lo"), real(c, "hi"), integer(c, "h")
    c.h0 = h
    t = T(h, lo, hi)
    return T, t, dict(t.abs), lo, hi


def load(specs=None): return prog((M,), loopspecs={M: specs} if specs else None).load(M)


def insert():
    def body(c, ns):
        T, t, a, lo, hi = root(c, ns)
        k, d = real(c, "key"), integer(c, "data")
        c.assume(and_(lt(lo, k), lt(k, hi)))
        c.cover("precondition is satisfiable")
        ns["AVL"].insert(t, k, d)
        r = check(c, t, lo, hi, "insert")
        c.prove(X.iff(b_(r["has"]), or_(a["has"], eq(c.q, k))), "insert: the keys are the old ones and the new one")
        c.prove(implies(b_(r["has"]), eq(r["val"], X.ite(a["has"], a["val"], d))), "insert: every key has its own data")
        c.prove(or_(eq(r["h"], a["h"]), eq(r["h"], add(a["h"], 1))), "insert: the tree grows by one level at most")
        c.prove(implies(eq(a["h"], -1), eq(r["h"], 0)), "insert into an empty tree gives a single node")
    return Task("insert", body, "all", fallback="histories", setup=load)


class Descent:
    """successor is a node on the left spine of the right subtree: everything smaller lies in its left subtree"""
    modifies = ()
    def havoc(self, c, v, old, env):
        if v != "successor": return NotImplemented
        n = type(old).__new__(type(old))
        n.key, n.data = X.fresh("key"), X.fresh("data", "I")
        T, R = c.T, c.R
        n.left, n.right = T(X.fresh("hl", "I"), R["lo"], n.key), T(X.fresh("hr", "I"), n.key, R["hi"])
        return n
    def facts(self, c, n):
        R, L = c.R, (n.left.abs or check(c, n.left, c.R["lo"], n.key, "left spine"))
        yield "the successor is in the right subtree", and_(lt(R["lo"], n.key), lt(n.key, R["hi"]), implies(eq(c.q, n.key), and_(R["has"], eq(R["val"], n.data))))
        yield "smaller keys are to the left of it", implies(and_(R["has"], lt(c.q, n.key)), L["has"])
        yield "what is to the left of it is in the right subtree", implies(L["has"], and_(R["has"], eq(R["val"], L["val"])))
    def inv(self, c, e, ph):
        n = e["successor"]
        if ph == "enter":
            c.R = check(c, e["self"].node.right, e["self"].node.key, c.hi, "right subtree")
        yield from self.facts(c, n)
        c.least = n.key
    def decreases(self, c, e): yield "the descent terminates", lt(c.spine(e["successor"]), c.spine0)
    def start(self, c, e): c.spine0 = c.spine(e["successor"])


def delete():
    def body(c, ns):
        T, t, a, lo, hi = root(c, ns)
        c.T, c.hi, c.least = T, hi, None
        c.spine = lambda n: n.left.abs["h"] if n.left.abs else n.left.height
        k = real(c, "key")
        c.cover("precondition is satisfiable")
        ns["AVL"].delete(t, k)
        r = check(c, t, lo, hi, "delete")
        c.prove(X.iff(b_(r["has"]), and_(a["has"], not_(eq(c.q, k)))), "delete: the keys are the old ones without the deleted one")
        c.prove(implies(b_(r["has"]), eq(r["val"], a["val"])), "delete: every key keeps its own data")
        c.prove(or_(eq(r["h"], a["h"]), and_(eq(r["h"], sub(a["h"], 1)), le(0, a["h"]))), "delete: the tree shrinks by one level at most")
    return Task("delete", body, "all", fallback="histories", setup=lambda: load({"AVL.delete": {0: Descent()}}))


class Search:
    """the searched key is in the tree exactly when it is in the subtree of the current node"""
    modifies = ()
    def havoc(self, c, v, old, env):
        if v != "current": return NotImplemented
        if c.choose(2, "current") or c.any is None: return None
        k = X.fresh("key")
        n = type(c.any).__new__(type(c.any))
        n.key, n.data = k, X.fresh("data", "I")
        n.left, n.right = c.T(X.fresh("hl", "I"), c.lo, k), c.T(X.fresh("hr", "I"), k, c.hi)
        return n
    def inv(self, c, e, ph):
        n, a = e["current"], c.whole
        if n is None: yield "the key is not in the tree", not_(a["has"]); return
        L, R = (s.abs or check(c, s, c.lo, c.hi, "subtree") for s in (n.left, n.right))
        if ph != "assume": yield "the subtree is in order", and_(le(L["hi"], n.key), le(n.key, R["lo"]))
        has = or_(eq(c.q, n.key), L["has"], R["has"])
        yield "the key is in the current subtree when it is in the tree", X.iff(a["has"], has)
        yield "with the same data", implies(has, eq(a["val"], X.ite(eq(c.q, n.key), n.data, X.ite(L["has"], L["val"], R["val"]))))
    def start(self, c, e):
        if not c.feasible(var("any!", "B")): raise sym.PathEnd()
        c.size0 = self.size(e["current"])
    def size(self, n): return -1 if n is None else X.max_(n.left.height, n.right.height) + 1
    def decreases(self, c, e): yield "the search terminates", lt(self.size(e["current"]), c.size0)


def search():
    def body(c, ns):
        T, t, a, lo, hi = root(c, ns)
        c.T, c.lo, c.hi, c.whole = T, lo, hi, a
        c.any = t.node
        c.cover("precondition is satisfiable")
        k = c.choose(2, "form")
        if k == 0:
            r = ns["AVL"].search(t, c.q)
            c.prove(X.iff(a["has"], r is not None), "search finds exactly the keys of the tree")
            if r is not None: c.prove(and_(eq(r.key, c.q), eq(r.data, a["val"])), "search returns the node of the key")
        else:
            c.assume(a["has"])
            c.prove(eq(ns["AVL"].__getitem__(t, c.q), a["val"]), "tree[key] is the data of the key")
    return Task("search", body, "all", fallback="histories", setup=lambda: load({"AVL.search": {0: Search()}}))


def updates():
    def body(c, ns):
        T, t, a, lo, hi = root(c, ns)
        n = t.node
        h, b = t.height, t.balance
        r = c.choose(2, "recursive") == 0
        ns["AVL"].update_heights(t, r)
        ns["AVL"].update_balances(t, r)
        c.prove(and_(eq(t.height, a["h"]), eq(t.balance, a["b"])), "updating heights and balances leaves a valid tree as it is")
        check(c, t, lo, hi, "update")
    return Task("updates", body, "all", setup=load)


def histories(keys, m):
    """real trees: every order of insertions, then one deletion (bounded)"""
    def body(c, ns):
        t, want = ns["AVL"](), {}
        for i in range(m):
            k = c.choose(keys, "key")
            want.setdefault(k, 10 + i)
            t.insert(k, 10 + i)
        k = c.choose(keys + 1, "delete")
        f = c.choose(3, "form")
        if f == 0: t.delete(k); want.pop(k, None)
        elif f == 1: t[k] = 77; want[k] = 77
        else: del t[k]; want.pop(k, None)
        c.prove([(n.key, n.data) for n in t.inorder_traverse()] == sorted(want.items()), "in-order traversal gives the keys in order with their data")
        c.prove(all((t.search(k) is not None) == (k in want) for k in range(keys + 1)), "search finds exactly the keys of the tree")
        def ok(u):
            if u.node is None: return u.height == -1 and u.balance == 0
            l, r = u.node.left, u.node.right
            return ok(l) and ok(r) and u.height == 1 + max(l.height, r.height) and u.balance == l.height - r.height and abs(u.balance) <= 1
        c.prove(ok(t), "heights and balances are right")
    return Task(f"histories[keys={keys},insertions={m}]", body, f"{m} insertions of {keys} keys and one deletion or assignment", setup=load)


TASKS = [insert(), delete(), search(), updates(), histories(4, 4), histories(3, 3)]
