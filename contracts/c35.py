"""Implicit shapes: union, intersection and difference are the set operations on arbitrary operands (any nesting: the operands are
only known by their own contract), gradients, cells of the quad and oct trees (induction over the tree), circles."""
from .lib import *
import itertools

LEVEL = "proof"
M = "mmcore.geom.implicit.implicit"
T = "mmcore.geom.implicit.tree."
CI = "mmcore.geom.circle"
FUNCTIONS = [f"{M}:{c}{d}.{m}" for d in ("2D", "3D") for c in ("Union", "Intersection", "Sub") for m in ("__init__", "implicit", "bounds")] + [
    f"{M}:{c}{d}.solve_bounds" for d in ("2D", "3D") for c in ("Union", "Intersection")] + [
    f"{M}:Implicit{d}.{m}" for d in ("2D", "3D") for m in ("gradient", "union", "intersection", "substraction", "__and__", "__or__", "__add__", "__sub__", "build_tree")] + [
    f"{M}:{m}" for m in ("op_union", "op_intersection", "op_subtraction", "op_xor", "op_inv", "tangent2d", "normal_from_function2d", "normal_from_function3d", "Implicit2D.point_inside", "Implicit2D.tangent", "Implicit.__call__", "Implicit.vimplicit", "Implicit.tree", "Implicit.v0")] + [
    T + m for m in ("collapse2d:build_tree2d", "collapse2d:collapse2d", "cbuild_tree3d:build_tree3d", "cbuild_tree3d:_build_tree3d", "collapse3d:collapse3d")] + [
    f"{T}tree{d}d:ImplicitTree{d}D.{m}" for d in (2, 3) for m in ("build_tree", "collapse", "clear", "build", "build_node")] + [
    f"{CI}:{m}" for m in ("Circle2D.implicit", "Circle2D.gradient", "Circle2D.evaluate", "Circle2D.point_on_curve", "circle_intersection2d", "tangents_lines")]
ASSUMPTIONS = ["an operand's bounds contain the part of it that is asked about", "np.isclose is |a-b| <= atol + rtol |b|", "cos and sin satisfy cos^2 + sin^2 = 1 and the sum formulas; arccos and arctan2 are their inverses"]
TRUSTED = ["numpy.vectorize with signature (i)->() maps a function over rows"]


def load():
    ns = prog((M,)).load(M)
    ns["fdm"] = lambda f, *a, **k: None  # derivative along the diagonal, not used here
    ns["min"], ns["max"] = (lambda a, b: X.min_(a, b)), (lambda a, b: X.max_(a, b))
    return ns


def pt(c, name, k): return vec(c, name, k)


def shape(c, ns, name, k, f=None, box=None):
    """an implicit shape that is known by its values and its bounds only"""
    base = ns[f"Implicit{k}D"]
    lo, hi = box or (tuple(real(c, f"{name}lo{i}") for i in range(k)), tuple(real(c, f"{name}hi{i}") for i in range(k)))
    if box is None:
        for a, b in zip(lo, hi): c.assume(le(a, b))

    class S(base):
        def implicit(self, v): return f(v) if f else X.uf(name, *list(v), sort="R")
        def bounds(self): return (lo, hi)
    return S()


def inside(p, box): return and_(*[and_(le(a, x), le(x, b)) for x, a, b in zip(p, *box)])


def t_op(k, op):
    def body(c, ns):
        A, B = shape(c, ns, "A", k), shape(c, ns, "B", k)
        p = pt(c, "p", k)
        a, b = X.uf("A", *list(p), sort="R"), X.uf("B", *list(p), sort="R")
        c.cover("precondition is satisfiable")
        R = {"union": lambda: A.union(B), "+": lambda: A + B, "|": lambda: A | B, "intersection": lambda: A.intersection(B), "&": lambda: A & B, "substraction": lambda: A.substraction(B), "-": lambda: A - B,
             "Union": lambda: ns[f"Union{k}D"](A, B), "Intersection": lambda: ns[f"Intersection{k}D"](A, B), "Sub": lambda: ns[f"Sub{k}D"](A, B)}[op]()
        r = R.implicit(p)
        r = r.item() if hasattr(r, "item") else r
        kind = {"+": "U", "|": "U", "&": "I", "-": "S"}.get(op, op[0].upper())
        ins, out = {"U": (or_(lt(a, 0), lt(b, 0)), and_(lt(0, a), lt(0, b))), "I": (and_(lt(a, 0), lt(b, 0)), or_(lt(0, a), lt(0, b))), "S": (and_(lt(a, 0), lt(0, b)), or_(lt(0, a), lt(b, 0)))}[kind]
        c.prove(X.iff(lt(r, 0), ins), "negative inside the set operation")
        c.prove(X.iff(lt(0, r), out), "positive outside the set operation")
        c.prove(eq(r, {"U": X.min_(a, b), "I": X.max_(a, b), "S": X.max_(a, sub(0, b))}[kind]), "the value is the distance of the nearer boundary")
        c.prove(is_op(ns, R, kind, k), "the dimension is kept")
        c.assume(implies(le(a, 0), inside(p, A.bounds())))
        c.assume(implies(le(b, 0), inside(p, B.bounds())))
        lo, hi = R.bounds()
        c.prove(len(lo) == len(hi) == k, "bounds have both corners")
        c.prove(implies(le(r, 0), inside(p, (lo, hi))), "the bounds contain the result")
        c.prove(implies(inside(p, (lo, hi)), or_(inside(p, A.bounds()), *([inside(p, B.bounds())] if kind == "U" else []), *([True] if kind == "U" else []))), "the bounds are no larger than the operands'")
        if kind == "U":
            for i in range(k):
                c.prove(eq(lo[i], X.min_(A.bounds()[0][i], B.bounds()[0][i])), "the bounds are the hull")
                c.prove(eq(hi[i], X.max_(A.bounds()[1][i], B.bounds()[1][i])), "the bounds are the hull")
    return Task(f"set operation[{k}D,{op}]", body, "all", setup=load)


def is_op(ns, R, kind, k): return isinstance(R, ns[f"Implicit{k}D"])


def t_values():
    def body(c, ns):
        a, b = real(c, "a"), real(c, "b")
        c.cover("precondition is satisfiable")
        r = ns["op_xor"](a, b)
        c.prove(X.iff(lt(r, 0), or_(and_(lt(a, 0), lt(0, b)), and_(lt(0, a), lt(b, 0)))), "exclusive or: inside exactly one")
        c.prove(eq(ns["op_inv"](a), sub(0, a)), "complement")
        c.prove(eq(ns["op_subtraction"](a, b), X.max_(sub(0, a), b)), "subtraction takes the first from the second")
        n = vec(c, "n", 2)
        t = ns["tangent2d"](n)
        c.prove(eq(add(mul(t[0], n[0]), mul(t[1], n[1])), 0), "the tangent is orthogonal to the normal")
        c.prove(eq(sub(mul(n[0], t[1]), mul(n[1], t[0])), add(mul(n[0], n[0]), mul(n[1], n[1]))), "the tangent is the normal turned left")
    return Task("operations on values", body, "all", setup=load)


def quad(c, k):
    """a quadratic function and its gradient"""
    co = real(c, "k0")
    l = vec(c, "l", k)
    q = {(i, j): real(c, f"q{i}{j}") for i in range(k) for j in range(i, k)}

    def f(v):
        r = add(co, lin(list(l), list(v)))
        for (i, j), x in q.items(): r = add(r, mul(x, mul(v[i], v[j])))
        return r

    def g(v):
        out = []
        for m in range(k):
            r = l[m]
            for (i, j), x in q.items():
                if i == m: r = add(r, mul(x, v[j]))
                if j == m: r = add(r, mul(x, v[i]))
            out.append(r)
        return out
    return f, g


def t_grad(k, which):
    def body(c, ns):
        f, g = quad(c, k)
        p = pt(c, "p", k)
        keep = list(p)
        c.cover("precondition is satisfiable")
        lens = []

        def length(x):
            h = X.fresh("length", "R")
            lens.append(h)
            c.assume(and_(lt(0, h), eq(mul(h, h), lin(list(x), list(x)))))
            return h
        ns["scalar_norm"] = length
        la = rt.NPC.linalg
        old, la.norm = la.norm, length
        try:
            if which == "gradient":
                r = shape(c, ns, "A", k, f).gradient(p)
            elif which == "tangent":
                r = shape(c, ns, "A", k, f).tangent(p)
            else: r = ns[f"normal_from_function{k}d"](f)(p)
        finally: la.norm = old
        w = g(p)
        if which == "tangent": w = [sub(0, w[1]), w[0]]
        unit = k == 3 and which == "gradient"
        for x, y in zip(r, w):
            c.prove(eq(mul(x, lens[-1]), y) if unit else eq(x, y), "the gradient" if not unit else "along the gradient, divided by its length")
        c.prove(len(r) == k and all(x is y for x, y in zip(p, keep)), "the point is unchanged")
    return Task(f"{which}[{k}D]", body, "all", setup=load, div="assume")


def t_inside():
    def body(c, ns):
        p = pt(c, "p", 2)
        v = X.uf("A", *list(p), sort="R")
        A = shape(c, ns, "A", 2)
        c.cover("precondition is satisfiable")
        r = A.point_inside(p)
        c.prove(X.iff(r, le(v, Fraction(1e-8))), "inside is a value that is not above zero, up to rounding")
    return Task("point_inside", body, "all", setup=load)


def t_call(k, n):
    def body(c, ns):
        A = shape(c, ns, "A", k)
        P = mat(c, "P", n, k)
        c.cover("precondition is satisfiable")
        r = A(P)
        c.prove(tuple(r.shape) == (n,), "one value per point")
        for i in range(n): c.prove(eq(r[i], X.uf("A", *list(P[i]), sort="R")), "the value of each point")
        p = pt(c, "p", k)
        c.prove(eq(A(p), X.uf("A", *list(p), sort="R")), "the value of a single point")
        c.prove(all(x is y for x, y in zip(A.v0(), A.bounds()[1])), "the start of marching is a corner of the bounds")
    return Task(f"calls[{k}D,{n}]", body, "sized", setup=load)


# ---- trees: cells are pairs of corners
def cells(lo, hi):
    """the parts of a cell in the order of the tree: x fastest"""
    k = len(lo)
    mid = [div(add(a, b), 2) for a, b in zip(lo, hi)]
    out = []
    for n in range(2 ** k):
        up = [n >> i & 1 for i in range(k)]
        out.append(([mid[i] if up[i] else lo[i] for i in range(k)], [hi[i] if up[i] else mid[i] for i in range(k)]))
    return out


KIDS = {2: "abcd", 3: "abcdefgh"}
BUILD = {2: (T + "collapse2d", "build_tree2d"), 3: (T + "cbuild_tree3d", "_build_tree3d")}


def box(c, k):
    lo, hi = tuple(real(c, f"lo{i}") for i in range(k)), tuple(real(c, f"hi{i}") for i in range(k))
    for a, b in zip(lo, hi): c.assume(lt(a, b))
    return lo, hi


def t_build(k, leaf):
    def body(c, ns):
        lo, hi = box(c, k)
        i = integer(c, "depth")
        name = BUILD[k][1]
        flat = k == 3
        c.assume(eq(i, 0) if leaf else lt(0, i))
        calls = []
        real_build = ns[name]

        class Sub(ns["Tree"]):
            def __init__(self, *a): self.args = a

        def rec(*a):
            if flat: a = (tuple(a[:3]), tuple(a[3:6]), a[6])
            t = Sub(*a)
            calls.append(t)
            return t
        c.cover("precondition is satisfiable")
        ns[name] = rec
        try: r = real_build(*lo, *hi, i) if flat else real_build(lo, hi, i)
        finally: ns[name] = real_build
        if leaf:
            c.prove(type(r).__name__ == "Leaf" and not calls, "depth zero is one cell")
            for x, y in zip([*r.data[0], *r.data[1]], [*lo, *hi]): c.prove(eq(x, y), "depth zero is one cell")
            return
        c.prove(type(r).__name__ == "Root", "deeper trees are divided")
        parts = [getattr(r, x) for x in KIDS[k]]
        c.prove(len(calls) == 2 ** k and all(type(x) is Sub for x in parts) and len({id(x) for x in parts}) == 2 ** k, "each part is a tree of its own")
        for t, (a, b) in zip(parts, cells(lo, hi)):
            for x, y in zip([*t.args[0], *t.args[1]], [*a, *b]): c.prove(eq(x, y), "the cell of each part")
            c.prove(eq(t.args[2], sub(i, 1)), "the depth of each part is one less")
            c.prove(and_(*[lt(x, y) for x, y in zip(t.args[0], t.args[1])]), "the cell of each part is not empty")
        p = pt(c, "p", k)
        c.prove(X.iff(inside(p, (lo, hi)), or_(*[inside(p, (t.args[0], t.args[1])) for t in parts])), "the parts cover the cell and nothing else")
        for s, t in itertools.combinations(parts, 2):
            c.prove(not_(and_(*[and_(lt(x, z), lt(z, y)) for q in (s, t) for x, z, y in zip(q.args[0], p, q.args[1])])), "the parts do not overlap")
    return Task(f"build_tree{k}d[{'leaf' if leaf else 'divided'}]", body, "all", setup=lambda: prog((BUILD[k][0],)).load(BUILD[k][0]))


def t_entry():
    def body(c, ns):
        lo, hi = box(c, 3)
        i = integer(c, "depth")
        got = []
        ns["_build_tree3d"] = lambda *a: got.append(a) or ns["Leaf"]((lo, hi))
        c.cover("precondition is satisfiable")
        ns["build_tree3d"](lo, hi, i)
        c.prove(len(got) == 1 and len(got[0]) == 7, "the tree of the whole cell")
        for x, y in zip(got[0], [*lo, *hi, i]): c.prove(eq(x, y), "the tree of the whole cell")
    return Task("build_tree3d", body, "all", setup=lambda: prog((BUILD[3][0],)).load(BUILD[3][0]))


def t_leaf(k):
    def body(c, ns):
        lo, hi = box(c, k)
        vals = []

        def sdf(p):
            v = X.uf("sdf", *list(p), sort="R")
            return v
        leaf = ns["Leaf"]((lo, hi))
        c.cover("precondition is satisfiable")
        r = ns[f"collapse{k}d"](sdf, leaf)
        corners = [X.uf("sdf", *[(hi if n >> i & 1 else lo)[i] for i in range(k)], sort="R") for n in range(2 ** k)]
        full, empty = and_(*[lt(v, 0) for v in corners]), and_(*[le(0, v) for v in corners])
        kind = type(r).__name__
        c.prove({"Full": full, "Empty": empty, "Leaf": and_(not_(full), not_(empty))}[kind], "a cell is full, empty or on the border by the signs at its corners")
        if kind == "Leaf": c.prove(r is leaf, "a border cell is kept")
        else: c.prove(r.node is leaf, "the cell is kept in its mark")
    return Task(f"collapse{k}d[leaf]", body, "all", setup=lambda: prog((f"{T}collapse{k}d",)).load(f"{T}collapse{k}d"))


def t_root(k):
    def body(c, ns):
        c.cover("precondition is satisfiable")
        name, n = f"collapse{k}d", 2 ** k
        real_f = ns[name]
        mark = object()
        lf = ns["Leaf"]((mark, mark)) if k == 2 else ns["Leaf"](((0., 0., 0.), (1., 1., 1.)))
        kids = [ns["Leaf"](((0., 0., 0.), (1., 1., 1.))) for _ in range(n)]
        sdf = lambda p: 0
        ok = {x: True for x in ("every part is collapsed by the same shape", "all empty parts make an empty cell", "all full parts make a full cell", "other cells keep their parts in order", "the tree given is unchanged", "collapsed cells are left alone")}
        root = ns["Root"](*kids)
        for combo in itertools.product("EFL", repeat=n):
            res = [{"E": ns["Empty"], "F": ns["Full"]}[x](kid) if x != "L" else kid for x, kid in zip(combo, kids)]
            seen = []

            def rec(s, t):
                seen.append(t)
                if s is not sdf: ok["every part is collapsed by the same shape"] = False
                return res[next(i for i, q in enumerate(kids) if q is t)]
            ns[name] = rec
            try: r = real_f(sdf, root)
            finally: ns[name] = real_f
            if len(seen) != n or {id(x) for x in seen} != {id(x) for x in kids}: ok["every part is collapsed by the same shape"] = False
            got = type(r).__name__
            if set(combo) == {"E"}:
                if got != "Empty": ok["all empty parts make an empty cell"] = False
            elif set(combo) == {"F"}:
                if got != "Full": ok["all full parts make a full cell"] = False
            elif got != "Root" or any(getattr(r, x) is not y for x, y in zip(KIDS[k], res)): ok["other cells keep their parts in order"] = False
        if any(getattr(root, x) is not y for x, y in zip(KIDS[k], kids)): ok["the tree given is unchanged"] = False
        for t in (ns["Empty"](lf), ns["Full"](lf)):
            if real_f(sdf, t) is not t: ok["collapsed cells are left alone"] = False
        for what, v in ok.items(): c.prove(v, what)
    return Task(f"collapse{k}d[divided]", body, "all", setup=lambda: prog((f"{T}collapse{k}d",)).load(f"{T}collapse{k}d"))


def tree(ns, k, **kw):
    t = ns[f"ImplicitTree{k}D"].__new__(ns[f"ImplicitTree{k}D"])
    for a, b in dict(dict(full=[], empty=[], border=[], _tree=None, _collapsed_tree=None), **kw).items(): setattr(t, a, b)
    return t


def tload(k):
    def f():
        P = prog((f"{T}collapse{k}d", f"{T}tree{k}d") if k == 2 else (T + "cbuild_tree3d", T + "collapse3d", T + "tree3d"))
        return P.load(f"{T}tree{k}d")
    return f


def t_node(k, kind):
    def body(c, ns):
        lo, hi = box(c, k)
        full, empty, border = [1], [2], [3]
        t = tree(ns, k, full=full, empty=empty, border=border)
        quad_ = (lo, hi)
        mk = ns["Leaf"](quad_)
        calls = []
        c.cover("precondition is satisfiable")
        if kind == "Root":
            P = prog((BUILD[k][0],)).load(BUILD[k][0]) if False else None
            parts = [ns["Leaf"](quad_) for _ in range(2 ** k)]
            node = root_of(ns, k)(*parts)
            t.build_node = lambda n, q: calls.append((n, q))
            type(t).build_node(t, node, quad_)
            c.prove(len(calls) == 2 ** k and all(a[0] is b for a, b in zip(calls, parts)), "each part is visited once")
            for (n, q), (a, b) in zip(calls, cells(lo, hi)):
                for x, y in zip([*q[0], *q[1]], [*a, *b]): c.prove(eq(x, y), "each part is visited with the cell it was built for")
            c.prove(full == [1] and empty == [2] and border == [3], "a divided cell is not listed itself")
        else:
            node = mk if kind == "Leaf" else ns[kind](mk)
            t.build_node(node, quad_)
            want = {"Full": "full", "Empty": "empty", "Leaf": "border"}[kind]
            for n, l in (("full", full), ("empty", empty), ("border", border)):
                c.prove(len(l) == 1 + (n == want) and (n != want or l[-1] is quad_), "the cell goes to the list of its kind")
    return Task(f"build_node[{k}D,{kind}]", body, "all", setup=tload(k))


def root_of(ns, k):
    import types
    for f in (ns[f"build_tree{k}d"], ns[f"collapse{k}d"]):
        g = getattr(f, "__globals__", {})
        if "Root" in g: return g["Root"]
    raise X.Unsupported("class of divided cells")


def t_drive(k, own):
    def body(c, ns):
        lo, hi = box(c, k)
        log = []
        ns[f"build_tree{k}d"] = lambda *a: log.append(("build",) + a) or "T"
        ns[f"collapse{k}d"] = lambda *a: log.append(("collapse",) + a) or "C"

        class Shape:
            def implicit(self, v): return 0

            def bounds(self): return (lo, hi)
        s = Shape()
        f = lambda v: 0
        t = ns[f"ImplicitTree{k}D"](s if own else f, depth=4, **({} if own else {"bounds": (lo, hi)}))
        t.full, t.empty, t.border = ["old"], ["old"], ["old"]
        full, empty, border = t.full, t.empty, t.border
        t.build_node = lambda *a: log.append(("node", list(t.full), list(t.empty), list(t.border)) + a)
        d = integer(c, "depth")
        c.cover("precondition is satisfiable")
        t.build(depth=d)
        c.prove([x[0] for x in log] == ["build", "collapse", "node"], "divide, collapse, list")
        b, cl, n = log
        c.prove(b[1] is lo and b[2] is hi and b[3] is d and t.depth is d, "the bounds are divided to the depth given")
        c.prove(cl[2] == "T" and (cl[1] == s.implicit if own else cl[1] is f), "the tree is collapsed by the shape's values")
        c.prove(n[1:4] == ([], [], []), "cells of an earlier build are dropped")
        c.prove(n[4] == "C" and n[5][0] is lo and n[5][1] is hi, "the collapsed tree is listed from the bounds on")
        del log[:]
        t.build()
        c.prove(log[0][3] is d, "the depth is kept")
    return Task(f"ImplicitTree{k}D.build[{'shape' if own else 'function'}]", body, "all", setup=tload(k))


def t_prop(k):
    def body(c, ns):
        made = []

        class Tr:
            def __init__(self, s, depth=None, bounds=None): self.a = (s, depth, bounds); self.built = 0; made.append(self)
            def build(self, depth=None): self.built += 1; self.d = depth
        ns[f"ImplicitTree{k}D"] = Tr
        A = shape(c, ns, "A", k)
        c.cover("precondition is satisfiable")
        t = A.tree
        c.prove(t is made[0] and t.built == 1, "the tree is built when it is first asked for")
        c.prove(A.tree is t and len(made) == 1 and t.built == 1, "and kept")
        c.prove(t.a[0] == A.implicit and t.a[2] == A.bounds() and t.d in (None, t.a[1]), "by the shape's values on its bounds")
    return Task(f"tree of a shape[{k}D]", body, "all", setup=load)


# ---- circles
class Angle:
    def __init__(self, co, si): self.co, self.si = co, si
    def __add__(self, o): return Angle(sub(mul(self.co, o.co), mul(self.si, o.si)), add(mul(self.si, o.co), mul(self.co, o.si)))
    def __sub__(self, o): return self + Angle(o.co, sub(0, o.si))
    def __mod__(self, o): return self


def trig(c):
    def arccos(x):
        s = X.fresh("sin", "R")
        c.assume(and_(le(0, s), eq(add(mul(s, s), mul(x, x)), 1)))
        return Angle(x, s)

    def arctan2(y, x):
        h, co, si = (X.fresh(n, "R") for n in ("r", "cos", "sin"))
        c.assume(and_(le(0, h), eq(mul(h, h), add(mul(x, x), mul(y, y))), eq(mul(h, co), x), eq(mul(h, si), y), eq(add(mul(co, co), mul(si, si)), 1)))
        return Angle(co, si)
    return dict(arccos=arccos, arctan2=arctan2, cos=lambda a: a.co, sin=lambda a: a.si, hypot=lambda x, y: length(c, [x, y]), sqrt=lambda x: root(c, x))


def root(c, x):
    h = X.fresh("root", "R")
    c.assume(and_(le(0, h), eq(mul(h, h), x)))
    return h


def length(c, v): return root(c, lin(list(v), list(v)))


class patched:
    def __init__(self, **kw): self.kw = kw
    def __enter__(self):
        self.old = {k: rt.NPC.__dict__.get(k) for k in self.kw}
        for k, f in self.kw.items(): setattr(rt.NPC, k, f)
    def __exit__(self, *a):
        for k, f in self.old.items():
            if f is None: delattr(rt.NPC, k)
            else: setattr(rt.NPC, k, f)


def cload(): return prog((CI,)).load(CI)


def circle(c, ns, name):
    o, r = vec(c, name + "o", 2), real(c, name + "r")
    c.assume(lt(0, r))
    C = ns["Circle2D"].__new__(ns["Circle2D"])
    C.origin, C.r = o, r
    C.normal = C._implicit_unit_normal
    return C, o, r


def sq(v): return lin(list(v), list(v))


def t_circle():
    def body(c, ns):
        C, o, r = circle(c, ns, "c")
        p = vec(c, "p", 2)
        d = [sub(p[0], o[0]), sub(p[1], o[1])]
        c.assume(not_(eq(sq(d), 0)))
        la = rt.NPC.linalg
        old = la.norm
        lens = []

        def norm(v):
            for x, y in zip(v, d): c.prove(eq(x, y), "lengths are taken from the centre")
            h = lens[0] if lens else length(c, d)
            lens.append(h)
            return h
        c.cover("precondition is satisfiable")
        la.norm = norm
        try:
            with patched(**trig(c)):
                f = C.implicit(p)
                g = C.gradient(p)
                q, t = C.point_on_curve(p)
                h = lens[0]
                e = C.evaluate(t)
                a = Angle(X.fresh("cos"), X.fresh("sin"))
                c.assume(eq(add(mul(a.co, a.co), mul(a.si, a.si)), 1))
                w = C.evaluate(a)
        finally: la.norm = old
        c.assume(lt(0, h))
        c.prove(eq(f, sub(h, r)), "the distance from the circle")
        for k in range(2):
            c.prove(eq(mul(g[k], h), d[k]), "the gradient points away from the centre")
            c.prove(eq(mul(sub(q[k], o[k]), h), mul(r, d[k])), "the nearest point lies towards the given one at the radius")
        c.prove(eq(sq([sub(w[0], o[0]), sub(w[1], o[1])]), mul(r, r)), "points of the circle are at the radius")
        c.prove(and_(eq(w[0], add(o[0], mul(r, a.co))), eq(w[1], add(o[1], mul(r, a.si)))), "the angle runs from x towards y")
        # same angle: both are unit vectors along d
        s, u = t.co, t.si
        c.prove(and_(eq(mul(h, s), d[0]), eq(mul(h, u), d[1])), "the parameter of the nearest point")
    return Task("circle", body, "all", setup=cload, div="assume")


def t_meet():
    def body(c, ns):
        A, o, r = circle(c, ns, "a")
        B, o2, r2 = circle(c, ns, "b")
        D = X.fresh("d", "R")
        c.assume(and_(lt(0, D), eq(mul(D, D), sq([sub(o2[0], o[0]), sub(o2[1], o[1])]))))
        seen = []

        def sqrt(x):
            seen.append(x)
            if len(seen) == 1:
                c.prove(eq(x, sq([sub(o2[0], o[0]), sub(o2[1], o[1])])), "distance of the centres")
                return D
            h = X.fresh("h", "R")
            c.prove(implies(and_(le(D, add(r, r2)), le(sub(r, r2), D), le(sub(r2, r), D)), le(0, mul(mul(4, mul(D, D)), x))), "the half chord exists")
            c.assume(and_(le(0, h), eq(mul(h, h), x)))
            return h
        c.cover("precondition is satisfiable")
        miss = or_(lt(add(r, r2), D), lt(D, sub(r, r2)), lt(D, sub(r2, r)))
        ab = lambda x: X.ite(le(0, x), x, sub(0, x))
        with patched(sqrt=sqrt, abs=ab):
            try: R = ns["circle_intersection2d"](A, B)
            except ValueError:
                c.prove(miss, "only circles that do not meet are refused")
                return
        c.prove(not_(miss), "circles that do not meet are refused")
        c.prove(R.shape[0] == 2, "two points")
        for q in R:
            x, y = sub(q[0], o[0]), sub(q[1], o[1])
            c.prove(eq(sq([x, y]), mul(r, r)), "on the first circle")
            x, y = sub(q[0], o2[0]), sub(q[1], o2[1])
            c.prove(eq(sq([x, y]), mul(r2, r2)), "on the second circle")
    return Task("circle_intersection2d", body, "all", setup=cload, div="assume")


def t_tangent():
    def body(c, ns):
        C, o, r = circle(c, ns, "c")
        p = vec(c, "p", 3)
        d = [sub(p[0], o[0]), sub(p[1], o[1])]
        c.assume(lt(mul(r, r), sq(d)))
        c.cover("precondition is satisfiable")
        with patched(**trig(c)): R = ns["tangents_lines"](C, p)
        c.prove(tuple(R.shape) == (2, 3), "two points")
        for q in R:
            v = [sub(q[0], o[0]), sub(q[1], o[1])]
            c.prove(eq(sq(v), mul(r, r)), "the tangent points are on the circle")
            c.prove(eq(lin(v, [sub(p[0], q[0]), sub(p[1], q[1])]), 0), "the tangents are orthogonal to the radius")
    return Task("tangents_lines", body, "all", setup=cload, div="assume")


TASKS = [t_op(k, op) for k in (2, 3) for op in ("union", "+", "|", "Union", "intersection", "&", "Intersection", "substraction", "-", "Sub")]
TASKS += [t_values(), t_inside()] + [t_grad(k, w) for k in (2, 3) for w in ("gradient", "normal_from_function")] + [t_grad(2, "tangent")] + [t_call(k, n) for k in (2, 3) for n in (1, 3)]
TASKS += [t_build(k, l) for k in (2, 3) for l in (True, False)] + [t_entry()] + [t_leaf(k) for k in (2, 3)] + [t_root(k) for k in (2, 3)] + [t_node(k, x) for k in (2, 3) for x in ("Full", "Empty", "Leaf", "Root")]
TASKS += [t_drive(k, o) for k in (2, 3) for o in (True, False)] + [t_prop(k) for k in (2, 3)] + [t_circle(), t_meet(), t_tangent()]
