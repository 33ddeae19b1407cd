"""Soundness of the intersection searches: whatever a search reports lies on both objects (within the tolerance) at parameters inside
their domains.  Curves and surfaces are known only by their values; recursive calls, Newton's method, splitting, separability and
numpy's grouping are used by contract only (the last as arbitrary results)."""
from .lib import *

LEVEL = "proof"
CCX, CSX, NCSX, T2 = "mmcore.numeric.intersection.ccx.ccx", "mmcore.numeric.intersection.csx", "mmcore.numeric.intersection.csx._ncsx", "mmcore.geom.implicit.tree.tree2d"
FUNCTIONS = [f"{CCX}:{f}" for f in ("ccx", "curve_ppx", "curve_ppx.recursive_intersect", "curve_iix", "_categorize_with_defaultdict")] + \
            [f"{CSX}:{f}" for f in ("csx", "curve_surface_intersection", "curve_surface_ppi", "find_intersections_bvh", "find_intersections_grid", "newton_raphson", "difference")] + \
            [f"{NCSX}:NURBSCurveSurfaceIntersector.{f}" for f in ("__init__", "intersect", "_curve_surface_intersect", "_no_new_intersections", "_find_new_intersection", "_is_valid_parameter", "_is_degenerate")] + [f"{NCSX}:nurbs_csx"] + \
            [f"{T2}:{f}" for f in ("implicit_find_features", "_find_feature", "ImplicitTree2D.build_node")]
ASSUMPTIONS = ["tolerances are positive", "surfaces have a normal at reported points", "termination of the subdivision is not claimed"]
TRUSTED = ["numpy.unique groups the rows somehow", "scipy.optimize.minimize returns a point inside the bounds given, with the function's value there", "Newton's method returns anything",
           "pieces of a split curve or surface keep points and parameters (decided by C05 and C08)"]


class Crv:
    """a curve known by its points; a piece shares the points of the whole"""
    def __init__(self, c, name, lo=None, hi=None, wide=None):
        self.c, self.name = c, name
        self.lo, self.hi = (real(c, name + "0"), real(c, name + "1")) if lo is None else (lo, hi)
        if lo is None: c.assume(lt(self.lo, self.hi))
        self.control_points = object()
    def interval(self): return (self.lo, self.hi)
    def evaluate(self, t):
        self.c.prove(and_(le(self.lo, t), le(t, self.hi)), "a curve is evaluated in its domain only")
        return rt.arr_of([X.uf(f"{self.name}_{k}", t) for k in range(3)], (3,))
    __call__ = evaluate
    def tangent(self, t): self.evaluate(t); return rt.arr_of([X.fresh("tan") for _ in range(3)], (3,))


class Srf:
    def __init__(self, c, name, box=None):
        self.c, self.name = c, name
        self.box = box or [(real(c, f"{name}{k}0"), real(c, f"{name}{k}1")) for k in "uv"]
        if box is None:
            for a, b in self.box: c.assume(lt(a, b))
        self.control_points_flat = rt.arr_of([X.fresh("cp") for _ in range(3)], (1, 3))
    def interval(self): return tuple(self.box)
    def at(self, u, v): return [X.uf(f"{self.name}_{k}", u, v) for k in range(3)]
    def evaluate_v2(self, u, v):
        for x, (a, b) in zip((u, v), self.box): self.c.prove(and_(le(a, x), le(x, b)), "a surface is evaluated in its domain only")
        return rt.arr_of(self.at(u, v), (3,))
    def evaluate(self, uv): return self.evaluate_v2(uv[0], uv[1])
    def normal(self, uv): 
        self.evaluate(uv)
        n = rt.arr_of([X.fresh("nrm") for _ in range(3)], (3,))
        self.c.assume(lt(0, NORM(n)))
        return n


def NORM(v): return X.uf("norm", *[v[k] for k in range(3)])


def gap(c1, s, t, u, v):
    p, q = [X.uf(f"{c1.name}_{k}", t) for k in range(3)], s.at(u, v)
    return NORM([sub(a, b) for a, b in zip(p, q)])


class norm_by_contract:
    """numpy's norm as an uninterpreted function of the components; np.round and np.unique as arbitrary results"""
    def __init__(self, c, index=None): self.c, self.index = c, index
    def __enter__(self):
        self.old = rt.NPC.linalg.norm
        rt.NPC.linalg.norm = staticmethod(lambda a, **k: NORM(rt.NPC._a(a)))
        if self.index:
            rt.NPC.round = lambda a, *k: a
            rt.NPC.unique = self.index
        return self
    def __exit__(self, *e):
        rt.NPC.linalg.norm = self.old
        for n in ("round", "unique"): rt.NPC.__dict__.pop(n, None)


def inside(t, r): return and_(le(r[0], t), le(t, r[1]))


def close(c1, c2, t, s, tol):
    return le(NORM([sub(X.uf(f"{c1.name}_{k}", t), X.uf(f"{c2.name}_{k}", s)) for k in range(3)]), tol)


def ppx_setting(c):
    a, b, tol = Crv(c, "f"), Crv(c, "g"), real(c, "tol")
    c.assume(lt(0, tol))
    return a, b, tol


def free_boxes(c, ns):
    """the boxes only prune: any answer"""
    for n in ("curve_aabb_eager", "curve_aabb"):
        def box(crv, bounds=None, **k):
            c.prove(and_(le(crv.lo, bounds[0]), le(bounds[0], bounds[1]), le(bounds[1], crv.hi)), "boxes are taken of parts of the domain")
            return None
        ns[n] = box
    ns["aabb_overlap"] = lambda x, y: c.choose(2, "overlap") == 1


def ppx_piece():
    """one level of the recursion"""
    state = {}
    def wrap(f):
        def g(c1, c2, r1, r2, tol):
            c, a, b, t0, log = state["c"], state["a"], state["b"], state["tol"], state["log"]
            if state["level"] == 0:
                state["level"] = 1
                q1, q2 = (real(c, "p0"), real(c, "p1")), (real(c, "q0"), real(c, "q1"))
                for q, k in ((q1, a), (q2, b)): c.assume(and_(le(k.lo, q[0]), le(q[0], q[1]), le(q[1], k.hi)))
                state["r"] = q1, q2
                r = f(c1, c2, q1, q2, tol)
                for t, s in r: c.prove(and_(inside(t, q1), inside(s, q2), close(a, b, t, s, t0)), "reported pairs are in the ranges searched and closer than the tolerance")
                if log:
                    m1, m2 = (div(add(*q1), 2), div(add(*q2), 2))
                    want = [((q1[0], m1), (q2[0], m2)), ((q1[0], m1), (m2, q2[1])), ((m1, q1[1]), (q2[0], m2)), ((m1, q1[1]), (m2, q2[1]))]
                    c.prove(len(log) == 4, "four quarters are searched")
                    for w, l in zip(want, log):
                        for x, y in zip(w[0] + w[1], l[0] + l[1]): c.prove(eq(x, y), "the quarters cover the ranges")
                raise sym.PathEnd()
            c.prove(c1 is a and c2 is b and tol is t0, "curves and tolerance are handed down")
            q1, q2 = state["r"]
            c.prove(and_(inside(r1[0], q1), inside(r1[1], q1), le(r1[0], r1[1]), inside(r2[0], q2), inside(r2[1], q2), le(r2[0], r2[1])), "the recursion stays in the ranges")
            log.append((tuple(r1), tuple(r2)))
            if c.choose(2, "found") == 0: return []
            t, s = X.fresh("t"), X.fresh("s")
            c.assume(and_(inside(t, r1), inside(s, r2), close(a, b, t, s, tol)))
            return [(t, s)]
        return g
    def body(c, ns):
        a, b, tol = ppx_setting(c)
        state.update(c=c, a=a, b=b, tol=tol, level=0, log=[])
        free_boxes(c, ns)
        ns["divide_interval"] = lambda lo, hi, step=1.: rt.arr_of([lo, hi], (1, 2))
        c.cover("precondition is satisfiable")
        with norm_by_contract(c): ns["curve_ppx"](a, b, tol, eager=bool(c.choose(2, "eager")))
    return Task("curve x curve[recursion]", body, "any range", setup=lambda: prog((CCX,), loopspecs={CCX: {"@nested": {"curve_ppx.recursive_intersect": wrap}}}).load(CCX))


def ppx_top(bounded):
    state = {}
    def wrap(f):
        def g(c1, c2, r1, r2, tol):
            c, a, b = state["c"], state["a"], state["b"]
            c.prove(c1 is a and c2 is b and tol is state["tol"], "curves and tolerance are handed down")
            c.prove(and_(inside(r1[0], state["r1"]), inside(r1[1], state["r1"]), le(r1[0], r1[1]), inside(r2[0], state["r2"]), inside(r2[1], state["r2"]), le(r2[0], r2[1])), "the search stays in the domains")
            state["log"].append((tuple(r1), tuple(r2)))
            if c.choose(2, "found") == 0: return []
            t, s = X.fresh("t"), X.fresh("s")
            c.assume(and_(inside(t, r1), inside(s, r2), close(a, b, t, s, tol)))
            return [(t, s)]
        return g
    def body(c, ns):
        a, b, tol = ppx_setting(c)
        r1, r2 = a.interval(), b.interval()
        kw = {}
        if bounded:
            r1, r2 = (real(c, "p0"), real(c, "p1")), (real(c, "q0"), real(c, "q1"))
            for q, k in ((r1, a), (r2, b)): c.assume(and_(le(k.lo, q[0]), le(q[0], q[1]), le(q[1], k.hi)))
            kw = dict(bounds1=r1, bounds2=r2)
        for r in (r1, r2): c.assume(le(sub(r[1], r[0]), 2))
        state.update(c=c, a=a, b=b, tol=tol, r1=r1, r2=r2, log=[])
        def pieces(lo, hi, step=1.):
            if bool(le(sub(hi, lo), step)): return rt.arr_of([lo, hi], (1, 2))
            return rt.arr_of([lo, add(lo, step), add(lo, step), hi], (2, 2))
        ns["divide_interval"] = pieces
        ns["int"] = lambda x: x
        def unique(rows_, **k):
            n = len(rows_)
            lab, top = [], 0
            for i in range(n):
                j = c.choose(min(top + 1, 3), f"group{i}") if n > 1 else 0
                lab.append(j); top = max(top, j + 1)
            class L:
                def tolist(self): return lab
            return rows_, L()
        c.cover("precondition is satisfiable")
        log10 = rt.NPC.__dict__.get("log10")
        rt.NPC.log10 = lambda v: X.fresh("log")
        try:
            with norm_by_contract(c, unique): res = ns["curve_ppx"](a, b, tol, **kw)
        finally: del rt.NPC.log10
        for t, s in res: c.prove(and_(inside(t, r1), inside(s, r2), close(a, b, t, s, tol)), "reported pairs are in the domains and closer than the tolerance")
        for x, y in zip(res, res[1:]): c.prove(le(x[0], y[0]), "results are in order")
        area = 0
        for p, q in state["log"]: area = add(area, mul(sub(p[1], p[0]), sub(q[1], q[0])))
        c.prove(eq(area, mul(sub(r1[1], r1[0]), sub(r2[1], r2[0]))), "the whole domain is searched")
    return Task(f"curve x curve[{'given bounds' if bounded else 'domains'}]", body, "domains up to 2 long", setup=lambda: prog((CCX,), loopspecs={CCX: {"@nested": {"curve_ppx.recursive_intersect": wrap}}}).load(CCX))


def dispatch():
    def body(c, ns):
        class O: pass
        a, b = O(), O()
        ka, kb = c.choose(4, "first"), c.choose(4, "second")
        for o, k in ((a, ka), (b, kb)):
            if k & 1: o.evaluate = lambda t: None
            if k & 2: o.implicit = lambda p: None
        tol, calls = real(c, "tol"), []
        for n in ("curve_pix", "curve_ppx", "curve_iix"): ns[n] = (lambda n: lambda *x, **k: calls.append((n, x, k)) or "result")(n)
        try: r = ns["ccx"](a, b, tol)
        except ValueError:
            c.prove(not calls and (ka == 0 or kb == 0), "only curves without a usable form are refused"); return
        c.prove(r == "result" and len(calls) == 1, "one method is chosen and its result returned")
        n, x, k = calls[0]
        c.prove(x[0] is a and x[1] is b or x[0] is b and x[1] is a, "both curves are handed over")
        form = lambda o: (3 if o is None else ka if o is a else kb)
        if n == "curve_pix": c.prove(form(x[0]) & 1 and form(x[1]) & 2, "a parametric curve meets an implicit one")
        elif n == "curve_ppx": c.prove(x[0] is a and form(a) & 1 and form(b) & 1 and k.get("tol", x[2] if len(x) > 2 else None) is tol, "two parametric curves in order, with the tolerance")
        else: c.prove(form(a) & 2 and form(b) & 2, "two implicit curves")
    return Task("ccx[dispatch]", body, "every combination of forms", setup=lambda: prog((CCX,)).load(CCX))


def feature(n):
    def body(c, ns):
        I = lambda n: type("I", (), {"implicit": staticmethod(lambda x: X.uf(n, x[0], x[1]))})()
        f, g = I("F"), I("G")
        ns["abs"], ns["max"] = abs_, lambda *a: X.max_(*a)
        nodes = []
        for i in range(n):
            q = [real(c, f"n{i}{k}") for k in range(4)]
            c.assume(and_(lt(q[0], q[2]), lt(q[1], q[3])))
            nodes.append(((q[0], q[1]), (q[2], q[3])))
        class R: pass
        def minimize(fun, x0=None, bounds=None, **k):
            r = R()
            r.x = rt.arr_of([X.fresh("x"), X.fresh("y")], (2,))
            for v, (lo, hi) in zip(r.x, bounds): c.assume(inside(v, (lo, hi)))
            r.fun = fun(r.x)
            return r
        ns["minimize"] = minimize
        c.cover("precondition is satisfiable")
        old = rt.NPC.linalg.norm
        rt.NPC.linalg.norm = staticmethod(lambda a, **k: X.fresh("norm"))
        rt.NPC.average = lambda a, axis=None: rt.NPC.mean(a, axis)
        try: res = list(ns["implicit_find_features"]((f, g), nodes))
        finally:
            rt.NPC.linalg.norm = old
            del rt.NPC.average
        for p in res:
            for o in (f, g): c.prove(and_(le(o.implicit(p), X.conv(1e-7)), le(sub(0, o.implicit(p)), X.conv(1e-7))), "reported points are zeros of both")
            c.prove(or_(*[and_(inside(p[0], (q[0][0], q[1][0])), inside(p[1], (q[0][1], q[1][1]))) for q in nodes]) if nodes else False, "reported points are in a cell searched")
    return Task(f"implicit curves[{n} cells]", body, f"{n} cells", setup=lambda: prog((T2,)).load(T2))


def iix():
    def body(c, ns):
        class A: implicit = staticmethod(lambda v: X.uf("F", v[0], v[1]))
        class B: implicit = staticmethod(lambda v: X.uf("G", v[0], v[1]))
        a, b, built = A(), B(), []
        class Tree:
            def __init__(self, shape, depth=3, bounds=None): self.shape = shape
            def build(self, depth=None): built.append(self); self.border = ["cell"]
        ns["ImplicitTree2D"] = Tree
        def find(sdfs, nodes, rtol=None, atol=None):
            c.prove(sdfs[0] is a and sdfs[1] is b and (nodes == ["cell"] or nodes == ["given"]), "both curves are searched for in the border cells of the tree")
            yield from ("p", "q")
        ns["implicit_find_features"] = find
        if c.choose(2, "tree"):
            t = Tree(None); t.border = ["given"]
            r = ns["curve_iix"](a, b, tree=t)
            c.prove(not built, "a given tree is used as it is")
        else:
            r = ns["curve_iix"](a, b)
            v = vec(c, "v", 2)
            y = built[0].shape(v)
            c.prove(and_(eq(y, X.min_(X.uf("F", v[0], v[1]), X.uf("G", v[0], v[1])))), "the tree is built over the union")
        c.prove(r == ["p", "q"], "all points found are returned")
    return Task("implicit curves[tree]", body, "all", setup=lambda: prog((CCX,)).load(CCX))


# ------------------------------------------------------------------ curve x surface
def sound(c, crv, srf, tol, e, what):
    kind, point, ts = e
    t, u, v = ts
    c.prove(and_(inside(t, crv.interval()), inside(u, srf.box[0]), inside(v, srf.box[1])), what + " has parameters in the domains")
    prove_eqs(c, point, [X.uf(f"{crv.name}_{k}", t) for k in range(3)], what + " comes with the curve's point")
    c.prove(le(gap(crv, srf, t, u, v), tol), what + " lies on the surface")


def new_point(known):
    def body(c, ns):
        crv, srf, tol = Crv(c, "f"), Srf(c, "S"), real(c, "tol")
        c.assume(lt(0, tol))
        ns["scalar_norm"] = NORM
        class Eq:
            def __init__(s, a, b): c.prove(a is crv and b is srf, "the equation is of the curve and the surface")
        ns["CurveSurfaceEq"] = Eq
        def newton(eq_, x0, **k):
            for x, r in zip(x0, [crv.interval()] + list(srf.box)): c.prove(inside(x, r), "Newton's method starts inside the domains")
            return None if c.choose(2, "newton") == 0 else rt.arr_of([X.fresh("t"), X.fresh("u"), X.fresh("v")], (3,))
        ns["newtons_method"] = newton
        rt.NPC.isnan = lambda a: [False] * len(a)
        try:
            I = ns["NURBSCurveSurfaceIntersector"](crv, srf, tol, real(c, "ptol"))
            old = [("transversal", rt.arr_of([X.fresh("old") for _ in range(3)], (3,)), None) for _ in range(known)]
            I.intersections = list(old)
            c.cover("precondition is satisfiable")
            r = I._find_new_intersection(crv, srf)
        finally: del rt.NPC.isnan
        if r is None: return
        point, ts = r
        sound(c, crv, srf, tol, ("", point, ts), "a new intersection")
        for o in old: c.prove(not_(and_(*[lt(abs_(sub(o[1][k], point[k])), tol) for k in range(3)])), "a new intersection is not one already known")
        c.prove(len(I.intersections) == known, "searching adds nothing by itself")
    return Task(f"curve x surface[new point, {known} known]", body, f"{known} known", setup=lambda: prog((NCSX,)).load(NCSX))


def abs_(x): return X.ite(lt(x, 0), sub(0, x), x)


def subdivide():
    def body(c, ns):
        root, net, tol, ptol = Crv(c, "f"), Srf(c, "S"), real(c, "tol"), real(c, "ptol")
        c.assume(and_(lt(0, tol), lt(0, ptol)))
        crv = Crv(c, "f", real(c, "a0"), real(c, "a1"))
        srf = Srf(c, "S", [(real(c, f"b{k}0"), real(c, f"b{k}1")) for k in "uv"])
        c.assume(and_(le(root.lo, crv.lo), lt(crv.lo, crv.hi), le(crv.hi, root.hi), *[and_(le(n[0], s[0]), lt(s[0], s[1]), le(s[1], n[1])) for n, s in zip(net.box, srf.box)]))
        halves, quarters, calls = [], [], []
        def split(k, t, tol=None, normalize_knots=True):
            c.prove(k is crv and normalize_knots is False, "the curve at hand is split, keeping its parameters")
            c.prove(inside(t, crv.interval()), "the curve is split inside its domain")
            halves[:] = [Crv(c, "f", crv.lo, t), Crv(c, "f", t, crv.hi)]
            return halves
        def quarter(s, u, v, tol=None, normalize_knots=True):
            c.prove(s is srf and normalize_knots is False, "the surface at hand is subdivided, keeping its parameters")
            (u0, u1), (v0, v1) = srf.box
            c.prove(and_(inside(u, srf.box[0]), inside(v, srf.box[1])), "the surface is subdivided inside its domain")
            quarters[:] = [Srf(c, "S", [p, q]) for p in ((u0, u), (u, u1)) for q in ((v0, v), (v, v1))]
            return quarters
        ns["split_curve"], ns["subdivide_surface"] = split, quarter
        ns["spatial_separability"] = lambda *a, **k: c.choose(2, "apart") == 1
        ns["spherical_separability"] = lambda *a, **k: c.choose(2, "no more") == 1
        ns["scalar_norm"] = NORM
        ns["scalar_dot"] = lambda a, b: X.fresh("dot")
        I = ns["NURBSCurveSurfaceIntersector"](root, net, tol, ptol)
        cls = type(I)
        def find(self, k, s):
            c.prove(k is crv and s is srf, "a new intersection is searched for on the piece at hand")
            if c.choose(2, "new") == 0: return None
            t, u, v = X.fresh("t"), X.fresh("u"), X.fresh("v")
            c.assume(and_(inside(t, crv.interval()), inside(u, srf.box[0]), inside(v, srf.box[1]), le(gap(crv, srf, t, u, v), tol)))
            return crv.evaluate(t), rt.arr_of([t, u, v], (3,))
        real_find, real_rec = cls._find_new_intersection, cls._curve_surface_intersect
        c.cover("precondition is satisfiable")
        try:
            cls._find_new_intersection = find
            cls._curve_surface_intersect = lambda self, k, s: calls.append((k, s))
            real_rec(I, crv, srf)
        finally: cls._find_new_intersection, cls._curve_surface_intersect = real_find, real_rec
        c.prove(len(I.intersections) <= 1, "one intersection at a time")
        for e in I.intersections: sound(c, root, net, tol, e, "a reported intersection")
        if calls:
            c.prove(len(calls) == 8 and all(sum(1 for x in calls if x[0] is h and x[1] is q) == 1 for h in halves for q in quarters), "every piece of the curve meets every piece of the surface")
    return Task("curve x surface[subdivision]", body, "any piece", setup=lambda: prog((NCSX,)).load(NCSX))


def whole():
    def body(c, ns):
        crv, srf = object(), object()
        seen = []
        cls = ns["NURBSCurveSurfaceIntersector"]
        old = cls._curve_surface_intersect
        try:
            cls._curve_surface_intersect = lambda self, a, b: (seen.append((self.tolerance, self.ptol, a, b)), self.intersections.append("found"))
            r = ns["nurbs_csx"](crv, srf, tol=3, ptol=5)
        finally: cls._curve_surface_intersect = old
        c.prove(r == ["found"] and seen[0][:2] == (3, 5) and seen[0][2] is crv and seen[0][3] is srf and len(seen) == 1, "the whole curve and surface are intersected with the tolerances given")
    return Task("curve x surface[entry]", body, "all", setup=lambda: prog((NCSX,)).load(NCSX))


def csx(n):
    def body(c, ns):
        class C_: pass
        class S_: pass
        ns["NURBSCurve"], ns["NURBSSurface"] = C_, S_
        crv, srf = C_(), S_()
        ts = [[X.fresh("t"), X.fresh("u"), X.fresh("v")] for _ in range(n)]
        def nurbs(a, b, tol=None, ptol=None):
            c.prove(a is crv and b is srf and tol == 7, "the NURBS solver gets both and the tolerance")
            return [("transversal", None, rt.arr_of(t, (3,))) for t in ts]
        ns["nurbs_csx"] = nurbs
        c.cover("precondition is satisfiable")
        r = ns["csx"](crv, srf, tol=7)
        c.prove(tuple(r.shape) == (n, 3), "one row per intersection")
        for i in range(n - 1): c.prove(le(r[i, 0], r[i + 1, 0]), "rows are in order along the curve")
        for i in range(n): c.prove(or_(*[and_(*[eq(r[i, k], t[k]) for k in range(3)]) for t in ts]), "a row is an intersection found")
        for t in ts: c.prove(or_(*[and_(*[eq(r[i, k], t[k]) for k in range(3)]) for i in range(n)]), "an intersection found has a row")
    return Task(f"csx[{n} found]", body, f"{n} intersections", setup=lambda: prog((CSX,)).load(CSX))


def csx_forms():
    def body(c, ns):
        class C_: pass
        class S_: implicit = staticmethod(lambda p: None)
        calls = []
        ns["curve_pix"] = lambda a, b, tol=None, **k: calls.append(("pix", a, b)) or "pix"
        ns["curve_surface_intersection"] = lambda a, b, tol=None, **k: calls.append(("ppi", a, b, tol)) or "ppi"
        crv = C_()
        s = S_() if c.choose(2, "form") else C_()
        r = ns["csx"](crv, s, tol=7)
        c.prove(len(calls) == 1 and calls[0][1] is crv and calls[0][2] is s and r == ("pix" if isinstance(s, S_) else "ppi"), "surfaces with an implicit form are solved on it, others by subdivision")
        c.prove(r == "pix" or calls[0][3] == 7, "the tolerance is handed over")
    return Task("csx[forms]", body, "all", setup=lambda: prog((CSX,)).load(CSX))


class Any3:
    """a surface/curve that may be evaluated anywhere (Newton's iterates)"""
    def __init__(self, name, box): self.name, self.box = name, box
    def interval(self): return self.box
    def at(self, *x): return [X.uf(f"{self.name}_{k}", *x) for k in range(3)]
    def evaluate(self, x): return rt.arr_of(self.at(*([x] if X.is_e(x) or not hasattr(x, "__len__") else [x[0], x[1]])), (3,))


def refined(method):
    def body(c, ns):
        crv, srf, tol = Any3("f", None), Any3("S", None), real(c, "tol")
        c.assume(lt(0, tol))
        n = 2
        ns["scalar_norm"] = NORM
        guesses = [rt.arr_of([X.fresh("g") for _ in range(3)], (3,)) for _ in range(n)]
        ns["bvh_search"] = lambda a, b: list(guesses)
        ns["grid_search"] = lambda a, b, **k: list(guesses)
        def newton(a, b, g, tol=None, max_iter=None):
            c.prove(a is crv and b is srf and any(g is x for x in guesses), "a guess is refined")
            return rt.arr_of([X.fresh("t"), X.fresh("u"), X.fresh("v")], (3,))
        ns["newton_raphson"] = newton
        rt.NPC.allclose = lambda *a, **k: c.choose(2, "known") == 1
        c.cover("precondition is satisfiable")
        try: r = ns["find_intersections_bvh"](crv, srf, tol=tol) if method == "bvh" else ns["find_intersections_grid"](crv, srf, None, None, tol=tol)
        finally: del rt.NPC.allclose
        for x in r:
            p, q = crv.at(x[0]), srf.at(x[1], x[2])
            c.prove(le(NORM([sub(a, b) for a, b in zip(p, q)]), tol), "refined points that are reported lie on both")
    return Task(f"refinement[{method}]", body, "2 guesses", setup=lambda: prog((CSX,)).load(CSX))


def filtered():
    def body(c, ns):
        n = 2
        crv, srf = Any3("f", (real(c, "t0"), real(c, "t1"))), Any3("S", ((real(c, "u0"), real(c, "u1")), (real(c, "v0"), real(c, "v1"))))
        given = c.choose(2, "bounds")
        tb, ub = crv.box, srf.box
        kw = {}
        if given: kw = dict(t_bounds=(tb := (real(c, "p0"), real(c, "p1"))), uv_bounds=(ub := ((real(c, "q0"), real(c, "q1")), (real(c, "r0"), real(c, "r1")))))
        found = [[X.fresh("t"), X.fresh("u"), X.fresh("v")] for _ in range(n)]
        ns["find_intersections_bvh"] = lambda a, b, tol=None: [rt.arr_of(f, (3,)) for f in found]
        c.cover("precondition is satisfiable")
        r = ns["curve_surface_intersection"](crv, srf, tol=1)
        if given: r = ns["curve_surface_intersection"](crv, srf, tol=1, **kw)
        ins = lambda x: and_(inside(x[0], tb), inside(x[1], ub[0]), inside(x[2], ub[1]))
        got = [[r[i, k] for k in range(3)] for i in range(len(r))]
        for x in got: c.prove(ins(x), "reported parameters are in the bounds")
        for x in got: c.prove(or_(*[and_(*[eq(a, b) for a, b in zip(x, f)]) for f in found]), "reported parameters are those found")
        for f in found: c.prove(implies(ins(f), or_(*[and_(*[eq(a, b) for a, b in zip(x, f)]) for x in got]) if got else False), "no intersection inside the bounds is dropped")
    return Task("curve x surface[bounds]", body, "2 found", setup=lambda: prog((CSX,)).load(CSX))


TASKS = [ppx_piece(), ppx_top(False), ppx_top(True), dispatch(), iix(), subdivide(), whole(), csx_forms(), filtered()] + [feature(n) for n in (0, 1, 2)] + [new_point(k) for k in (0, 1)] + [csx(n) for n in (0, 1, 2, 3)] + [refined(m) for m in ("bvh", "grid")]
