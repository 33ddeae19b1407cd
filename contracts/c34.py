"""Knot insertion, refinement, splitting, degree elevation, joining, ruling and interpolation (python forms).  Span searches are
proved for every knot vector by loop invariants; the rest at stated degrees and sizes for all real control points, weights and knots."""
import math
from .lib import *
from .c03 import points
from .c04 import multiplicity, place, cases, merged, same_curve
from .c05 import piece, interior, start, parent

LEVEL = "other"
K = "mmcore.geom.curves.knot"
R = "mmcore.construction.ruled"
FUNCTIONS = [f"{K}:{f}" for f in ("find_span_linear", "find_span_binsearch", "find_knot_span", "find_spans", "find_multiplicity", "generate_knot", "normalize_knot", "basis_function", "compute_params_curve", "compute_knot_vector",
    "build_coefficient_matrix", "interpolate_curve", "_remove_adjacent_duplicates", "knot_insertion", "knot_insertion_kv", "knot_refinement1", "knot_refinement2", "insert_knot", "nurbs_split", "_compose_curves_no_knots_updates", "degree_elevate_curve",
    "degree_elevation_bez", "join_two_curves", "refine_curve", "curve_deriv_cpts")] + [f"{R}:{f}" for f in ("merge_knot_vectors", "make_curves_compatible", "ruled")]
ASSUMPTIONS = ["a knot either equals the inserted one or differs by more than the tolerance of the multiplicity count", "the collocation matrix of an interpolation is regular (Schoenberg-Whitney) and scipy's lu_solve solves a regular system",
               "knots that the code compares with a tolerance (1e-5 at the end, np.isclose when merging) are equal or farther apart"]
END = Fraction(1, 10 ** 4)


def mult_(knot, U, **kw): return multiplicity(knot, list(U))


def load(loops=None, over=None):
    o = {(NURBS, "find_multiplicity"): multiplicity, (K, "find_multiplicity"): mult_}
    o.update(over or {})
    return prog((NURBS, K), loopspecs=loops, overrides=o).load(K)


def both():
    P = prog((NURBS, K), overrides={(NURBS, "find_multiplicity"): multiplicity, (K, "find_multiplicity"): mult_})
    return P.load(NURBS), P.load(K)


# ---- span searches
class Linear:
    def inv(self, c, e, ph):
        U = e["knot_vector"]
        yield "the span stays inside", and_(le(add(e["degree"], 1), e["span"]), le(e["span"], e["num_ctrlpts"]))
        yield "knots below the span are not above the parameter", le(U[sub(e["span"], 1)], e["knot"])

    def start(self, c, e): c.meas = e["span"]
    def decreases(self, c, e): yield "the span advances", lt(c.meas, e["span"])


class Bisect:
    def __init__(self, names): self.names = names

    def inv(self, c, e, ph):
        U, p, top, u = (e[n] for n in self.names)
        yield "the bounds stay inside", and_(le(p, e["low"]), lt(e["low"], e["high"]), le(e["high"], top if self.names[2] != "n" else add(top, 1)))
        m2 = add(e["low"], e["high"])
        yield "mid is between the bounds", and_(le(e["low"], e["mid"]), le(e["mid"], e["high"]))
        yield "mid is the upper bound only next to the lower", implies(eq(e["mid"], e["high"]), eq(e["high"], add(e["low"], 1)))
        yield "mid is the lower bound only next to the upper", implies(eq(e["mid"], e["low"]), eq(e["high"], add(e["low"], 1)))
        yield "the parameter is between the bounds", and_(le(U[e["low"]], u), lt(u, U[e["high"]]))

    def start(self, c, e): c.meas = add(mul(2, sub(e["high"], e["low"])), X.ite(eq(e["mid"], e["high"]), 1, 0))
    def decreases(self, c, e): yield "the bounds close in", lt(add(mul(2, sub(e["high"], e["low"])), X.ite(eq(e["mid"], e["high"]), 1, 0)), c.meas)


SPAN = {"find_span_linear": Linear(), "find_span_binsearch": Bisect(("knot_vector", "degree", "num_ctrlpts", "knot")), "find_knot_span": Bisect(("U", "p", "n", "u"))}


def t_span(which):
    def body(c, ns):
        n, p, m = integer(c, "n"), integer(c, "p"), integer(c, "m")
        c.assume(le(0, p)); c.assume(le(p, n)); c.assume(le(add(n, 2), m))
        st = rt.SStore("U", m)
        U = rt.SMV(st)
        A = st.arr[()]
        i, j = var("i!", "I"), var("j!", "I")
        c.assume(X.forall([i, j], implies(and_(le(0, i), le(i, j), lt(j, m)), le(X.select(A, i), X.select(A, j)))))
        lo, hi = X.select(A, p), X.select(A, add(n, 1))
        c.assume(lt(lo, hi))
        u = real(c, "u")
        c.assume(and_(le(lo, u), le(u, hi)))
        c.cover("precondition is satisfiable")

        def rnd(x):
            r = X.fresh("rounded", "I")
            c.assume(and_(le(mul(2, r), add(mul(2, x), 1)), le(mul(2, x), add(mul(2, r), 1))))
            return r
        ns["round"] = rnd

        def trunc(x):
            if not X.is_e(x) or X.sort_of(x) == "I": return x if X.is_e(x) else int(x)
            c.prove(le(0, x), "only a non-negative number is truncated")
            r = X.fresh("truncated", "I")
            c.assume(and_(le(r, x), lt(x, add(r, 1))))
            return r
        ns["int"] = trunc
        if which == "find_knot_span": k = ns[which](n, p, u, U)
        else: k = ns[which](p, U, add(n, 1), u)
        near = le(sub(hi, u), Fraction(10e-6)) if which == "find_span_binsearch" else le(hi, u)
        c.prove(and_(le(p, k), le(k, n)), "the index lies in the domain")
        c.prove(implies(not_(near), and_(le(X.select(A, k), u), lt(u, X.select(A, add(k, 1))))), "the parameter is in the span")
        c.prove(implies(near, eq(k, n)) if which == "find_span_binsearch" else implies(eq(u, hi), eq(k, n)), "the end of the domain is in the last span")
    return Task(f"{which}[all knots]", body, "all", setup=lambda: load({K: {which: {0: SPAN[which]}}}), timeout_ms=20000)


def t_mult(n):
    def body(c, ns):
        U, u, tol = vec(c, "U", n), real(c, "u"), real(c, "tol")
        c.assume(le(0, tol))
        c.cover("precondition is satisfiable")
        m = ns["find_multiplicity"](u, U, tol=tol)
        want = 0
        for x in U: want = add(want, X.ite(and_(le(sub(u, x), tol), le(sub(x, u), tol)), 1, 0))
        c.prove(eq(m, want), "the number of knots within the tolerance")
    return Task(f"find_multiplicity[{n} knots]", body, "sized", setup=lambda: prog((K,)).load(K))


# ---- insertion and refinement
def t_raw(p, mults, where, r, dim=2):
    n1 = p + 1 + sum(mults)

    def body(c, ns):
        U = clamped(c, n1, p, mults=mults)
        Q = mat(c, "P", n1, dim)
        c.inputs["p"], c.inputs["r"] = p, r
        t, k, s = place(c, U, p, n1, where)
        c.assume(lt(END, sub(U[-1], t)))
        c.cover("precondition is satisfiable")
        U0, Q0 = U.copy(), Q.copy()
        Rn, V = ns["knot_insertion"](p, U, Q, t, r)
        W = merged(U, k, t, r)
        c.prove(len(V) == len(W) and all(a is b for a, b in zip(V, W)), "the knot is added")
        c.prove(Rn.shape == (n1 + r, dim), "shape of the result")
        c.prove(all(a is b for a, b in zip(U, U0)) and all(a is b for a, b in zip(Q.flat, Q0.flat)), "the operands are unchanged")
        for j in nonempty_spans(W, p, n1 + r - 1):
            u = var(f"u{j}")
            prove_eqs(c, curve_at(u, p, W, Rn, j, dim), curve_at(u, p, U, Q, j if j <= k else j - r, dim), "the curve is unchanged")
    return Task(f"knot_insertion[p={p},interior={mults},{where[0]} {where[1]},r={r}]", body, "sized", setup=load)


def t_insert(p, mults, where, r):
    n1 = p + 1 + sum(mults)

    def setup(): return both()

    def body(c, nss):
        N, ns = nss
        U = clamped(c, n1, p, mults=mults)
        P = points(c, n1)
        c.inputs["p"], c.inputs["r"] = p, r
        t, k, s = place(c, U, p, n1, where)
        c.assume(lt(END, sub(U[-1], t)))
        c.cover("precondition is satisfiable")
        crv = N["NURBSCurve"](P.copy(), p, U.copy())
        ns["insert_knot"](crv, t, r)
        V = merged(U, k, t, r)
        c.prove(len(crv.knots) == len(V), "the knot is added r times")
        for a, b in zip(crv.knots, V): c.prove(eq(a, b), "the other knots are kept in order")
        same_curve(c, crv, V, U, p, P, n1, k, "the curve is unchanged")
    return Task(f"insert_knot[p={p},interior={mults},{where[0]} {where[1]},r={r}]", body, "sized", setup=setup)


def t_split(p, mults, where):
    def body(c, nss):
        N, ns = nss
        U, P, n1 = start(c, p, mults)
        t, k, s = place(c, U, p, n1, where)
        interior(c, U, t)
        c.assume(lt(END, sub(U[-1], t)))
        c.cover("precondition is satisfiable")
        crv = N["NURBSCurve"](P.copy(), p, U.copy())
        a, b = ns["nurbs_split"](crv, t)
        piece(c, a, U, p, P, n1, U[0], t, 0, "first piece")
        piece(c, b, U, p, P, n1, t, U[-1], 0, "second piece")
        c.prove(all(x is y for x, y in zip(crv.knots, U)) and all(x is y for x, y in zip(crv.control_pointsw.flat, P.flat)), "the curve itself is unchanged")
    return Task(f"nurbs_split[p={p},interior={mults},{where[0]} {where[1]}]", body, "sized", setup=both)


def refined(c, U, p, n1, wheres, reps):
    """new knots with repetitions -> (list of new knots ascending, refined knots, old span of each)"""
    W, par, ts = list(U), list(range(len(U))), []
    for i, (w, r) in enumerate(zip(wheres, reps)):
        t, k, s = place(c, U, p, n1, w, f"t{i}")
        at = max(x for x in range(len(W)) if W[x] is U[k])
        if ts and W[at + 1] is ts[-1][0]: at += len([x for x in W if x is ts[-1][0]]); c.assume(lt(ts[-1][0], t))
        r = p - s if r is None else r
        W = W[:at + 1] + [t] * r + W[at + 1:]
        par = par[:at + 1] + [k] * r + par[at + 1:]
        ts.append((t, r))
    return ts, rt.arr_of(W, (len(W),)), par


def t_refine2(p, mults, wheres, reps, dim=2):
    n1 = p + 1 + sum(mults)

    def body(c, ns):
        U = clamped(c, n1, p, mults=mults)
        Q = mat(c, "P", n1, dim)
        ts, W, par = refined(c, U, p, n1, wheres, reps)
        c.cover("precondition is satisfiable")
        Xn = [t for t, r in ts for _ in range(r)]
        Rn, V = ns["knot_refinement2"](n1 - 1, p, U, Q, rt.arr_of(Xn, (len(Xn),)))
        c.prove(len(V) == len(W) and Rn.shape == (n1 + len(Xn), dim), "shapes of the result")
        if len(V) != len(W): raise sym.PathEnd()
        for a, b in zip(V, W): c.prove(eq(a, b), "the knots are merged")
        for j in nonempty_spans(W, p, len(W) - p - 2):
            u = var(f"u{j}")
            prove_eqs(c, curve_at(u, p, W, Rn, j, dim), curve_at(u, p, U, Q, par[j], dim), "the curve is unchanged")
    return Task(f"knot_refinement2[p={p},interior={mults},{wheres},{reps}]", body, "sized", setup=load)


def t_refine1(p, mults, wheres, dim=2):
    n1 = p + 1 + sum(mults)

    def body(c, ns):
        U = clamped(c, n1, p, mults=mults)
        Q = mat(c, "P", n1, dim)
        ts, W, par = refined(c, U, p, n1, wheres, [None] * len(wheres))
        ks = [x for i, x in enumerate(W) if not i or W[i - 1] is not x]
        for a, b in zip(ks, ks[1:]): c.assume(le(Fraction(1, 10 ** 6), sub(b, a)))
        c.cover("precondition is satisfiable")
        ns["deepcopy"] = lambda x: list(x)
        ns["set"] = lambda x: list(x)
        ns["sorted"] = lambda x: list(x)
        Rn, V = ns["knot_refinement1"](p, list(U), Q, knot_list=[t for t, r in ts], density=0)
        c.prove(len(V) == len(W) and len(Rn) == len(W) - p - 1, "sizes of the result")
        if len(V) != len(W): raise sym.PathEnd()
        for a, b in zip(V, W): c.prove(eq(a, b), "the knots are raised to full multiplicity")
        Rn = rt.arr_of([x for q in Rn for x in q], (len(Rn), dim))
        for j in nonempty_spans(W, p, len(W) - p - 2):
            u = var(f"u{j}")
            prove_eqs(c, curve_at(u, p, W, Rn, j, dim), curve_at(u, p, U, Q, par[j], dim), "the curve is unchanged")
    return Task(f"knot_refinement1[p={p},interior={mults},{wheres}]", body, "sized", setup=load)


# ---- degree elevation
def bern(u, p, i):
    r = math.comb(p, i)
    for _ in range(i): r = mul(r, u)
    for _ in range(p - i): r = mul(r, sub(1, u))
    return r


def t_bez(p, num, dim=2):
    def body(c, ns):
        Q = mat(c, "P", p + 1, dim)
        Q0 = Q.copy()
        c.inputs["p"], c.inputs["num"] = p, num
        c.cover("precondition is satisfiable")
        Rn, d = ns["degree_elevation_bez"](Q, p, num)
        c.prove(d == p + num and Rn.shape == (p + num + 1, dim), "the new degree")
        c.prove(all(a is b for a, b in zip(Q.flat, Q0.flat)), "the points are unchanged")
        u = var("u")
        for k in range(dim): c.prove(eq(lin([bern(u, p + num, i) for i in range(p + num + 1)], list(Rn[:, k])), lin([bern(u, p, i) for i in range(p + 1)], list(Q[:, k]))), "the Bezier curve is unchanged")
        try:
            ns["degree_elevation_bez"](mat(c, "Q", p + 2, dim), p, num)
            c.prove(False, "piecewise points are refused")
        except ValueError: c.prove(True, "piecewise points are refused")
    return Task(f"degree_elevation_bez[p={p},{num}]", body, "sized", setup=load)


def t_elevate(p, mults, num):
    def body(c, nss):
        N, ns = nss
        U, P, n1 = start(c, p, mults)
        c.inputs["num"] = num
        ks = [x for i, x in enumerate(U) if i == 0 or U[i - 1] is not x]
        for a, b in zip(ks, ks[1:]): c.assume(lt(Fraction(1, 10 ** 6), sub(b, a)))
        c.cover("precondition is satisfiable")
        crv = N["NURBSCurve"](P.copy(), p, U.copy())
        o = ns["degree_elevate_curve"](crv, num)
        q = p + num
        c.prove(o.degree == q, "the new degree")
        V, Q = o.knots, o.control_pointsw
        c.prove(len(V) == Q.shape[0] + q + 1, "knots and control points fit")
        if len(V) != Q.shape[0] + q + 1: raise sym.PathEnd()
        want = [ks[0]] * (q + 1) + [x for x in ks[1:-1] for _ in range(q)] + [ks[-1]] * (q + 1)
        c.prove(len(want) == len(V), "the pieces are joined")
        if len(want) != len(V): raise sym.PathEnd()
        for a, b in zip(V, want): c.prove(eq(a, b), "the interval and the breaks are kept")
        W = rt.arr_of(want, (len(want),))
        for j in nonempty_spans(W, q, Q.shape[0] - 1):
            k = parent(c, U, p, n1, W[j])
            u = var(f"u{j}")
            num_, den = rcurve_at(u, p, U, P, k)
            num2, den2 = rcurve_at(u, q, W, Q, j)
            c.prove(eq(den2, den), "same weights function")
            for d in range(3): c.prove(eq(num2[d], num_[d]), "same points")
        c.prove(all(x is y for x, y in zip(crv.knots, U)) and all(x is y for x, y in zip(crv.control_pointsw.flat, P.flat)), "the curve itself is unchanged")
    return Task(f"degree_elevate_curve[p={p},interior={mults},{num}]", body, "sized", setup=both)


# ---- control points of derivatives, several spans at once, composition
def t_deriv(p, mults, d, dim=2):
    n1 = p + 1 + sum(mults)

    def body(c, ns):
        U = clamped(c, n1, p, mults=mults)
        Q = mat(c, "P", n1, dim)
        c.cover("precondition is satisfiable")
        for k in nonempty_spans(U, p, n1 - 1):
            PK = ns["curve_deriv_cpts"](dim, p, U, list(Q), (k - p, k), d)
            u = var(f"u{k}")
            for o in range(d + 1):
                want = [dcdb(k - p + j, p, o, u, U, k) for j in range(p + 1)]
                got = [cdb(k - p + o + j, p - o, u, U, k) for j in range(p - o + 1)]
                for x in range(dim): c.prove(eq(lin(got, [PK[o][j][x] for j in range(p - o + 1)]), lin(want, [Q[k - p + j, x] for j in range(p + 1)])), "derivative of the curve from its control points")
    return Task(f"curve_deriv_cpts[p={p},interior={mults},d={d}]", body, "sized", setup=load)


def t_spans(n):
    def body(c, ns):
        ks = [X.fresh("knot", "R") for _ in range(n)]
        asked = []

        def func(p, U, m, k):
            asked.append((p, U, m, k))
            return ("span", k)
        U = vec(c, "U", 6)
        c.cover("precondition is satisfiable")
        r = ns["find_spans"](2, U, 3, ks, func)
        c.prove(len(r) == n and all(x == ("span", k) and x[1] is k for x, k in zip(r, ks)) and all(a[0] == 2 and a[1] is U and a[2] == 3 for a in asked), "the span of every parameter in order")
    return Task(f"find_spans[{n}]", body, "sized", setup=load)


# ---- knot vectors
def t_generate(p, n, cl):
    def body(c, ns):
        c.cover("precondition is satisfiable")
        U = ns["generate_knot"](p, n, cl)
        c.prove(len(U) == n + p + 1 and all(b - a in (0, 1) for a, b in zip(U, U[1:])), "one knot per control point and degree, ascending by steps")
        if cl: c.prove(U[:p + 1] == [0] * (p + 1) and U[-p - 1:] == [n - p] * (p + 1) and len(set(U)) == n - p + 1, "clamped with single interior knots")
        else: c.prove(len(set(U)) == len(U), "all knots are different")
    return Task(f"generate_knot[p={p},n={n},{cl}]", body, "sized", setup=load)


def t_normalize(n):
    def body(c, ns):
        U = vec(c, "U", n)
        c.assume(lt(U[0], U[-1]))
        c.cover("precondition is satisfiable")
        V = ns["normalize_knot"](list(U))
        c.prove(len(V) == n, "as many knots")
        for a, b in zip(U, V): c.prove(eq(mul(b, sub(U[-1], U[0])), sub(a, U[0])), "knots are mapped to 0..1")
    return Task(f"normalize_knot[{n}]", body, "sized", setup=load)


# ---- interpolation
def t_filter(n):
    def body(c, ns):
        P, tol = mat(c, "P", n, 3), real(c, "tol")
        c.assume(le(0, tol))
        d = []

        def norm(a):
            a = list(a)
            for row in a:
                k = X.fresh("distance", "R")
                c.assume(le(0, k))
                d.append((k, row))
            return rt.arr_of([k for k, _ in d], (len(d),))
        ns["norm"] = norm
        rt.NPC.diff = lambda a, axis=0: rt.arr_of([sub(a[i + 1][j], a[i][j]) for i in range(len(a) - 1) for j in range(3)], (len(a) - 1, 3))
        try: r = ns["_remove_adjacent_duplicates"](P, tol)
        finally: del rt.NPC.diff
        c.cover("the end is reached")
        for i, (k, row) in enumerate(d):
            for j in range(3): c.prove(eq(row[j], sub(P[i + 1][j], P[i][j])), "distances of neighbours")
        keep = [0] + [i + 1 for i, (k, _) in enumerate(d) if c.decide(lt(tol, k))] if n else []
        c.prove(len(r) == len(keep) and len(d) == max(n - 1, 0), "a point is dropped when it repeats the one before")
        if len(r) != len(keep): return
        for a, i in zip(r, keep):
            for j in range(3): c.prove(eq(a[j], P[i][j]), "the points are kept in order")
    return Task(f"_remove_adjacent_duplicates[{n}]", body, "sized", setup=lambda: prog((K,)).load(K))


def t_interp(p, n, centripetal, dim=2):
    def body(c, ns):
        P = mat(c, "P", n, dim)
        dist = []

        def norm(v):
            k = X.fresh("chord", "R")
            c.assume(lt(0, k))
            dist.append((k, list(v)))
            return k

        def root(x):
            if not X.is_e(x): return rt.NPC.__class__.sqrt(rt.NPC, x)
            r = X.fresh("root", "R")
            c.assume(and_(lt(0, r), eq(mul(r, r), x)))
            return r
        ns["_remove_adjacent_duplicates"] = lambda q, tol=None: q
        ns["scalar_norm"] = norm
        rt.NPC.sqrt = root
        ns["lu_factor"] = lambda m: m

        def lu_solve(m, b):
            c.prove(m.shape == (n, n) and b.shape == (n, dim), "a square system")
            x = rt.arr_of([X.fresh("control", "R") for _ in range(n * dim)], (n, dim))
            c.system = (m, b)
            return x
        ns["lu_solve"] = lu_solve
        try: C, kv, q = ns["interpolate_curve"](P, p, centripetal)
        finally: del rt.NPC.sqrt
        c.cover("the end is reached")
        c.prove(q == p and len(kv) == n + p + 1 and C.shape == (n, dim), "shapes")
        m, b = c.system
        c.prove(all(x is y for x, y in zip(b.flat, P.flat)), "the system asks for the data points")
        # the parameters: chord lengths in proportion
        for i, (k, v) in enumerate(dist):
            for j in range(dim): c.prove(eq(v[j], sub(P[i + 1][j], P[i][j])), "chords of neighbours")
        L = [k for k, _ in dist]
        if centripetal: L = [root(k) for k in L]
        u = ns["compute_params_curve"].__wrapped__ if False else c.uk
        tot = lin(L, [1] * len(L))
        for i in range(n):
            if not centripetal: c.prove(eq(mul(u[i], tot), lin(L[:i], [1] * i)), "parameters in proportion to the chords")
            if i: c.prove(lt(u[i - 1], u[i]), "parameters increase")
        c.prove(and_(eq(u[0], 0), eq(u[n - 1], 1)), "from 0 to 1")
        for i in range(p + 1): c.prove(and_(eq(kv[i], 0), eq(kv[n + i], 1)), "clamped knots")
        for i in range(1, n - p): c.prove(eq(kv[p + i], mul(Fraction(1.0 / p), lin(list(u[i:i + p]), [1] * p))), "averaged interior knots")
        # row i of the system is the curve's combination at parameter i
        U = rt.arr_of(list(kv), (len(kv),))
        for i in range(n):
            k = n - 1
            if i < n - 1: k = next((k for k in range(p, n - 1) if c.decide(lt(u[i], U[k + 1]))), n - 1)
            N = [cdb(k - p + j, p, u[i], U, k) for j in range(p + 1)]
            row = [0] * (k - p) + N + [0] * (n - 1 - k)
            for j in range(n): c.prove(eq(m[i][j], row[j]), "the system's row is the curve at the data point's parameter")

    def setup():
        ns = load()
        real_ = ns["compute_params_curve"]

        def keep(*a, **k):
            r = real_(*a, **k)
            X.HOOK["ctx"].uk = r
            return r
        ns["compute_params_curve"] = keep
        return ns
    return Task(f"interpolate_curve[p={p},n={n}{',centripetal' if centripetal else ''}]", body, "sized", setup=setup, div="assume")


# ---- joining
def reversal(U, P, flip):
    if not flip: return U, P
    a, b = U[0], U[-1]
    n = P.shape[0]
    return rt.arr_of([sub(add(a, b), x) for x in list(U)[::-1]], (len(U),)), rt.arr_of([P[n - 1 - i, k] for i in range(n) for k in range(4)], (n, 4))


def t_join(p1, m1, p2, m2, ix):
    """ix: which ends touch"""
    def body(c, nss):
        N, ns = nss
        n1, n2 = p1 + 1 + sum(m1), p2 + 1 + sum(m2)
        U1, U2 = clamped(c, n1, p1, "U", mults=m1), clamped(c, n2, p2, "V", mults=m2)
        P1, P2 = points(c, n1, "P"), points(c, n2, "Q")
        for d in range(3): P2[-1 if ix[1] else 0, d] = P1[-1 if ix[0] else 0, d]
        for U in (U1, U2):
            ks = [x for i, x in enumerate(U) if i == 0 or U[i - 1] is not x]
            for a, b in zip(ks, ks[1:]): c.assume(lt(Fraction(1, 10 ** 6), sub(b, a)))
        c.cover("precondition is satisfiable")
        a, b = N["NURBSCurve"](P1.copy(), p1, U1.copy()), N["NURBSCurve"](P2.copy(), p2, U2.copy())
        asked = []

        def norm(v):
            i, j = len(asked) // 2, len(asked) % 2
            asked.append(v)
            same = X.and_(*[eq(x, 0) for x in v])
            return 0 if (i, j) == ix else 1            # the other ends are apart
        la = rt.NPC.linalg
        old = la.norm if hasattr(la, "norm") else None
        la.norm = norm
        try: o = ns["join_two_curves"](a, b, Fraction(1, 10 ** 5))
        finally:
            if old is not None: la.norm = old
        q = max(p1, p2)
        V, Q = o.knots, o.control_pointsw
        c.prove(o.degree == q, "the larger degree")
        c.prove(len(V) == Q.shape[0] + q + 1, "knots and control points fit")
        if len(V) != Q.shape[0] + q + 1: raise sym.PathEnd()
        A, PA = reversal(U1, P1, ix[0] == 0)
        B, PB = reversal(U2, P2, ix[1] == 1)
        sh = sub(A[-1], B[0])

        def breaks(U, p):
            ks = []
            for x in U:
                if not ks or ks[-1][0] is not x: ks.append([x, 0])
                ks[-1][1] += 1
            return [(x, q - p + m if 0 < i < len(ks) - 1 else m) for i, (x, m) in enumerate(ks)]
        ka, kb = breaks(A, p1), breaks(B, p2)
        if p1 < q: ka = [(x, q) for x, m in ka]
        if p2 < q: kb = [(x, q) for x, m in kb]
        want = [ka[0][0]] * (q + 1) + [x for x, m in ka[1:-1] for _ in range(m)] + [ka[-1][0]] * q + [add(x, sh) for x, m in kb[1:-1] for _ in range(m)] + [add(kb[-1][0], sh)] * (q + 1)
        c.prove(len(want) == len(V), "the knots are joined")
        if len(want) != len(V): raise sym.PathEnd()
        for x, y in zip(V, want): c.prove(eq(x, y), "the second interval follows the first")
        W = rt.arr_of(want, (len(want),))
        fac = None
        na = sum(m for _, m in ka[1:-1]) + q + q            # last span of the first curve
        for j in nonempty_spans(W, q, Q.shape[0] - 1):
            u = var(f"u{j}")
            first = j <= sum(m for _, m in ka[1:-1]) + q
            UU, PP, pp, t = (A, PA, p1, u) if first else (B, PB, p2, sub(u, sh))
            x = W[j] if first else None
            sp = nonempty_spans(UU, pp, PP.shape[0] - 1)
            spans = [j2 for j2 in nonempty_spans(W, q, Q.shape[0] - 1) if (j2 <= sum(m for _, m in ka[1:-1]) + q) == first]
            k = sp[spans.index(j)]
            num, den = rcurve_at(t, pp, UU, PP, k)
            num2, den2 = rcurve_at(u, q, W, Q, j)
            f = 1 if first else div(PA[-1, 3], PB[0, 3])
            c.prove(eq(den2, mul(den, f)), "same weights function up to a factor")
            for d in range(3): c.prove(eq(num2[d], mul(num[d], f)), "same points")
        for crv, U, P in ((a, U1, P1), (b, U2, P2)): c.prove(all(x is y for x, y in zip(crv.knots, U)) and all(x is y for x, y in zip(crv.control_pointsw.flat, P.flat)), "the curves themselves are unchanged")
    return Task(f"join_two_curves[{p1},{m1};{p2},{m2};{ix}]", body, "sized", setup=both)


# ---- ruled surfaces
def t_ruled(p1, m1, p2, m2, unit=True):
    def setup():
        P = prog((NURBS, K, R), overrides={(NURBS, "find_multiplicity"): multiplicity, (K, "find_multiplicity"): mult_})
        return P.load(NURBS), P.load(R)

    def body(c, nss):
        N, ns = nss
        n1, n2 = p1 + 1 + sum(m1), p2 + 1 + sum(m2)
        Us = []
        for nm, n, p, m in (("U", n1, p1, m1), ("V", n2, p2, m2)):
            lo, hi = (0, 1) if unit else (var(nm + "a"), var(nm + "b"))
            ks, prev = [lo] * (p + 1), lo
            if not unit: c.assume(lt(lo, hi))
            for j, k in enumerate(m):
                x = var(f"{nm}{j}")
                c.assume(lt(add(prev, END), x))
                ks += [x] * k
                prev = x
            if m: c.assume(lt(add(prev, END), hi))
            U = rt.arr_of(ks + [hi] * (p + 1), (n + p + 1,))
            c.inputs[nm] = U
            Us.append(U)
        U1, U2 = Us
        P1, P2 = points(c, n1, "P"), points(c, n2, "Q")
        c.cover("precondition is satisfiable")
        a, b = N["NURBSCurve"](P1.copy(), p1, U1.copy()), N["NURBSCurve"](P2.copy(), p2, U2.copy())

        def unique(xs, **kw):
            out = []
            for x in xs:
                i = 0
                while i < len(out) and c.decide(lt(out[i], x)): i += 1
                if i == len(out) or not c.decide(eq(out[i], x)): out.insert(i, x)
            return rt.arr_of(out, (len(out),))
        NP = rt.NPC
        saved = {k: NP.__dict__.get(k) for k in ("unique", "isclose", "delete", "where")}
        NP.delete = lambda a, i: rt.arr_of(list(a)[:i] + list(a)[i + 1:], (len(a) - 1,))
        same = lambda x, y: 1 if c.decide(eq(x, y)) else 0
        NP.unique, NP.isclose = unique, lambda xs, y: rt.arr_of([same(x, y) for x in xs], (len(xs),)) if hasattr(xs, "__len__") else same(xs, y)
        NP.where = lambda m, a, b: rt.arr_of([a if k else x for k, x in zip(m, b)], (len(b),))
        try: s = ns["ruled"](a, b)
        finally:
            for k, v in saved.items():
                if v is None: delattr(NP, k)
                else: setattr(NP, k, v)
        q = max(p1, p2)
        Q, W, T = s.control_points_w, s.knots_u, s.knots_v
        c.prove(list(s.degree) == [q, 1] and list(T) == [0, 0, 1, 1], "straight between the curves")
        m = len(W) - q - 1
        c.prove((Q.shape[0], Q.shape[1], Q.shape[2]) == (m, 2, 4), "control points fit")
        if Q.shape[0] != m: raise sym.PathEnd()
        spans = [k for k in range(q, m) if c.decide(lt(W[k], W[k + 1]))]
        c.prove(all(c.decide(eq(W[k], 0)) for k in range(q + 1)) and all(c.decide(eq(W[m + k], 1)) for k in range(q + 1)), "clamped on 0..1")
        for side, (U, P, p, n) in enumerate(((U1, P1, p1, n1), (U2, P2, p2, n2))):
            for j in spans:
                t = var(f"t{j}")
                x = t if unit else add(U[0], mul(t, sub(U[-1], U[0])))
                at = W[j] if unit else add(U[0], mul(W[j], sub(U[-1], U[0])))
                k = next((k for k in nonempty_spans(U, p, n - 1) if c.decide(lt(at, U[k + 1]))), n - 1)
                num, den = rcurve_at(x, p, U, P, k)
                B = [cdb(j - q + i, q, t, W, j) for i in range(q + 1)]
                c.prove(eq(lin(B, [Q[j - q + i, side, 3] for i in range(q + 1)]), den), "same weights function at the curve's side")
                for d in range(3): c.prove(eq(lin(B, [Q[j - q + i, side, d] for i in range(q + 1)]), num[d]), "the surface ends in the curve")
        for crv, U, P in ((a, U1, P1), (b, U2, P2)): c.prove(all(x is y for x, y in zip(crv.knots, U)) and all(x is y for x, y in zip(crv.control_pointsw.flat, P.flat)), "the curves themselves are unchanged")
    return Task(f"ruled[{p1},{m1};{p2},{m2}{'' if unit else ',any interval'}]", body, "sized", setup=setup)


TASKS = [t_span(w) for w in SPAN] + [t_mult(n) for n in (1, 3)]
for p, mults in ((1, [1]), (2, [1, 1]), (2, [2]), (3, [1]), (3, [])): TASKS += [t_raw(p, mults, w, r) for w, r in cases(p, mults)]
for p, mults in ((1, [1]), (2, [1])): TASKS += [t_insert(p, mults, w, r) for w, r in cases(p, mults)]
for p, mults in ((1, [1]), (2, [1]), (2, [2]), (3, [])): TASKS += [t_split(p, mults, w) for w in sorted({w for w, r in cases(p, mults)} | {("at", j) for j in range(len(mults))})]
TASKS += [t_refine2(2, [1, 1], [("in", 0), ("at", 1)], [1, 1]), t_refine2(1, [1], [("in", 0), ("in", 1)], [1, 1]), t_refine2(2, [1], [("in", 0)], [2]), t_refine2(2, [1], [("at", 0), ("in", 1)], [1, 1]), t_refine2(3, [1], [("in", 1)], [1]), t_refine2(2, [], [("in", 0), ("in", 0)], [1, 1]), t_refine2(2, [2], [("in", 1)], [1])]
TASKS += [t_refine1(2, [1], [("in", 0)]), t_refine1(2, [1], [("at", 0), ("in", 1)]), t_refine1(1, [1], [("in", 0), ("in", 1)]), t_refine1(3, [1], [("at", 0)]), t_refine1(3, [1], [("in", 1)]), t_refine1(2, [1, 1], [("in", 1), ("in", 2)]), t_refine1(2, [1], [("in", 1)])]
TASKS += [t_bez(p, n) for p in (1, 2, 3, 4) for n in (1, 2, 3)] + [t_elevate(p, m, n) for p, m, n in ((1, [], 1), (1, [1], 1), (1, [1], 2), (2, [], 1), (2, [1], 1), (2, [2], 1), (2, [1], 2), (3, [], 1), (3, [1], 1))]

TASKS += [t_deriv(p, m, d) for p, m, d in ((1, [1], 1), (2, [1], 2), (2, [2], 1), (3, [1], 3))] + [t_spans(n) for n in (0, 3)]
TASKS += [t_generate(p, n, cl) for p in (1, 2, 3) for n in (p + 1, p + 3) for cl in (True, False)] + [t_normalize(4)] + [t_filter(n) for n in (0, 1, 2, 4)]
TASKS += [t_interp(p, n, False) for p, n in ((1, 2), (1, 4), (2, 3), (2, 4), (2, 5), (3, 4), (3, 5), (3, 6))] + [t_interp(2, 4, True), t_interp(3, 5, True)]
TASKS += [t_join(1, [1], 1, [], ix) for ix in ((1, 0), (0, 0), (0, 1), (1, 1))] + [t_join(2, [1], 2, [], (1, 0)), t_join(1, [1], 2, [1], (1, 0)), t_join(2, [1], 1, [1], (0, 1)), t_join(2, [], 3, [], (1, 1)), t_join(3, [], 3, [1], (1, 0))]
TASKS += [t_ruled(2, [1], 2, [2]), t_ruled(2, [2], 2, [1]), t_ruled(2, [1], 1, [1]), t_ruled(1, [1], 1, [1]), t_ruled(2, [1], 1, []), t_ruled(2, [1], 2, [1]), t_ruled(2, [2], 1, [1]), t_ruled(3, [], 2, [1]), t_ruled(1, [], 2, [], False), t_ruled(1, [1], 1, [], False)]
