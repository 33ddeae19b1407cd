"""Knot insertion, refinement and removal: the old and the new control data describe the same (rational) curve.  Control points,
positive weights, knots, the new knot and the evaluation parameter are symbolic; degree, sizes and multiplicities are fixed per
task.  find_multiplicity is replaced by its contract (settled by C01): the number of knots equal to the parameter."""
from .lib import *
from .c03 import points

LEVEL = "other"
FUNCTIONS = [NURBS + ":" + f for f in ("NURBSCurve.insert_knot", "NURBSCurve.multiply_knot", "knot_insertion", "knot_insertion_kv", "knot_refinement", "knot_removal", "NURBSCurve.evaluate", "greville_abscissae")]
ASSUMPTIONS = ["a knot either equals the inserted one or differs by more than the tolerance of find_multiplicity (settled by C01)",
               "knot_refinement: distinct knots (old and new) are at least 1e-7 apart (the code treats differences below 1e-8 as equal)", "uniqueSorted (C) returns the sorted distinct values (see C23)"]


def multiplicity(t, U, tol=0):
    m = 0
    for x in U:
        if x is t: m += 1
        elif X.is_e(x) or X.is_e(t):
            if X.HOOK["ctx"].decide(eq(x, t)): m += 1
        elif x == t: m += 1
    return m


def loaded(mods=(NURBS,)): return prog(mods, overrides={(NURBS, "find_multiplicity"): multiplicity, ("mmcore.numeric.algorithms.quicksort", "uniqueSorted"): unique_sorted}).load(NURBS)


def place(c, U, p, n1, where, name="t"):
    """a new knot: ('in', j) strictly inside the j-th non-empty span, ('at', j) equal to the j-th interior knot value; -> (t, sorted knots without it split position)"""
    spans = nonempty_spans(U, p, n1 - 1)
    kind, j = where
    if kind == "in":
        t = real(c, name)
        k = spans[j]
        c.assume(lt(U[k], t)); c.assume(lt(t, U[k + 1]))
        return t, k, 0
    k = spans[j + 1]
    t = U[k]
    c.inputs[name] = t
    return t, k, sum(1 for x in U if x is t)


def merged(U, k, t, r): return rt.arr_of(list(U[:k + 1]) + [t] * r + list(U[k + 1:]), (len(U) + r,))


def cases(p, mults):
    out = [(("in", j), r) for j in range(len(mults) + 1) for r in range(1, p + 1)]
    out += [(("at", j), r) for j, m in enumerate(mults) for r in range(1, p - m + 1)]
    return out


def same_curve(c, crv, V, U, p, P, n1, k, what):
    """crv (knots V) equals the curve (U, P) on every non-empty span of V: equal homogeneous numerators and denominators"""
    m = len(V) - p - 2
    Q = crv.control_pointsw
    for j in nonempty_spans(V, p, m):
        old = j if j <= k else j - (len(V) - len(U))
        u = var(f"u{j}")
        num, den = rcurve_at(u, p, U, P, old)
        num2, den2 = rcurve_at(u, p, V, Q, j)
        c.prove(eq(den2, den), what)
        for d in range(3): c.prove(eq(num2[d], num[d]), what)
    if p > 2: return
    spans = nonempty_spans(V, p, m)                       # evaluation itself, with whatever was remembered before
    j = spans[c.choose(len(spans), "span")]
    u = real(c, "u")
    c.assume(le(V[j], u)); c.assume(lt(u, V[j + 1]) if j != spans[-1] else le(u, V[j + 1]))
    c.cover("precondition is satisfiable")
    num, den = rcurve_at(u, p, U, P, j if j <= k else j - (len(V) - len(U)))
    got = crv.evaluate(u)
    for d in range(3): c.prove(eq(got[d], div(num[d], den)), what)


def insert(p, mults, where, r):
    n1 = p + 1 + sum(mults)

    def body(c, ns):
        U = clamped(c, n1, p, mults=mults)
        P = points(c, n1)
        c.inputs["p"], c.inputs["r"] = p, r
        t, k, s = place(c, U, p, n1, where)
        crv = ns["NURBSCurve"](P.copy(), p, U.copy())
        if p < 3: crv.evaluate(t)
        if r == p - s: c.prove(crv.multiply_knot(t) == r, "multiply_knot reports the insertions")
        else: crv.insert_knot(t, r)
        V = merged(U, k, t, r)
        c.prove(len(crv.knots) == len(V), "the knot is added r times")
        for a, b in zip(crv.knots, V): c.prove(eq(a, b), "the other knots are kept in order")
        c.prove(crv.control_points.shape[0] == n1 + r, "one control point per inserted knot")
        iv = crv.interval()
        c.prove(and_(eq(iv[0], U[0]), eq(iv[1], U[-1])), "the parameter interval is unchanged")
        g = crv.greville_abscissae
        c.prove(len(g) == n1 + r, "one Greville abscissa per control point")
        for i in range(min(len(g), n1 + r)): c.prove(eq(mul(g[i], p), lin(list(V[i + 1:i + 1 + p]), [1] * p)), "Greville abscissae follow the new knots")
        for w in crv.weights: c.prove(lt(0, w), "weights stay positive")
        same_curve(c, crv, V, U, p, P, n1, k, "the curve is unchanged")
    return Task(f"insert_knot[p={p},interior={mults},{where[0]} {where[1]},r={r}]", body, f"degree {p}, {n1} control points, interior multiplicities {mults}", setup=loaded)


def raw(p, mults, where, r, dim=2):
    """knot_insertion and knot_insertion_kv on plain control points; a removal gives the original points back"""
    n1 = p + 1 + sum(mults)

    def body(c, ns):
        U = clamped(c, n1, p, mults=mults)
        Q = mat(c, "P", n1, dim)
        c.inputs["p"], c.inputs["r"] = p, r
        t, k, s = place(c, U, p, n1, where)
        c.cover("precondition is satisfiable")
        U0, Q0 = U.copy(), Q.copy()
        V = ns["knot_insertion_kv"](U, t, k, r)
        W = merged(U, k, t, r)
        c.prove(len(V) == len(W) and all(a is b for a, b in zip(V, W)), "knot_insertion_kv adds the knot")
        R = ns["knot_insertion"](p, U, Q, t, r, s, k)
        c.prove(R.shape == (n1 + r, dim), "shape of the result")
        c.prove(all(a is b for a, b in zip(U, U0)) and all(a is b for a, b in zip(Q.flat, Q0.flat)), "the operands are unchanged")
        for j in nonempty_spans(W, p, n1 + r - 1):
            u = var(f"u{j}")
            prove_eqs(c, curve_at(u, p, W, R, j, dim), curve_at(u, p, U, Q, j if j <= k else j - r, dim), "the curve is unchanged")
        if p > 1:
            S = ns["knot_removal"](p, strict(W), R, t, Fraction(1, 10000), r)
            c.prove(S.shape == (n1, dim), "removal drops one control point per knot")
            for i in range(n1):
                for d in range(dim): c.prove(eq(S[i, d], Q[i, d]), "removing an inserted knot restores the control points")
    return Task(f"knot_insertion[p={p},interior={mults},{where[0]} {where[1]},r={r}]", body, f"degree {p}, {n1} control points, interior multiplicities {mults}", setup=loaded)


def refine(p, mults, wheres, dim=2):
    n1 = p + 1 + sum(mults)

    def body(c, ns):
        U = clamped(c, n1, p, mults=mults)
        Q = mat(c, "P", n1, dim)
        c.inputs["p"] = p
        add_, W, parent = [], list(U), list(range(len(U)))
        for i, w in enumerate(wheres):
            t, k, s = place(c, U, p, n1, w, f"t{i}")
            at = max(x for x in range(len(W)) if W[x] is U[k])
            W = W[:at + 1] + [t] * (p - s) + W[at + 1:]
            parent = parent[:at + 1] + [k] * (p - s) + parent[at + 1:]
            add_.append(t)
        ks = [x for i, x in enumerate(W) if not i or W[i - 1] is not x]
        for a, b in zip(ks, ks[1:]): c.assume(le(Fraction(1, 10 ** 7), sub(b, a)))
        c.cover("precondition is satisfiable")
        L = rt.arr_of(add_[::-1], (len(add_),))
        L0 = L.copy()
        R, V = ns["knot_refinement"](p, U, Q, L)
        c.prove(all(a is b for a, b in zip(L, L0)), "the knot list is unchanged")
        W = rt.arr_of(W, (len(W),))
        c.prove(len(V) == len(W), "every listed knot is raised to full multiplicity")
        for a, b in zip(V, W): c.prove(eq(a, b), "refined knots")
        for j in nonempty_spans(W, p, len(W) - p - 2):
            u = var(f"u{j}")
            prove_eqs(c, curve_at(u, p, W, R, j, dim), curve_at(u, p, U, Q, parent[j], dim), "the curve is unchanged")
    return Task(f"knot_refinement[p={p},interior={mults},{wheres}]", body, f"degree {p}, {n1} control points, interior multiplicities {mults}", setup=loaded)


def dense(p, mults, density):
    """refinement of all spans: every span is cut into 2^(density-1) equal parts, all knots raised to full multiplicity"""
    def body(c, ns):
        n1 = p + 1 + sum(mults)
        U = clamped(c, n1, p, mults=mults)
        c.inputs["p"] = p
        dim = 2
        Q = mat(c, "P", n1, dim)
        spans = nonempty_spans(U, p, n1 - 1)
        W, parent = [U[0]] * (p + 1), [None] * (p + 1)
        for k in spans:
            parts = 2 ** (density - 1)
            c.assume(le(Fraction(parts, 10 ** 7), sub(U[k + 1], U[k])))
            for i in range(1, parts + 1):
                x = U[k + 1] if i == parts else add(U[k], mul(Fraction(i, parts), sub(U[k + 1], U[k])))
                parent[-1] = k
                last = i == parts and k == spans[-1]
                W += [x] * (p + 1 if last else p)
                parent += [None] * (p + 1 if last else p)
        c.inputs["density"] = density
        c.cover("precondition is satisfiable")
        R, V = ns["knot_refinement"](p, U, Q, density=density)
        W = rt.arr_of(W, (len(W),))
        c.prove(len(V) == len(W), "every span is cut into equal parts, every knot raised to full multiplicity")
        if len(V) != len(W): return
        for a, b in zip(V, W): c.prove(eq(a, b), "refined knots")
        for j in range(len(parent)):
            if parent[j] is None: continue
            u = var(f"u{j}")
            prove_eqs(c, curve_at(u, p, W, R, j, dim), curve_at(u, p, U, Q, parent[j], dim), "the curve is unchanged")
    return Task(f"knot_refinement[p={p},interior={mults},density {density}]", body, f"degree {p}, interior multiplicities {mults}, density {density}", setup=loaded)


TASKS = [dense(1, [], 2), dense(1, [1], 2), dense(2, [], 2), dense(1, [], 3), dense(2, [1], 2), dense(1, [1], 3), dense(1, [], 4), dense(2, [], 3)]
for p, mults in ((1, [1]), (2, [1]), (3, [1])):
    TASKS += [insert(p, mults, w, r) for w, r in cases(p, mults)]
for p, mults in ((1, [1, 1]), (2, [1, 1]), (2, [2]), (3, [1, 1]), (3, [2]), (3, []), (4, [1]), (4, [2, 1]), (5, [1])):
    TASKS += [raw(p, mults, w, r) for w, r in cases(p, mults)]
TASKS += [refine(2, [1, 1], [("in", 0), ("at", 1)]), refine(2, [2], [("in", 1)]), refine(1, [1], [("in", 0), ("in", 1)]), refine(2, [1], [("in", 0)]), refine(2, [1], [("at", 0), ("in", 1)]), refine(3, [1], [("at", 0)])]


def _case(kind):
    def f(inp, task):
        import re
        U, P, p = [float(x) for x in inp["U"]], inp["P"], int(inp["p"])
        P = [(list(r) + [0.0, 0.0])[:3] + [1.0] if len(r) < 4 else list(r) for r in P]
        r = int(inp.get("r", 1))
        ts = [float(inp[k]) for k in ("t", "t0", "t1") if k in inp]
        us = sorted(set(U) | {(a + b) / 2 for a, b in zip(sorted(U + ts), sorted(U + ts)[1:])})
        if kind == "refine": return {"kind": "refine", "case": {"U": U, "P": [x[:3] for x in P], "p": p, "ts": ts, "mode": "dense" if "density" in inp else "list", "density": int(inp.get("density", 1)), "us": us}}
        return {"kind": kind, "case": {"U": U, "P": P, "p": p, "t": ts[0], "r": r, "us": us, "before": True}}
    return f


MODEL_CASE = {"insert_knot": _case("insert"), "knot_insertion": _case("raw"), "knot_refinement": _case("refine")}
