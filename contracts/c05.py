"""Splitting, trimming and decomposing a curve: the pieces are the curve restricted to their parameter intervals.  Control points,
positive weights, knots and the cut parameters are symbolic; degree, sizes and multiplicities are fixed per task.
find_multiplicity is replaced by its contract (settled by C01)."""
from .lib import *
from .c03 import points
from .c04 import multiplicity, place, cases

LEVEL = "other"
FUNCTIONS = [NURBS + ":" + f for f in ("split_curve", "split_curve2", "split_curve_multiple", "decompose_curve", "NURBSCurve.trim", "NURBSCurve.multiply_knot", "NURBSCurve.insert_knot", "NURBSCurve.ccopy", "NURBSCurve.set", "NURBSCurve.create", "normalize_parameter_range", "NURBSCurve.cnormalize_knots")]
ASSUMPTIONS = ["a knot either equals the cut parameter or differs by more than the tolerance of find_multiplicity (settled by C01)",
               "cut parameters are at least 1e-6 (and 1e-6 of their size) from each other, from other knots and from the ends of the domain"]
TINY = Fraction(1, 10 ** 6)


def loaded(): return prog((NURBS,), overrides={(NURBS, "find_multiplicity"): multiplicity}).load(NURBS)


def interior(c, U, t):
    c.assume(lt(TINY, sub(t, U[0]))); c.assume(lt(TINY, sub(U[-1], t)))


def piece(c, crv, U, p, P, n1, lo, hi, shift, what, norm=None):
    """crv is the curve (U, P) on [lo, hi]; its parameter is the original one minus shift (or normalised to [0, 1])"""
    V, Q = crv.knots, crv.control_pointsw
    n = Q.shape[0]
    c.prove(len(V) == n + p + 1, what + ": knot vector and control points fit")
    if len(V) != n + p + 1: raise sym.PathEnd()
    sc = (lambda x: div(sub(x, lo), sub(hi, lo))) if norm else (lambda x: sub(x, shift))
    iv = crv.interval()
    c.prove(and_(eq(iv[0], sc(lo)), eq(iv[1], sc(hi))), what + ": parameter interval")
    for x in list(V[:p + 1]): c.prove(eq(x, sc(lo)), what + ": clamped at its start")
    for x in list(V[-p - 1:]): c.prove(eq(x, sc(hi)), what + ": clamped at its end")
    old = [x for i, x in enumerate(U) if (i == 0 or U[i - 1] is not x) and strictly(c, lo, x) and strictly(c, x, hi)]
    inner = [x for x in old for _ in range(sum(1 for y in U if y is x))]
    want = [lo] * (p + 1) + inner + [hi] * (p + 1)
    c.prove(len(want) == len(V), what + ": number of knots")
    if len(want) != len(V): raise sym.PathEnd()
    for a, b in zip(V, want): c.prove(eq(a, sc(b)), what + ": interior knots are kept")
    W = rt.arr_of(want, (len(want),))
    for j in nonempty_spans(W, p, n - 1):
        k = parent(c, U, p, n1, W[j])
        u = var(f"u{j}")
        num, den = rcurve_at(u, p, U, P, k)
        num2, den2 = rcurve_at(u, p, W, Q, j)
        c.prove(eq(den2, den), what + ": same weights function")
        for d in range(3): c.prove(eq(num2[d], num[d]), what + ": same points")
    if p < 3:
        for w in crv.weights: c.prove(lt(0, w), what + ": weights stay positive")


def strictly(c, a, b): return a is not b and c.decide(lt(a, b))


def parent(c, U, p, n1, x):
    """the knot interval of U that starts at or before x"""
    ks = nonempty_spans(U, p, n1 - 1)
    for k in ks:
        if c.decide(lt(x, U[k + 1])): return k
    return ks[-1]


def start(c, p, mults):
    n1 = p + 1 + sum(mults)
    U = clamped(c, n1, p, mults=mults)
    P = points(c, n1)
    c.inputs["p"] = p
    return U, P, n1


def split(fn, p, mults, where, norm=False):
    def body(c, ns):
        U, P, n1 = start(c, p, mults)
        t, k, s = place(c, U, p, n1, where)
        interior(c, U, t)
        c.cover("precondition is satisfiable")
        crv = ns["NURBSCurve"](P.copy(), p, U.copy())
        if norm: a, b = ns[fn](crv, t, Fraction(1, 10 ** 7), True)
        else: a, b = ns[fn](crv, t)
        piece(c, a, U, p, P, n1, U[0], t, 0, "first piece", norm)
        piece(c, b, U, p, P, n1, t, U[-1], 0, "second piece", norm)
        c.prove(all(x is y for x, y in zip(crv.knots, U)) and all(x is y for x, y in zip(crv.control_pointsw.flat, P.flat)), "the curve itself is unchanged")
    return Task(f"{fn}[p={p},interior={mults},{where[0]} {where[1]}{',normalized' if norm else ''}]", body, f"degree {p}, interior multiplicities {mults}", setup=loaded)


def edge(fn, p):
    """a cut at or outside the ends of the domain is refused"""
    def body(c, ns):
        U, P, n1 = start(c, p, [])
        t = real(c, "t")
        c.assume(or_(le(t, U[0]), le(U[-1], t)))
        c.cover("precondition is satisfiable")
        crv = ns["NURBSCurve"](P, p, U)
        try:
            ns[fn](crv, t)
            c.prove(False, "a cut at the edge is refused")
        except ValueError: c.prove(True, "a cut at the edge is refused")
    return Task(f"edge {fn}[p={p}]", body, f"degree {p}", setup=loaded)


def trim(p, mults, w1, w2, swap=False):
    def body(c, ns):
        U, P, n1 = start(c, p, mults)
        ts = []
        for i, w in enumerate((w1, w2)):
            if w == "lo": t = U[0]
            elif w == "hi": t = U[-1]
            else: t = place(c, U, p, n1, w, f"t{i}")[0]
            c.inputs[f"t{i}"] = t
            ts.append(t)
        for x in [U[j] for j in range(len(U)) if j == 0 or U[j - 1] is not U[j]]:
            for t in ts:
                if x is not t and x not in (): c.assume(or_(lt(add(t, TINY), x), lt(add(x, TINY), t)))
        c.assume(lt(add(ts[0], TINY), ts[1]))
        for t in ts:                                      # calc_epsilon grows with the parameter
            c.assume(and_(le(-100, t), le(t, 100)))
        c.cover("precondition is satisfiable")
        crv = ns["NURBSCurve"](P.copy(), p, U.copy())
        out = crv.trim(ts[1], ts[0]) if swap else crv.trim(*ts)
        piece(c, out, U, p, P, n1, ts[0], ts[1], ts[0], "trimmed curve")
        c.prove(all(x is y for x, y in zip(crv.knots, U)) and all(x is y for x, y in zip(crv.control_pointsw.flat, P.flat)), "the curve itself is unchanged")
    return Task(f"trim[p={p},interior={mults},{w1}-{w2}{',swapped' if swap else ''}]", body, f"degree {p}, interior multiplicities {mults}", setup=loaded)


def decompose(p, mults):
    def body(c, ns):
        U, P, n1 = start(c, p, mults)
        ks = [x for i, x in enumerate(U) if i == 0 or U[i - 1] is not x]
        for a, b in zip(ks, ks[1:]): c.assume(lt(TINY, sub(b, a)))
        c.cover("precondition is satisfiable")
        crv = ns["NURBSCurve"](P.copy(), p, U.copy())
        out = ns["decompose_curve"](crv)
        c.prove(len(out) == len(ks) - 1, "one piece per knot interval")
        for i, o in enumerate(out): piece(c, o, U, p, P, n1, ks[i], ks[i + 1], 0, "Bezier piece")
        c.prove(all(x is y for x, y in zip(crv.knots, U)), "the curve itself is unchanged")
    return Task(f"decompose_curve[p={p},interior={mults}]", body, f"degree {p}, interior multiplicities {mults}", setup=loaded)


TASKS = []
for p, mults in ((1, [1]), (2, [1]), (2, [2]), (3, [1]), (3, []), (3, [2])):
    for w in sorted({w for w, r in cases(p, mults)} | {("at", j) for j in range(len(mults))}):
        TASKS += [split(f, p, mults, w) for f in ("split_curve", "split_curve2")]
TASKS += [split("split_curve", 2, [1], ("in", 0), True), edge("split_curve", 1), edge("split_curve2", 2)]
TASKS += [trim(1, [1], ("in", 0), ("in", 1)), trim(2, [1], ("in", 0), ("in", 1)), trim(2, [], ("in", 0), ("in", 0)), trim(2, [1], ("in", 0), ("at", 0)), trim(2, [1], ("at", 0), ("in", 1)),
          trim(2, [1], "lo", ("in", 1)), trim(2, [1], ("in", 0), "hi"), trim(2, [1], "lo", "hi"), trim(2, [2], ("in", 0), ("in", 1)), trim(2, [1], ("in", 0), ("in", 1), True), trim(3, [1], ("in", 0), "hi"), trim(3, [1], "lo", ("at", 0)), trim(3, [], ("in", 0), "hi")]
TASKS += [decompose(1, [1, 1]), decompose(2, [1]), decompose(2, [1, 1]), decompose(2, [2, 1]), decompose(3, [1]), decompose(3, []), decompose(4, [1]), decompose(3, [2, 1])]


def _case(inp, task):
    U, P, p = [float(x) for x in inp["U"]], [list(map(float, r)) for r in inp["P"]], int(inp["p"])
    ts = [float(inp[k]) for k in ("t", "t0", "t1") if k in inp]
    us = sorted(set(U) | {(a + b) / 2 for a, b in zip(sorted(U + ts), sorted(U + ts)[1:])})
    return {"kind": "pieces", "case": {"U": U, "P": P, "p": p, "ts": ts, "us": us, "before": True}}


MODEL_CASE = {k: _case for k in ("split_curve", "split_curve2", "trim", "decompose_curve")}
