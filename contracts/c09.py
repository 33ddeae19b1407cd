"""Copies, pickles and serialised forms of curves (and copies of surfaces): equal to the original when made, independent of it
afterwards.  Control points, positive weights, knots and parameters are symbolic; degree and sizes are fixed per task.
The bytes of serialize() are modelled as typed cells at byte offsets: every byte must be initialised, every read in bounds."""
from .lib import *
from .c03 import points, prove_point

LEVEL = "other"
FUNCTIONS = [NURBS + ":" + f for f in ("NURBSCurve.__cinit__", "NURBSCurve.__init__", "NURBSCurve.ccopy", "NURBSCurve.copy", "NURBSCurve.__deepcopy__", "NURBSCurve.__reduce__", "NURBSCurve.cserialize", "NURBSCurve.serialize",
             "NURBSCurve.cdeserialize", "NURBSCurve.deserialize", "NURBSCurve.geometry_hash", "NURBSCurve.__eq__", "NURBSCurve.__hash__", "NURBSSurface.__init__", "NURBSSurface.ccopy", "NURBSSurface.copy",
             "NURBSSurface.geometry_hash", "NURBSSurface.__eq__", "NURBSSurface.knots_u", "NURBSSurface.knots_v")]
ASSUMPTIONS = ["hash of a tuple and tobytes are taken as injective (no collisions, one bit pattern per real number)", "pickle passes copies of the arrays returned by __reduce__ to the named constructor",
               "C integers do not overflow (sizes below 2^31)"]


def loaded(): return prog().load(NURBS)


def make(c, ns, p, mults):
    n1 = p + 1 + sum(mults)
    U = clamped(c, n1, p, mults=mults)
    P = points(c, n1)
    u = real(c, "u")
    k = on_span(c, u, U, p, n1 - 1)
    c.inputs["p"] = p
    src, kn = P.copy(), U.copy()
    crv = ns["NURBSCurve"](src, p, kn)
    return U, P, u, k, crv, src, kn


def same(c, o, U, P, p, periodic, what):
    Q, V = o.control_pointsw, o.knots
    ok = tuple(Q.shape) == tuple(P.shape) and len(V) == len(U)
    c.prove(ok, what + ": sizes")
    if not ok: raise sym.PathEnd()
    prove_eqs(c, Q.reshape(-1), P.reshape(-1), what + ": control points and weights")
    prove_eqs(c, V, U, what + ": knots")
    c.prove(eq(o.degree, p), what + ": degree")
    c.prove(o.periodic == periodic, what + ": periodicity")
    iv = o.interval()
    c.prove(and_(eq(iv[0], U[0]), eq(iv[1], U[-1])), what + ": parameter interval")


def duplicate(c, ns, crv, how):
    if how == 0: return crv.copy()
    if how == 1: return crv.__deepcopy__({})
    if how == 2:
        f, a = crv.__reduce__()[:2]
        c.prove(f is ns["NURBSCurve"], "pickled as a NURBSCurve")
        return f(*[x.copy() if isinstance(x, rt.Arr) else x for x in a])
    return ns["NURBSCurve"].deserialize(crv.serialize())


HOW = ["copy", "deepcopy", "pickle", "serialize"]


def change(c, o, P, U, u, what):
    """change o; -> its new (P, U, u)"""
    P, U = P.copy(), U.copy()
    if what == 0:
        W = vec(c, "W", len(P))
        for w in W: c.assume(lt(0, w))
        o.weights = W
        P[:, 3] = W
    elif what == 1:
        P = points(c, len(P), "Q")
        o.control_points = P.copy()
    else:
        s = real(c, "s")
        U = rt.arr_of([add(x, s) for x in U], U.shape)
        o.knots = U.copy()
        u = add(u, s)
    return P, U, u


def independent(p, mults):
    def body(c, ns):
        U, P, u, k, crv, src, kn = make(c, ns, p, mults)
        how = c.choose(4, "how")
        crv.evaluate(u)
        dup = duplicate(c, ns, crv, how)
        c.cover("precondition is satisfiable")
        same(c, dup, U, P, p, False, HOW[how])
        c.prove(type(dup) is ns["NURBSCurve"] and dup is not crv, HOW[how] + ": a new curve")
        c.prove(crv == dup, HOW[how] + ": compares equal")
        prove_point(c, dup.evaluate(u), u, p, U, P, k, HOW[how] + ": evaluates to the same point")
        a, b = (crv, dup) if c.choose(2, "changed") == 0 else (dup, crv)
        P2, U2, u2 = change(c, a, P, U, u, c.choose(3, "change"))
        same(c, b, U, P, p, False, "the other one after a change")
        prove_point(c, b.evaluate(u), u, p, U, P, k, "the other one keeps its points")
        same(c, a, U2, P2, p, False, "the changed one")
        prove_point(c, a.evaluate(u2), u2, p, U2, P2, k, "the changed one follows the change")
    return Task(f"independent[p={p},interior={mults}]", body, f"degree {p}, interior multiplicities {mults}; copy, deepcopy, pickle, serialize", setup=loaded)


def caller_arrays(p, mults):
    """the arrays handed to the constructor and the setters stay the caller's"""
    def body(c, ns):
        U, P, u, k, crv, src, kn = make(c, ns, p, mults)
        what = c.choose(4, "through")
        if what == 1: crv.control_points = src
        elif what == 2: crv.knots = kn
        elif what == 3: crv.set(src, kn)
        crv.evaluate(u)
        for i in range(len(src)):
            for d in range(4): src[i, d] = 77
        for i in range(len(kn)): kn[i] = 77
        same(c, crv, U, P, p, False, "after changing the caller's arrays")
        prove_point(c, crv.evaluate(u), u, p, U, P, k, "after changing the caller's arrays")
    return Task(f"caller's arrays[p={p},interior={mults}]", body, f"degree {p}", setup=loaded)


def periodic_flag(p, n):
    def body(c, ns):
        P = points(c, n)
        crv = ns["NURBSCurve"](P.copy(), p, None, True)
        how = c.choose(4, "how")
        dup = duplicate(c, ns, crv, how)
        same(c, dup, crv.knots.copy(), crv.control_pointsw.copy(), p, True, HOW[how] + " of a periodic curve")
        c.prove(crv == dup, HOW[how] + ": compares equal")
    return Task(f"periodic[p={p},n={n}]", body, f"degree {p}, {n} control points before closing", setup=loaded)


def bad_bytes(p, mults):
    def body(c, ns):
        U, P, u, k, crv, src, kn = make(c, ns, p, mults)
        data = crv.serialize()
        C = ns["NURBSCurve"]
        c.prove(len(data) == 24 + 8 * (4 * len(P) + len(U)), "length of the serialised curve")

        def rejected(x, what, exc=ValueError):
            try: C.deserialize(x)
            except exc: return
            c.prove(False, what)
        for n in range(len(data)): rejected(data.truncated(n), f"truncated data is rejected")
        rejected(data.edited(0, 4, b"XRBC"), "a wrong signature is rejected")
        rejected(data.edited(4, 4, 2), "an unknown version is rejected")
        big = real(c, "big")
        rejected(data.edited(16, 4, len(P) + 1), "too many control points for the data are rejected")
        rejected(data.edited(20, 4, len(U) + 1), "too many knots for the data are rejected")
        rejected("text", "other types are rejected", TypeError)
        c.prove(True, "malformed data is rejected without reading outside it")
    return Task(f"malformed bytes[p={p},interior={mults}]", body, f"degree {p}: every truncation length, signature, version, sizes", setup=loaded)


def unequal(p, mults):
    """curves that differ in a control point, weight, knot or degree are not equal"""
    def body(c, ns):
        U, P, u, k, crv, src, kn = make(c, ns, p, mults)
        what = c.choose(4, "difference")
        Q, V, q = P.copy(), U.copy(), p
        d = real(c, "d")
        c.assume(lt(0, d))
        if what == 0: Q[c.choose(len(P), "row"), c.choose(3, "column")] = add(Q[0, 0], 0) if False else var("x")
        elif what == 1: Q[0, 3] = add(Q[0, 3], d)
        elif what == 2: V = rt.arr_of([add(x, d) for x in V], V.shape)
        else: Q, V, q = points(c, len(P), "Q"), vec(c, "V", len(U) + 1), p + 1
        if what == 0: c.assume(or_(*[not_(eq(a, b)) for a, b in zip(Q.reshape(-1), P.reshape(-1)) if a is not b]))
        other = ns["NURBSCurve"](Q, q, V)
        r = crv == other
        c.prove(not_(r), "different curves are not equal")
    return Task(f"different curves[p={p},interior={mults}]", body, f"degree {p}", setup=loaded)


# ---------------------------------------------------------------- surfaces
def surface(c, ns, p, q, mu, mv):
    n, m = p + 1 + sum(mu), q + 1 + sum(mv)
    U = clamped(c, n, p, mults=mu); V = clamped(c, m, q, name="V", mults=mv)
    P = mat(c, "P", n, m, 4)
    for i in range(n):
        for j in range(m): c.assume(lt(0, P[i, j, 3]))
    c.inputs.update(p=p, q=q)
    src, ku, kv = P.copy(), U.copy(), V.copy()
    return U, V, P, ns["NURBSSurface"](src, (p, q), ku, kv), src, ku, kv


def same_surface(c, s, U, V, P, p, q, what):
    ok = tuple(s.shape) == tuple(P.shape[:2]) and len(s.knots_u) == len(U) and len(s.knots_v) == len(V)
    c.prove(ok, what + ": sizes")
    if not ok: raise sym.PathEnd()
    prove_eqs(c, s.control_points_w.reshape(-1), P.reshape(-1), what + ": control points and weights")
    prove_eqs(c, s.control_points_flat_w.reshape(-1), P.reshape(-1), what + ": flat control points and weights")
    prove_eqs(c, s.knots_u, U, what + ": u knots")
    prove_eqs(c, s.knots_v, V, what + ": v knots")
    c.prove(and_(eq(s.degree[0], p), eq(s.degree[1], q)), what + ": degrees")
    iv = s.interval()
    c.prove(and_(eq(iv[0][0], U[0]), eq(iv[0][1], U[-1]), eq(iv[1][0], V[0]), eq(iv[1][1], V[-1])), what + ": parameter intervals")


def surface_copy(p, q, mu, mv):
    def body(c, ns):
        U, V, P, s, src, ku, kv = surface(c, ns, p, q, mu, mv)
        d = s.copy()
        c.cover("precondition is satisfiable")
        same_surface(c, d, U, V, P, p, q, "copy")
        c.prove(s == d, "a copy compares equal")
        a, b = (s, d) if c.choose(2, "changed") == 0 else (d, s)
        what = c.choose(4, "change")
        x = real(c, "x")
        c.assume(lt(x, 0) if what == 0 else lt(0, x))
        if what == 0: a.control_points_w[0, 0, 0] = x
        elif what == 1: a.knots_u = rt.arr_of([add(y, x) for y in U], U.shape)
        elif what == 2: a.knots_v = rt.arr_of([add(y, x) for y in V], V.shape)
        else: a.normalize_knots()
        same_surface(c, b, U, V, P, p, q, "the other one after a change")
        if what in (1, 2): c.prove(not_(a == b), "surfaces with different knots are not equal")
        for A in (src.reshape(-1), ku, kv):
            for i in range(len(A)): A[i] = 77
        same_surface(c, b, U, V, P, p, q, "after changing the caller's arrays")
    return Task(f"surface copy[{p}x{q},{mu},{mv}]", body, f"degrees {p}x{q}", setup=loaded)


TASKS = [independent(1, [1]), independent(2, []), independent(2, [1]), independent(3, []), caller_arrays(1, [1]), caller_arrays(2, [1]), periodic_flag(1, 3), periodic_flag(2, 3), periodic_flag(3, 4),
         bad_bytes(1, []), bad_bytes(2, [1]), unequal(1, [1]), unequal(2, []), surface_copy(1, 1, [], []), surface_copy(2, 1, [], [1]), surface_copy(1, 3, [1], [])]
MODEL_CASE = {}
