"""The basis-function routines against the Cox-de Boor recursion.  A routine reads only the 2p+2 knots around its span, all
of them symbolic here, so each degree is settled for every knot vector (any multiplicities), size, span and parameter."""
from .lib import *

LEVEL = "proof"
DEBOOR = "mmcore.geom.curves.deboor"
UTILS = "mmcore.geom.curves.bspline_utils"
FUNCTIONS = [NURBS + ":" + f for f in ("basis_functions", "basis_funs", "all_basis_funs", "all_basis_funs_inline", "ders_basis_funs (row 0)")] + [DEBOOR + ":cdeboor"]


def local(c, p):
    U = vec(c, "U", 2 * p + 2)
    nondecreasing(c, U)
    c.assume(lt(U[p], U[p + 1]))
    u = real(c, "u")
    c.assume(le(U[p], u)); c.assume(le(u, U[p + 1]))
    c.cover("precondition is satisfiable")
    c.inputs["p"] = p
    return U, u


def funs(p):
    def setup(): return prog().load(NURBS)

    def body(c, ns):
        U, u = local(c, p)
        which = c.choose(2, "routine")
        if which == 0: N = ns["basis_functions"](p, u, p, U)
        else: N = [row for row in rt.NPC.asarray(ns["ders_basis_funs"](p, u, p, 0, U))[0]]
        for r in range(p + 1):
            c.prove(eq(N[r], cdb(r, p, u, U, p)), "equals the Cox-de Boor recursion")
            c.prove(le(0, N[r]), "non-negative")
        c.prove(eq(rt.b_sum(N), 1), "sums to one")
        for i in range(2 * p + 2): c.prove(eq(U[i], var(f"U{i}")), "the knot vector is unchanged")
    return Task(f"basis functions[p={p}]", body, f"degree {p}, all knot vectors, spans and parameters", setup=setup)


def alls(p):
    def setup(): return prog().load(NURBS)

    def body(c, ns):
        U, u = local(c, p)
        if c.choose(2, "routine") == 0: N = ns["all_basis_funs"](p, u, p, U)
        else:
            N = strict(rt.NPC.zeros((p + 1, p + 1)))
            ns["all_basis_funs_inline"](p, u, p, rt.Ptr(U), N)
        for j in range(p + 1):
            for r in range(j + 1):
                c.prove(eq(N[r, j], cdb(p - j + r, j, u, U, p)), "column j holds the degree-j functions")
    return Task(f"all basis functions[p={p}]", body, f"degree {p}, all knot vectors, spans and parameters", setup=setup)


def deboor(p):
    def setup(): return prog((DEBOOR,)).load(DEBOOR)

    def body(c, ns):
        n1 = p + 3                                       # a clamped vector with two interior knots
        U = clamped(c, n1, p)
        u = real(c, "u")
        k = on_span(c, u, U, p, n1 - 1)
        c.cover("precondition is satisfiable")
        s = 0
        for i in range(n1):
            v = ns["deboor"](U, u, i, p)
            c.prove(eq(v, cdb(i, p, u, U, k)), "deboor(i) is the i-th basis function")
            s = add(s, v)
        c.prove(eq(s, 1), "the basis functions sum to one")
    return Task(f"deboor[p={p}]", body, f"degree {p}, clamped, 2 simple interior knots", setup=setup)


def utils(p):
    def setup(): return prog((UTILS,)).load(UTILS)

    def body(c, ns):
        U, u = local(c, p)
        N = ns["calc_basis_functions"](p, u, p, U)
        for r in range(p + 1): c.prove(eq(N[r], cdb(r, p, u, U, p)), "equals the Cox-de Boor recursion")
    return Task(f"calc_basis_functions[p={p}]", body, f"degree {p}, all knot vectors, spans and parameters", setup=setup)


TASKS = [funs(p) for p in (0, 1, 2, 3, 4, 5)] + [alls(p) for p in (1, 2, 3, 4)] + [deboor(p) for p in (1, 2, 3)] + [utils(p) for p in (1, 2, 3)]


def _case(inp, task):
    return {"kind": "basis", "case": {"U": inp["U"], "p": inp["p"], "span": inp["p"], "u": inp["u"]}}


MODEL_CASE = {"basis functions": _case, "all basis functions": _case}
