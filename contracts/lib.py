"""Vocabulary shared by the contracts: symbolic inputs and spec functions."""
from fractions import Fraction

from cyvc import expr as X, rt, sym, loops
from cyvc.task import Task
from cyvc.expr import add, sub, mul, div, eq, le, lt, and_, or_, not_, implies, var

NURBS = "mmcore.geom.nurbs"


def prog(mods=(NURBS,), loopspecs=None, overrides=None):
    P = rt.new_program()
    if loopspecs: P.loops.update(loopspecs)
    if overrides: P.overrides.update(overrides)
    for m in mods: P.load(m)
    return P


def vec(c, name, n):
    a = rt.arr_of([var(f"{name}{i}") for i in range(n)], (n,))
    c.inputs[name] = a
    return a


def mat(c, name, *sh):
    import numpy as np
    flat = [var(name + "_".join(map(str, ix))) for ix in np.ndindex(*sh)]
    a = rt.arr_of(flat, sh)
    c.inputs[name] = a
    return a


def real(c, name):
    v = var(name)
    c.inputs[name] = v
    return v


def integer(c, name):
    v = var(name, "I")
    c.inputs[name] = v
    return v


def strict(a):
    v = a.view(rt.Arr)
    v.strict = True
    return v


def nondecreasing(c, U):
    for i in range(len(U) - 1): c.assume(le(U[i], U[i + 1]))


def clamped(c, n_ctrl, p, name="U", interior=None, distinct=True, mults=None):
    """clamped knot vector: symbolic ends (multiplicity p+1) and interior knots (list of multiplicities)"""
    k = n_ctrl - p - 1
    mults = mults if mults is not None else [1] * k
    assert sum(mults) == k, (n_ctrl, p, mults)
    a, b = var(name + "a"), var(name + "b")
    ks, prev = [a] * (p + 1), a
    for j, m in enumerate(mults):
        x = var(f"{name}{j}")
        c.assume(lt(prev, x) if distinct else le(prev, x))
        ks += [x] * m
        prev = x
    c.assume(lt(prev, b))
    ks += [b] * (p + 1)
    U = rt.arr_of(ks, (len(ks),))
    c.inputs[name] = U
    return U


def unclamped(c, n_ctrl, p, name="U"):
    m = n_ctrl + p + 1
    U = vec(c, name, m)
    for i in range(m - 1): c.assume(lt(U[i], U[i + 1]))
    return U


def cdb(i, p, u, U, span):
    """Cox-de Boor: N_{i,p}(u) on the knot interval `span` (0/0 = 0)"""
    if p == 0: return 1 if i == span else 0
    r = 0
    a = cdb(i, p - 1, u, U, span)
    if not (type(a) is int and a == 0): r = add(r, mul(div(sub(u, U[i]), sub(U[i + p], U[i])), a))
    b = cdb(i + 1, p - 1, u, U, span)
    if not (type(b) is int and b == 0): r = add(r, mul(div(sub(U[i + p + 1], u), sub(U[i + p + 1], U[i + 1])), b))
    return r


def dcdb(i, p, k, u, U, span):
    """k-th derivative of N_{i,p} by the recurrence N' = p/(U[i+p]-U[i]) N_{i,p-1} - p/(U[i+p+1]-U[i+1]) N_{i+1,p-1}"""
    if k == 0: return cdb(i, p, u, U, span)
    if p == 0: return 0
    r = 0
    a = dcdb(i, p - 1, k - 1, u, U, span)
    if not (type(a) is int and a == 0): r = add(r, mul(div(p, sub(U[i + p], U[i])), a))
    b = dcdb(i + 1, p - 1, k - 1, u, U, span)
    if not (type(b) is int and b == 0): r = sub(r, mul(div(p, sub(U[i + p + 1], U[i + 1])), b))
    return r


def in_span(u, U, k, n):
    """k is the interval of u: half-open, the last one closed at the right end"""
    return and_(le(U[k], u), or_(lt(u, U[k + 1]), and_(eq(u, U[n + 1]), eq(U[k + 1], U[n + 1]))))


def nonempty_spans(U, p, n):
    return [k for k in range(p, n + 1) if not (U[k] is U[k + 1])]


def curve_at(u, p, U, P, span, dim=3):
    """sum N_i P_i on the given span, first dim coordinates (plain, no weights)"""
    out = []
    N = [cdb(span - p + j, p, u, U, span) for j in range(p + 1)]
    for d in range(dim): out.append(lin(N, [P[span - p + j, d] for j in range(p + 1)]))
    return out


def rcurve_at(u, p, U, P, span):
    """(sum N_i w_i P_i, sum N_i w_i)"""
    N = [cdb(span - p + j, p, u, U, span) for j in range(p + 1)]
    NW = [mul(N[j], P[span - p + j, 3]) for j in range(p + 1)]
    den = lin(NW, [1] * (p + 1))
    return [lin(NW, [P[span - p + j, d] for j in range(p + 1)]) for d in range(3)], den


def lin(cs, vs):
    r = 0
    for c, v in zip(cs, vs): r = add(r, mul(c, v))
    return r


def on_span(c, u, U, p, n):
    """non-deterministically pick a non-empty span and put u in it (half-open; last closed)"""
    ks = nonempty_spans(U, p, n)
    k = ks[c.choose(len(ks), "span")]
    c.assume(le(U[k], u))
    c.assume(lt(u, U[k + 1]) if k != ks[-1] else le(u, U[k + 1]))
    return k


def prove_eqs(c, got, want, name):
    for g, w in zip(got, want): c.prove(eq(g, w), name)


class RowMap:
    """loop over rows: after i iterations every row r < i of `out` holds spec(env, r); proved for an arbitrary ghost row"""

    def __init__(self, out, spec, idx="i", modifies=()):
        self.out, self.spec, self.ghost_index = out, spec, idx
        self.modifies = (out,) + tuple(modifies)

    def inv(self, c, e, ph):
        o = e[self.out]
        r = c.ghost
        for k, w in enumerate(self.spec(c, e, r)):
            got = o.load(r, (k,)) if o.store.tail else o.load(r)
            yield f"rows done so far hold their value [{k}]", implies(lt(r, e[self.ghost_index]), eq(got, w))


def rows(c, name, n, w):
    """array with symbolically many rows of width w (w=None: a vector)"""
    st = rt.SStore(name, n, (w,) if w else ())
    return rt.SMV(st)


def ghost_row(c, n):
    r = integer(c, "row")
    c.assume(and_(le(0, r), lt(r, n)))
    c.ghost = r
    return r


def unique_sorted(arr, n, new_len):
    """contract of the C function uniqueSorted: sorts arr[0..n) in place (qsort) and returns a new array of its distinct values"""
    d = X.HOOK["ctx"].decide
    n = int(n)
    if n > 1:
        v = []
        for i in range(n):
            x, j = arr[i], 0
            while j < len(v) and not (v[j] is not x and d(lt(x, v[j]))): j += 1
            v.insert(j, x)
        for i in range(n): arr[i] = v[i]
    out = []
    for i in range(n):
        if not out or not (out[-1] is arr[i] or d(eq(out[-1], arr[i]))): out.append(arr[i])
    new_len[0] = len(out)
    return rt.Ptr(rt.arr_of(out, (len(out),))) if out else None
