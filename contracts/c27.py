"""Linear systems and Newton iterations.  LU factorisation is proved with an invariant per elimination step: the stored factors
multiply to the permuted matrix, the remaining block has a left inverse (ghost) when the matrix is regular, and keeps the kernel
vector (ghost) when it is singular.  Sizes 1-3; every permutation is covered.  Newton loops: every iteration, by invariant."""
import itertools
from .lib import *

LEVEL = "proof"
M = "mmcore.numeric.newton.cnewton"
FUNCTIONS = [f"{M}:{f}" for f in ("swap_rows", "solve", "lu_factorize", "lu_solve", "solve_linear_system", "invert_matrix", "euclidean_norm", "_abs_val", "hessian", "gradient", "newtons_method", "newton_method2")]
ASSUMPTIONS = ["sizes 1 to 3 of linear systems and of the unknown are enumerated", "callbacks are pure functions of the point"]


def load(loops=None, over=None): return prog((M,), loopspecs=loops, overrides=over).load(M)
def fabs(x): return X.max_(x, sub(0, x))
def norm2(v): return lin(list(v), list(v))
def flat(a): return list(a.reshape(-1))


class LU:
    """step k: A[piv[i]] = L U on finished rows and columns, rest of the block stored"""
    def __init__(self, n, matn, pivn, rowf, mode):
        self.n, self.matn, self.pivn, self.rowf, self.mode = n, matn, pivn, rowf, mode
        self.modifies = (matn, pivn)

    def havoc(self, c, v, old, env):
        if v == "k": return c.choose(self.n + 1, "step")
        if v in ("i", "j", "max_row", "pivot", "temp_pivot"): return 0
        return NotImplemented

    def havoc_heap(self, c, env):
        perms = list(itertools.permutations(range(self.n)))
        p = perms[c.choose(len(perms), "permutation")] if env["k"] > 0 else tuple(range(self.n))
        for i in range(self.n): env[self.pivn][i] = p[i]
        env[self.pivn].reshape(-1)

    def R(self, e): return [list(self.rowf(e[self.matn], e[self.pivn], i)) for i in range(self.n)]

    def M(self, e, k):
        R = self.R(e)
        return [[R[i][j] if j >= min(i, k) else 0 for j in range(self.n)] for i in range(self.n)]

    def inv(self, c, e, ph):
        n, k, p = self.n, e["k"], e[self.pivn]
        p = [int(x) if not X.is_e(x) else x for x in p]
        R = self.R(e)
        if ph != "assume": yield "the rows are a permutation", sorted(p) == list(range(n))
        A = c.A
        for i in range(n):
            for j in range(n):
                m = min(i, k)
                s = lin([R[i][t] for t in range(min(m, j + 1))], [R[t][j] for t in range(min(m, j + 1))])
                if j >= m: s = add(s, R[i][j])
                yield "the factors multiply to the permuted matrix", eq(A[p[i]][j], s)
        if ph != "enter":
            for i in range(min(k, n)): yield "pivots are not zero", not_(eq(R[i][i], 0))
        Mx = self.M(e, k)
        if self.mode == "singular":
            for i in range(n): yield "the kernel vector stays", eq(lin(Mx[i], c.y), 0)
        if self.mode != "regular": return
        if ph == "enter":
            for a in range(n):
                for b in range(n): yield "the matrix is regular", eq(lin(c.G[a], [Mx[j][b] for j in range(n)]), 1 if a == b else 0)
        if ph == "assume":
            c.G = [[var(f"G{a}_{b}") for b in range(n)] for a in range(n)]
            c.oldM, c.oldp, c.k = Mx, list(p), k
            if k < n:
                g = list(c.G[k])
                for b in range(k):
                    yield "", eq(lin(g, [Mx[j][b] for j in range(n)]), 0)
                for b in range(k):
                    c.assume(eq(lin(g, [Mx[j][b] for j in range(n)]), 0))
                    c.prove(eq(g[b], 0), "lemma: the ghost row vanishes on finished columns")
                    g[b] = 0
                c.assume(eq(lin(g, [Mx[j][k] for j in range(n)]), 1))
                c.prove(not_(and_(*[eq(Mx[j][k], 0) for j in range(k, n)])), "lemma: the column still holds a non-zero entry")
        if ph == "back":
            k = k - 1
            Mo, G = [list(r) for r in c.oldM], [list(r) for r in c.G]
            # the rows exchanged in this step
            d = [i for i in range(n) if p[i] != c.oldp[i]]
            if d:
                a, b = d[0], d[-1]
                Mo[a], Mo[b] = Mo[b], Mo[a]
                for g in G: g[a], g[b] = g[b], g[a]
            f = [div(Mo[j][k], Mo[k][k]) if j > k else 0 for j in range(n)]
            G2 = [list(g) for g in G]
            for a in range(n): G2[a][k] = add(G[a][k], lin(f[k + 1:], G[a][k + 1:]))
            for a in range(n):
                for b in range(n):
                    yield "a left inverse is kept", eq(sub(lin(G2[a], [Mx[j][b] for j in range(n)]), lin(G[a], [Mo[j][b] for j in range(n)])), 0)


def system(c, n, mode):
    A = strict(mat(c, "A", n, n))
    c.A = [[A[i][j] for j in range(n)] for i in range(n)]
    if mode == "regular":
        c.G = [[var(f"H{a}_{b}") for b in range(n)] for a in range(n)]
        for a in range(n):
            for b in range(n): c.assume(eq(lin(c.G[a], [c.A[j][b] for j in range(n)]), 1 if a == b else 0))
    if mode == "singular":
        c.y = [var(f"y{k}") for k in range(n)]
        c.assume(or_(*[not_(eq(t, 0)) for t in c.y]))
        for i in range(n): c.assume(eq(lin(c.A[i], c.y), 0))
    return A


def settle(c, n, mode, ok, Mx):
    """ok: the routine reported success"""
    if mode == "regular": c.prove(ok, "a regular system is solved")
    elif ok:
        y = list(c.y)
        for i in reversed(range(n)):
            c.prove(eq(lin([Mx[i][j] for j in range(i, n)], y[i:]), 0), "the kernel vector in the factors")
            c.prove(eq(y[i], 0), "a singular system is refused")
            y[i] = 0
        c.prove(False, "a singular system is refused")


def t_solve(n, mode):
    def setup():
        return load({M: {"solve": {0: LU(n, "LU", "pivots", lambda m, p, i: m[i], mode)}}})

    def body(c, ns):
        A = system(c, n, mode)
        b = strict(vec(c, "b", n))
        x = strict(rt.arr_of([var(f"junk{k}") for k in range(n)], (n,)))
        ns["fabs"] = fabs
        old, oldb = flat(A), list(b)
        seen = {}
        r = ns["solve"](A, b, x)
        r = bool(r)
        c.cover("the end is reached")
        c.prove(all(s is t for s, t in zip(flat(A), old)) and all(s is t for s, t in zip(b, oldb)), "matrix and right-hand side are unchanged")
        if mode == "singular": c.prove(not r, "a singular system is refused")
        else:
            c.prove(r, "a regular system is solved")
            if r:
                for i in range(n): c.prove(eq(lin(c.A[i], list(x)), b[i]), "the result satisfies the system")
    return Task(f"solve[n={n},{mode}]", body, "sized", setup=setup)


def t_factor(n, mode):
    def setup():
        return load({M: {"lu_factorize": {1: LU(n, "A", "pivot_indices", lambda m, p, i: m[p[i]], mode)}}})

    def body(c, ns):
        A = system(c, n, mode)
        p = strict(rt.arr_of([var(f"p{k}", "I") for k in range(n)], (n,)))
        ns["_abs_val"] = fabs
        r = ns["lu_factorize"](A, n, p)
        c.cover("the end is reached")
        if mode == "singular": c.prove(r == 1, "a singular matrix is refused")
        else: c.prove(r == 0, "a regular matrix is factorised")
        if r == 0:
            q = [int(t) for t in p]
            R = [list(A[q[i]]) for i in range(n)]
            c.prove(sorted(q) == list(range(n)), "a permutation of the rows")
            for i in range(n):
                c.prove(not_(eq(R[i][i], 0)), "pivots are not zero")
                for j in range(n):
                    s = lin([R[i][t] for t in range(min(i, j + 1))], [R[t][j] for t in range(min(i, j + 1))])
                    c.prove(eq(c.A[q[i]][j], add(s, R[i][j]) if j >= i else s), "the factors multiply to the permuted matrix")
    return Task(f"lu_factorize[n={n},{mode}]", body, "sized", setup=setup)


def t_lusolve(n):
    def body(c, ns):
        R = mat(c, "R", n, n)
        q = list(itertools.permutations(range(n)))
        q = q[c.choose(len(q), "permutation")]
        b = vec(c, "b", n)
        b0 = list(b)
        A = [[None] * n for _ in range(n)]
        for i in range(n):
            c.assume(not_(eq(R[i][i], 0)))
            for j in range(n):
                s = lin([R[i][t] for t in range(min(i, j + 1))], [R[t][j] for t in range(min(i, j + 1))])
                A[q[i]][j] = add(s, R[i][j]) if j >= i else s
        F = strict(rt.arr_of([R[q.index(i)][j] for i in range(n) for j in range(n)], (n, n)))
        old = flat(F)
        b = strict(b)
        c.cover("precondition is satisfiable")
        r = ns["lu_solve"](F, n, strict(rt.arr_of(list(q), (n,))), b)
        c.prove(r == 0, "a factorised regular system is solved")
        for i in range(n): c.prove(eq(lin(A[i], list(b)), b0[i]), "the result satisfies the system")
        c.prove(all(s is t for s, t in zip(flat(F), old)), "the factors are unchanged")
    return Task(f"lu_solve[n={n}]", body, "sized", setup=load)


def contracts(c, ns, n):
    """lu_factorize and lu_solve by contract: a factorised array stands for its matrix"""
    facts = {}

    def factorize(A, m, p):
        c.prove(m == n and tuple(A.shape) == (n, n) and p.shape[0] == n, "sizes of the factorisation")
        if c.choose(2, "regular?"): return 1
        facts[id(A)] = ([[A[i][j] for j in range(n)] for i in range(n)], p)
        for i in range(n):
            p[i] = X.fresh("piv", "I")
            for j in range(n): A[i, j] = X.fresh("lu", "R")
        return 0

    def lusolve(A, m, p, b):
        c.prove(id(A) in facts and facts[id(A)][1] is p or id(A) in facts and list(facts[id(A)][1]) == list(p), "the factors and their permutation are used")
        M0 = facts[id(A)][0]
        x = [X.fresh("x", "R") for _ in range(n)]
        for i in range(n): c.assume(eq(lin(M0[i], x), b[i]))
        for i in range(n): b[i] = x[i]
        return 0
    ns["lu_factorize"], ns["lu_solve"] = factorize, lusolve


def t_system(n):
    def body(c, ns):
        A, b = strict(mat(c, "A", n, n)), strict(vec(c, "b", n))
        A0, b0 = [list(r) for r in A], list(b)
        c.cover("precondition is satisfiable")
        contracts(c, ns, n)
        r = ns["solve_linear_system"](A, b, n)
        if r == 0:
            for i in range(n): c.prove(eq(lin(A0[i], list(b)), b0[i]), "the result satisfies the system")
        else: c.prove(r == 1, "a singular system is reported")
    return Task(f"solve_linear_system[n={n}]", body, "sized", setup=load)


def t_invert(n):
    def body(c, ns):
        A = strict(mat(c, "A", n, n))
        I = strict(rt.arr_of([var(f"junk{k}") for k in range(n * n)], (n, n)))
        old = flat(A)
        c.cover("precondition is satisfiable")
        contracts(c, ns, n)
        r = ns["invert_matrix"](A, I, n)
        c.prove(all(s is t for s, t in zip(flat(A), old)), "the matrix is unchanged")
        if r == 0:
            for i in range(n):
                for j in range(n): c.prove(eq(lin(list(A[i]), [I[k][j] for k in range(n)]), 1 if i == j else 0), "the product with the inverse is the identity")
        else: c.prove(r == 1, "a singular matrix is reported")
    return Task(f"invert_matrix[n={n}]", body, "sized", setup=load)


# ---- differences and iterations
def uf(p): return X.uf("f", *list(p), sort="R")


def t_diff(n, which):
    def body(c, ns):
        p = strict(vec(c, "p", n))
        h = real(c, "h")
        c.assume(lt(0, h))
        old = list(p)
        c.cover("precondition is satisfiable")
        r = ns[which](lambda q: uf(q), p, h)
        at = lambda **k: uf([add(old[i], k.get(f"d{i}", 0)) for i in range(n)])
        if which == "gradient":
            for i in range(n): c.prove(eq(r[i], div(sub(at(**{f"d{i}": h}), at(**{f"d{i}": sub(0, h)})), mul(2, h))), "central difference")
        else:
            for i in range(n):
                for j in range(n):
                    if i == j: w = div(add(sub(at(**{f"d{i}": h}), mul(2, at())), at(**{f"d{i}": sub(0, h)})), mul(h, h))
                    else:
                        s = lambda a, b: at(**{f"d{i}": mul(a, h), f"d{j}": mul(b, h)})
                        w = div(add(sub(sub(s(1, 1), s(1, -1)), s(-1, 1)), s(-1, -1)), mul(4, mul(h, h)))
                    c.prove(eq(r[i][j], w), "second central difference")
        c.prove(all(a is b for a, b in zip(p, old)), "the point is unchanged")
    return Task(f"{which}[n={n}]", body, "sized", setup=load)


class Iter:
    """any iteration: the point is arbitrary"""
    def __init__(self, modifies): self.modifies = modifies
    def havoc(self, c, v, old, env): return 0 if v in ("i", "j") else NotImplemented
    def inv(self, c, e, ph): return []


def t_newton(n, full):
    def body(c, ns):
        p, tol = strict(vec(c, "p", n)), real(c, "tol")
        it = integer(c, "max_iter")
        c.assume(and_(lt(0, tol), lt(0, it)))
        old = list(p)
        log = []

        def gradient(f, q, *a):
            g = strict(rt.arr_of([X.uf(f"g{k}", *list(q), sort="R") for k in range(n)], (n,)))
            log.append(("g", list(q)))
            return g

        def hessian(f, q, *a):
            log.append(("h", list(q)))
            return strict(rt.arr_of([X.uf(f"h{k}", *list(q), sort="R") for k in range(n * n)], (n, n)))

        def solve(H, g, s):
            if c.choose(2, "singular"): return False
            x = [X.fresh("step", "R") for _ in range(n)]
            for i in range(n): c.assume(eq(lin(list(H[i]), x), g[i]))
            for i in range(n): s[i] = x[i]
            return True
        ns["gradient"], ns["hessian"], ns["solve"] = gradient, hessian, solve
        r = ns["newtons_method"](lambda q: uf(q), p, tol, it, False, full)
        c.cover("the end is reached")
        c.prove(all(a is b for a, b in zip(p, old)), "the starting point is unchanged")
        x = r[0] if full else r
        if x is None: return
        q = [l[1] for l in log if l[0] == "g"][-1]
        step = [sub(a, b) for a, b in zip(q, x)]
        for i in range(n):
            c.prove(eq(lin([X.uf(f"h{i * n + k}", *q, sort="R") for k in range(n)], step), X.uf(f"g{i}", *q, sort="R")), "the last step solves Newton's system")
        c.prove(lt(norm2(step), mul(tol, tol)), "the last step is shorter than the tolerance")
    return Task(f"newtons_method[n={n},full={full}]", body, "sized", setup=lambda: load({M: {"newtons_method": {0: Iter(("point", "step"))}}}))


def t_newton2(n):
    def body(c, ns):
        p, tol = strict(vec(c, "p", n)), real(c, "tol")
        it = integer(c, "max_iter")
        c.assume(and_(lt(0, tol), lt(0, it)))
        old = list(p)
        log = []

        def f(q):
            log.append(list(q))
            return rt.arr_of([X.uf(f"f{k}", *list(q), sort="R") for k in range(n)], (n,))

        def jac(q): return rt.arr_of([X.uf(f"j{k}", *list(q), sort="R") for k in range(n * n)], (n, n))

        def invert(A, I, m):
            if c.choose(2, "singular"): return 1
            for i in range(n):
                for j in range(n): I[i, j] = X.fresh("inv", "R")
            for i in range(n):
                for j in range(n): c.assume(eq(lin(list(A[i]), [I[k][j] for k in range(n)]), 1 if i == j else 0))
            c.I = [[I[i][j] for j in range(n)] for i in range(n)]
            return 0

        def norm(v, m):
            k = X.fresh("norm", "R")
            c.assume(and_(le(0, k), eq(mul(k, k), norm2(v))))
            return k
        ns["invert_matrix"], ns["euclidean_norm"] = invert, norm
        try: x = ns["newton_method2"](f, jac, p, tol, it)
        except ValueError: return
        c.cover("the end is reached")
        c.prove(all(a is b for a, b in zip(p, old)), "the starting point is unchanged")
        q = log[-1]
        F = [X.uf(f"f{k}", *q, sort="R") for k in range(n)]
        if all(a is b for a, b in zip(q, x)):
            c.prove(lt(norm2(F), mul(tol, tol)), "the point returned is a root up to the tolerance")
            return
        step = [sub(a, b) for a, b in zip(q, x)]
        c.prove(lt(norm2(step), mul(tol, tol)), "the last step is shorter than the tolerance")
        for i in range(n):
            J = [X.uf(f"j{i * n + k}", *q, sort="R") for k in range(n)]
            rest = []
            for j in range(n):
                z = sub(lin(J, [c.I[k][j] for k in range(n)]), 1 if i == j else 0)
                c.prove(eq(z, 0), "the inverse times the Jacobian")
                rest.append(mul(z, F[j]))
            c.prove(eq(sub(lin(J, step), lin(rest, [1] * n)), F[i]), "the last step solves Newton's system, up to terms just shown to vanish")
    return Task(f"newton_method2[n={n}]", body, "sized", setup=lambda: load({M: {"newton_method2": {0: Iter(("x", "fx", "delta", "J", "J_inv"))}}}))


def t_norm(n):
    def body(c, ns):
        v = strict(vec(c, "v", n))
        c.cover("precondition is satisfiable")
        r = ns["euclidean_norm"](v, n)
        c.prove(and_(le(0, r), eq(mul(r, r), norm2(v))), "square root of the sum of squares")
        a = real(c, "a")
        r = ns["_abs_val"](a)
        c.prove(and_(le(0, r), or_(eq(r, a), eq(r, sub(0, a)))), "absolute value")
    return Task(f"euclidean_norm[n={n}]", body, "sized", setup=load)


TASKS = [t_solve(n, m) for n in (1, 2, 3) for m in ("regular", "singular")] + [t_factor(n, m) for n in (1, 2, 3) for m in ("regular", "singular")]
TASKS += [t_lusolve(n) for n in (1, 2, 3)] + [t_system(n) for n in (1, 2, 3)] + [t_invert(n) for n in (1, 2, 3)]
TASKS += [t_diff(n, w) for w in ("gradient", "hessian") for n in (1, 2, 3)] + [t_newton(n, f) for n in (1, 2) for f in (False, True)] + [t_newton2(n) for n in (1, 2)] + [t_norm(n) for n in (1, 3)]
