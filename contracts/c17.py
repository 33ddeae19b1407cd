"""Interval arithmetic: the result of every operation contains the results for all members of the operands and its ends are
attained; comparisons are definite only when they hold for all members.  All real intervals, members and scalars; powers for
exponents -3 to 5."""
from .lib import *

LEVEL = "proof"
I = "mmcore.numeric.interval._interval"
FUNCTIONS = [f"{I}:Interval.{f}" for f in ("__init__", "__add__", "__radd__", "__sub__", "__mul__", "__truediv__", "__pow__", "pow", "__invert__", "__and__", "__or__", "merge", "__contains__", "compare", "__lt__", "__le__", "__gt__", "__ge__",
             "lower", "upper", "_subdivide_step", "subdivide", "evaluate", "__iadd__", "__isub__", "__imul__", "__itruediv__", "__float__", "from_tuple", "to_tuple")]
ASSUMPTIONS = ["an interval has its lower end not above its upper end", "infinite ends only where an operation returns them"]


def load(): return prog((I,)).load(I)


def iv(c, name):
    a, b = real(c, name + "_low"), real(c, name + "_upp")
    c.assume(le(a, b))
    return a, b


def inside(c, name, a, b):
    x = real(c, name)
    c.assume(and_(le(a, x), le(x, b)))
    return x


def within(c, r, z, what): c.prove(and_(le(r.low, z), le(z, r.upp)), what)


def attained(c, r, zs, what):
    """each end of r is one of the values zs (which are results for members of the operands)"""
    for end in (r.low, r.upp): c.prove(or_(*[eq(end, z) for z in zs]), what)


OPS = {"+": (lambda p, q: p + q, add), "-": (lambda p, q: p - q, sub), "*": (lambda p, q: p * q, mul), "/": (lambda p, q: p / q, div)}


def same(c, p, q, what): c.prove(and_(eq(p.low, q.low), eq(p.upp, q.upp)), what)


def binary(op, scalar):
    def body(c, ns):
        T = ns["Interval"]
        f, g = OPS[op]
        a, b = iv(c, "x")
        x = inside(c, "xm", a, b)
        if scalar:
            y = real(c, "y")
            ys = [y]
            if op == "/": c.assume(not_(eq(y, 0)))
            Y = lambda: y
        else:
            lo, hi = iv(c, "y")
            y = inside(c, "ym", lo, hi)
            ys = [lo, hi]
            if op == "/": c.assume(and_(not_(eq(y, 0)), not_(eq(lo, 0)), not_(eq(hi, 0))))
            Y = lambda: T(lo, hi)
        c.cover("precondition is satisfiable")
        X_ = T(a, b)
        q = Y()
        if op == "/" and not scalar and c.decide(and_(lt(lo, 0), lt(0, hi))):
            r = f(X_, q)
            c.prove(isinf(r.low, -1) and isinf(r.upp, 1), "x / y: a divisor around zero gives the whole line")
            return
        r = f(X_, q)
        within(c, r, g(x, y), f"x {op} y of members is in the result")
        attained(c, r, [g(s, t) for s in (a, b) for t in ys], f"x {op} y: the ends are results of ends")
        same(c, X_, T(a, b), f"x {op} y: the operand is unchanged")
        if not scalar: same(c, q, T(lo, hi), f"x {op} y: the second operand is unchanged")
        elif op == "+": same(c, X_.__radd__(y), r, "y + x is x + y")
        Z = T(a, b)
        Z2 = getattr(Z, {"+": "__iadd__", "-": "__isub__", "*": "__imul__", "/": "__itruediv__"}[op])(Y())
        c.prove(Z2 is Z, f"x {op}= y returns x")
        same(c, Z, r, f"x {op}= y is x {op} y")
    return Task(f"x {op} {'number' if scalar else 'interval'}", body, "all", setup=load)


def isinf(v, s):
    try: return v == s * float("inf")
    except Exception: return False


def powers():
    def body(c, ns):
        T = ns["Interval"]
        e = c.choose(9, "exponent") - 3
        a, b = iv(c, "x")
        if e < 0: c.assume(and_(not_(eq(a, 0)), not_(eq(b, 0)), or_(lt(0, a), lt(b, 0))))
        x = inside(c, "xm", a, b)
        c.cover("precondition is satisfiable")
        pw = lambda v: div(1, pw2(v, -e)) if e < 0 else pw2(v, e)
        k = c.choose(2, "form")
        r = T(a, b) ** e if k == 0 else T.pow(T(a, b), e)
        within(c, r, pw(x), "powers of members are in the result")
        ends = [pw(a), pw(b)] + ([0] if e > 0 and e % 2 == 0 and c.decide(and_(le(a, 0), le(0, b))) else [])
        attained(c, r, ends, "ends of a power are powers of members")
    return Task("powers", body, "exponents -3 to 5", setup=load)


def pw2(v, e):
    r = 1
    for _ in range(e): r = mul(r, v)
    return r


def others():
    def body(c, ns):
        T = ns["Interval"]
        a, b = iv(c, "x")
        lo, hi = iv(c, "y")
        z = real(c, "z")
        c.cover("precondition is satisfiable")
        zx, zy = and_(le(a, z), le(z, b)), and_(le(lo, z), le(z, hi))
        p, q = T(a, b), T(lo, hi)
        prove_eqs(c, list(T((a, b))) + [T(z).low, T(z).upp] + list(T.from_tuple((a, b))) + list(p.to_tuple()), [a, b, z, z, a, b, a, b], "ends of a new interval")
        prove_eqs(c, [p.lower().low, p.lower().upp, p.upper().low, p.upper().upp], [a, a, b, b], "lower and upper ends")
        k = c.choose(6, "operation")
        if k == 0:
            r = p & q
            c.prove(iff(and_(le(r.low, z), le(z, r.upp)), and_(zx, zy)), "x & y holds exactly the common members")
        if k == 1:
            r, m = p | q, p.merge(q)
            for s in (r, m):
                c.prove(implies(or_(zx, zy), and_(le(s.low, z), le(z, s.upp))), "x | y contains both")
                attained(c, s, [a, b, lo, hi], "x | y: the ends are ends of the operands")
        if k == 2:
            c.prove(iff(truth(z in p), zx), "membership of a number")
            c.prove(iff(truth(q in p), and_(le(a, lo), le(hi, b))), "membership of an interval")
        if k == 3:
            t = real(c, "t")
            c.assume(and_(le(0, t), le(t, 1)))
            e = p.evaluate(t)
            c.prove(and_(le(a, e), le(e, b)), "evaluate stays inside")
            prove_eqs(c, [p.evaluate(0), p.evaluate(1)], [a, b], "evaluate at 0 and 1")
            f = p.__float__()
            c.prove(and_(le(a, f), le(f, b)), "the middle is inside")
        if k == 4:
            for n in (0, 1, 2):
                s = p.subdivide(n)
                c.prove(len(s) == 2 ** n, "number of pieces")
                prove_eqs(c, [s[0].low, s[-1].upp], [a, b], "the pieces span the interval")
                for u, v in zip(s, s[1:]): c.prove(eq(u.upp, v.low), "the pieces meet")
                for u in s: c.prove(eq(mul(2 ** n, sub(u.upp, u.low)), sub(b, a)), "the pieces have equal length")
        if k == 5:
            c.assume(and_(not_(eq(a, 0)), not_(eq(b, 0))))
            r = ~p
            if c.decide(and_(lt(a, 0), lt(0, b))): c.prove(isinf(r.low, -1) and isinf(r.upp, 1), "the reciprocal of an interval around zero is the whole line")
            else:
                x = inside(c, "xm", a, b)
                within(c, r, div(1, x), "reciprocals of members are in the reciprocal")
                attained(c, r, [div(1, a), div(1, b)], "ends of the reciprocal are reciprocals of ends")
    return Task("sets, pieces and reciprocal", body, "all", setup=load)


def comparisons():
    def body(c, ns):
        T, C = ns["Interval"], ns["Comparison"]
        a, b = iv(c, "x")
        p = T(a, b)
        if c.choose(2, "other"): lo = hi = q = real(c, "y")
        else:
            lo, hi = iv(c, "y")
            q = T(lo, hi)
        c.cover("precondition is satisfiable")
        less, more = lt(b, lo), lt(hi, a)
        for got, want, what in ((p < q, less, "x < y"), (p > q, more, "x > y"), (p <= q, not_(more), "x <= y"), (p >= q, not_(less), "x >= y")):
            c.prove(iff(truth(got), want), what + " exactly when it holds for all members (some members, for <= and >=)")
        k = p.compare(q)
        c.prove(iff(truth(k == C.TRUE), less), "compare is TRUE exactly when every member is less")
        c.prove(iff(truth(k == C.FALSE), more), "compare is FALSE exactly when every member is greater")
    return Task("comparisons", body, "all", setup=load)


def iff(p, q): return and_(implies(p, q), implies(q, p))
def truth(v): return bool(v) if isinstance(v, (bool, int)) else v


TASKS = [binary(op, s) for op in OPS for s in (False, True)] + [powers(), others(), comparisons()]
