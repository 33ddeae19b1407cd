"""Interval arithmetic on exact rationals: sampled members, and the hull of the results at ends (and zero)."""
from fractions import Fraction as F
from itertools import product


def num(rng): return rng.choice([0, 1, -1, 2, -3, rng.randint(-6, 6), rng.randint(-20, 20)]) * rng.choice([1, 1, 2, 4]) / 4
def iv(rng):
    a, b = sorted((num(rng), num(rng)))
    return [a, b]


def gen(rng, i): return {"x": iv(rng), "y": iv(rng), "s": num(rng), "e": rng.randint(-3, 5), "t": rng.randint(0, 8) / 8, "n": rng.randint(0, 3)}


def members(a, b): return [a + (b - a) * F(k, 8) for k in range(9)] + ([F(0)] if a <= 0 <= b else [])


def check(case):
    from mmcore.numeric.interval import Interval as T, Comparison as C
    a, b, lo, hi, s = [F(v) for v in case["x"] + case["y"] + [case["s"]]]
    M, N = members(a, b), members(lo, hi)
    p, q = (lambda: T(a, b)), (lambda: T(lo, hi))

    def hull(r, vs, what, tight=True):
        if not all(r.low <= v <= r.upp for v in vs): return f"{what}: {r} misses a member result"
        if tight and not (r.low in vs and r.upp in vs): return f"{what}: {r} is wider than the results"
    ops = {"+": lambda u, v: u + v, "-": lambda u, v: u - v, "*": lambda u, v: u * v, "/": lambda u, v: u / v}
    inp = {"+": "__iadd__", "-": "__isub__", "*": "__imul__", "/": "__itruediv__"}
    for o, f in ops.items():
        for right, vs in ((q, N), (lambda: s, [s])):
            if o == "/":
                if right is q and (lo == 0 or hi == 0) or right is not q and s == 0: continue
                vs = [v for v in vs if v != 0]
            P, Q = p(), right()
            r = f(P, Q)
            m = hull(r, [f(u, v) for u in M for v in vs], f"x {o} y", tight=not (o == "/" and right is q and lo < 0 < hi))
            if m: return m
            if (P.low, P.upp) != (a, b) or right is q and (Q.low, Q.upp) != (lo, hi): return f"x {o} y changes an operand"
            Z = p()
            W = getattr(Z, inp[o])(right())
            if W is not Z or (Z.low, Z.upp) != (r.low, r.upp): return f"x {o}= y differs from x {o} y"
    e = case["e"]
    if e >= 0 or a > 0 or b < 0:
        for r in (p() ** e, T.pow(p(), e)):
            m = hull(r, [u ** e for u in M], f"x ** {e}")
            if m: return m
    z = s
    inx, iny = a <= z <= b, lo <= z <= hi
    r = p() & q()
    if (r.low <= z <= r.upp) != (inx and iny): return "x & y is not the common part"
    for r in (p() | q(), p().merge(q())):
        if (r.low, r.upp) != (min(a, lo), max(b, hi)): return "x | y is not the hull"
    if (z in p()) != inx or (q() in p()) != (a <= lo and hi <= b): return "membership"
    for (l2, h2), y in (((lo, hi), q()), ((z, z), z)):
        less, more = b < l2, a > h2
        if [p() < y, p() > y, p() <= y, p() >= y] != [less, more, not more, not less]: return f"comparison with {y}"
        k = p().compare(y)
        if (k == C.TRUE) != less or (k == C.FALSE) != more: return f"compare with {y}: {k}"
    n = case["n"]
    sd = p().subdivide(n)
    if len(sd) != 2 ** n or sd[0].low != a or sd[-1].upp != b or any(u.upp != v.low for u, v in zip(sd, sd[1:])) or any(F(u.upp - u.low) * 2 ** n != b - a for u in sd): return "subdivide"
    t = F(case["t"])
    if p().evaluate(t) != a + (b - a) * t: return "evaluate"
    if not a <= F(float(T(float(a), float(b)))) <= b: return "float"
    if a > 0 or b < 0:
        r = ~p()
        if (r.low, r.upp) != (1 / b, 1 / a): return "reciprocal"
    elif a < 0 < b:
        r = ~p()
        if not (r.low == float("-inf") and r.upp == float("inf")): return "reciprocal around zero"
    if tuple(T.from_tuple((a, b))) != (a, b) or tuple(T((a, b))) != (a, b) or tuple(T(z)) != (z, z): return "construction"
    return None


KINDS = {"interval": (gen, check)}
