"""Rays and segments against a box: the reported parameter interval is exactly the set of parameters whose points lie in the box
(slab test proved for every real box, ray and segment, parallel directions and degenerate segments included), no result means that
set is empty, and the clipped segment consists of the points at its two ends."""
from .lib import *
from .c15 import A, box, truth

LEVEL = "proof"
FUNCTIONS = [A + ":" + f for f in ("_ray_aabb_intersect", "ray_aabb_intersect", "_segment_aabb_intersect", "segment_aabb_intersect", "segment_aabb_clip")]
ASSUMPTIONS = ["each direction component is zero or at least 1e-15 (the code's parallel tolerance)", "parameters below 1e300 (the code's stand-in for infinity)"]
TINY = Fraction(float("1e-15"))
BIG = Fraction(float("1e300"))


class Slab:
    def havoc(self, c, v, old, env): return c.focus if v == "i" else NotImplemented          # the arbitrary iteration is the axis in focus
    """after i axes, [tmin, tmax] holds exactly the parameters (in the starting range) that are inside the first i slabs"""
    modifies = ()

    def inv(self, c, e, ph):
        i, lo, hi = e["i"], e["tmin"], e["tmax"]
        seen = [implies(lt(k, i), c.slab[k]) for k in range(3)] + [and_(le(c.range[0], c.t), le(c.t, c.range[1]))]
        t = c.t
        yield "the interval is not empty", le(lo, hi)
        yield "the interval stays in the starting range", and_(le(c.range[0], lo), le(hi, c.range[1]))
        yield "parameters inside the slabs so far are in the interval", implies(and_(*seen), and_(le(lo, t), le(t, hi)))
        yield "parameters in the interval are inside the slabs so far", implies(and_(le(lo, t), le(t, hi)), and_(*seen))


def pose(c, s, d, patterns=None):
    """every box; on the axis in focus it is written through its crossing parameters: a face at f is s + ((f-s)/d) d when d is not zero"""
    c.focus = None if patterns else c.choose(4, "axis")          # 3: after the loop
    signs = patterns[c.choose(len(patterns), "signs")] if patterns else [c.choose(3, "sign") if k == c.focus else None for k in range(3)]
    lo, hi, cross = [], [], []
    for k in range(3):
        case = signs[k]
        kinds = (eq(d[k], 0), le(TINY, d[k]), le(d[k], -TINY))
        c.assume(or_(*kinds) if case is None else kinds[case])
        if not case:
            a, b = var(f"lo{k}"), var(f"hi{k}")
            c.assume(le(a, b)); cross.append(None)
        else:
            x, y = var(f"x{k}"), var(f"y{k}")
            for v in (x, y): c.assume(and_(lt(-BIG, v), lt(v, BIG)))
            a, b = add(s[k], mul(x, d[k])), add(s[k], mul(y, d[k]))
            c.assume(le(x, y) if case == 1 else le(y, x)); cross.append((x, y, case))
        lo.append(a); hi.append(b)
    box = strict(rt.arr_of(lo + hi, (2, 3)))
    c.inputs["b"] = box
    return box, cross


def crossings(c, b, s, d, t, cross):
    """lemma: where a component moves, the point is in the slab exactly when t is between the crossing parameters"""
    for k in range(3):
        if cross[k] is None: continue
        x, y, case = cross[k]
        p = add(s[k], mul(t, d[k]))
        for v, f in ((x, b[0, k]), (y, b[1, k])):
            c.prove(eq(mul(sub(t, v), d[k]), sub(p, f)), "distance to a face is proportional to the parameter")
        e, f = var(f"e{k}"), var(f"f{k}")
        for v, low, up in ((x, le(b[0, k], p), True), (y, le(p, b[1, k]), False)):
            g = le(v, t) if up == (case == 1) else le(t, v)
            c.prove(implies(g, low), "side of a face"); c.prove(implies(low, g), "side of a face")


def member(b, s, d, t): return and_(*[and_(le(b[0, k], add(s[k], mul(t, d[k]))), le(add(s[k], mul(t, d[k])), b[1, k])) for k in range(3)])


def check_interval(c, r, b, s, d, t, dom):
    inside = and_(member(b, s, d, t), dom)
    if r is None: c.prove(not_(inside), "no result only when no point is in the box")
    else:
        c.prove(len(r) == 2, "two parameters")
        c.prove(le(r[0], r[1]), "the interval is not empty")
        c.prove(implies(inside, and_(le(r[0], t), le(t, r[1]))), "every parameter inside the box is reported")
        c.prove(implies(and_(le(r[0], t), le(t, r[1])), dom), "reported parameters are in the range")
        c.prove(implies(and_(le(r[0], t), le(t, r[1])), member(b, s, d, t)), "every reported parameter is inside the box")


def slabs(c, b, s, d, t, lo, hi):
    c.t, c.range = t, (lo, hi)
    c.slab = [and_(le(b[0, k], add(s[k], mul(t, d[k]))), le(add(s[k], mul(t, d[k])), b[1, k])) for k in range(3)]


def setup(loops):
    return lambda: prog((A,), loopspecs={A: {"_ray_aabb_intersect": {0: Slab()}, "_segment_aabb_intersect": {0: Slab()}}} if loops else None).load(A)


SOME = [(1, 2, 0), (2, 0, 0)]


def ray(loops):
    def body(c, ns):
        s, d = strict(vec(c, "s", 3)), strict(vec(c, "d", 3))
        t = real(c, "t")
        b, cross = pose(c, s, d, None if loops else SOME)
        c.assume(and_(le(0, t), le(t, BIG)))
        c.cover("precondition is satisfiable")
        crossings(c, b, s, d, t, cross)
        slabs(c, b, s, d, t, -BIG, BIG)
        r = ns["ray_aabb_intersect"](b, s, d)
        check_interval(c, r, b, s, d, t, le(0, t))
    return Task("ray_aabb_intersect" if loops else "unrolled ray_aabb_intersect", body, "all" if loops else "some directions", setup=setup(loops), fallback="unrolled ray" if loops else None)


def segment(loops):
    def body(c, ns):
        s, d = [var(f"s{k}") for k in range(3)], [var(f"d{k}") for k in range(3)]
        t = real(c, "t")
        b, cross = pose(c, s, d, None if loops else SOME)
        S = strict(rt.arr_of(s + [add(x, y) for x, y in zip(s, d)], (2, 3)))
        c.inputs["S"] = S
        c.cover("precondition is satisfiable")
        crossings(c, b, s, d, t, cross)
        slabs(c, b, s, d, t, 0, 1)
        r = ns["segment_aabb_intersect"](b, S)
        check_interval(c, r, b, S[0], d, t, and_(le(0, t), le(t, 1)))
    return Task("segment_aabb_intersect" if loops else "unrolled segment_aabb_intersect", body, "all" if loops else "some directions", setup=setup(loops), fallback="unrolled segment" if loops else None)


def interval_contract(n0, n1):
    def f(bmin, bmax, s, e, out):
        c = X.HOOK["ctx"]
        for i in range(3):
            for x, y in ((bmin[i], c.given[0][0, i]), (bmax[i], c.given[0][1, i]), (s[i], c.given[1][0, i]), (e[i], c.given[1][1, i])): c.prove(eq(x, y), "the slab test is given the box and the segment")
        n = c.choose(3, "solutions")
        if n: out[0], out[1] = c.ends
        return n
    return f


def clip():
    def load(): return prog((A,), overrides={(A, "_segment_aabb_intersect"): interval_contract(0, 1)}).load(A)

    def body(c, ns):
        b, S = box(c, "b", 3), strict(mat(c, "S", 2, 3))
        c.ends = x, y = real(c, "t0"), real(c, "t1")
        c.given = b, S
        c.assume(and_(le(0, x), le(x, y), le(y, 1)))
        c.cover("precondition is satisfiable")
        out = strict(rt.arr_of([var(f"junk{i}") for i in range(6)], (2, 3)))
        r = ns["segment_aabb_clip"](b, S, out)
        if r is None: return c.prove(True, "no result when the slab test finds nothing")
        for e in (0, 1):
            for k in range(3): c.prove(eq(r[e, k], add(S[0, k], mul(sub(S[1, k], S[0, k]), c.ends[e]))), "the clipped segment has the points at the ends of the interval")
    return Task("segment_aabb_clip", body, "all", setup=load)


TASKS = [ray(True), segment(True), clip(), ray(False), segment(False)]
