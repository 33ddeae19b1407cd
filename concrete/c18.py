"""Union-find against an explicit partition."""


def gen(rng, i):
    n = rng.randint(1, 12)
    return {"n": n, "ops": [[rng.choice("ufu"), rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(0, 25))]}


def check(c):
    from mmcore.ds.union_find import UnionFind
    n = c["n"]
    u, part = UnionFind(n), list(range(n))
    for o, x, y in c["ops"]:
        if o == "u":
            u.union(x, y)
            part = [part[x] if v == part[y] else v for v in part]
        else:
            if (u.find(x) == u.find(y)) != (part[x] == part[y]): return f"elements {x} and {y}: joined is {part[x] == part[y]}"
            if u.find(u.find(x)) != u.find(x) or part[u.find(x)] != part[x]: return f"representative of {x}"
    r = [u.find(i) for i in range(n)]
    for i in range(n):
        for j in range(n):
            if (r[i] == r[j]) != (part[i] == part[j]): return f"after all: elements {i} and {j}: joined is {part[i] == part[j]}"
    return None


def ggen(rng, i): return {"t": [[rng.randint(0, 14) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 9))]}


def gcheck(c):
    from mmcore.ds.union_find import group_tuples
    ts = [tuple(t) for t in c["t"]]
    part = list(range(len(ts)))
    for i in range(len(ts)):
        for j in range(i):
            if set(ts[i]) & set(ts[j]): part = [part[j] if v == part[i] else v for v in part]
    want = sorted(sorted(t for t, q in zip(ts, part) if q == v) for v in set(part))
    got = sorted(sorted(g) for g in group_tuples(list(ts)))
    if got != want: return f"groups {got} instead of {want}"
    return None


KINDS = {"history": (gen, check), "groups": (ggen, gcheck)}
