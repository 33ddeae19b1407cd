"""The k-d tree against a list of points, over random histories on coarse and fine grids."""


def gen(rng, i):
    k, m = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 4, 100])
    p = lambda: [rng.randint(0, m) for _ in range(k)]
    P = [p() for _ in range(rng.randint(0, 14))]
    return {"points": P, "ops": [[rng.choice("idd"), p()] if not P or rng.random() < .5 else ["d", rng.choice(P)] for _ in range(rng.randint(0, 14))], "queries": [[p(), rng.randint(0, 6)] for _ in range(4)]}


def check(c):
    from mmcore.ds import bkdtree as m
    P = [tuple(p) for p in c["points"]]
    given = list(P)
    t, w = m.BalancedKDTree(given), list(P)
    if given != P: return f"building reorders the points given: {given}"

    def state(what):
        got = []
        m._collect_points(t.root, got)
        if sorted(got) != sorted(w): return f"{what}: holds {sorted(got)} instead of {sorted(w)}"

        def walk(n):
            if n is None: return []
            l, r = walk(n.left), walk(n.right)
            if l is None or r is None: return None
            if any(x[n.axis] > n.point[n.axis] for x in l) or any(x[n.axis] < n.point[n.axis] for x in r) or n.size != len(l) + len(r) + 1: return None
            return l + [n.point] + r
        if walk(t.root) is None: return f"{what}: a node's side or size is wrong"
        for q, k in c["queries"]:
            D = lambda p: sum((a - b) ** 2 for a, b in zip(p, q))
            n = t.nearest_neighbor(tuple(q))
            if (n is None) != (not w) or w and (n not in w or D(n) != min(map(D, w))): return f"{what}: nearest of {q} is {n} in {w}"
            r = t.k_nearest_neighbors(tuple(q), k)
            if [D(p) for p in r] != sorted(map(D, w))[:k] or any(r.count(p) > w.count(p) for p in r): return f"{what}: {k} nearest of {q} are {r} in {w}"
        return None
    e = state("after building")
    if e: return e
    for o, p in c["ops"]:
        p = tuple(p)
        if o == "i": t.insert(p); w.append(p)
        else:
            t.delete(p)
            if p in w: w.remove(p)
        e = state(f"after {o} {p}")
        if e: return e
    return None


KINDS = {"history": (gen, check)}
