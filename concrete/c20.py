"""The AVL tree against a dictionary, over random histories."""


def gen(rng, i):
    m = rng.choice([3, 6, 12, 30])
    return {"ops": [[rng.choice("iiids"), rng.randint(0, m), rng.randint(0, 99)] for _ in range(rng.randint(1, 40))]}


def state(t, w):
    got = [(n.key, n.data) for n in t.inorder_traverse()]
    if got != sorted(w.items()): return f"contents {got[:12]}"

    def walk(u):
        if u.node is None: return -1 if (u.height, u.balance) == (-1, 0) else None
        l, r = walk(u.node.left), walk(u.node.right)
        if l is None or r is None or abs(l - r) > 1 or u.height != 1 + max(l, r) or u.balance != l - r: return None
        return u.height
    if walk(t) is None: return "heights or balances are wrong"
    for k in range(-1, 32):
        n = t.search(k)
        if (n is None) != (k not in w) or n is not None and (n.key, n.data) != (k, w[k]): return f"search({k})"
        if k in w and t[k] != w[k]: return f"tree[{k}]"
    return None


def check(c):
    from mmcore.ds.tree.avl import AVL
    t, w = AVL(), {}
    for o, k, v in c["ops"]:
        if o == "i": t.insert(k, v); w.setdefault(k, v)
        elif o == "s": t[k] = v; w[k] = v
        elif v % 2: t.delete(k); w.pop(k, None)
        else: del t[k]; w.pop(k, None)
        m = state(t, w)
        if m: return f"after {o}({k}, {v}) expecting {dict(sorted(w.items()))}: {m}"
    return None


KINDS = {"history": (gen, check)}
