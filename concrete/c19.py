"""The circular list against a python list, over random histories."""


def gen(rng, i):
    n = rng.randint(0, 5)
    return {"start": [rng.randint(0, 4) for _ in range(n)], "ops": [[rng.choice(["append", "node", "insert", "remove", "del", "set", "replace", "insert", "append"]), rng.randint(-1, 7), rng.randint(0, 5)] for _ in range(rng.randint(0, 10))]}


def state(l, w, log):
    if list(l) != w: return f"elements {list(l)[:20]}"
    if [x.data for x in l.iter_nodes()] != w: return "nodes"
    if len(l) != len(w) or l.size() != len(w): return f"length {len(l)}"
    x, back = l.head, []
    for _ in w:
        if x.next.previous is not x or x.previous.next is not x: return "a node is not linked both ways"
        x = x.previous; back.append(x.data)
    if back != w[::-1] or (w and x is not l.head): return "walking backwards"
    if not w and l.head is not None: return "an empty list has a head"
    for v in range(7):
        if l.index(v) != (w.index(v) if v in w else None) or (v in l) != (v in w): return f"index of {v}"
    for i in range(-len(w) - 2, len(w) + 2):
        for f in (l.get, l.__getitem__):
            try: r = f(i)
            except ValueError: r = ValueError
            if r != (w[i] if -len(w) <= i < len(w) else ValueError): return f"get({i}) is {r}"
    return None


def check(c):
    from mmcore.ds.cdll import CDLL, Node
    log = []

    class L(CDLL):
        def insert_hook(self, n): log.append(("i", n.data))
        def remove_hook(self, n): log.append(("r", n.data))
    w = list(c["start"])
    l = L(list(w))
    want = [("i", v) for v in w]
    for k, (o, i, v) in enumerate([["none", 0, 0]] + c["ops"]):
        exc = None
        try:
            if o == "append": l.append(v); w.append(v); want.append(("i", v))
            elif o == "node": l.append_node(Node(v)); w.append(v); want.append(("i", v))
            elif o == "insert":
                ok = 0 <= i <= len(w)
                l.insert(v, i)
                if not ok: return f"insert({v}, {i}) into {w} is not refused"
                w.insert(i, v); want.append(("i", v))
            elif o == "remove":
                ok = v in w
                l.remove(v)
                if not ok: return f"remove({v}) from {w} is not refused"
                w.remove(v); want.append(("r", v))
            elif o == "del":
                ok = 0 <= i < len(w)
                del l[i]
                if not ok: return f"del [{i}] of {w} is not refused"
                want.append(("r", w.pop(i)))
            elif o == "set":
                ok = 0 <= i < len(w)
                l[i] = v
                if not ok: return f"[{i}] = {v} in {w} is not refused"
                w[i] = v
            elif o == "replace":
                ok = 0 <= i < len(w)
                l.replace_node(i, Node(v))
                if not ok: return f"replace_node({i}) in {w} is not refused"
                w[i] = v
        except ValueError:
            if ok: return f"{o}({i}, {v}) on {w} is refused"
        m = state(l, w, log)
        if m: return f"after {o}({i}, {v}) expecting {w}: {m}"
        if log != want: return f"hooks {log[-3:]} instead of {want[-3:]} after {o}({i}, {v})"
    return None


KINDS = {"history": (gen, check)}
