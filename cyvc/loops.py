"""Loop contracts: rewrites a loop that has an invariant into assert / havoc / assume / cut form (python AST pass)."""
import ast
from . import expr as X
from .sym import PathEnd


def assigned(stmts):
    out = []
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out: out.append(n.id)
        def visit_FunctionDef(self, n): pass
        visit_Lambda = visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = lambda s, n: None
    for s in stmts: V().visit(s)
    return out


class Instr(ast.NodeTransformer):
    """loops: {function qualname: {ordinal: spec}}; ordinal counts loops of the function in source order"""

    def __init__(self, specs):
        self.specs = specs
        self.stack = []
        self.count = []

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.count.append(0)
        self.generic_visit(n)
        self.count.pop()
        q = ".".join(self.stack)
        self.stack.pop()
        if q in self.specs.get("@nested", {}): return [n] + ast.parse(f"{n.name} = _LOOPS.nested({q!r}, {n.name})").body
        return n

    def key(self):
        k = self.count[-1] if self.count else 0
        if self.count: self.count[-1] += 1
        return ".".join(self.stack), k

    def visit_While(self, n): return self.loop(n)
    def visit_For(self, n): return self.loop(n)

    def loop(self, n):
        q, k = self.key()
        spec = self.specs.get(q, {}).get(k) or self.specs.get(q, {}).get("*")
        self.generic_visit(n)
        if spec is None: return n
        lid = f"{q}#{k}"
        names = assigned(n.body)
        if isinstance(n, ast.For):
            if not isinstance(n.target, ast.Name): return n
            names = [x for x in names if x != n.target.id]
        parse = lambda s: ast.parse(s).body
        names += [x for x in getattr(spec, "extra", ()) if x not in names]
        L = "_LOOPS"
        nxt = f"{n.target.id} = {L}.for_next({lid!r}, _it_{k}, {n.target.id})\n" if isinstance(n, ast.For) else ""
        body = Cont(lambda: parse(f"{nxt}{L}.back({lid!r}, locals())")).run(n.body)
        if isinstance(n, ast.While):
            pre = parse(f"{L}.enter({lid!r}, locals())")
            hv = parse("\n".join([f"{v} = {L}.havoc({lid!r}, {v!r}, locals())" for v in names]) or "pass")
            post = parse(f"{L}.assume({lid!r}, locals())")
            w = ast.While(test=n.test, body=body + parse(f"{L}.back({lid!r}, locals())"), orelse=n.orelse)
            return pre + hv + post + [w]
        t = n.target.id
        it = ast.Assign(targets=[ast.Name(id=f"_it_{k}", ctx=ast.Store())], value=n.iter)
        pre = parse(f"{t} = {L}.for_start({lid!r}, _it_{k})\n{L}.enter({lid!r}, locals())")
        hv = parse("\n".join([f"{v} = {L}.havoc({lid!r}, {v!r}, locals())" for v in names + [t]]))
        post = parse(f"{L}.for_bound({lid!r}, _it_{k}, {t})\n{L}.assume({lid!r}, locals())")
        w = ast.While(test=parse(f"{L}.for_test({lid!r}, _it_{k}, {t})")[0].value,
                      body=body + parse(f"{nxt}{L}.back({lid!r}, locals())"), orelse=n.orelse)
        # after normal exit python's loop variable keeps its last value; C code sees the same
        return [it] + pre + hv + post + [w]


class Cont(ast.NodeTransformer):
    """`continue` of this loop becomes the check at the loop head, which ends the path"""
    def __init__(self, back): self.back = back
    def run(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out
    def visit_While(self, n): return n
    def visit_For(self, n): return n
    def visit_FunctionDef(self, n): return n
    def visit_Continue(self, n): return self.back()


def cells(o, out, depth=0):
    """every mutable store reachable from o: {id: store}"""
    import numpy as np
    from . import rt
    if o is None or isinstance(o, (int, float, str, bytes, bool, X.E, type, range)) or depth > 8 or callable(o) and not hasattr(o, "__dict__"): return
    if isinstance(o, rt.SMV): out[id(o.store)] = o.store; return
    if isinstance(o, rt.SRow): out[id(o.mv.store)] = o.mv.store; return
    if isinstance(o, rt.SStore): out[id(o)] = o; return
    if isinstance(o, rt.Ptr): return cells(o.flat, out, depth + 1)
    if isinstance(o, np.ndarray):
        b = o
        while isinstance(b.base, np.ndarray) and b.base.dtype == object: b = b.base
        out[id(b)] = b
        return
    if id(o) in out: return
    if isinstance(o, (list, dict, set)):
        out[id(o)] = o
        for v in (o.values() if isinstance(o, dict) else o): cells(v, out, depth + 1)
        return
    if isinstance(o, tuple):
        for v in o: cells(v, out, depth + 1)
        return
    mod = type(o).__module__
    if isinstance(o, rt.Struct) or (isinstance(mod, str) and mod.startswith("mmcore")):
        out[id(o)] = o
        for _, v in fields(o): cells(v, out, depth + 1)


def fields(o):
    """attributes of an object, slots included"""
    r = dict(getattr(o, "__dict__", {}))
    for k in type(o).__mro__:
        for n in ([k.__slots__] if isinstance(k.__dict__.get("__slots__"), str) else k.__dict__.get("__slots__", ())):
            if n not in ("__dict__", "__weakref__") and hasattr(o, n): r[n] = getattr(o, n)
    return sorted(r.items())


def contents(o):
    import numpy as np
    from . import rt
    if isinstance(o, rt.SStore): return list(o.arr.values())
    if isinstance(o, np.ndarray): return [np.ndarray.__getitem__(o.reshape(-1), k) for k in range(o.size)]
    if isinstance(o, dict): return [x for kv in o.items() for x in kv]
    if isinstance(o, set): return sorted(o, key=id)
    if isinstance(o, list): return list(o)
    return [x for kv in fields(o) for x in kv]


def havoc_cells(o):
    import numpy as np
    from . import rt
    if isinstance(o, rt.SStore):
        for t in o.arr: o.arr[t] = X.fresh("heap", o.sort)
    elif isinstance(o, np.ndarray):
        f = o.reshape(-1)
        if not np.shares_memory(f, o): raise X.Unsupported("havoc of a non-contiguous array")
        for k in range(f.shape[0]):
            v = np.ndarray.__getitem__(f, k)
            np.ndarray.__setitem__(f, k, X.fresh("cell", X.sort_of(v) if not isinstance(v, (type(None), str)) else "R"))
    else: raise X.Unsupported(f"havoc of a {type(o).__name__}")


class Loops:
    """runtime of instrumented loops; specs: lid -> object with inv(ctx, env) yielding (name, term) and havoc hooks"""
    def __init__(self, specs): self.specs, self.state = specs, {}

    def ctx(self): return X.HOOK["ctx"]

    def nested(self, q, f):
        """a nested function with a contract: calls of it go through the contract's wrapper"""
        return self.specs["@nested"][q](f)

    def spec(self, lid):
        q, k = lid.rsplit("#", 1)
        d = self.specs[q]
        return d.get(int(k)) or d.get("*")

    def enter(self, lid, env):
        c = self.ctx()
        for nm, t in self.spec(lid).inv(c, env, "enter"): c.prove(t, f"{lid}: invariant {nm} holds on entry")

    def havoc(self, lid, v, env):
        if v not in env: return None
        old = env[v]
        sp = self.spec(lid)
        if getattr(sp, "ghost_index", None) == v:
            # the arbitrary iteration is either the ghost row's or another one
            c = self.ctx()
            if c.choose(2, "ghost row") == 0: return c.ghost
            i = X.fresh(v, "I")
            c.assume(X.ne(i, c.ghost))
            return i
        if hasattr(sp, "havoc"):
            r = sp.havoc(self.ctx(), v, old, env)
            if r is not NotImplemented: return r
        s = X.sort_of(old) if isinstance(old, (int, X.E, bool)) or type(old).__name__ == "Fraction" else None
        if s is None: return old
        return X.fresh(v, s)

    def assume(self, lid, env):
        c = self.ctx()
        sp = self.spec(lid)
        mod = getattr(sp, "modifies", ())
        written = {}
        for v in mod: cells(env[v], written)
        for o in written.values(): havoc_cells(o)
        if hasattr(sp, "havoc_heap"): sp.havoc_heap(c, env)
        rest = {}
        for v, o in env.items():
            if not v.startswith("_it_"): cells(o, rest)
        self.snap = getattr(self, "snap", {})
        self.snap[lid] = [(o, contents(o)) for i, o in rest.items() if i not in written]
        for nm, t in sp.inv(c, env, "assume"): c.assume(t)
        if hasattr(sp, "start"): sp.start(c, env)

    def back(self, lid, env):
        c = self.ctx()
        sp = self.spec(lid)
        for o, old in self.snap[lid]:
            new = contents(o)
            if len(new) != len(old) or any(a is not b and not (type(a) is type(b) and not X.is_e(a) and isinstance(a, (int, str)) and a == b) for a, b in zip(new, old)):
                raise X.Unsupported(f"{lid}: the loop writes memory outside its frame ({type(o).__name__})")
        for nm, t in sp.inv(c, env, "back"): c.prove(t, f"{lid}: invariant {nm} is preserved")
        if hasattr(sp, "decreases"):
            for nm, t in sp.decreases(c, env): c.prove(t, f"{lid}: {nm}")
        c.reached.add(lid)
        raise PathEnd()

    # for loops over ranges
    def rng(self, it):
        from .rt import SymRange
        if isinstance(it, range): return it.start, it.stop, it.step
        if isinstance(it, SymRange): return it.start, it.stop, it.step
        raise X.Unsupported("invariant on a for loop that is not over a range")
    def for_start(self, lid, it): return self.rng(it)[0]
    def for_bound(self, lid, it, t):
        a, b, s = self.rng(it)
        c = self.ctx()
        if s == 1: c.assume(X.and_(X.le(a, t), X.le(t, X.max_(a, b))))
        elif s == -1: c.assume(X.and_(X.le(t, a), X.le(X.min_(a, b), t)))
        else: raise X.Unsupported("range step")
    def for_test(self, lid, it, t):
        a, b, s = self.rng(it)
        return X.lt(t, b) if s > 0 else X.lt(b, t)
    def for_next(self, lid, it, t): return X.add(t, self.rng(it)[2])


class Identity(ast.NodeTransformer):
    """python modules: `a is b` goes through the engine, so that nodes of a symbolic heap are compared by address"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and not isinstance(n.comparators[0], ast.Constant):
            call = ast.Call(func=ast.Name(id="_cyvc_is", ctx=ast.Load()), args=[n.left, n.comparators[0]], keywords=[])
            return call if isinstance(n.ops[0], ast.Is) else ast.UnaryOp(op=ast.Not(), operand=call)
        return n


def identical(a, b):
    f = getattr(type(a), "_sym_is", None)
    return f(a, b) if f else a is b


def instrument(src, modname, specs, is_py):
    tree = ast.parse(src)
    if is_py: tree = ast.fix_missing_locations(Identity().visit(tree))
    sp = specs.get(modname)
    if sp:
        tree = Instr(sp).visit(tree)
        ast.fix_missing_locations(tree)
    return tree
