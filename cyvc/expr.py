"""Hash-consed terms.  A term is also the symbolic value the extracted code computes with.

Numeric constants are plain python ints / Fractions, boolean constants plain python bools; everything else is an E.
Sorts: 'R' mathematical reals (C doubles), 'I' mathematical integers (C ints), 'B' booleans, 'A' array int->real,
'AI' array int->int.
"""
from fractions import Fraction
import math

_table = {}
_counter = [0]

HOOK = {"ctx": None}          # the running Ctx (see sym.py): decides branches, concretises indices


class Unsupported(Exception):
    """The extractor or the executor met something it has no semantics for."""


from numpy import ndarray


class E:
    __slots__ = ("op", "args", "sort", "id", "cache")

    def __init__(self, op, args, sort):
        self.op, self.args, self.sort = op, args, sort
        _counter[0] += 1
        self.id = _counter[0]
        self.cache = None

    # ---- arithmetic
    def __add__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else add(self, o)
    def __radd__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else add(o, self)
    def __sub__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else sub(self, o)
    def __rsub__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else sub(o, self)
    def __mul__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else mul(self, o)
    def __rmul__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else mul(o, self)
    def __truediv__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else div(self, o)
    def __rtruediv__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else div(o, self)
    def __floordiv__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else floordiv(self, o)
    def __rfloordiv__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else floordiv(o, self)
    def __mod__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else mod(self, o)
    def __rmod__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else mod(o, self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return absval(self)
    def __pow__(self, o, m=None): return power(self, o)
    def __rpow__(self, o): return NotImplemented if isinstance(o, ndarray) and o.ndim else power(o, self)
    # ---- comparison
    def __lt__(self, o): return NotImplemented if getattr(o, "ndim", 0) else cmp_("lt", self, o)
    def __le__(self, o): return NotImplemented if getattr(o, "ndim", 0) else cmp_("le", self, o)
    def __gt__(self, o): return NotImplemented if getattr(o, "ndim", 0) else cmp_("lt", o, self)
    def __ge__(self, o): return NotImplemented if getattr(o, "ndim", 0) else cmp_("le", o, self)
    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return cmp_("eq", self, o)
    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return not_(cmp_("eq", self, o))
    def __and__(self, o):
        if self.sort == "B": return and_(self, o)
        raise Unsupported("bitwise & on symbolic number")
    def __rand__(self, o): return self.__and__(o)
    def __or__(self, o):
        if self.sort == "B": return or_(self, o)
        raise Unsupported("bitwise | on symbolic number")
    def __ror__(self, o): return self.__or__(o)
    def __invert__(self):
        if self.sort == "B": return not_(self)
        raise Unsupported("~ on symbolic number")
    def __hash__(self): return 7
    # ---- leaving the symbolic world
    def __bool__(self):
        c = HOOK["ctx"]
        if c is None:
            raise Unsupported("truth value of a term outside of an execution")
        if self.sort == "B":
            return c.decide(self)
        return c.decide(ne(self, 0))
    def __index__(self):
        c = HOOK["ctx"]
        if c is None or self.sort not in ("I",):
            raise Unsupported("index by a non-integer term")
        return c.concretize(self)
    def __int__(self):
        if self.sort == "I":
            return self.__index__()
        if self.sort == "B":
            return int(bool(self))
        raise Unsupported("int() of a real term")
    def __float__(self):
        raise Unsupported("float() of a symbolic term")
    def __round__(self, n=None): raise Unsupported("round")
    def sqrt(self): return sqrt(self)
    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __format__(self, spec): return str(self)
    def __repr__(self): return to_str(self)


def mk(op, args, sort):
    key = (op, sort) + tuple((a.id if type(a) is E else (type(a).__name__[0] if type(a) is bool else "n", a)) for a in args)
    e = _table.get(key)
    if e is None:
        e = _table[key] = E(op, args, sort)
    return e


def reset():
    _table.clear()


def is_e(x): return type(x) is E


def conv(x):
    """normalise a python value to a term constant"""
    t = type(x)
    if t is E or t is int or t is bool:
        return x
    if t is Fraction:
        return x
    if t is float:
        if x != x or x in (math.inf, -math.inf):
            return x
        return Fraction(x)
    if hasattr(x, "__symval__"):
        return conv(x.__symval__())
    if hasattr(x, "item") and not isinstance(x, E):
        return conv(x.item())
    raise Unsupported(f"cannot use {type(x).__name__} as a number")


def num(x):
    x = conv(x)
    if type(x) is bool:
        return int(x)
    if is_e(x) and x.sort == "B":
        return ite(x, 1, 0)
    return x


def sort_of(x):
    if is_e(x): return x.sort
    if type(x) is bool: return "B"
    if type(x) is int: return "I"
    return "R"


def var(name, sort="R"):
    return mk("var", (name,), sort)


_fresh = [0]
def fresh(name, sort="R"):
    _fresh[0] += 1
    return var(f"{name}!{_fresh[0]}", sort)


def _join(a, b):
    return "I" if sort_of(a) == "I" and sort_of(b) == "I" else "R"


def isinf(x): return type(x) is float


def add(a, b):
    a, b = num(a), num(b)
    if not is_e(a) and not is_e(b): return a + b
    if isinf(a): return a
    if isinf(b): return b
    if not is_e(a) and a == 0: return b if not (type(a) is Fraction and sort_of(b) == "I") else toreal(b)
    if not is_e(b) and b == 0: return a if not (type(b) is Fraction and sort_of(a) == "I") else toreal(a)
    if is_e(a) and is_e(b) and a.id > b.id: a, b = b, a
    return mk("add", (a, b), _join(a, b))


def neg(a):
    a = num(a)
    if not is_e(a): return -a
    if a.op == "neg": return a.args[0]
    return mk("neg", (a,), a.sort)


def sub(a, b):
    a, b = num(a), num(b)
    if not is_e(a) and not is_e(b): return a - b
    if isinf(a): return a
    if isinf(b): return -b
    if not is_e(b) and b == 0: return a
    if not is_e(a) and a == 0: return neg(b)
    if a is b: return 0
    return mk("sub", (a, b), _join(a, b))


def mul(a, b):
    a, b = num(a), num(b)
    if not is_e(a) and not is_e(b): return a * b
    if isinf(a) or isinf(b): raise Unsupported("inf * symbolic")
    for x, y in ((a, b), (b, a)):
        if not is_e(x):
            if x == 0: return 0 if sort_of(y) == "I" and type(x) is int else Fraction(0)
            if x == 1: return y
            if x == -1: return neg(y)
    if is_e(a) and is_e(b) and a.id > b.id: a, b = b, a
    return mk("mul", (a, b), _join(a, b))


def div(a, b):
    """real division"""
    a, b = num(a), num(b)
    c = HOOK["ctx"]
    if not is_e(b):
        if b == 0:
            if c is not None: return c.division_by_zero(a)
            raise ZeroDivisionError
        if isinf(b): return Fraction(0)
        if not is_e(a):
            if isinf(a): return a if b > 0 else -a
            return Fraction(a) / Fraction(b)
        if b == 1: return toreal(a)
        return mul(toreal(a), Fraction(1) / Fraction(b))
    if isinf(a): raise Unsupported("inf / symbolic")
    if c is not None:
        c.check_divisor(b)
    if not is_e(a) and a == 0: return Fraction(0)
    if a is b: return Fraction(1)
    return mk("div", (toreal(a), toreal(b)), "R")


def toreal(a):
    if not is_e(a):
        return a if isinf(a) else Fraction(a)
    if a.sort == "I": return mk("i2r", (a,), "R")
    return a


def floordiv(a, b):
    a, b = num(a), num(b)
    if not is_e(a) and not is_e(b):
        if b == 0: raise ZeroDivisionError
        return a // b
    if _join(a, b) == "I":
        c = HOOK["ctx"]
        if c is not None and is_e(b): c.check_divisor(b)
        if not is_e(b) and b == 1: return a
        return mk("idiv", (a, b), "I")
    raise Unsupported("real floor division")


def mod(a, b):
    a, b = num(a), num(b)
    if not is_e(a) and not is_e(b): return a % b
    if _join(a, b) == "I":
        c = HOOK["ctx"]
        if c is not None and is_e(b): c.check_divisor(b)
        return mk("imod", (a, b), "I")
    raise Unsupported("real modulo")


def absval(a):
    a = num(a)
    if not is_e(a): return abs(a)
    if a.op == "abs": return a
    if a.op == "neg": return absval(a.args[0])
    return mk("abs", (a,), a.sort)


def power(a, k):
    a, k = num(a), num(k)
    if not is_e(a) and not is_e(k):
        if isinstance(k, int):
            return Fraction(a) ** k if k < 0 else a ** k
        if k.denominator == 1:
            return Fraction(a) ** int(k)
        if k == Fraction(1, 2): return sqrt(a)
        raise Unsupported("fractional power")
    if is_e(k): raise Unsupported("symbolic exponent")
    if type(k) is Fraction:
        if k == Fraction(1, 2): return sqrt(a)
        if k.denominator != 1: raise Unsupported("fractional power")
        a = toreal(a); k = int(k)
    if k < 0: return div(1, power(a, -k))
    r = 1
    for _ in range(k): r = mul(r, a)
    return r if k else (1 if sort_of(a) == "I" else Fraction(1))


def sqrt(a):
    a = num(a)
    if not is_e(a):
        f = Fraction(a)
        if f >= 0:
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return Fraction(p, q)
        a = f
    c = HOOK["ctx"]
    if c is not None: c.check_sqrt(a)
    if is_e(a) and _zero_squares(a): return 0
    return mk("sqrt", (toreal(a),), "R")


_ZERO = {}


def _zero_squares(a):
    """a is a sum of squares of terms that are identically zero as rational functions"""
    z = _ZERO.get(a.id)
    if z is not None: return z
    bases, todo = [], [a]
    while todo:
        x = todo.pop()
        if is_e(x) and x.op == "add": todo += x.args
        elif is_e(x) and x.op == "mul" and len(x.args) == 2 and x.args[0] is x.args[1] and is_e(x.args[0]) and x.args[0].op != "var": bases.append(x.args[0])
        elif not is_e(x) and x == 0: pass
        else: break
    else:
        from .poly import Ring, TooBig
        try:
            r = Ring()
            z = all(r.is_zero(r.of(b)) for b in bases)
        except (TooBig, ZeroDivisionError): z = False
    _ZERO[a.id] = bool(z)
    return _ZERO[a.id]


def uf(name, *args, sort="R"):
    return mk("uf", (name,) + tuple(toreal(num(x)) if sort == "R" else num(x) for x in args), sort)


def cmp_(op, a, b):
    a, b = conv(a), conv(b)
    if sort_of(a) == "B" and sort_of(b) == "B" and op == "eq":
        if not is_e(a) and not is_e(b): return a == b
        return iff(a, b)
    a, b = num(a), num(b)
    if not is_e(a) and not is_e(b):
        return {"lt": a < b, "le": a <= b, "eq": a == b}[op]
    if isinf(a): return {"lt": a < 0, "le": a < 0, "eq": False}[op]
    if isinf(b): return {"lt": b > 0, "le": b > 0, "eq": False}[op]
    if a is b: return op != "lt"
    if op == "eq" and is_e(a) and is_e(b) and a.id > b.id: a, b = b, a
    # integer/real constant tightening for integers
    if is_e(a) and a.sort == "I" and type(b) is Fraction and b.denominator == 1: b = int(b)
    if is_e(b) and b.sort == "I" and type(a) is Fraction and a.denominator == 1: a = int(a)
    return mk(op, (a, b), "B")


def lt(a, b): return cmp_("lt", a, b)
def le(a, b): return cmp_("le", a, b)
def eq(a, b): return cmp_("eq", a, b)
def ne(a, b): return not_(cmp_("eq", a, b))
def gt(a, b): return cmp_("lt", b, a)
def ge(a, b): return cmp_("le", b, a)


def boolv(x):
    x = conv(x)
    if type(x) is bool: return x
    if is_e(x):
        return x if x.sort == "B" else ne(x, 0)
    return x != 0


def not_(a):
    a = boolv(a)
    if type(a) is bool: return not a
    if a.op == "not": return a.args[0]
    if a.op == "lt": return mk("le", (a.args[1], a.args[0]), "B")
    if a.op == "le": return mk("lt", (a.args[1], a.args[0]), "B")
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        x = boolv(x)
        if x is False: return False
        if x is True or any(x is y for y in out): continue
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return mk("and", tuple(out), "B")


def or_(*xs):
    out = []
    for x in xs:
        x = boolv(x)
        if x is True: return True
        if x is False: continue
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return mk("or", tuple(out), "B")


def implies(a, b): return or_(not_(a), b)


def iff(a, b):
    a, b = boolv(a), boolv(b)
    if type(a) is bool: return b if a else not_(b)
    if type(b) is bool: return a if b else not_(a)
    if a is b: return True
    return mk("iff", (a, b), "B")


def ite(c, a, b):
    c = boolv(c)
    if type(c) is bool: return a if c else b
    a, b = conv(a), conv(b)
    if sort_of(a) == "B" and sort_of(b) == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if a is b: return a
    if not is_e(a) and not is_e(b) and type(a) is type(b) and a == b: return a
    return mk("ite", (c, a, b), _join(a, b))


def min_(a, b):
    a, b = num(a), num(b)
    if not is_e(a) and not is_e(b): return min(a, b)
    if isinf(a): return b if a > 0 else a
    if isinf(b): return a if b > 0 else b
    return ite(le(a, b), a, b)


def max_(a, b):
    a, b = num(a), num(b)
    if not is_e(a) and not is_e(b): return max(a, b)
    if isinf(a): return a if a > 0 else b
    if isinf(b): return b if b > 0 else a
    return ite(ge(a, b), a, b)


def select(arr, i):
    # read over write with syntactically decidable indices
    while arr.op == "store":
        j = arr.args[1]
        if j is i or (not is_e(i) and not is_e(j) and i == j): return arr.args[2]
        if not is_e(i) and not is_e(j): arr = arr.args[0]; continue
        c = HOOK["ctx"]
        if c is not None and c.pcset:
            n = not_(eq(i, j))
            if n is True or (is_e(n) and n.id in c.pcset): arr = arr.args[0]; continue
        break
    return mk("select", (arr, num(i)), "R" if arr.sort == "A" else "I")


def store(arr, i, v):
    return mk("store", (arr, num(i), toreal(num(v)) if arr.sort == "A" else num(v)), arr.sort)


def array(name, sort="A"):
    return var(name, sort)


def forall(vars_, body, patterns=()):
    body = boolv(body)
    if type(body) is bool: return body
    return _mkq("forall", vars_, body, patterns)


def exists(vars_, body):
    body = boolv(body)
    if type(body) is bool: return body
    return _mkq("exists", vars_, body, ())


def _mkq(kind, vars_, body, patterns):
    return mk(kind, (len(vars_),) + tuple(vars_) + (body,) + tuple(patterns), "B")


def walk(e, seen=None):
    """every subterm once, children first"""
    seen = set() if seen is None else seen
    if not is_e(e): return
    stack = [(e, False)]
    while stack:
        x, done = stack.pop()
        if done:
            yield x
            continue
        if x.id in seen: continue
        seen.add(x.id)
        stack.append((x, True))
        for a in x.args:
            if is_e(a) and a.id not in seen:
                stack.append((a, False))


def free_vars(*es):
    seen, out = set(), []
    for e in es:
        for x in walk(e, seen):
            if x.op == "var": out.append(x)
    return out


def to_str(e, depth=0):
    if not is_e(e): return str(e)
    if depth > 12: return "..."
    a = e.args
    s = lambda x: to_str(x, depth + 1)
    if e.op == "var": return a[0]
    b = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "le": "<=", "eq": "==", "idiv": "//", "imod": "%", "iff": "<=>"}
    if e.op in b: return f"({s(a[0])} {b[e.op]} {s(a[1])})"
    if e.op in ("and", "or"): return "(" + f" {e.op} ".join(s(x) for x in a) + ")"
    if e.op == "select": return f"{s(a[0])}[{s(a[1])}]"
    if e.op == "uf": return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    if e.op in ("forall", "exists"):
        n = a[0]
        return f"{e.op} {','.join(s(v) for v in a[1:1+n])}. {s(a[1+n])}"
    return f"{e.op}({', '.join(s(x) for x in a)})"


def evaluate(e, env, memo=None, fn=None):
    """numeric value of e under env: name -> number (floats or Fractions).  Arrays: name -> callable/ sequence."""
    memo = {} if memo is None else memo
    if not is_e(e): return e
    for x in walk(e):
        if x.id in memo: continue
        a = [memo[y.id] if is_e(y) else y for y in x.args]
        o = x.op
        if o == "var": v = env[x.args[0]]
        elif o == "add": v = a[0] + a[1]
        elif o == "sub": v = a[0] - a[1]
        elif o == "mul": v = a[0] * a[1]
        elif o == "neg": v = -a[0]
        elif o == "div":
            v = (Fraction(a[0]) / Fraction(a[1])) if isinstance(a[0], (int, Fraction)) and isinstance(a[1], (int, Fraction)) else a[0] / a[1]
        elif o == "i2r": v = a[0]
        elif o == "idiv": v = a[0] // a[1]
        elif o == "imod": v = a[0] % a[1]
        elif o == "abs": v = abs(a[0])
        elif o == "sqrt": v = math.sqrt(a[0])
        elif o == "lt": v = a[0] < a[1]
        elif o == "le": v = a[0] <= a[1]
        elif o == "eq": v = a[0] == a[1]
        elif o == "not": v = not a[0]
        elif o == "and": v = all(a)
        elif o == "or": v = any(a)
        elif o == "iff": v = bool(a[0]) == bool(a[1])
        elif o == "ite": v = a[1] if a[0] else a[2]
        elif o == "select": v = a[0][a[1]]
        elif o == "store":
            v = dict(a[0]) if isinstance(a[0], dict) else dict(enumerate(a[0])); v[a[1]] = a[2]
        elif o == "uf": v = fn(x.args[0], a[1:])
        else: raise Unsupported(f"evaluate {o}")
        memo[x.id] = v
    return memo[e.id]


def subst(e, mapping, memo=None):
    """replace variables (E var -> value); rebuilds with simplification. No ctx side effects."""
    memo = {} if memo is None else memo
    if not is_e(e): return e
    saved, HOOK["ctx"] = HOOK["ctx"], None
    try:
        for x in walk(e):
            if x.id in memo: continue
            if x.op == "var":
                memo[x.id] = mapping.get(x.id, x); continue
            a = [memo[y.id] if is_e(y) else y for y in x.args]
            memo[x.id] = rebuild(x, a)
    finally:
        HOOK["ctx"] = saved
    return memo[e.id]


def rebuild(x, a):
    o = x.op
    f = {"add": add, "sub": sub, "mul": mul, "neg": neg, "div": div, "i2r": toreal, "idiv": floordiv, "imod": mod,
         "abs": absval, "sqrt": sqrt, "lt": lt, "le": le, "eq": eq, "not": not_, "and": and_, "or": or_, "iff": iff,
         "ite": ite, "select": select, "store": store}.get(o)
    if f is not None:
        return f(*a)
    if o in ("forall", "exists", "uf"):
        return mk(o, tuple(a), x.sort)
    raise Unsupported(f"subst {o}")
