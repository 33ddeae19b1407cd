"""Exact rational-function arithmetic: the 'poly' back end.

A value is poly * prod(factor ** exp); a polynomial is a dict packed-exponents -> int/Fraction.  Equality of two terms
is decided by bringing both over a common denominator and expanding: zero polynomial <=> equal wherever both are defined.
"""
from fractions import Fraction
from . import expr as X

BITS = 12
MASK = (1 << BITS) - 1


class TooBig(Exception):
    pass


LIMIT = 400000


def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for k, v in b.items():
        w = r.get(k, 0) + v
        if w: r[k] = w
        else: r.pop(k, None)
    return r


def pscale(a, c):
    return {k: v * c for k, v in a.items()} if c else {}


def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > 4 * LIMIT: raise TooBig()
    r = {}
    get = r.get
    for k, v in a.items():
        for k2, v2 in b.items():
            kk = k + k2
            r[kk] = get(kk, 0) + v * v2
    r = {k: v for k, v in r.items() if v}
    if len(r) > LIMIT: raise TooBig()
    return r


def ppow(a, n):
    r = {0: 1}
    for _ in range(n): r = pmul(r, a)
    return r


class Ring:
    """atoms <-> indices, factor table, substitutions (from path equalities) and sqrt relations"""

    def __init__(self):
        self.idx = {}           # term id -> index
        self.atoms = []
        self.fac = {}           # frozenset(items) -> id
        self.facs = []
        self.memo = {}
        self.sub = {}           # index -> (poly, factors)
        self.sqrt_atoms = []    # (index, term)

    def atom(self, e):
        i = self.idx.get(e.id)
        if i is None and e.op == "sqrt":          # roots of equal radicands are one atom
            try:
                v = self.of(e.args[0])
                for j, arg in self.sqrt_atoms:
                    w = self.of(arg)
                    if self.is_zero(self.add(v, (pscale(w[0], -1), w[1]))): i = self.idx[e.id] = j; break
            except (TooBig, ZeroDivisionError): pass
        if i is None:
            i = self.idx[e.id] = len(self.atoms)
            self.atoms.append(e)
            if e.op == "sqrt": self.sqrt_atoms.append((i, e.args[0]))
        if i in self.sub:
            return self.sub[i]
        return ({1 << (BITS * i): 1}, {})

    def factor(self, p):
        """register polynomial p (>= 1 term) as factor(s); returns (const, {id: exp})"""
        # constant content
        if len(p) == 1:
            (k, v), = p.items()
            out = {}
            i = 0
            while k:
                e = k & MASK
                if e:
                    out[self._fid({1 << (BITS * i): 1})] = e
                k >>= BITS; i += 1
            return v, out
        lead = max(p)
        c = p[lead]
        if c != 1:
            p = {k: Fraction(v) / c for k, v in p.items()}
            p = {k: (int(v) if v.denominator == 1 else v) for k, v in p.items()}
        return c, {self._fid(p): 1}

    def _fid(self, p):
        key = frozenset(p.items())
        f = self.fac.get(key)
        if f is None:
            f = self.fac[key] = len(self.facs)
            self.facs.append(p)
        return f

    # values: (poly, {factor: exp})
    def add(self, a, b):
        if not a[0]: return b
        if not b[0]: return a
        fa, fb = a[1], b[1]
        if fa == fb:
            return self.norm(padd(a[0], b[0]), fa)
        common, pa, pb = {}, a[0], b[0]
        for f in set(fa) | set(fb):
            ea, eb = fa.get(f, 0), fb.get(f, 0)
            m = min(ea, eb)
            if m: common[f] = m
            if ea > m: pa = pmul(pa, ppow(self.facs[f], ea - m))
            if eb > m: pb = pmul(pb, ppow(self.facs[f], eb - m))
        return self.norm(padd(pa, pb), common)

    def norm(self, p, f):
        if not p: return ({}, {})
        # cancel a factor equal (up to a constant) to the whole polynomial
        if f and len(p) <= 60 and any(e < 0 for e in f.values()):
            c, ff = self.factor(p)
            if all(f.get(k, 0) < 0 for k in ff) and ff:
                g = dict(f)
                for k, e in ff.items():
                    g[k] = g.get(k, 0) + e
                    if not g[k]: del g[k]
                return ({0: c}, g)
        return (p, f)

    def mul(self, a, b):
        if not a[0] or not b[0]: return ({}, {})
        a, b = self._cancel(a, b), self._cancel(b, a)
        f = dict(a[1])
        for k, e in b[1].items():
            f[k] = f.get(k, 0) + e
            if not f[k]: del f[k]
        return self.norm(pmul(a[0], b[0]), f)

    def _cancel(self, a, b):
        """a, with its whole polynomial moved into the factors when b is divided by it"""
        if not (1 < len(a[0]) <= 60) or not any(e < 0 for e in b[1].values()): return a
        c, ff = self.factor(a[0])
        if not all(b[1].get(k, 0) < 0 for k in ff): return a
        g = dict(a[1])
        for k, e in ff.items():
            g[k] = g.get(k, 0) + e
            if not g[k]: del g[k]
        return ({0: c}, g)

    def inv(self, a):
        if not a[0]: raise ZeroDivisionError
        c, ff = self.factor(a[0])
        g = {k: -e for k, e in a[1].items()}
        for k, e in ff.items():
            g[k] = g.get(k, 0) - e
            if not g[k]: del g[k]
        c = Fraction(1) / c
        if c.denominator == 1: c = int(c)
        return ({0: c}, g)

    def of(self, e):
        if not X.is_e(e):
            v = Fraction(e)
            v = int(v) if v.denominator == 1 else v
            return ({0: v} if v else {}, {})
        memo = self.memo
        for x in X.walk(e):
            if x.id in memo or x.sort not in ("R", "I"): continue
            o = x.op
            if o in ("add", "sub", "mul", "div", "neg", "i2r"):
                a = [memo[y.id] if X.is_e(y) else self.of(y) for y in x.args]
                if o == "add": v = self.add(*a)
                elif o == "sub": v = self.add(a[0], (pscale(a[1][0], -1), a[1][1]))
                elif o == "mul": v = self.mul(*a)
                elif o == "div": v = self.mul(a[0], self.inv(a[1]))
                elif o == "neg": v = (pscale(a[0][0], -1), a[0][1])
                else: v = a[0]
            else:
                v = self.atom(x)
            memo[x.id] = v
        return memo[e.id]

    def num_poly(self, v):
        """numerator of v with positive-exponent factors multiplied out (denominators dropped)"""
        p = v[0]
        for f, e in v[1].items():
            if e > 0: p = pmul(p, ppow(self.facs[f], e))
        return p

    def is_zero(self, v):
        p = v[0]
        if not p: return True
        return self._zero_mod_sqrt(self.num_poly(v))

    def _zero_mod_sqrt(self, p):
        if not p: return True
        for i, arg in reversed(self.sqrt_atoms):
            sh = BITS * i
            parts = {}
            for k, v in p.items():
                e = (k >> sh) & MASK
                parts.setdefault(e, {})[k - (e << sh)] = v
            if all(e == 0 for e in parts): continue
            av = self.of(arg)
            N = self.num_poly(av)
            D = {0: 1}
            for f, e in av[1].items():
                if e < 0: D = pmul(D, ppow(self.facs[f], -e))
            top = max(e // 2 for e in parts)
            halves = {0: {}, 1: {}}
            for e, q in parts.items():
                m = e // 2
                t = pmul(pmul(q, ppow(N, m)), ppow(D, top - m))
                halves[e & 1] = padd(halves[e & 1], t)
            return self._zero_mod_sqrt(halves[0]) and self._zero_mod_sqrt(halves[1])
        return not p

    def add_equality(self, a, b):
        """use a == b as a substitution when it is linear in some atom with constant coefficient"""
        try:
            v = self.of(X.sub(a, b)) if True else None
        except (TooBig, ZeroDivisionError, X.Unsupported):
            return False
        p = self.num_poly(v)
        if not p: return False
        for k in sorted(p, reverse=True):
            if k == 0 or k & (k - 1): continue
            b = k.bit_length() - 1
            if b % BITS: continue
            i = b // BITS
            if any(((m >> (BITS * i)) & MASK) for m in p if m != k): continue
            c = p[k]
            rest = {m: Fraction(-w) / c for m, w in p.items() if m != k}
            rest = {m: (int(w) if w.denominator == 1 else w) for m, w in rest.items()}
            self.sub = {j: self._subst_val(r, i, rest) for j, r in self.sub.items()}
            self.sub[i] = (rest, {})
            self.memo.clear()
            return True
        return False

    def _subst_val(self, val, i, rest):
        p, f = val
        sh = BITS * i
        out = {}
        for k, v in p.items():
            e = (k >> sh) & MASK
            t = pscale(ppow(rest, e), v)
            base = k - (e << sh)
            out = padd(out, {base + kk: vv for kk, vv in t.items()})
        return (out, f)
