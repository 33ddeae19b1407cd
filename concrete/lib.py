"""Oracles and generators of the executed contracts (independent of mmcore)."""
import math
from fractions import Fraction

import numpy as np


def knots(rng, n_ctrl, p, kind=None, grid=True):
    """a valid knot vector for n_ctrl control points of degree p: clamped (interior multiplicity <= p) or unclamped"""
    kind = kind or rng.choice(["clamped", "clamped", "clamped", "unclamped"])
    a = rng.choice([0.0, 0.0, -3.0, 1.5, 100.0])
    sc = rng.choice([1.0, 1.0, 0.25, 10.0])
    step = lambda: sc * (rng.randint(1, 8) / 4 if grid else rng.uniform(0.1, 2))
    if kind == "unclamped":
        out = [a]
        while len(out) < n_ctrl + p + 1: out.append(out[-1] + step())
        return out
    k = n_ctrl - p - 1
    out, x = [a] * (p + 1), a
    while k > 0:
        x += step()
        m = min(k, rng.choice([1, 1, 1, 2, 3]), max(p, 1))
        out += [x] * m
        k -= m
    return out + [x + step()] * (p + 1)


def params(rng, U, p, n, count=6):
    lo, hi = U[p], U[n + 1]
    out = [lo, hi, (lo + hi) / 2] + [x for x in U if lo <= x <= hi]
    out += [rng.uniform(lo, hi) for _ in range(count)]
    rng.shuffle(out)
    return out[:count + 2]


def true_span(u, U, p, n):
    if u >= U[n + 1]:
        k = n
        return k
    if u < U[p]: return p
    for k in range(p, n + 1):
        if U[k] <= u < U[k + 1]: return k
    raise AssertionError("no span")


def cdb(i, p, u, U, span, memo=None):
    if p == 0: return Fraction(1) if i == span else Fraction(0)
    if i > span or i + p < span: return Fraction(0)
    if memo is None: memo = {}
    if (i, p) in memo: return memo[i, p]
    r = Fraction(0)
    d = U[i + p] - U[i]
    if d: r += (u - U[i]) / d * cdb(i, p - 1, u, U, span, memo)
    d = U[i + p + 1] - U[i + 1]
    if d: r += (U[i + p + 1] - u) / d * cdb(i + 1, p - 1, u, U, span, memo)
    memo[i, p] = r
    return r


def basis(span, u, p, U):
    U = {i: Fraction(U[i]) for i in range(span - p, span + p + 2) if 0 <= i < len(U)}
    u, memo = Fraction(u), {}
    return [cdb(span - p + j, p, u, U, span, memo) for j in range(p + 1)]


def dbasis(span, u, p, U, k):
    """k-th derivatives of the p+1 functions on the span, exactly"""
    U = [Fraction(x) for x in U]
    u = Fraction(u)

    def d(i, q, k):
        if k == 0: return cdb(i, q, u, U, span)
        if q == 0: return Fraction(0)
        r = Fraction(0)
        e = U[i + q] - U[i]
        if e: r += q / e * d(i, q - 1, k - 1)
        e = U[i + q + 1] - U[i + 1]
        if e: r -= q / e * d(i + 1, q - 1, k - 1)
        return r
    return [d(span - p + j, p, k) for j in range(p + 1)]


def curve(U, p, P, u, span=None):
    """exact point of the curve with rows (x, y, z[, w]) (weights multiply)"""
    n = len(P) - 1
    k = true_span(u, U, p, n) if span is None else span
    N = basis(k, u, p, U)
    rows = [[Fraction(v) for v in P[k - p + j]] for j in range(p + 1)]
    w = [r[3] if len(r) > 3 else Fraction(1) for r in rows]
    den = sum(N[j] * w[j] for j in range(p + 1))
    return [float(sum(N[j] * w[j] * rows[j][d] for j in range(p + 1)) / den) for d in range(3)]


def close(a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape: return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))): return False
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b))))


def pts(rng, n, dim=3, scale=10.0):
    g = rng.choice([0, 1])
    return [[(rng.randint(-40, 40) / 4 if g else rng.uniform(-scale, scale)) for _ in range(dim)] for _ in range(n)]


def vec(rng, n=3, scale=10.0):
    return pts(rng, 1, n, scale)[0]


def degree_size(rng, pmax=5, extra=5):
    p = rng.randint(1, pmax)
    return p, p + 1 + rng.randint(0, extra)
