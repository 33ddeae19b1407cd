"""Run-time library of the extracted code: memory model, libc/numpy stand-ins, module loader."""
import builtins
import importlib
import math
import os
import sys
from fractions import Fraction

import numpy as _np

from . import expr as X
from .expr import E, Unsupported
from .sym import PathEnd
from .translate import extract

REPO = os.environ.get("CYVC_REPO", "/repo")


def ctx():
    return X.HOOK["ctx"]


def is_num(x): return isinstance(x, (int, float, Fraction, E)) or isinstance(x, _np.number)


# ------------------------------------------------------------------ arrays
class Arr(_np.ndarray):
    """numpy object array of terms.  strict: negative indices are out of bounds (wraparound=False memoryview)"""
    strict = False

    def __array_finalize__(self, obj):
        self.strict = getattr(obj, "strict", False)

    def _ix(self, i, n=None):
        t = type(i)
        if t is int: return i
        if t is E:
            if i.sort != "I": raise Unsupported("real index")
            return ctx().concretize(i)
        if t is Fraction:
            if i.denominator == 1: return int(i)
            raise Unsupported("fractional index")
        if t is slice:
            f = lambda z: z if z is None or type(z) is int else self._ix(z)
            return slice(f(i.start), f(i.stop), f(i.step))
        if isinstance(i, Arr):
            v = [_np.ndarray.__getitem__(i.reshape(-1), k) for k in builtins.range(i.size)]
            if v and all(type(x) is bool for x in v): return _np.array(v).reshape(i.shape)
            if all(type(x) is int or (type(x) is Fraction and x.denominator == 1) for x in v): return _np.array([int(x) for x in v], dtype=int).reshape(i.shape)
        return i

    def _fix(self, key):
        if type(key) is tuple:
            k = tuple(self._ix(i) for i in key)
            if self.strict:
                ax = 0
                for i in k:
                    if type(i) is int and ax < self.ndim and not (0 <= i < self.shape[ax]): return self._oob(i, self.shape[ax])
                    ax += 1
            return k
        k = self._ix(key)
        if self.strict and type(k) is int and not (0 <= k < self.shape[0]): return self._oob(k, self.shape[0])
        return k

    def _oob(self, i, n):
        c = ctx()
        if c is not None:
            c.prove(False, f"{c.name}: index in bounds", note=f"index {i} of a dimension of size {n}")
            raise PathEnd()
        raise IndexError(f"index {i} out of bounds for size {n}")

    def __getitem__(self, key):
        return super().__getitem__(self._fix(key))

    def __iter__(self):
        if self.ndim == 0: raise TypeError("iteration over a 0-d array")
        return (_np.ndarray.__getitem__(self, i) for i in builtins.range(self.shape[0]))

    def __setitem__(self, key, v):
        if type(v) is float: v = X.conv(v)
        k = self._fix(key)
        if type(v) is Ptr:
            # a C array assigned to a slice is copied element by element
            t = super().__getitem__(k)
            if isinstance(t, _np.ndarray) and t.ndim == 1: v = arr_of([v[i] for i in builtins.range(t.shape[0])], t.shape)
        super().__setitem__(k, v)

    def tobytes(self): return tuple(self.reshape(-1))

    def astype(self, dtype, *a, **k):
        if dtype in (int, _np.int32, _np.int64, "int"):
            return arr_of([RTC.cint(v) for v in self.reshape(-1)], self.shape)
        return self.copy()

    def __symval__(self):
        if self.size == 1: return self.reshape(-1)[0]
        raise Unsupported("array used as a number")

    def copy_fortran(self): return self.copy()
    @property
    def obj(self): return self
    @property
    def itemsize_(self): return 8
    def max(self, axis=None, **k): return NPC.max(self, axis)
    def min(self, axis=None, **k): return NPC.min(self, axis)
    def __deepcopy__(self, memo): return self.copy()


def empty_arr(shape):
    a = _np.empty(shape, dtype=object).view(Arr)
    return a


def arr_of(flat, shape):
    a = empty_arr((len(flat),))
    for i, v in enumerate(flat): _np.ndarray.__setitem__(a, i, v)
    return a.reshape(shape)


def conv_arr(x):
    """any nested numeric data -> Arr of terms (copy)"""
    if isinstance(x, (SMV,)):
        if x.fix: raise Unsupported("array copy of symbolic length")
        st = SStore.__new__(SStore)
        st.length, st.tail, st.sort, st.arr = x.store.length, x.store.tail, x.store.sort, dict(x.store.arr)
        return SMV(st, x.start, x.length)
    if isinstance(x, _np.ndarray):
        r = empty_arr(x.shape)
        rf, xf = r.reshape(-1), x.reshape(-1)
        for i in range(xf.shape[0]): _np.ndarray.__setitem__(rf, i, X.conv(_np.ndarray.__getitem__(xf, i)))
        return r
    if isinstance(x, (list, tuple)) or hasattr(x, "__iter__"):
        xs = list(x)
        if xs and any(isinstance(y, (list, tuple, _np.ndarray)) or (hasattr(y, "__iter__") and not is_num(y)) for y in xs):
            parts = [conv_arr(y) for y in xs]
            sh = parts[0].shape
            if any(p.shape != sh for p in parts): raise ValueError("inhomogeneous shape")
            return arr_of([v for p in parts for v in p.reshape(-1)], (len(parts),) + sh)
        return arr_of([X.conv(v) for v in xs], (len(xs),))
    return arr_of([X.conv(x)], ())


class SStore:
    """array with symbolic length on the first axis and concrete trailing shape"""

    def __init__(self, name, length, tail=(), sort="A"):
        self.length, self.tail, self.sort = length, tuple(tail), sort
        self.arr = {}
        for t in _np.ndindex(*self.tail):
            self.arr[t] = X.array(name + "".join(f".{k}" for k in t), sort)


class SMV:
    """view of an SStore: rows start .. start+length"""

    def __init__(self, store, start=0, length=None, fix=()):
        self.store, self.start = store, start
        self.length = store.length if length is None else length
        self.fix = fix              # fixed trailing indices (prefix or single)
        self.strict = True

    @property
    def shape(self):
        return (self.length,) + (() if self.fix else self.store.tail)

    @property
    def size(self):
        r = self.length
        for t in self.shape[1:]: r = r * t
        return r

    @property
    def ndim(self): return len(self.shape)

    def __len__(self): return ctx().concretize(self.length) if X.is_e(self.length) else self.length

    def _check(self, i):
        c = ctx()
        c.prove(X.and_(X.le(0, i), X.lt(i, self.length)), f"{c.name}: index in bounds")

    def _tail(self, ks):
        t = self.fix + tuple(ctx().concretize(k) if X.is_e(k) else int(k) for k in ks)
        for k, n in zip(t, self.store.tail):
            if not 0 <= k < n:
                ctx().prove(False, f"{ctx().name}: index in bounds"); raise PathEnd()
        return t

    def load(self, i, t=()):
        return X.select(self.store.arr[t], X.add(self.start, i))

    def save(self, i, t, v):
        if isinstance(v, (list, tuple, _np.ndarray)): raise Unsupported("vector store")
        self.store.arr[t] = X.store(self.store.arr[t], X.add(self.start, i), v)

    def __getitem__(self, key):
        if type(key) is tuple:
            i, rest = key[0], key[1:]
        else:
            i, rest = key, ()
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                if rest and len(rest) == len(self.store.tail) and not any(isinstance(k, slice) for k in rest):
                    return SMV(self.store, self.start, self.length, self._tail(rest))
                if not rest: return self
            if not rest and i.step is None:
                a = 0 if i.start is None else i.start
                b = self.length if i.stop is None else i.stop
                c = ctx()
                c.prove(X.and_(X.le(0, a), X.le(a, b), X.le(b, self.length)), f"{c.name}: slice in bounds")
                return SMV(self.store, X.add(self.start, a), X.sub(b, a), self.fix)
            raise Unsupported("slice of a symbolic array")
        self._check(i)
        if isinstance(rest, tuple) and rest and isinstance(rest[0], slice): rest = ()
        t = self._tail(rest)
        if len(t) == len(self.store.tail): return self.load(i, t)
        return SRow(self, i, t)

    def __setitem__(self, key, v):
        if type(key) is tuple: i, rest = key[0], key[1:]
        else: i, rest = key, ()
        if isinstance(i, slice): raise Unsupported("slice assignment to a symbolic array")
        self._check(i)
        if rest and isinstance(rest[0], slice): rest = ()
        t = self._tail(rest)
        if len(t) == len(self.store.tail): self.save(i, t, v)
        else:
            for k in range(self.store.tail[0]): self.save(i, (k,), v[k])

    def __iter__(self):
        i = 0
        while ctx().decide(X.lt(i, self.length)):
            yield self[i]
            i += 1


class SRow:
    def __init__(self, mv, i, t):
        self.mv, self.i, self.t = mv, i, t
        self.shape = mv.store.tail[len(t):]
        self.size = 1
        for n in self.shape: self.size *= n
        self.ndim = len(self.shape)

    def __len__(self): return self.shape[0]

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        if any(isinstance(x, slice) for x in ks): raise Unsupported("slice of a symbolic row")
        t = self.mv._tail(self.t[len(self.mv.fix):] + ks)
        if len(t) < len(self.mv.store.tail): return SRow(self.mv, self.i, t)
        return self.mv.load(self.i, t)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            for j in range(self.shape[0]): self.mv.save(self.i, (j,), v[j])
            return
        ks = k if isinstance(k, tuple) else (k,)
        t = self.mv._tail(self.t[len(self.mv.fix):] + ks)
        if len(t) < len(self.mv.store.tail):
            if len(t) + 1 != len(self.mv.store.tail): raise Unsupported("store to a block of a symbolic row")
            for j in range(self.mv.store.tail[-1]): self.mv.save(self.i, t + (j,), v[j])
            return
        self.mv.save(self.i, t, v)

    def __iter__(self):
        return iter([self[k] for k in range(self.shape[0])])


class Ptr:
    """C pointer into a flat array"""
    __slots__ = ("flat", "off")

    def __init__(self, flat, off=0): self.flat, self.off = flat, off

    def _i(self, i):
        if type(i) is E and not isinstance(self.flat, SMV): i = ctx().concretize(i)
        return X.add(self.off, i) if X.is_e(i) or X.is_e(self.off) else self.off + int(i)

    def __getitem__(self, i):
        if isinstance(i, slice): return self.flat[self.off + (i.start or 0): self.off + i.stop]
        k = self._i(i)
        if isinstance(self.flat, SMV): return self.flat[k]
        n = self.flat.shape[0]
        if not 0 <= k < n:
            c = ctx()
            if c is None: raise IndexError(k)
            c.prove(False, f"{c.name}: pointer access in bounds", note=f"offset {k} of an allocation of {n}"); raise PathEnd()
        return _np.ndarray.__getitem__(self.flat, k)

    def __setitem__(self, i, v):
        if type(v) is float: v = X.conv(v)
        k = self._i(i)
        if isinstance(self.flat, SMV): self.flat[k] = v; return
        n = self.flat.shape[0]
        if not 0 <= k < n:
            c = ctx()
            if c is None: raise IndexError(k)
            c.prove(False, f"{c.name}: pointer access in bounds", note=f"offset {k} of an allocation of {n}"); raise PathEnd()
        _np.ndarray.__setitem__(self.flat, k, v)

    def __add__(self, i): return Ptr(self.flat, self._i(i))
    def __radd__(self, i): return self + i
    def __sub__(self, i):
        if isinstance(i, Ptr): return self.off - i.off
        return Ptr(self.flat, self._i(-i))
    def __eq__(self, o): return isinstance(o, Ptr) and o.flat is self.flat and o.off == self.off
    def __hash__(self): return id(self.flat)
    def __bool__(self): return True
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return getattr(self[0], n)
    def __setattr__(self, n, v):
        if n in ("flat", "off"): object.__setattr__(self, n, v)
        else: setattr(self[0], n, v)


class HashTok:
    """hash of a tuple, taken as injective: equal exactly when the hashed tuples are equal"""
    def __init__(self, t): self.t = t
    def _eq(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return X.and_(len(a) == len(b), *[self._eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
        return X.eq(a, b) if is_num(a) and is_num(b) else a == b
    def __eq__(self, o): return self._eq(self.t, o.t) if isinstance(o, HashTok) else False
    def __hash__(self): return 0


def b_hash(x): return HashTok(x) if isinstance(x, tuple) else builtins.hash(x)


class ByteBuf:
    """memory accessed through char pointers: typed cells at byte offsets"""
    def __init__(self, n): self.n, self.cells = n, {}
    def fail(self, what, off, size):
        c = ctx()
        if c is None: raise IndexError(off)
        c.prove(False, f"{c.name}: {what}", note=f"{size} bytes at offset {off} of {self.n}"); raise PathEnd()
    def store(self, off, size, v):
        if off < 0 or off + size > self.n: self.fail("write inside the byte buffer", off, size)
        for k in [k for k, (s, _) in self.cells.items() if k < off + size and off < k + s]:
            if (k, self.cells[k][0]) != (off, size):
                raise Unsupported("overlapping writes of different sizes")
        self.cells[off] = (size, v)
    def load(self, off, size):
        if off < 0 or off + size > self.n: self.fail("read inside the byte buffer", off, size)
        s = self.cells.get(off)
        if s is None or s[0] != size:
            if not any(k < off + size and off < k + z for k, (z, _) in self.cells.items()): self.fail("read of initialised memory", off, size)
            raise Unsupported("read across differently typed memory")
        return s[1]
    def filled(self): return sum(s for s, _ in self.cells.values())


class BytePtr:
    def __init__(self, buf, off=0, size=1): self.buf, self.off, self.size = buf, off, size
    def _n(self, i): return ctx().concretize(i) if X.is_e(i) else int(i)
    def __add__(self, i): return BytePtr(self.buf, self.off + self._n(i) * self.size, self.size)
    __radd__ = __add__
    def __sub__(self, i): return self.off - i.off if isinstance(i, BytePtr) else self + -self._n(i)
    def cast(self, size): return BytePtr(self.buf, self.off, size)
    def __getitem__(self, i):
        if isinstance(i, slice):
            n = self._n(i.stop)
            if self.off or i.start: raise Unsupported("bytes from the middle of a buffer")
            if n > self.buf.n: self.buf.fail("read inside the byte buffer", 0, n)
            b = ByteBuf(n); b.cells = {k: v for k, v in self.buf.cells.items() if k + v[0] <= n}
            if b.filled() != n: b.fail("read of initialised memory", 0, n)
            return SBytes(b)
        return self.buf.load(self.off + self._n(i) * self.size, self.size)
    def __setitem__(self, i, v): self.buf.store(self.off + self._n(i) * self.size, self.size, v)
    def __bool__(self): return True
    def __eq__(self, o): return isinstance(o, BytePtr) and o.buf is self.buf and o.off == self.off
    def __hash__(self): return id(self.buf)


class SBytes:
    """a bytes object with typed contents"""
    ndim = 1
    def __init__(self, buf): self.buf, self.shape = buf, (buf.n,)
    def __len__(self): return self.buf.n
    def truncated(self, n):
        b = ByteBuf(n); b.cells = {k: v for k, v in self.buf.cells.items() if k + v[0] <= n}
        return SBytes(b)
    def edited(self, off, size, v):
        b = ByteBuf(self.buf.n); b.cells = dict(self.buf.cells); b.store(off, size, v)
        return SBytes(b)


def memcmp(a, b, n):
    g = lambda p: p.buf.load(p.off, n) if isinstance(p, BytePtr) else p[:n]
    return 0 if g(a) == g(b) else 1


class RawMem:
    def __init__(self, nbytes, old=None, zero=False): self.nbytes, self.old, self.zero = nbytes, old, zero
    def __bool__(self): return True
    def __eq__(self, o): return o is self
    def __hash__(self): return id(self)


def _count(nbytes, size):
    if X.is_e(nbytes):
        if nbytes.op == "mul":
            for a, b in (nbytes.args, nbytes.args[::-1]):
                if not X.is_e(a) and a == size: return b
        return ctx().concretize(nbytes) // size
    return int(nbytes) // size


def undef(kind="real"):
    return X.fresh("undef", "I" if kind in ("int", "bool") else "R")


def alloc(n, kind="real", struct=None, zero=False):
    if X.is_e(n):
        st = SStore(X.fresh("heap", "A").args[0], n, (), "AI" if kind == "int" else "A")
        return Ptr(SMV(st))
    n = int(n)
    if struct is not None:
        return Ptr(arr_of([RTC.new_struct(struct) for _ in range(n)], (n,)))
    return Ptr(arr_of([Fraction(0) if zero and kind == "real" else 0 if zero else (undef(kind) if kind in ("real", "int", "bool") else None) for _ in range(n)], (n,)))


class Struct:
    fields = ()
    def __init__(self, *a, **k):
        for (f, t), v in zip(self.fields, a): setattr(self, f, v)
        for f, v in k.items(): setattr(self, f, v)
        for f, t in self.fields[len(a):]:
            if f not in k: setattr(self, f, undef(t) if t in ("real", "int", "bool") else None)
    def copy(self): return type(self)(**{f: getattr(self, f) for f, t in self.fields})
    def __getitem__(self, i):
        if i == 0: return self
        raise Unsupported("pointer arithmetic on a struct")


class CArr(Ptr):
    """C array object: a pointer that knows its length (converts to list and tuple)"""
    __slots__ = ()
    def __iter__(self): return iter([self[i] for i in range(self.flat.shape[0])])
    def __len__(self): return self.flat.shape[0]


class CArrField:
    """C array member of an extension type: storage per object, assignment copies the elements"""
    def __init__(self, name, n, kind): self.key, self.n, self.kind = "__carr_" + name, int(n), kind
    def __get__(self, o, cls=None):
        if o is None: return self
        d = o.__dict__
        if self.key not in d: d[self.key] = CArr(alloc(self.n, self.kind, zero=True).flat)
        return d[self.key]
    def __set__(self, o, v):
        vs = [v[i] for i in range(self.n)]
        p = self.__get__(o)
        for i, x in enumerate(vs): p[i] = RTC.real(x) if self.kind == "real" else RTC.int_(x)


class RTClass:
    def __init__(self): pass
    # literals and coercions
    def lit(self, s): return Fraction(float(s.replace("_", "").rstrip("fFlL")))
    def real(self, x):
        t = type(x)
        if t is Fraction: return x
        if t is E: return X.toreal(X.num(x)) if x.sort != "R" else x
        if t is int: return Fraction(x)
        if t is bool: return Fraction(int(x))
        if t is float: return X.conv(x)
        if x is None: raise TypeError("must be real number, not NoneType")
        return X.toreal(X.num(x))
    def int_(self, x):
        t = type(x)
        if t is int: return x
        if t is bool: return int(x)
        if t is E:
            if x.sort == "I": return x
            if x.sort == "B": return 1 if ctx().decide(x) else 0
            raise Unsupported("real to int coercion")
        if t is Fraction:
            if x.denominator == 1: return int(x)
            raise Unsupported("fraction to int coercion")
        if isinstance(x, (str,)): return x
        return int(x)
    def cint(self, x):
        x = X.num(x)
        if X.is_e(x):
            if x.sort == "I": return x
            raise Unsupported("(int) cast of a real term")
        return int(x)
    def bool_(self, x):
        if type(x) is bool: return x
        if x is None: return False
        if type(x) is E: return x if x.sort == "B" else X.ne(x, 0)
        return bool(x)
    def not_(self, x):
        if type(x) is E: return X.not_(x)
        return not x
    def nd(self, x):
        return x
    def carr_field(self, name, n, kind): return CArrField(name, n, kind)
    def mv(self, x, ndim, elt):
        if isinstance(x, Ptr) and ndim == 1 and isinstance(x.flat, Arr): return self.view_ptr(x, (x.flat.shape[0] - x.off,))
        if x is None or isinstance(x, (SMV, SRow, SBytes)): return x
        if isinstance(x, Arr):
            if x.ndim != ndim: raise ValueError(f"Buffer has wrong number of dimensions (expected {ndim}, got {x.ndim})")
            if x.strict: return x
            v = x.view(Arr); v.strict = True
            return v
        if isinstance(x, _np.ndarray):
            v = conv_arr(x); v.strict = True
            return self.mv(v, ndim, elt)
        if hasattr(x, "__array__"): return self.mv(x.__array__(), ndim, elt)
        raise TypeError(f"a memoryview is required, got {type(x).__name__}")
    def scopy(self, s): return s.copy() if isinstance(s, Struct) else (s[0].copy() if isinstance(s, Ptr) else s)
    def undef(self, name): return X.fresh(f"undef_{name}", "R")
    def undef_int(self, name): return X.fresh(f"undef_{name}", "I")
    def cell(self, v): return Ptr(arr_of([v], (1,)))
    def addr_cell(self, c): return c
    def addr_attr(self, o, a):
        v = getattr(o, a)
        if isinstance(v, (Ptr, Struct, Arr)): return v
        return AttrPtr(o, a)
    def addr(self, base, *idx):
        if isinstance(base, (Ptr,)):
            p = base + idx[0]
            if len(idx) > 1: raise Unsupported("&p[i][j]")
            return p
        if isinstance(base, SMV):
            if len(idx) == 1 and base.ndim == 1: return Ptr(base, idx[0])
            raise Unsupported("address inside a symbolic 2-d array")
        if isinstance(base, AttrPtr): return base
        if isinstance(base, BytePtr): return base + idx[0]
        if isinstance(base, SBytes): return BytePtr(base.buf, idx[0])
        if isinstance(base, bytes): return base[idx[0]:]
        if isinstance(base, list): raise Unsupported("address inside a list")
        a = base
        ii = []
        for i in idx: ii.append(ctx().concretize(i) if X.is_e(i) else int(i))
        full = ii + [0] * (a.ndim - len(ii))
        flat, off = flat_of(a)
        if len(ii) > 1 or True:
            st = [s // a.itemsize for s in a.strides]
            for k, (i, n) in enumerate(zip(full, a.shape)):
                if not 0 <= i < n and not (n == 0): a._oob(i, n)
            return Ptr(flat, off + sum(i * s for i, s in zip(full, st)))
    def alloc(self, n, kind): return alloc(n, kind)
    def alloc_nd(self, dims, kind):
        """C array of arrays (indices are checked)"""
        n = 1
        for d in dims: n *= int(d)
        a = arr_of([undef(kind) for _ in range(n)], tuple(int(d) for d in dims))
        a.strict = True
        return a
    def cast_ptr(self, p, kind, struct=None):
        if kind == "byte":
            if isinstance(p, RawMem): return BytePtr(ByteBuf(ctx().concretize(p.nbytes) if X.is_e(p.nbytes) else int(p.nbytes)))
            if isinstance(p, BytePtr): return p.cast(1)
            if isinstance(p, bytes): return p
            raise Unsupported("char pointer to typed memory")
        if isinstance(p, BytePtr):
            if kind not in ("int", "real"): raise Unsupported("cast of a char pointer")
            return p.cast(8 if kind == "real" else 4)
        if isinstance(p, RawMem):
            if struct is not None: return alloc(_count(p.nbytes, 8 * len(struct.fields)), kind, struct)
            size = 8 if kind in ("real", "ptr") else 4
            if kind in ("obj", "void"): raise Unsupported("cast of raw memory")
            n = _count(p.nbytes, size)
            r = alloc(n, kind, zero=p.zero)
            if p.old is not None:
                for i in range(min(n, p.old.flat.shape[0] - p.old.off)): r[i] = p.old[i]
            return r
        return p
    def view_ptr(self, p, dims):
        dims = [ctx().concretize(d) if X.is_e(d) and not isinstance(p.flat, SMV) else d for d in dims]
        if isinstance(p.flat, SMV):
            if len(dims) == 1: return SMV(p.flat.store, X.add(p.flat.start, p.off), dims[0], p.flat.fix)
            raise Unsupported("2-d view of symbolic memory")
        n = 1
        for d in dims: n *= int(d)
        if p.off + n > p.flat.shape[0]:
            p.flat._oob(p.off + n, p.flat.shape[0]) if isinstance(p.flat, Arr) else None
        v = _np.ndarray.__getitem__(p.flat, slice(p.off, p.off + n)).reshape(tuple(int(d) for d in dims)).view(Arr)
        v.strict = True
        return v
    def sizeof(self, name): raise Unsupported(f"sizeof({name})")
    def vector(self, kind): return Vector()
    def struct(self, name, fields): return type(name, (Struct,), {"fields": tuple(fields)})
    def has_libc(self, n): return n in LIBC
    def carr_init(self, n, kind, src):
        p = alloc(n, kind)
        for i, v in enumerate(src): p[i] = self.real(v) if kind == "real" else self.int_(v)
        return p
    def returns_object(self, f):
        if hasattr(f, "__dict__"): f._returns_object = True
    def slice_call(self, f, *a):
        v = f(*a)
        g = f._get() if isinstance(f, Lazy) else f
        if getattr(g, "_returns_object", False) or isinstance(getattr(g, "__self__", None), NPShim): return self.scalar_fill(v)
        return v
    def scalar_fill(self, x):
        if is_num(x): return x
        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
    @staticmethod
    def cinit_new(cls, *a, **k):
        """tp_new of an extension class: every __cinit__ of the class chain, base first"""
        o = object.__new__(cls)
        for b in reversed(cls.__mro__):
            f = b.__dict__.get("__cinit__")
            if f is None: continue
            if f.__code__.co_argcount == 1 and not f.__code__.co_flags & 0x0C: f(o)
            else: f(o, *a, **k)
        return o
    def new_struct(self, cls):
        if isinstance(cls, Lazy): cls = cls._get()
        return cls()
    # arithmetic
    def div(self, a, b):
        ta, tb = type(a), type(b)
        if ta is Fraction and tb is Fraction and b: return a / b
        if is_num(a) and is_num(b): return X.div(a, b)
        return a / b
    def cidiv(self, a, b):
        a, b = X.num(a), X.num(b)
        if not X.is_e(a) and not X.is_e(b):
            if b == 0:
                c = ctx(); c.prove(False, f"{c.name}: divisor is non-zero"); raise PathEnd()
            if type(a) is int and type(b) is int:
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            return a // b
        c = ctx()
        if X.is_e(a) and not c.decide(X.le(0, a)): raise Unsupported("truncating division of a negative term")
        if X.is_e(b) and not c.decide(X.lt(0, b)): raise Unsupported("truncating division by a negative term")
        return X.floordiv(a, b)
    def mod(self, a, b):
        a, b = X.num(a), X.num(b)
        if not X.is_e(a) and not X.is_e(b): return a % b
        c = ctx()
        if X.is_e(a) and not c.decide(X.le(0, a)): raise Unsupported("remainder of a negative term")
        return X.mod(a, b)
    def pow(self, a, b): return a ** b if not is_num(a) else X.power(a, b)
    def bit(self, op, a, b):
        a = a.__index__() if X.is_e(a) and a.sort == "I" else a
        b = b.__index__() if X.is_e(b) and b.sort == "I" else b
        if op == "|": return a | b
        if op == "&": return a & b
        if op == "^": return a ^ b
        if op == "<<": return a << b
        if op == ">>": return a >> b
        raise Unsupported(f"bit operation {op}")
    # modules
    def import_(self, name): return PROGRAM.import_(name)
    def import_root(self, name):
        PROGRAM.import_(name)
        return PROGRAM.import_(name.split(".")[0])
    def from_(self, cur, mod, name, level):
        if level: 
            base = cur.split(".")
            base = base[:len(base) - level]
            mod = ".".join(base + ([mod] if mod else []))
        return PROGRAM.from_(mod, name)
    def star(self, mod, g):
        m = PROGRAM.load(mod) if mod.startswith("mmcore") else {}
        for k, v in m.items():
            if not k.startswith("__"): g.setdefault(k, v)


class AttrPtr:
    def __init__(self, o, a): self.o, self.a = o, a
    def __getitem__(self, i):
        if i != 0: raise Unsupported("attr pointer arithmetic")
        return getattr(self.o, self.a)
    def __setitem__(self, i, v): setattr(self.o, self.a, v)


def flat_of(a):
    """flat view of the allocation behind a (must be C-contiguous in its base) and the offset of a[0...] in it"""
    b = a
    while isinstance(b.base, _np.ndarray) and b.base.dtype == object: b = b.base
    if not b.flags["C_CONTIGUOUS"]: raise Unsupported("pointer into a non-contiguous array")
    flat = b.reshape(-1).view(Arr)
    off = (a.__array_interface__["data"][0] - b.__array_interface__["data"][0]) // a.itemsize
    # rows reachable through the pointer must follow C order
    return flat, off


class Vector(list):
    def __init__(self, n=None, v=Fraction(0)):
        if n is None: super().__init__()
        elif X.is_e(n) or type(n) is int: super().__init__([v] * ctx().concretize(n) if X.is_e(n) else [v] * n)
        else: super().__init__(n)
    def begin(self): return 0
    def end(self): return len(self)
    def insert(self, i, v): super().insert(i, X.conv(v) if type(v) is float else v)
    def push_back(self, v): self.append(X.conv(v) if type(v) is float else v)
    def size(self): return len(self)
    def resize(self, n, v=Fraction(0)):
        n = int(n)
        del self[n:]
        while len(self) < n: self.append(v)
    def reserve(self, n): pass
    def back(self): return self[-1]
    def front(self): return self[0]
    def pop_back(self): self.pop()
    def empty(self): return not self
    def data(self): return Ptr(arr_of(list(self), (len(self),)))


RTC = RTClass()


# ------------------------------------------------------------------ numpy stand-in
def _shape(s):
    if isinstance(s, (tuple, list)): return tuple(ctx().concretize(x) if X.is_e(x) else int(x) for x in s)
    if X.is_e(s): return (ctx().concretize(s),)
    return (int(s),)


def _iskind_int(dtype):
    return dtype in (int, "int", "intc", "i", _np.intc, _np.int32, _np.int64, _np.intp, _np.uint32, _np.uint64, "int64", "int32", _np.uint8, bool, _np.bool_, "bool")


class NPShim:
    float64 = "float64"; float32 = "float32"; double = "float64"; intc = "intc"; int32 = "int32"; int64 = "int64"; intp = "int64"
    uint8 = "uint8"; bool_ = "bool"; uint64 = "int64"; uint32 = "int32"
    ndarray = _np.ndarray
    newaxis = None
    inf = math.inf
    nan = math.nan
    pi = Fraction(math.pi)
    __version__ = _np.__version__

    def _fill(self, shape, v):
        sh = _shape(shape)
        n = 1
        for k in sh: n *= k
        return arr_of([v] * n, sh)
    def zeros(self, shape, dtype=None, **k): return self._fill(shape, 0 if _iskind_int(dtype) else Fraction(0))
    def ones(self, shape, dtype=None, **k): return self._fill(shape, 1 if _iskind_int(dtype) else Fraction(1))
    def full(self, shape, v, dtype=None, **k): return self._fill(shape, X.conv(v))
    def empty(self, shape, dtype=None, **k):
        if dtype in (object, "object"): return self._fill(shape, None)
        if X.is_e(shape):
            st = SStore(X.fresh("npempty", "A").args[0], shape, (), "AI" if _iskind_int(dtype) else "A")
            return SMV(st)
        if isinstance(shape, (tuple, list)) and X.is_e(shape[0]) and not any(X.is_e(x) for x in shape[1:]):
            st = SStore(X.fresh("npempty", "A").args[0], shape[0], tuple(int(x) for x in shape[1:]), "AI" if _iskind_int(dtype) else "A")
            return SMV(st)
        sh = _shape(shape)
        n = 1
        for k2 in sh: n *= k2
        return arr_of([undef("int" if _iskind_int(dtype) else "real") for _ in range(n)], sh)
    def zeros_like(self, a, dtype=None, **k): return self.zeros(a.shape)
    def ones_like(self, a, dtype=None, **k): return self.ones(a.shape)
    def empty_like(self, a, dtype=None, **k): return self.empty(a.shape)
    def array(self, x, dtype=None, copy=True, **k):
        if hasattr(x, "__array__") and not isinstance(x, _np.ndarray): x = x.__array__()
        a = conv_arr(x)
        if isinstance(a, SMV): return a
        if dtype in (float, "float64", "float32"):
            f = a.reshape(-1)
            for i in range(f.shape[0]): f[i] = RTC.real(f[i])
        return a
    def asarray(self, x, dtype=None, **k):
        if isinstance(x, Arr):
            if x.strict:
                v = x.view(Arr); v.strict = False
                return v
            return x
        if isinstance(x, (SMV, SRow)): return x
        return self.array(x, dtype)
    ascontiguousarray = asarray
    asanyarray = asarray
    def copy(self, a, **k):
        r = conv_arr(a); return r
    def arange(self, *a, dtype=None, **k):
        if any((X.sort_of(v) == "R") if X.is_e(v) else v != int(v) for v in a):
            lo, hi, st = a if len(a) == 3 else (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1)
            ctx().prove(X.lt(0, st), "numpy.arange counts up")
            out = []
            while bool(X.lt(X.add(lo, X.mul(len(out), st)), hi)): out.append(X.toreal(X.num(X.add(lo, X.mul(len(out), st)))))
            return arr_of(out, (len(out),))
        a = [int(v) if not X.is_e(v) else ctx().concretize(v) for v in a]
        return arr_of(list(range(*a)), (len(range(*a)),))
    class _C:
        def __getitem__(self, xs): return NPC.column_stack(xs if isinstance(xs, tuple) else (xs,))
    c_ = _C()
    def linspace(self, a, b, n=50, **k):
        n = int(n)
        if n == 1: return arr_of([X.toreal(X.num(a))], (1,))
        st = X.div(X.sub(b, a), n - 1)
        return arr_of([X.toreal(X.num(a)) if i == 0 else (X.toreal(X.num(b)) if i == n - 1 else X.add(a, X.mul(i, st))) for i in range(n)], (n,))
    def eye(self, n, *a, **k):
        r = self.zeros((n, n))
        for i in range(n): r[i, i] = Fraction(1)
        return r
    identity = eye
    def dot(self, a, b): return _np.dot(self._a(a), self._a(b))
    def matmul(self, a, b): return _np.matmul(self._a(a), self._a(b))
    def _a(self, a):
        if isinstance(a, Arr) or is_num(a): return a
        return conv_arr(a)
    def cross(self, a, b, **k):
        a, b = self._a(a), self._a(b)
        if a.shape[-1] != 3 or a.ndim != 1: raise Unsupported("np.cross shape")
        return arr_of([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], (3,))
    def _map(self, f, a):
        if is_num(a): return f(a)
        a = self._a(a)
        return arr_of([f(v) for v in a.reshape(-1)], a.shape)
    def sqrt(self, a): return self._map(X.sqrt, a)
    def abs(self, a): return self._map(lambda v: abs_(v), a)
    absolute = fabs = abs
    def square(self, a): return self._map(lambda v: v * v, a)
    def _map2(self, f, a, b):
        if is_num(a) and is_num(b): return f(a, b)
        A, B = _np.broadcast_arrays(_np.asarray(self._a(a), dtype=object), _np.asarray(self._a(b), dtype=object))
        return arr_of([f(x, y) for x, y in zip(A.reshape(-1), B.reshape(-1))], A.shape)
    def minimum(self, a, b): return self._map2(min_, a, b)
    def maximum(self, a, b): return self._map2(max_, a, b)
    def divide(self, a, b): return self._map2(X.div, a, b)
    def add(self, a, b): return self._map2(X.add, a, b)
    def subtract(self, a, b): return self._map2(X.sub, a, b)
    def multiply(self, a, b): return self._map2(X.mul, a, b)
    def _red(self, f, a, axis):
        a = self._a(a)
        if axis is None:
            r = None
            for v in a.reshape(-1): r = v if r is None else f(r, v)
            return r
        a = _np.moveaxis(_np.asarray(a, dtype=object), axis, 0)
        out = [None] * int(_np.prod(a.shape[1:], dtype=int))
        for row in a:
            for j, v in enumerate(_np.asarray(row, dtype=object).reshape(-1)): out[j] = v if out[j] is None else f(out[j], v)
        return arr_of(out, a.shape[1:])
    def min(self, a, axis=None, **k): return self._red(min_, a, axis)
    def max(self, a, axis=None, **k): return self._red(max_, a, axis)
    amin, amax = min, max
    def sum(self, a, axis=None, **k): return self._red(X.add, a, axis)
    def prod(self, a, axis=None, **k): return self._red(X.mul, a, axis)
    def mean(self, a, axis=None, **k):
        a = self._a(a)
        n = a.size if axis is None else a.shape[axis]
        s = self.sum(a, axis)
        return self._map(lambda v: X.div(v, n), s)
    def argmax(self, a, axis=None):
        a = self._a(a).reshape(-1); b = 0
        for i in range(1, len(a)):
            if a[i] > a[b]: b = i
        return b
    def argmin(self, a, axis=None):
        a = self._a(a).reshape(-1); b = 0
        for i in range(1, len(a)):
            if a[i] < a[b]: b = i
        return b
    def all(self, a, axis=None):
        if axis is not None: raise Unsupported("np.all axis")
        if isinstance(a, (bool, E)): return a
        for v in _np.asarray(a, dtype=object).reshape(-1):
            if not v: return False
        return True
    def any(self, a, axis=None):
        if axis is not None: raise Unsupported("np.any axis")
        if isinstance(a, (bool, E)): return a
        for v in _np.asarray(a, dtype=object).reshape(-1):
            if v: return True
        return False
    def isclose(self, a, b, rtol=1e-5, atol=1e-8):
        return self._map2(lambda x, y: X.le(abs_(X.sub(x, y)), X.add(X.conv(atol), X.mul(X.conv(rtol), abs_(y)))), a, b)
    def allclose(self, a, b, **k): return self.all(self.isclose(a, b, **k))
    def array_equal(self, a, b):
        a, b = self._a(a), self._a(b)
        return a.shape == b.shape and all(bool(X.eq(x, y)) for x, y in zip(a.reshape(-1), b.reshape(-1)))
    def isfinite(self, a): return self._map(lambda v: not isinstance(v, float), a)
    def isscalar(self, a): return is_num(a)
    def concatenate(self, xs, axis=0, **k): return _np.concatenate([self._a(x) for x in xs], axis=axis).view(Arr)
    def stack(self, xs, axis=0, **k): return _np.stack([self._a(x) for x in xs], axis=axis).view(Arr)
    def vstack(self, xs): return _np.vstack([self._a(x) for x in xs]).view(Arr)
    def hstack(self, xs): return _np.hstack([self._a(x) for x in xs]).view(Arr)
    def column_stack(self, xs): return _np.column_stack([self._a(x) for x in xs]).view(Arr)
    def append(self, a, b, axis=None): return _np.append(self._a(a), self._a(b), axis=axis).view(Arr)
    def flip(self, a, axis=None): return _np.flip(self._a(a), axis=axis)
    def transpose(self, a, *k): return _np.transpose(self._a(a), *k)
    def reshape(self, a, s): return self._a(a).reshape(_shape(s))
    def ravel(self, a): return self._a(a).reshape(-1)
    def outer(self, a, b): return _np.outer(self._a(a), self._a(b)).view(Arr)
    def diff(self, a, *k): a = self._a(a); return arr_of([X.sub(a[i + 1], a[i]) for i in range(len(a) - 1)], (len(a) - 1,))
    def ndim(self, a): return getattr(a, "ndim", 0)
    def shape(self, a): return self._a(a).shape
    def where(self, *a): raise Unsupported("np.where")
    def atleast_2d(self, a): a = self._a(a); return a if a.ndim >= 2 else a.reshape(1, -1)
    def atleast_1d(self, a): a = self._a(a); return a if not is_num(a) and a.ndim >= 1 else conv_arr([a])
    def moveaxis(self, a, s, d): return _np.moveaxis(self._a(a), s, d)
    def tile(self, a, r): return _np.tile(self._a(a), r).view(Arr)
    def repeat(self, a, r, axis=None): return _np.repeat(self._a(a), r, axis=axis).view(Arr)
    def insert(self, a, i, v, axis=None): return _np.insert(self._a(a), i, v, axis=axis).view(Arr)
    def searchsorted(self, a, v, side="left"):
        a = self._a(a)
        for i in range(len(a)):
            if (a[i] >= v) if side == "left" else (a[i] > v): return i
        return len(a)
    def round(self, a, *k): raise Unsupported("np.round")
    def unique(self, a, **k):
        if k: raise Unsupported("np.unique with options")
        out = []
        for x in sort_(list(self._a(a).reshape(-1))):
            if not out or not (out[-1] is x or bool(X.eq(out[-1], x))): out.append(x)
        return arr_of(out, (len(out),))
    def sort(self, a, **k): return arr_of(sort_(list(self._a(a).reshape(-1))), (self._a(a).size,))
    def float_(self, x): return RTC.real(x)
    def vectorize(self, f=None, **k):
        def wrap(f):
            sig = (k.get("signature") or "").replace(" ", "")
            def call(*a, **kw):
                if len(a) != 1 or kw or sig not in ("(i)->()", "(n)->()"): raise Unsupported("numpy.vectorize")
                v = NPC._a(a[0])
                lead = v.shape[:-1]
                return arr_of([f(v[ix]) for ix in _np.ndindex(*lead)], lead)
            return call
        return wrap(f) if f is not None else wrap

    class linalg:
        @staticmethod
        def norm(a, axis=None, **k):
            a = NPC._a(a)
            if axis is None:
                s = 0
                for v in a.reshape(-1): s = X.add(s, X.mul(v, v))
                return X.sqrt(s)
            return NPC._map(X.sqrt, NPC.sum(NPC._map(lambda v: X.mul(v, v), a), axis))
        @staticmethod
        def det(a):
            a = NPC._a(a)
            n = a.shape[0]
            if n == 2: return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
            if n == 3:
                return (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1]) - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
                        + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))
            raise Unsupported("det")
        @staticmethod
        def solve(a, b): raise Unsupported("np.linalg.solve")
        @staticmethod
        def inv(a):
            # of a matrix of numbers: the exact inverse
            a = NPC._a(a)
            n = len(a)
            if a.shape != (n, n) or any(X.is_e(x) for x in a.flat): raise Unsupported("np.linalg.inv")
            m = [[Fraction(x) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(a)]
            for i in range(n):
                p = next((k for k in range(i, n) if m[k][i] != 0), None)
                if p is None: raise _np.linalg.LinAlgError("Singular matrix")
                m[i], m[p] = m[p], m[i]
                m[i] = [x / m[i][i] for x in m[i]]
                for k in range(n):
                    if k != i and m[k][i] != 0: m[k] = [x - m[k][i] * y for x, y in zip(m[k], m[i])]
            return arr_of([x for r in m for x in r[n:]], (n, n))
        LinAlgError = _np.linalg.LinAlgError

    class testing:
        pass

    class typing:
        NDArray = list
        ArrayLike = list

    def import_array(self): pass
    def finfo(self, t):
        f = _np.finfo(float)
        class F: max = float(f.max); min = float(f.min); eps = Fraction(float(f.eps)); tiny = Fraction(float(f.tiny))
        return F
    def __getattr__(self, n):
        def f(*a, **k): raise Unsupported(f"numpy.{n}")
        return f


NPC = NPShim()


def sort_(xs):
    out = []
    for x in xs:
        i = len(out)
        while i > 0 and bool(X.lt(x, out[i - 1])): i -= 1
        out.insert(i, x)
    return out


FORK_MINMAX = [True]


def min_(a, b):
    if not X.is_e(a) and not X.is_e(b): return X.min_(a, b)
    if FORK_MINMAX[0]: return a if X.le(a, b) else b
    return X.min_(a, b)


def max_(a, b):
    if not X.is_e(a) and not X.is_e(b): return X.max_(a, b)
    if FORK_MINMAX[0]: return a if X.ge(a, b) else b
    return X.max_(a, b)


def abs_(a):
    if not is_num(a): return builtins.abs(a)
    a = X.num(a)
    if not X.is_e(a): return builtins.abs(a)
    if FORK_MINMAX[0]: return a if X.le(0, a) else X.neg(a)
    return X.absval(a)


def b_min(*a, key=None, default=None):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is not None:
        best = None
        for x in xs:
            if best is None or bool(key(x) < key(best)): best = x
        return best
    if not xs: raise ValueError("min() of an empty sequence")
    r = xs[0]
    for x in xs[1:]:
        r = min_(r, x) if is_num(r) and is_num(x) else (x if x < r else r)
    return r


def b_max(*a, key=None, default=None):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is not None:
        best = None
        for x in xs:
            if best is None or bool(key(x) > key(best)): best = x
        return best
    if not xs: raise ValueError("max() of an empty sequence")
    r = xs[0]
    for x in xs[1:]:
        r = max_(r, x) if is_num(r) and is_num(x) else (x if x > r else r)
    return r


def b_len(x):
    if isinstance(x, SMV): return x.length
    f = getattr(type(x), "_cyvc_len", None)
    if f is not None: return f(x)
    return builtins.len(x)


def b_range(*a):
    if all(type(v) is int for v in a): return builtins.range(*a)
    a = [RTC.int_(v) for v in a]
    if not any(X.is_e(v) for v in a): return builtins.range(*a)
    return SymRange(*a)


class SymRange:
    def __init__(self, *a):
        self.start, self.stop, self.step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if X.is_e(self.step): raise Unsupported("symbolic range step")
    def __iter__(self):
        i = self.start
        while True:
            if not ctx().decide(X.lt(i, self.stop) if self.step > 0 else X.lt(self.stop, i)): return
            yield i
            i = X.add(i, self.step)


def b_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    cs = tuple(k._get() if isinstance(k, Lazy) else k for k in cs)
    flat = []
    for k in cs:
        if isinstance(k, tuple): flat += list(k)
        else: flat.append(k)
    t = type(x)
    if t is E or t is Fraction:
        srt = X.sort_of(x)
        for k in flat:
            if srt == "R" and k in (float, b_float): return True
            if srt == "I" and k in (int, b_int): return True
            if srt == "B" and k in (bool, b_bool): return True
            try:
                import numbers
                if k in (numbers.Number, numbers.Real): return True
            except Exception: pass
        return False
    if isinstance(x, SBytes) and bytes in flat: return True
    flat = [{b_float: float, b_int: int, b_bool: bool, b_list: list, b_tuple: tuple}.get(k, k) if isinstance(k, type) else k for k in flat]
    flat = [k for k in flat if isinstance(k, type)]
    return builtins.isinstance(x, tuple(flat))


class _TypeMeta(type):
    def __instancecheck__(cls, x): return b_isinstance(x, cls)


class b_float(metaclass=_TypeMeta):
    def __new__(cls, x=0):
        if isinstance(x, str):
            v = float(x)
            return v if v in (math.inf, -math.inf) or v != v else Fraction(v)
        return RTC.real(x)


class b_int(metaclass=_TypeMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, str): return int(x, *a)
        return RTC.cint(x)


class b_bool(metaclass=_TypeMeta):
    def __new__(cls, x=False):
        return x if type(x) is E and x.sort == "B" else builtins.bool(x)


b_list = list
b_tuple = tuple


def b_sum(xs, start=0):
    r = start
    for x in xs: r = r + x
    return r


def b_sorted(xs, key=None, reverse=False):
    f = getattr(type(xs), "_cyvc_sorted", None)
    if f is not None: return f(xs, key, reverse)
    xs = list(xs)
    k = key or (lambda v: v)
    out = []
    for x in xs:
        i = len(out)
        kx = k(x)
        while i > 0 and bool((k(out[i - 1]) < kx) if reverse else (kx < k(out[i - 1]))): i -= 1
        out.insert(i, x)
    return out


def b_round(x, n=None):
    if X.is_e(x): raise Unsupported("round of a term")
    return builtins.round(x, n)


def memcpy(dst, src, nbytes):
    if isinstance(dst, BytePtr) and isinstance(src, bytes):
        dst.buf.store(dst.off, int(nbytes), src[:int(nbytes)])
        return dst
    if isinstance(dst, BytePtr): dst = dst.cast(8)
    if isinstance(src, BytePtr): src = src.cast(8)
    n = _count(nbytes, 8)
    if not isinstance(dst, (Ptr, BytePtr)) or not isinstance(src, (Ptr, BytePtr)): raise Unsupported("memcpy")
    if X.is_e(n): n = ctx().concretize(n)
    vals = [src[i] for i in range(n)]
    for i, v in enumerate(vals): dst[i] = v
    return dst


def memset(dst, v, nbytes):
    n = _count(nbytes, 8)
    for i in range(n): dst[i] = Fraction(0)
    return dst


def _trig(name):
    def f(*a):
        if not any(X.is_e(X.num(x)) for x in a) and all(X.num(x) == 0 for x in a):
            return Fraction({"sin": 0, "cos": 1, "tan": 0, "atan2": 0, "exp": 1, "acos": 0}.get(name, 0)) if name != "acos" else X.uf(name, *a)
        r = X.uf(name, *a)
        return r
    return f


class Limits:
    def __getitem__(self, t):
        class L:
            @staticmethod
            def epsilon(): return Fraction(sys.float_info.epsilon)
            @staticmethod
            def denorm_min(): return Fraction(5e-324)
            @staticmethod
            def max(): return Fraction(sys.float_info.max)
            @staticmethod
            def min(): return Fraction(sys.float_info.min)
            @staticmethod
            def infinity(): return math.inf
        return L


LIBC = {
    "fabs": abs_, "sqrt": X.sqrt, "fmin": min_, "fmax": max_, "fminf": min_, "fmaxf": max_, "pow": X.power, "abs": abs_, "min": b_min, "max": b_max,
    "sin": _trig("sin"), "cos": _trig("cos"), "tan": _trig("tan"), "atan2": _trig("atan2"), "acos": _trig("acos"), "asin": _trig("asin"),
    "atan": _trig("atan"), "exp": _trig("exp"), "log": _trig("log"),
    "malloc": lambda n: RawMem(n), "free": lambda p: None, "calloc": lambda n, s: RawMem(X.mul(n, s), zero=True),
    "realloc": lambda p, n: RawMem(n, old=p), "memcpy": memcpy, "memmove": memcpy, "memset": memset, "memcmp": memcmp, "vector": Vector,
    "M_PI": Fraction(math.pi), "pi": Fraction(math.pi), "numeric_limits": Limits(), "deref": lambda p: p[0], "dereference": lambda p: p[0],
    "isnan": lambda x: False, "isfinite": lambda x: True, "isinf": lambda x: False, "INFINITY": math.inf, "NAN": math.nan,
    "uint32_t": int, "int32_t": int, "copysign": lambda a, b: (abs_(a) if X.le(0, b) else X.neg(abs_(a))),
}


class LibNS:
    def __getattr__(self, n):
        if n in LIBC: return LIBC[n]
        if n == "prange": return lambda *a, **k: b_range(*a)        # iterations of a parallel loop are taken in order
        def f(*a, **k): raise Unsupported(f"library function {n}")
        return f


class MathShim:
    pi = Fraction(math.pi)
    inf = math.inf
    def __getattr__(self, n):
        if n == "hypot": return lambda *a: X.sqrt(b_sum(X.mul(x, x) for x in a))
        if n in LIBC: return LIBC[n]
        if n == "isclose": return lambda a, b, rel_tol=1e-9, abs_tol=0.0: X.le(abs_(X.sub(a, b)), max_(X.mul(X.conv(rel_tol), max_(abs_(a), abs_(b))), X.conv(abs_tol)))
        if n in ("comb", "factorial", "gcd", "log2", "floor", "ceil"): return getattr(math, n)
        def f(*a, **k): raise Unsupported(f"math.{n}")
        return f


class Lazy:
    """name of another extracted module, resolved at first use"""
    def __init__(self, mod, name): self.__dict__.update(_m=mod, _n=name, _v=None)
    def _get(self):
        if self._v is None:
            ns = PROGRAM.load(self._m)
            if self._n not in ns:
                sub = f"{self._m}.{self._n}"
                if PROGRAM.find(sub): self.__dict__["_v"] = Module(sub); return self._v
                raise Unsupported(f"{self._m}.{self._n} not found")
            v = ns[self._n]
            if isinstance(v, Lazy): v = v._get()
            self.__dict__["_v"] = v
        return self._v
    def __call__(self, *a, **k):
        key = (self._m, self._n)
        return self._get()(*a, **k)
    def __getattr__(self, n): return getattr(self._get(), n)
    def __mro_entries__(self, bases): return (self._get(),)
    def __getitem__(self, i): return self._get()[i]
    def __symval__(self): return self._get()
    def __mul__(self, o): return self._get() * o
    def __rmul__(self, o): return o * self._get()
    def __add__(self, o): return self._get() + o
    def __radd__(self, o): return o + self._get()
    def __sub__(self, o): return self._get() - o
    def __rsub__(self, o): return o - self._get()
    def __lt__(self, o): return self._get() < o
    def __gt__(self, o): return self._get() > o
    def __le__(self, o): return self._get() <= o
    def __ge__(self, o): return self._get() >= o
    def __bool__(self): return builtins.bool(self._get())


class Module:
    def __init__(self, name): self.__dict__["_name"] = name
    def __getattr__(self, n):
        ns = PROGRAM.load(self._name)
        if n in ns:
            v = ns[n]
            return v._get() if isinstance(v, Lazy) else v
        sub = f"{self._name}.{n}"
        if PROGRAM.find(sub): return Module(sub)
        raise Unsupported(f"{self._name}.{n} not found")


class Stub:
    """third-party module without a model"""
    def __init__(self, name): self.__dict__["_name"] = name
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Stub(f"{self._name}.{n}")
    def __call__(self, *a, **k): raise Unsupported(f"call of {self._name}")
    def __getitem__(self, k): return self
    def __mro_entries__(self, b): return ()
    def __or__(self, o): return self
    def __ror__(self, o): return self


REAL_STD = {"functools", "itertools", "collections", "typing", "dataclasses", "abc", "enum", "operator", "heapq", "copy", "sys", "os",
            "numbers", "random", "string", "time", "warnings", "types", "bisect", "logging", "uuid", "weakref", "__future__", "contextlib", "json", "pickle", "struct"}


class Program:
    """all extracted modules of one run"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.sources = {}
        self.structs = {}
        self.known = {}
        self.contracts = {}
        self.loops = {}
        self.overrides = {}

    def find(self, name):
        base = os.path.join(self.repo, *name.split("."))
        pyx = [p for p in (base + ".pxd", base + ".pyx") if os.path.exists(p)]
        if base + ".pyx" in pyx: return pyx
        ini = [p for p in (os.path.join(base, "__init__.pxd"), os.path.join(base, "__init__.pyx")) if os.path.exists(p)]
        if any(p.endswith(".pyx") for p in ini): return ini
        if os.path.exists(base + ".py"): return [base + ".py"]
        if os.path.exists(os.path.join(base, "__init__.py")): return [os.path.join(base, "__init__.py")]
        if os.path.isdir(base) and name.startswith("mmcore"): return []
        return None

    def import_(self, name):
        if name == "numpy" or name.startswith("numpy."): return NPC
        if name == "math": return MathShim()
        if name.split(".")[0] in ("libc", "libcpp", "cython"): return LibNS()
        if name.startswith("mmcore"): return Module(name)
        if name.split(".")[0] in REAL_STD: return importlib.import_module(name)
        return Stub(name)

    def from_(self, mod, name):
        root = mod.split(".")[0]
        if root != "mmcore" and (mod, name) in self.overrides: return self.overrides[(mod, name)]
        if root in ("libc", "libcpp", "cython"):
            if name in LIBC: return LIBC[name]
            return getattr(LibNS(), name)
        if root == "numpy":
            if name in ("typing", "linalg"): return getattr(NPC, name)
            if name in ("NDArray", "ArrayLike"): return list
            return getattr(NPC, name)
        if mod == "math": return getattr(MathShim(), name)
        if root == "mmcore":
            ov = self.overrides.get((mod, name))
            if ov is not None: return ov
            return Lazy(mod, name)
        if root in REAL_STD: return getattr(importlib.import_module(mod), name)
        if mod == "cpython" and name == "PyTuple_Pack":
            def pack(n, *a):
                ctx().prove(not any(is_num(x) for x in a) and n == len(a), "PyTuple_Pack is given objects, as many as announced")
                return tuple(a)
            return pack
        return Stub(f"{mod}.{name}")

    def builtins(self):
        d = dict(vars(builtins))
        real = {b_int: int, b_float: float, b_bool: bool}
        d["__build_class__"] = lambda f, name, *bases, **k: builtins.__build_class__(f, name, *[real.get(b, b) for b in bases], **k)
        d.update(range=b_range, min=b_min, max=b_max, abs=abs_, len=b_len, isinstance=b_isinstance, float=b_float, int=b_int, bool=b_bool,
                 sum=b_sum, sorted=b_sorted, round=b_round, hash=b_hash, print=lambda *a, **k: None, __import__=self.py_import, double=float)
        return d

    def py_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level and globals:
            pkg = globals.get("__package__") or globals["__name__"]
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)] if level > 1 else base
            name = ".".join(base + ([name] if name else []))
        if fromlist:
            prog = self
            if name.split(".")[0] in REAL_STD and not any(m == name for m, _ in self.overrides): return importlib.import_module(name)
            class M:
                def __getattr__(s, n):
                    if n == "__path__": raise AttributeError(n)
                    if n == "__all__": raise AttributeError(n)
                    return prog.from_(name, n)
            m = M()
            if "*" in fromlist:
                if name.startswith("mmcore"):
                    ns = self.load(name)
                    import types
                    mm = types.ModuleType(name)
                    for k, v in ns.items():
                        if not k.startswith("__"): setattr(mm, k, v)
                    return mm
            return m
        root = name.split(".")[0]
        if root == "mmcore": return Module("mmcore")
        return self.import_(root if root != "numpy" else "numpy")

    def source(self, name):
        if name not in self.sources:
            paths = self.find(name)
            if paths is None: raise Unsupported(f"module {name} not found")
            if paths and paths[0].endswith(".py"):
                src = open(paths[0]).read()
            elif paths:
                # make pxd siblings of cimported modules known first (class attribute types)
                src = extract(paths, self.structs, self.known)
            else: src = ""
            self.sources[name] = (src, paths)
        return self.sources[name]

    def load(self, name):
        ns = self.mods.get(name)
        if ns is not None: return ns
        src, paths = self.source(name)
        is_py = bool(paths) and paths[0].endswith(".py")
        ns = self.mods[name] = {"__name__": name, "RT": RTC, "Unsupported": Unsupported, "Fraction": Fraction,
                                "__builtins__": self.builtins(), "__file__": paths[0] if paths else name,
                                "__package__": name if paths and "__init__" in paths[0] else name.rsplit(".", 1)[0]}
        if not is_py:
            ns.update(min=b_min, max=b_max, abs=abs_)
        from .loops import instrument, Loops, identical
        ns["_cyvc_is"] = identical
        if name in self.loops: ns["_LOOPS"] = Loops(self.loops[name])
        tree = instrument(src, name, self.loops, is_py)
        code = compile(tree, f"<extracted {name}>", "exec")
        exec(code, ns)
        for (m, f), v in self.overrides.items():
            if m == name: ns[f] = v
        return ns

    def get(self, dotted):
        mod, name = dotted.rsplit(":", 1)
        v = self.load(mod)
        for part in name.split("."):
            v = v[part] if isinstance(v, dict) else getattr(v, part)
        return v._get() if isinstance(v, Lazy) else v


PROGRAM = None


def new_program(repo=None):
    global PROGRAM
    PROGRAM = Program(repo)
    return PROGRAM
