"""Linked structures of any size: a node is a Ref (an address) and each field is an array from addresses to values; python's `is`
on nodes is compared by address.  The extracted python code runs on Refs unchanged."""
from .lib import *


class Ref:
    """a node of a symbolic heap; reading or writing an attribute reads or writes the field's array"""
    __slots__ = ("_h", "_id")
    def __init__(self, h, i):
        object.__setattr__(self, "_h", h); object.__setattr__(self, "_id", i)
    def __getattr__(self, n):
        h = object.__getattribute__(self, "_h")
        if n not in h.fields: raise AttributeError(n)
        v = X.select(h.fields[n], self._id)
        return Ref(h, v) if n in h.links else v
    def __setattr__(self, n, v):
        h = self._h
        if n not in h.fields: h.extra[n] = True; return
        h.fields[n] = X.store(h.fields[n], self._id, v._id if n in h.links else v)
    def __delattr__(self, n): self._h.fields[n] = X.store(self._h.fields[n], self._id, X.fresh("gone", "I"))
    def __eq__(self, o): return isinstance(o, Ref) and X.HOOK["ctx"].decide(eq(self._id, o._id))
    def __ne__(self, o): return not self == o
    def __hash__(self): return id(self)
    def _sym_is(self, o): return self == o


class Heap:
    """links: fields that hold nodes; others hold integers (opaque values compared by equality)"""
    def __init__(self, links, values=()):
        self.links, self.extra = tuple(links), {}
        self.fields = {f: X.fresh(f, "AI") for f in tuple(links) + tuple(values)}
