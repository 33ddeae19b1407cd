"""Proof tasks: one task explores one contract (or a family of sizes of it)."""
from . import sym


class Task:
    """fn(ctx) states the contract: assume the precondition, call the extracted code, prove the postcondition.
    scope: 'all' when the obligations hold for every size, otherwise the stated bound.
    fallback: prefix of the tasks that stand in when this (size-unbounded) proof does not fit the code text any more."""

    def __init__(self, name, fn, scope="all", tier="quick", fallback=None, setup=None, **kw):
        self.name, self.fn, self.scope, self.tier, self.fallback, self.setup, self.kw = name, fn, scope, tier, fallback, setup, kw

    def run(self, tier):
        env = self.setup() if self.setup else None
        body = (lambda c: self.fn(c, env)) if self.setup else self.fn
        return sym.run(self.name, body, **self.kw)
