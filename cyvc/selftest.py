"""Guards against an unsound engine: broken contracts and broken code must be refuted, on every run."""
from . import expr as X, sym


def run():
    done = []

    def t(name, body, expect_fail):
        c = sym.run(name, body)
        ok = c.error is None and bool(c.failures) == expect_fail
        if not ok: raise AssertionError(f"engine self-test {name}: {c.error} {[(f['name'], f['status']) for f in c.failures]}")
        done.append(name)
    x, y = X.var("x"), X.var("y")
    i = X.var("i", "I")

    def good(c):
        c.assume(X.lt(0, x)); c.prove(X.eq(X.div(x * y, x), y), "a")
    def bad1(c):
        c.prove(X.eq(X.mul(x, x), x), "a")
    def bad2(c):
        if x > y: c.prove(X.lt(x, y), "a")
        else: c.prove(X.le(x, y), "b")
    def bad3(c):
        c.prove(X.eq(X.div(x, y), X.div(x, y)), "a")          # divisor may be zero
    def bad4(c):
        c.assume(X.le(0, i)); c.assume(X.le(i, 5))
        c.prove(X.lt(i, 5), "a")
    def good4(c):
        c.assume(X.le(0, i)); c.assume(X.le(i, 5))
        c.prove(X.lt(i, 6), "a")
    def bad5(c):
        c.prove(X.le(0, X.sqrt(x)), "sqrt of a possibly negative number")
    for nm, b, e in (("good", good, False), ("bad1", bad1, True), ("bad2", bad2, True), ("bad3", bad3, True), ("bad4", bad4, True), ("good4", good4, False), ("bad5", bad5, True)):
        t(nm, b, e)
    return done
