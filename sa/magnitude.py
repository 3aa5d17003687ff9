"""Sizes of intermediate results.

While active (values.ROUND), every arithmetic result that is a polynomial in the operands is recorded together with the place in
the source that computed it.  Its size is bounded from the sizes of the operands, monomial by monomial; results that contain a
quotient are not bounded.
"""
import math
from fractions import Fraction
from . import poly
from .poly import RING, T0, tconst

TAG = "^"
AT = None          # where the current statement is: a callable
NOTES = {}


def reset():
    NOTES.clear()


def plain(t):
    return t


def note(kind, t):
    if not t.den and not t.is_const():
        NOTES.setdefault((kind, t), AT() if AT else "?")
    return t


def add(a, b):
    return note("sum", a + b)


def neg(a):
    return -a


def mul(a, b):
    return note("product", a * b)


def div(a, b):
    return note("product", a / b)


def power(a, n):
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def sqrt(a, root):
    return root


def unknown(t):
    return t


def _lg(c):
    c = abs(Fraction(c))
    return math.log10(c.numerator) - math.log10(c.denominator)


def _var(v, lg, ones):
    """log10 of the size of a variable when operands have size 10**lg; None when it has no known size."""
    if v in ones:
        return 0.0
    if v in RING.sqrt_of:
        x = _poly(RING.sqrt_of[v], lg, ones)
        return None if x is None else x / 2
    if v in RING.fn:
        return 0.5 if RING.fn[v][0] in ("sin", "cos", "acos", "asin", "atan", "tanh") else None
    return lg


def _poly(p, lg, ones):
    """log10 of the sum of the sizes of the monomials, at most."""
    top = None
    for m, c in p.d.items():
        x = _lg(c)
        for v, e in m:
            y = _var(v, lg, ones)
            if y is None:
                return None
            x += y * e
        top = x if top is None else max(top, x)
    return top + math.log10(len(p.d))


def outside(lg, lo, hi, ones=frozenset()):
    """Recorded results that leave [10**lo, 10**hi] for operands of sizes 10**-lg to 10**lg."""
    for (kind, t), at in NOTES.items():
        x = _poly(t.num, lg, ones)
        if x is None:
            continue
        if x > hi:
            yield "overflow", t, at
        elif kind == "product":
            y = _poly(t.num, -lg, ones)
            if y < lo:
                yield "underflow", t, at
