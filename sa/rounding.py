"""First-order rounding errors of arithmetic.

While active (values.ROUND), every arithmetic result is a term that also carries a bound of its accumulated error in units of
rounding: a term with nonnegative coefficients in the absolute values of the operands (the same variable stands for a number
and for its absolute value).  Each operation adds the bounds of its operands as the derivative of the operation passes them on,
and one unit of the absolute value of its own result; products of two errors are dropped.
"""
from fractions import Fraction
from . import poly
from .poly import Term, Poly, RING, T0, T1, tconst


class ETerm(Term):
    __slots__ = ("err",)
    _epool = {}

    def __new__(cls, num, den, err):
        k = (num, den, err)
        t = cls._epool.get(k)
        if t is None:
            t = object.__new__(cls)
            t.num, t.den, t.err = num, den, err
            t.h = hash(k)
            cls._epool[k] = t
        return t

    __hash__ = Term.__hash__

    def __eq__(self, o):
        return self is o


TAG = "~"
UNKNOWN = object()


def reset():
    ETerm._epool.clear()


def err(t):
    return t.err if isinstance(t, ETerm) else T0


def plain(t):
    return Term(t.num, t.den) if isinstance(t, ETerm) else t


def put(t, e):
    if e is not UNKNOWN and e.num.is_zero():
        return plain(t)
    return ETerm(t.num, t.den, e)


def _positive(f):
    """Absolute values may be taken inside f: every monomial is nonnegative with the same sign."""
    return all(c > 0 and poly.mono_dom(m) <= {0, 1} for m, c in f.d.items())


def _factor(f):
    if len(f.d) == 1 or _positive(f):
        return f
    v = RING.var("|%s|" % f.show(), {1})
    return poly.tvar(v).num


def mag(t):
    """Absolute value of a term, at most: the sum of the absolute values of its monomials."""
    r = Term(Poly({m: abs(c) for m, c in t.num.d.items()}), ())
    for f, e in t.den:
        g = _factor(f)
        for _ in range(e):
            r = r / Term(Poly({m: abs(c) for m, c in g.d.items()}), ())
    return r


def inv_mag(t):
    """1 / |t|"""
    r = T1
    for f, e in t.den:
        for _ in range(e):
            r = r * Term(Poly({m: abs(c) for m, c in f.d.items()}), ())
    k, q = poly.content(t.num)
    g = _factor(q) if len(q.d) > 1 else Poly({m: abs(c) for m, c in q.d.items()})
    return r / Term(g.scale(abs(Fraction(k))), ())


def _sum(*es):
    r = T0
    for e in es:
        if e is UNKNOWN:
            return UNKNOWN
        r = r + e
    return r


def _times(e, m):
    return UNKNOWN if e is UNKNOWN else e * m


def add(a, b):
    if a.num.is_zero():
        return b
    if b.num.is_zero():
        return a
    v = plain(a) + plain(b)
    return put(v, _sum(err(a), err(b), mag(v)))


def neg(a):
    return put(-plain(a), err(a))


def _unit(a):
    return a.is_const() and abs(a.const()) == 1 and not isinstance(a, ETerm)


def mul(a, b):
    v = plain(a) * plain(b)
    if a.num.is_zero() or b.num.is_zero():
        return T0
    if _unit(a) or _unit(b):
        return put(v, err(b) if _unit(a) else err(a))
    return put(v, _sum(_times(err(a), mag(b)), _times(err(b), mag(a)), mag(v)))


def div(a, b):
    v = plain(a) / plain(b)
    if _unit(b):
        return put(v, err(a))
    i = inv_mag(b)
    m = mag(a) * i
    return put(v, _sum(_times(err(a), i), _times(err(b), m * i), m))


def sqrt(a, root):
    """root: the square root of a on one branch."""
    r = mag(root)
    return put(root, _sum(_times(err(a), inv_mag(root) * tconst(Fraction(1, 2))), r))


def power(a, n):
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def unknown(t):
    return put(t, UNKNOWN)


def within(e, s):
    """e <= s for all nonnegative values of the variables, decided monomial by monomial; else an offending monomial."""
    if e is UNKNOWN:
        return True
    d = s - e
    return all(c >= 0 for c in d.num.d.values())
