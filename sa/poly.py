"""Exact value domain for floating-point expressions, read over the real numbers.

A float abstract value is a `Term`: a quotient of multivariate polynomials with rational
coefficients.  Square roots and transcendental calls are *atoms*: variables of the polynomial ring
that carry their defining argument.  A ring may have relations of the shape  v*v -> polynomial
(square-root atoms, unit-length directions); polynomials are always kept in normal form with respect
to them, so equal values have equal numerators after cross-multiplication.
"""
from fractions import Fraction
from functools import reduce
from math import gcd, isqrt


class Ring:
    """Variables, rewrite relations and sign facts of one analysis."""

    def __init__(self):
        self.names = []          # var id -> name
        self.rules = {}          # var id -> Poly  (v^2 -> poly)
        self.dom = {}            # var id -> set of possible signs, subset of {-1,0,1}
        self.fn = {}             # var id -> (fname, args Terms)   transcendental atoms
        self.sqrt_of = {}        # var id -> Poly   v = sqrt(poly)
        self.sqrt_by = {}        # Poly -> var id
        self.hints = []          # polynomials tried as factors of larger ones
        self.fn_by = {}          # fname -> [(args, var)]
        self.by_name = {}
        self.facts = {}          # canonical Poly -> set of possible signs
        self.nonneg = []         # polynomials known to be >= 0 (sums of squares, premises)
        self.posv = []

    def var(self, name, dom=None):
        if name in self.by_name:
            return self.by_name[name]
        i = len(self.names)
        self.names.append(name)
        self.by_name[name] = i
        if dom is not None:
            self.dom[i] = frozenset(dom)
        return i


RING = Ring()


def reset_ring():
    global RING
    RING.__init__()
    _div_cache.clear()
    Term._pool.clear()


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _key(m):
    # graded-lex key, only used to choose a canonical leading monomial
    return (sum(e for _, e in m), m)


class Poly:
    __slots__ = ("d", "h", "_lead")

    def __init__(self, d):
        self.d = d
        self.h = None
        self._lead = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.d.items()))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and hash(self) == hash(o) and self.d == o.d)

    def is_zero(self):
        return not self.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)

    def vars(self):
        return {v for m in self.d for v, _ in m}

    def lead(self):
        if self._lead is None:
            self._lead = max(self.d, key=_key)
        return self._lead

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __add__(self, o):
        if not o.d:
            return self
        if not self.d:
            return o
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        r = dict(a)
        for m, c in b.items():
            n = r.get(m, 0) + c
            if n == 0:
                del r[m]
            else:
                r[m] = n
        return Poly(r)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.d.items()})

    def __mul__(self, o):
        if not self.d or not o.d:
            return ZERO
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = _mono_mul(m1, m2)
                n = r.get(m, 0) + c1 * c2
                r[m] = n
        return normal(Poly({m: _norm(c) for m, c in r.items() if c != 0}))

    def pow(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __repr__(self):
        return self.show()

    def show(self):
        if not self.d:
            return "0"
        out = []
        for m in sorted(self.d, key=_key, reverse=True):
            c = self.d[m]
            s = "*".join(RING.names[v] + ("^%d" % e if e > 1 else "") for v, e in m)
            if not m:
                s = _fs(c)
            elif c == 1:
                pass
            elif c == -1:
                s = "-" + s
            else:
                s = _fs(c) + "*" + s
            out.append(s)
        return " + ".join(out).replace("+ -", "- ")


def _fs(c):
    if isinstance(c, Fraction):
        f = float(c)
        if Fraction(f) == c:
            return repr(f)
        return "%d/%d" % (c.numerator, c.denominator)
    return str(c)


ZERO = Poly({})
ONE = Poly({(): 1})


def pconst(c):
    c = _norm(c)
    return Poly({(): c}) if c != 0 else ZERO


def pvar(v):
    return Poly({((v, 1),): 1})


def normal(p):
    """Rewrite v^2 with the ring's relations until no relation applies."""
    rules = RING.rules
    if not rules:
        return p
    bad = False
    for m in p.d:
        for v, e in m:
            if e >= 2 and v in rules:
                bad = True
                break
        if bad:
            break
    if not bad:
        return p
    out = {}
    work = list(p.d.items())
    while work:
        m, c = work.pop()
        hit = None
        for k, (v, e) in enumerate(m):
            if e >= 2 and v in rules:
                hit = k
        if hit is None:
            n = out.get(m, 0) + c
            if n == 0:
                out.pop(m, None)
            else:
                out[m] = _norm(n)
            continue
        v, e = m[hit]
        q, r = divmod(e, 2)
        rest = m[:hit] + (((v, 1),) if r else ()) + m[hit + 1:]
        rp = rules[v]
        acc = {rest: c}
        for _ in range(q):
            nxt = {}
            for m1, c1 in acc.items():
                for m2, c2 in rp.d.items():
                    mm = _mono_mul(m1, m2)
                    nxt[mm] = nxt.get(mm, 0) + c1 * c2
            acc = nxt
        work.extend((mm, cc) for mm, cc in acc.items() if cc != 0)
    return Poly({m: c for m, c in out.items() if c != 0})


def content(p):
    """p = c * q with q primitive over the integers and a positive leading coefficient."""
    if p.is_zero():
        return 0, p
    num = 0
    den = 1
    for c in p.d.values():
        if isinstance(c, Fraction):
            num = gcd(num, c.numerator)
            den = den * c.denominator // gcd(den, c.denominator)
        else:
            num = gcd(num, c)
    k = Fraction(num, den)
    if p.d[p.lead()] < 0:
        k = -k
    if k == 1:
        return 1, p
    return _norm(k), p.scale(1 / k if isinstance(k, Fraction) else Fraction(1, k))


def mono_content(p):
    """Largest monomial dividing p."""
    it = iter(p.d)
    m = dict(next(it))
    for x in it:
        if not m:
            break
        dx = dict(x)
        m = {v: min(e, dx[v]) for v, e in m.items() if v in dx}
    return tuple(sorted(m.items()))


def mono_div(m, f):
    d = dict(m)
    for v, e in f:
        n = d.get(v, 0) - e
        if n < 0:
            return None
        if n == 0:
            del d[v]
        else:
            d[v] = n
    return tuple(sorted(d.items()))


_div_cache = {}


def _lexkey(m, order):
    dm = dict(m)
    return tuple(dm.get(v, 0) for v in order)


def pdiv(p, f):
    """Exact quotient p / f in the free polynomial ring, or None."""
    if p.is_zero():
        return ZERO
    if f.is_const():
        return p.scale(Fraction(1) / f.const())
    if len(f.d) > 1 and (len(f.d) > 400 or len(p.d) > 4000):
        return None
    k = (p, f)
    if k in _div_cache:
        return _div_cache[k]
    res = _pdiv(p, f)
    if len(_div_cache) > 200000:
        _div_cache.clear()
    _div_cache[k] = res
    return res


def _pdiv(p, f):
    if not f.vars() <= p.vars():
        return None
    if len(f.d) == 1:
        (fm, fc), = f.d.items()
        out = {}
        for m, c in p.d.items():
            q = mono_div(m, fm)
            if q is None:
                return None
            out[q] = _norm(Fraction(c) / fc)
        return Poly(out)
    order = sorted(p.vars())
    # quick filter: degree in each variable
    fm = max(f.d, key=lambda m: _lexkey(m, order))
    fc = f.d[fm]
    # the smallest monomial must divide too
    fl = min(f.d, key=lambda m: _lexkey(m, order))
    pl = min(p.d, key=lambda m: _lexkey(m, order))
    if mono_div(pl, fl) is None:
        return None
    rem = dict(p.d)
    out = {}
    steps = 0
    while rem:
        lm = max(rem, key=lambda m: _lexkey(m, order))
        q = mono_div(lm, fm)
        if q is None:
            return None
        c = Fraction(rem[lm]) / fc
        out[q] = _norm(c)
        for m, cc in f.d.items():
            mm = _mono_mul(m, q)
            n = rem.get(mm, 0) - cc * c
            if n == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = n
        steps += 1
        if steps > 600 or len(rem) > 6000:
            return None
    return Poly(out)


# ---------------------------------------------------------------------------------- sign facts

def _sg(c):
    return (c > 0) - (c < 0)


_MUL = {}


def dom_mul(a, b):
    return frozenset(x * y for x in a for y in b)


ALL = frozenset((-1, 0, 1))


def mono_dom(m):
    r = frozenset((1,))
    for v, e in m:
        d = RING.dom.get(v, ALL)
        if e % 2 == 0:
            d = frozenset(x * x for x in d)
        r = dom_mul(r, d)
    return r


def poly_dom(p):
    """Possible signs of p that follow from the signs of its monomials or a registered fact."""
    if p.is_zero():
        return frozenset((0,))
    k, q = content(p)
    s = _sg(k)
    r = ALL
    if q in RING.facts:
        r = RING.facts[q]
    nonneg = nonpos = True
    strict = False
    for m, c in q.d.items():
        d = mono_dom(m)
        c = _sg(c)
        d = frozenset(x * c for x in d)
        if -1 in d:
            nonneg = False
        if 1 in d:
            nonpos = False
        if 0 not in d:
            strict = True
        if not nonneg and not nonpos:
            break
    if nonneg:
        r = r & (frozenset((1,)) if strict else frozenset((0, 1)))
    elif nonpos:
        r = r & (frozenset((-1,)) if strict else frozenset((0, -1)))
    if len(r) == 3 and len(q.d) > 1:
        w = quadratic_sign(q)
        if w:
            r = frozenset((0, w))
    return frozenset(x * s for x in r)


_quad = {}


def quadratic_sign(q):
    """1 / -1 when the quadratic polynomial q is nowhere negative / positive (exact Gram test), else 0."""
    r = _quad.get(q)
    if r is None:
        if len(_quad) > 50000:
            _quad.clear()
        r = _quad[q] = _quadratic_sign(q)
    return r


def _quadratic_sign(q):
    G = {}
    sq = 0
    for m, c in q.d.items():
        n = sum(e for _, e in m)
        if n > 2:
            return 0
        vs = [v for v, e in m for _ in range(e)] + [-1] * (2 - n)
        a, b = vs
        if a == b:
            if sq == 0:
                sq = 1 if c > 0 else -1
            elif (c > 0) != (sq > 0):
                return 0
            G[(a, a)] = Fraction(c)
        else:
            G[(a, b)] = G[(b, a)] = Fraction(c) / 2
    if sq == 0:
        return 0
    vs = sorted({a for a, _ in G})
    G = {k: c * sq for k, c in G.items()}
    for k, v in enumerate(vs):
        p = G.get((v, v), 0)
        rest = vs[k + 1:]
        if p < 0:
            return 0
        if p == 0:
            if any(G.get((v, w), 0) != 0 for w in rest):
                return 0
            continue
        for w in rest:
            f = G.get((v, w), 0)
            if f:
                for u in rest:
                    g = G.get((v, u), 0)
                    if g:
                        G[(w, u)] = G.get((w, u), 0) - f * g / p
    return sq


def add_fact(p, signs):
    """Register: sign(p) is one of `signs` (a premise of the property or a proved identity)."""
    p = normal(p)
    k, q = content(p)
    s = _sg(k)
    signs = frozenset(x * s for x in signs)
    RING.facts[q] = RING.facts.get(q, ALL) & signs
    if -1 not in signs:
        RING.nonneg.append(q)
    elif 1 not in signs:
        RING.nonneg.append(-q)


# ---------------------------------------------------------------------------------- terms

class Term:
    """num / prod(f**e); interned, immutable."""
    __slots__ = ("num", "den", "h")
    _pool = {}

    def __new__(cls, num, den=()):
        k = (num, den)
        t = cls._pool.get(k)
        if t is None:
            t = object.__new__(cls)
            t.num = num
            t.den = den
            t.h = hash(k)
            cls._pool[k] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.show()

    def show(self):
        if not self.den:
            return self.num.show()
        return "(%s)/(%s)" % (self.num.show(), " * ".join(
            "(%s)%s" % (f.show(), "^%d" % e if e > 1 else "") for f, e in self.den))

    def is_const(self):
        return not self.den and self.num.is_const()

    def const(self):
        return self.num.const()

    def vars(self):
        r = set(self.num.vars())
        for f, _ in self.den:
            r |= f.vars()
        return r

    def den_poly(self):
        r = ONE
        for f, e in self.den:
            r = r * f.pow(e)
        return r

    def __neg__(self):
        return Term(-self.num, self.den)

    def __add__(self, o):
        if self.num.is_zero():
            return o
        if o.num.is_zero():
            return self
        if self.den == o.den:
            return mk(self.num + o.num, dict(self.den))
        d1, d2 = dict(self.den), dict(o.den)
        n1, n2 = self.num, o.num
        den = dict(d1)
        for f, e in d2.items():
            den[f] = max(den.get(f, 0), e)
        for f, e in den.items():
            k = e - d1.get(f, 0)
            if k:
                n1 = n1 * f.pow(k)
            k = e - d2.get(f, 0)
            if k:
                n2 = n2 * f.pow(k)
        return mk(n1 + n2, den)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.num.is_zero() or o.num.is_zero():
            return T0
        if not self.den and not o.den:
            return Term(self.num * o.num, ())
        den = dict(self.den)
        for f, e in o.den:
            den[f] = den.get(f, 0) + e
        n1, n2 = self.num, o.num
        # cancel before multiplying: keeps numerators small
        for f in list(den):
            while den.get(f, 0) > 0:
                q = pdiv(n1, f) if len(n1.d) >= len(f.d) else None
                if q is not None:
                    n1 = q
                    den[f] -= 1
                    continue
                q = pdiv(n2, f) if len(n2.d) >= len(f.d) else None
                if q is not None:
                    n2 = q
                    den[f] -= 1
                    continue
                break
        return mk(n1 * n2, {f: e for f, e in den.items() if e > 0})

    def inv(self):
        num = ONE
        for f, e in self.den:
            num = num * f.pow(e)
        den = {}
        k = add_factor(den, self.num, 1)
        return mk(num.scale(Fraction(1) / k), den)

    def __truediv__(self, o):
        return self * o.inv()

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        r = T1
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r


def add_factor(den, p, e):
    """Multiply the factored denominator by p**e; returns the rational constant split off."""
    k, q = content(p)
    kk = Fraction(k) ** e
    m = mono_content(q) if q.d else ()
    if m:
        for v, x in m:
            vp = pvar(v)
            den[vp] = den.get(vp, 0) + x * e
        q = pdiv(q, Poly({m: 1}))
        c2, q = content(q)
        kk *= Fraction(c2) ** e
    if not q.is_const():
        den[q] = den.get(q, 0) + e
    else:
        kk *= Fraction(q.const()) ** e
    return kk


def mk(num, den):
    """Canonical Term for num / prod den."""
    if num.is_zero():
        return T0
    if not den:
        return Term(num, ())
    # v*v -> relation inside the denominator
    changed = True
    while changed:
        changed = False
        for f in list(den):
            if len(f.d) == 1:
                (m, c), = f.d.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in RING.rules and den[f] >= 2:
                    v = m[0][0]
                    q, r = divmod(den[f], 2)
                    if r:
                        den[f] = r
                    else:
                        del den[f]
                    k = add_factor(den, RING.rules[v], q)
                    num = num.scale(Fraction(1) / k)
                    changed = True
                    break
    out = {}
    for f, e in den.items():
        while e > 0:
            q = pdiv(num, f) if len(num.d) >= len(f.d) else None
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out[f] = e
    # s / P -> 1 / s  where s = sqrt(P) (up to a rational content)
    if RING.sqrt_by:
        for f in list(out):
            s = RING.sqrt_by.get(f)
            if s is not None:
                sp = pvar(s)
                q = pdiv(num, sp)
                if q is not None:
                    out[f] -= 1
                    if not out[f]:
                        del out[f]
                    out[sp] = out.get(sp, 0) + 1
                    return mk(q, out)
    return Term(num, tuple(sorted(out.items(), key=lambda fe: (len(fe[0].d), hash(fe[0])))))


T0 = Term(ZERO, ())
T1 = Term(ONE, ())


def tconst(c):
    return Term(pconst(c), ())


def tvar(v):
    return Term(pvar(v), ())


def V(name, dom=None):
    return tvar(RING.var(name, dom))


def t_eq(a, b):
    """Exact equality of two terms as rational functions modulo the relations."""
    if a is b:
        return True
    if a.den == b.den:
        return (a.num - b.num).is_zero()
    return (a - b).num.is_zero()


def _square_split(p):
    """p = k^2 * q  with k rational; returns k, q."""
    c, q = content(p)
    c = Fraction(c)
    if c < 0:
        c, q = -c, -q
    n, d = c.numerator, c.denominator
    # sqrt(n/d) = sqrt(n*d)/d
    m = n * d
    r = isqrt(m)
    if r * r == m:
        return Fraction(r, d), q
    # pull small square factors
    k = 1
    f = 2
    mm = m
    while f * f <= mm and f < 2000:
        while mm % (f * f) == 0:
            mm //= f * f
            k *= f
        f += 1
    return Fraction(k, d), q.scale(mm)


def psqrt_exact(p):
    """q with q*q == p (free ring, leading coefficient positive) or None."""
    if p.is_zero():
        return ZERO
    if p.is_const():
        c = Fraction(p.const())
        if c < 0:
            return None
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return pconst(Fraction(n, d))
        return None
    r = _root_cache.get(p)
    if r is None:
        if len(_root_cache) > 100000:
            _root_cache.clear()
        r = _root_cache[p] = (_psqrt(p),)
    return r[0]


_root_cache = {}


def _psqrt(p):
    if len(p.d) > 800:
        return None
    order = sorted(p.vars())
    lk = lambda m: _lexkey(m, order)

    def half(m):
        if any(e % 2 for _, e in m):
            return None
        c = Fraction(p.d[m])
        if c < 0:
            return None
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            return None
        return tuple((v, e // 2) for v, e in m), Fraction(n, d)
    if half(min(p.d, key=lk)) is None:
        return None
    h = half(max(p.d, key=lk))
    if h is None:
        return None
    qm, qc = h
    q = {qm: qc}
    r = dict(p.d)
    _sub(r, _mono_mul(qm, qm), qc * qc)
    while r and len(q) < 60:
        rm = max(r, key=lk)
        nm = mono_div(rm, qm)
        if nm is None or nm in q:
            return None
        c = Fraction(r[rm]) / (2 * qc)
        for m, x in q.items():
            _sub(r, _mono_mul(m, nm), 2 * x * c)
        _sub(r, _mono_mul(nm, nm), c * c)
        q[nm] = c
    return None if r else Poly({m: _norm(c) for m, c in q.items()})


def _sub(r, m, x):
    x = r.get(m, 0) - x
    if x == 0:
        r.pop(m, None)
    else:
        r[m] = x


def split_known(q):
    """(f, q / f) for a polynomial f that divides q and whose sign or root is already in use, else (None, q)."""
    if len(q.d) < 4 or len(q.d) > 2000:
        return None, q
    dq = max(sum(e for _, e in m) for m in q.d)
    if dq < 3:
        return None, q
    vs = q.vars()
    for f in list(RING.sqrt_by) + list(RING.facts) + RING.hints:
        if 1 < len(f.d) < len(q.d) and f is not q and f.vars() <= vs:
            r = pdiv(q, f)
            if r is not None:
                return f, r
    return None, q


def sqrt_atom(p):
    """Polynomial k*s with s the atom for sqrt of p (p assumed >= 0)."""
    k, q = _square_split(p)
    if q.is_const() and q.const() == 1:
        return pconst(k)
    ck, cq = content(q)
    v = RING.sqrt_by.get(q)
    if v is None:
        v = RING.var("sqrt(%s)" % q.show())
        RING.sqrt_by[q] = v
        RING.sqrt_of[v] = q
        RING.rules[v] = q
        d = poly_dom(q)
        RING.dom[v] = frozenset((1,)) if d == frozenset((1,)) else frozenset((0, 1))
    return pvar(v).scale(k)


def fn_atom(name, args):
    """Variable for an uninterpreted function of exact arguments (congruence by value)."""
    lst = RING.fn_by.setdefault(name, [])
    for a, v in lst:
        if len(a) == len(args) and all(t_eq(x, y) for x, y in zip(a, args)):
            return v
    v = RING.var("%s(%s)#%d" % (name, ", ".join(x.show() for x in args), len(lst)))
    lst.append((args, v))
    RING.fn[v] = (name, args)
    return v
