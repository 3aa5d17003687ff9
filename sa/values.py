"""Abstract values of the dataflow analysis and the exact-real float transfer functions."""
import struct
from fractions import Fraction
from typing import NamedTuple, Any
from . import poly, mdd
from .poly import Term, RING, tconst, T0, T1
from .mdd import (Node, NAN, INF, NINF, DIVZ, UNINIT, Special, apply1, apply2, ite, mux, NOT, AND,
                  OR, when, term_sign, poly_sign, restrict)
from .mir import Unsupported


class Ptr(NamedTuple):
    obj: Any
    path: tuple
    meta: Any


class FnV(NamedTuple):
    inst: str


class VT(NamedTuple):
    ty: int


class Agg:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return "Agg(%s)" % (", ".join(map(repr, self.e)))


UNIT = Agg(())


class EnumV:
    __slots__ = ("d", "p")

    def __init__(self, d, p):
        self.d = d
        self.p = p

    def __repr__(self):
        return "Enum(%r,%r)" % (self.d, self.p)


def is_scalar(v):
    return not isinstance(v, (Agg, EnumV))


def vite(c, a, b):
    if c is True or a is b:
        return a
    if c is False:
        return b
    if a is UNINIT:
        return b
    if b is UNINIT:
        return a
    if isinstance(a, Agg):
        if not isinstance(b, Agg):
            if not b_is_unit(b):
                raise Unsupported("join of aggregate and scalar")
            return a
        if len(a.e) != len(b.e):
            if not a.e:
                return b
            if not b.e:
                return a
            if len(a.e) < len(b.e):
                return Agg([vite(c, x, y) for x, y in zip(a.e, b.e)] + list(b.e[len(a.e):]))
            return Agg([vite(c, x, y) for x, y in zip(a.e, b.e)] + list(a.e[len(b.e):]))
        return Agg([vite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, EnumV):
        if not isinstance(b, EnumV):
            raise Unsupported("join of enum and scalar")
        p = {}
        for v in set(a.p) | set(b.p):
            if v not in a.p:
                p[v] = b.p[v]
            elif v not in b.p:
                p[v] = a.p[v]
            else:
                p[v] = tuple(vite(c, x, y) for x, y in zip(a.p[v], b.p[v]))
        return EnumV(vite(c, a.d, b.d), p)
    if isinstance(b, (Agg, EnumV)):
        if isinstance(b, Agg) and not b.e:
            return a
        raise Unsupported("join of scalar and aggregate")
    # UNINIT leaves carry no information: the other branch is taken
    return simplify_uninit(ite(c, a, b))


def b_is_unit(b):
    return isinstance(b, Agg) and not b.e


def simplify_uninit(x):
    return x


def vrestrict(v, g):
    if g is True or g is False:
        return v
    if isinstance(v, Agg):
        if not v.e:
            return v
        n = [vrestrict(x, g) for x in v.e]
        if all(x is y for x, y in zip(n, v.e)):
            return v
        return Agg(n)
    if isinstance(v, EnumV):
        return EnumV(restrict(v.d, g), {k: tuple(vrestrict(x, g) for x in f) for k, f in v.p.items()})
    return restrict(v, g)


# ------------------------------------------------------------------------------- floats

_PI = 3.14159265358979323846
_PI32 = struct.unpack("f", struct.pack("f", _PI))[0]
_PIQ = {}


def _build_pi():
    qs = set()
    for n in (1, 2, 3, 4):
        for d in (1, 2, 3, 4, 6, 8, 180, 360, 90):
            qs.add(Fraction(n, d))
    for q in qs:
        _PIQ[float(q) * _PI] = (q, 1)
        _PIQ[struct.unpack("f", struct.pack("f", float(q) * _PI))[0]] = (q, 1)
        _PIQ[struct.unpack("f", struct.pack("f", float(q) * _PI32))[0]] = (q, 1)
    for q in (Fraction(180), Fraction(360), Fraction(1), Fraction(2), Fraction(90)):
        _PIQ[float(q) / _PI] = (q, -1)
        _PIQ[struct.unpack("f", struct.pack("f", float(q) / _PI))[0]] = (q, -1)


_build_pi()


def pi():
    v = RING.var("pi", {1})
    return poly.tvar(v)


def fconst(x, bits=64):
    """Float literal to abstract value."""
    if x != x:
        return NAN
    if x == float("inf"):
        return INF
    if x == float("-inf"):
        return NINF
    a = abs(x)
    if a in _PIQ:
        q, e = _PIQ[a]
        t = pi() if e == 1 else T1 / pi()
        return t * tconst(q if x > 0 else -q)
    return tconst(Fraction(x))


ROUND = None        # the rounding module while rounding errors are tracked


def tag(name):
    return name if ROUND is None else name + ROUND.TAG


def f32round(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def fneg(x):
    return apply1(tag("fneg"), _fneg, x)


def _fneg(x):
    if isinstance(x, Term):
        return -x if ROUND is None else ROUND.neg(x)
    if x is INF:
        return NINF
    if x is NINF:
        return INF
    return x


def fabs(x):
    def f(t):
        if isinstance(t, Term):
            s = term_sign(t)
            return apply1(("absel", t), lambda v: t if v >= 0 else _fneg(t), s)
        if t is NINF:
            return INF
        return t
    return apply1(tag("fabs"), f, x)


def fadd(x, y):
    return apply2(tag("fadd"), _fadd, x, y)


def _fadd(a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        return a + b if ROUND is None else ROUND.add(a, b)
    for s in (UNINIT, NAN, DIVZ):
        if a is s or b is s:
            return s
    if isinstance(a, Term):
        return b
    if isinstance(b, Term):
        return a
    return a if a is b else NAN


def fsub(x, y):
    return apply2(tag("fsub"), lambda a, b: _fadd(a, _fneg(b)), x, y)


def fmul(x, y):
    return apply2(tag("fmul"), _fmul, x, y)


def _fmul(a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        return a * b if ROUND is None else ROUND.mul(a, b)
    for s in (UNINIT, NAN, DIVZ):
        if a is s or b is s:
            return s
    if isinstance(a, Term):
        a, b = b, a
    # a infinite
    sa = 1 if a is INF else -1
    if isinstance(b, Term):
        return apply1(("infmul", sa), lambda s: NAN if s == 0 else (INF if s * sa > 0 else NINF), term_sign(b))
    sb = 1 if b is INF else -1
    return INF if sa * sb > 0 else NINF


def fdiv(x, y):
    return apply2(tag("fdiv"), _fdiv, x, y)


def _fdiv(a, b):
    for s in (UNINIT, NAN, DIVZ):
        if a is s or b is s:
            return s
    if isinstance(b, Term):
        sb = term_sign(b)
        if isinstance(a, Term):
            if sb == 0:
                return DIVZ
            q = None
            if b.num.is_zero():
                return DIVZ
            q = a / b if ROUND is None else ROUND.div(a, b)
            if not isinstance(sb, Node):
                return q
            return apply1(("divsel", q), lambda s: DIVZ if s == 0 else q, sb)
        sa = 1 if a is INF else -1
        return apply1(("infdiv", sa), lambda s: DIVZ if s == 0 else (INF if s * sa > 0 else NINF), sb)
    if isinstance(a, Term):
        return T0
    return NAN


def frem(x, y):
    def f(a, b):
        if isinstance(a, Term) and isinstance(b, Term) and a.is_const() and b.is_const() and b.const() != 0:
            import math
            return fconst(math.fmod(float(a.const()), float(b.const())))
        for t in (UNINIT, NAN, DIVZ):
            if a is t or b is t:
                return t
        if not isinstance(a, Term):
            return NAN
        if not isinstance(b, Term):
            return a
        r = T0 if a.num.is_zero() else _atom("rem", (a, b))
        s = term_sign(b)
        return apply1(("remsel", r), lambda v: NAN if v == 0 else r, s) if isinstance(s, Node) else (r if s else NAN)
    return apply2(tag("frem"), f, x, y)


def fsign_cmp(x, y):
    """-1/0/1 or NAN (unordered) or DIVZ-dependent free choice."""
    def f(a, b):
        if a is NAN or b is NAN:
            return NAN
        if a is UNINIT or b is UNINIT:
            return UNINIT
        if a is DIVZ or b is DIVZ:
            at = mdd.bool_atom("nonfinite-cmp-a#%d" % _fresh())
            at2 = mdd.bool_atom("nonfinite-cmp-b#%d" % _fresh())
            return mux(at, [mux(at2, [-1, 0]), mux(at2, [1, NAN])])
        if isinstance(a, Term) and isinstance(b, Term):
            return term_sign(a - b)
        ra = 1 if a is INF else -1 if a is NINF else 0
        rb = 1 if b is INF else -1 if b is NINF else 0
        return (ra > rb) - (ra < rb)
    return apply2("fcmp", f, x, y)


_fc = [0]


def _fresh():
    _fc[0] += 1
    return _fc[0]


_REL = {
    "Lt": lambda s: s == -1, "Le": lambda s: s in (-1, 0), "Gt": lambda s: s == 1,
    "Ge": lambda s: s in (0, 1), "Eq": lambda s: s == 0, "Ne": lambda s: s != 0,
}


def fcmp(op, x, y):
    r = _REL[op]

    def g(s):
        if s is NAN:
            return op == "Ne"
        if s is UNINIT:
            raise Unsupported("comparison of uninitialised value")
        return r(s)
    return apply1("frel" + op, g, fsign_cmp(x, y))


def fsqrt(x):
    return apply1(tag("fsqrt"), _fsqrt, x)


def _tsqrt(t):
    """Exact square root of a term assumed >= 0."""
    num = t.num
    den = {}
    flips = []
    for f, e in t.den:
        if e % 2:
            num = num * f
            e += 1
        den[f] = e // 2
        flips.append((f, e // 2))
    root = poly_sqrt(num)
    r = root
    for f, e in flips:
        tf = poly.mk(poly.ONE, {f: e})
        s = poly_sign(f) if e % 2 else 1
        r = apply2(("sqden", tf), lambda v, sg: v * tf if sg >= 0 else -(v * tf), r, s)
    return r


def poly_sqrt(p):
    """Diagram of terms for sqrt(p), p >= 0."""
    if p.is_zero():
        return T0
    m = poly.mono_content(p)
    outer = T1
    oddv = []
    if m:
        sq = tuple((v, e - e % 2) for v, e in m if e >= 2)
        if sq:
            p2 = poly.pdiv(p, poly.Poly({sq: 1}))
            half = poly.Poly({tuple((v, e // 2) for v, e in sq): 1})
            inner = poly_sqrt(p2)
            return fmul(fabs(Term(half, ())), inner)
    r = poly.psqrt_exact(p)
    if r is not None:
        return fabs(Term(r, ()))
    f, q = poly.split_known(p)
    if f is not None:
        r = poly.psqrt_exact(poly.content(q)[1]) if Fraction(poly.content(q)[0]) > 0 else None
        if r is not None:
            k = poly.sqrt_atom(f.scale(poly.content(q)[0]))
            return fmul(fabs(Term(r, ())), Term(k, ()))
    return Term(poly.sqrt_atom(p), ())


def _fsqrt(t):
    global ROUND
    if ROUND is not None and isinstance(t, Term):
        mod, ROUND = ROUND, None
        try:
            r = _fsqrt(mod.plain(t))
        finally:
            ROUND = mod
        return apply1(("rsqrt", t), lambda l: mod.sqrt(t, l) if isinstance(l, Term) and not l.num.is_zero() else l, r)
    if t in (UNINIT, NAN, DIVZ) if not isinstance(t, Term) else False:
        return t
    if t is INF:
        return INF
    if t is NINF:
        return NAN
    if t.is_const():
        c = t.const()
        if c < 0:
            return NAN
        return Term(poly.sqrt_atom(poly.pconst(c)), ()) if c else T0
    s = term_sign(t)
    root = _tsqrt(t) if s != -1 else NAN
    if not isinstance(s, Node):
        return NAN if s < 0 else (T0 if s == 0 else root)
    return apply2(("sqrtsel",), lambda sg, r: NAN if sg < 0 else (T0 if sg == 0 else r), s, root) \
        if _splits_zero(s) else apply2(("sqrtsel2",), lambda sg, r: NAN if sg < 0 else r, s, root)


def _splits_zero(s):
    return False


def fpowi(x, n):
    def f(t):
        if isinstance(t, Term):
            r = t.pow(abs(n)) if ROUND is None or n == 0 else ROUND.power(t, abs(n))
            return r if n >= 0 else _fdiv(T1, r)
        if n == 0:
            return T1
        r = t
        for _ in range(abs(n) - 1):
            r = _fmul(r, t)
        if n < 0:
            r = _fdiv(T1, r)
        return r
    return apply1((tag("powi"), n), f, x)


def _leadneg(t):
    n = t.num
    return (not n.is_zero()) and n.d[n.lead()] < 0


def ffn(name, *xs):
    """Transcendental function: canonical atom, with parity and inverse identities."""
    def f(*ts):
        for t in ts:
            if not isinstance(t, Term):
                if t is UNINIT:
                    return UNINIT
                if t is NAN or t is DIVZ:
                    return t
                if name in ("sin", "cos", "tan", "acos", "asin"):
                    return NAN
                if name == "ln":
                    return INF if t is INF else NAN
                if name == "exp":
                    return INF if t is INF else T0
                raise Unsupported("%s of infinity" % name)
        if ROUND is not None:
            return _rounded_fn(name, ts)
        return _ffn(name, ts)
    return mdd.applyn(tag("fn:" + name), f, list(xs))


def _rounded_fn(name, ts):
    """The error of a transcendental function is not bounded."""
    global ROUND
    mod, ROUND = ROUND, None
    try:
        r = _ffn(name, tuple(mod.plain(t) for t in ts))
    finally:
        ROUND = mod
    return apply1(("unk", name) + ts, lambda l: mod.unknown(l) if isinstance(l, Term) else l, r)


def _atom(name, ts):
    return poly.tvar(poly.fn_atom(name, list(ts)))


def _fn_of(t):
    """(name, args) when t is exactly one function atom."""
    if not t.den and len(t.num.d) == 1:
        (m, c), = t.num.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in RING.fn:
            return RING.fn[m[0][0]]
    return None


def _root_of(t):
    """p when t is exactly sqrt(p)."""
    if not t.den and len(t.num.d) == 1:
        (m, c), = t.num.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return RING.sqrt_of.get(m[0][0])
    return None


def _quarter_turns(t):
    """(k, rest) with t = k * pi/2 + rest, k whole; k is 0 when t has no such part."""
    if t.den:
        return 0, t
    p = pi()
    (m, _), = p.num.d.items()
    c = t.num.d.get(m)
    if not c:
        return 0, t
    k = Fraction(c) * 2
    if k.denominator != 1:
        return 0, t
    return int(k), t - p * tconst(Fraction(c))


def _ffn(name, ts):
    t = ts[0]
    if name in ("sin", "cos"):
        k, rest = _quarter_turns(t)
        if k:
            # sin(x + pi/2) = cos(x), cos(x + pi/2) = -sin(x)
            k %= 4
            if name == "sin":
                f, sg = [("sin", 1), ("cos", 1), ("sin", -1), ("cos", -1)][k]
            else:
                f, sg = [("cos", 1), ("sin", -1), ("cos", -1), ("sin", 1)][k]
            v = _ffn(f, (rest,))
            return v if sg > 0 else fneg(v)
    if name == "sin":
        if t.num.is_zero():
            return T0
        if _leadneg(t):
            return -_ffn("sin", (-t,))
        f = _fn_of(t)
        if f and f[0] == "acos":
            return _fsqrt(T1 - f[1][0] * f[1][0])
        s = _atom("sin", ts)
        trig_rule(t)
        return s
    if name == "cos":
        if t.num.is_zero():
            return T1
        if _leadneg(t):
            return _ffn("cos", (-t,))
        f = _fn_of(t)
        if f and f[0] == "acos":
            return f[1][0]
        c = _atom("cos", ts)
        trig_rule(t)
        return c
    if name == "tan":
        return fdiv(_ffn("sin", ts), _ffn("cos", ts))
    if name == "acos":
        if t.is_const():
            c = t.const()
            if c == 1:
                return T0
            if c == -1:
                return pi()
            if c == 0:
                return pi() * tconst(Fraction(1, 2))
        if not t.den and len(t.num.d) == 1:
            (m, c), = t.num.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in RING.sqrt_of:
                u = poly.ONE - RING.sqrt_of[m[0][0]]
                if not (u.vars() & set(RING.sqrt_of)):
                    w = _fsqrt(poly.mk(u, {}))
                    plain = all(not isinstance(v, Term) or not (v.num.vars() & set(RING.sqrt_of))
                                for v in mdd.terminals(w))
                    if plain:
                        # acos(sqrt(1 - u^2)) = pi/2 - acos |u|
                        return fsub(pi() * tconst(Fraction(1, 2)), ffn("acos", w))
        a = _atom("acos", ts)
        RING.dom.setdefault(a.num.lead()[0][0], frozenset((0, 1)))
        return a
    if name == "asin":
        return pi() * tconst(Fraction(1, 2)) - _ffn("acos", ts)
    if name == "atan2":
        # the angle of (x, y): acos of x over the distance from the origin, with the sign of y
        y, x = ts
        h = y * y + x * x
        sy, sh = term_sign(y), term_sign(h)
        if h.num.is_zero():
            return T0
        if (h - T1).num.is_zero():
            ac = _ffn("acos", (x,))
        else:
            ac = ffn("acos", fdiv(x, fsqrt(h)))
        neg = when(sy, -1) if isinstance(sy, Node) else (sy == -1)
        r = ite(neg, fneg(ac), ac)
        if isinstance(sh, Node):
            return ite(when(sh, 0), T0, r)
        return r
    if name == "ln":
        if t.is_const() and t.const() == 1:
            return T0
        s = mdd.term_sign(t)
        r = _root_of(t)
        if r is not None:
            # ln sqrt(p) = ln(p) / 2
            return fmul(_ffn("ln", (poly.mk(r, {}),)), tconst(Fraction(1, 2)))
        a = _atom("ln", ts)
        return apply1(("lnsel", a), lambda v: a if v > 0 else (NINF if v == 0 else NAN), s)
    if name == "exp":
        if t.num.is_zero():
            return T1
        f = _fn_of(t)
        if f and f[0] == "ln":
            return f[1][0]
        c = Fraction(t.num.d[t.num.lead()]) if not t.den and len(t.num.d) == 1 else 0
        f = _fn_of(t * tconst(1 / c)) if c else None
        if f and f[0] == "ln" and (c.denominator == 1 and abs(c) <= 16 or abs(c) == Fraction(1, 2)):
            r = fpowi(f[1][0], int(c)) if c.denominator == 1 else _fsqrt(f[1][0])
            return r if c > 0 or c.denominator == 1 else fdiv(T1, r)
        a = _atom("exp", ts)
        RING.dom[a.num.lead()[0][0]] = frozenset((1,))
        return a
    if name == "pow":
        b, e = ts
        if e.is_const():
            c = Fraction(e.const())
            if c.denominator == 1 and abs(c) <= 16:
                return fpowi(b, int(c))
            if c == Fraction(1, 2):
                return _fsqrt(b)
        # b^e = exp(e ln b) for b > 0
        sb = term_sign(b)
        whole = ffn("exp", fmul(e, ffn("ln", b))) if sb != -1 else None
        if sb == 1:
            return whole
        a = _atom("pow", ts)
        if not isinstance(sb, Node):
            return a
        return ite(when(sb, 1), whole, a)
    return _atom(name, ts)


def trig_rule(t):
    """sin(t)^2 = 1 - cos(t)^2"""
    s = poly.fn_atom("sin", [t])
    c = poly.fn_atom("cos", [t])
    if s not in RING.rules:
        RING.rules[s] = poly.ONE - poly.pvar(c) * poly.pvar(c)
        poly.add_fact(poly.ONE - poly.pvar(c) * poly.pvar(c), (0, 1))


def fminmax(x, y, is_min):
    """IEEE minNum / maxNum: a NaN operand is ignored."""
    def f(a, b):
        if a is NAN:
            return b
        if b is NAN:
            return a
        if a is DIVZ or b is DIVZ:
            return DIVZ
        s = fsign_cmp(a, b)
        if is_min:
            return apply1(("mn", mdd._ck(a), mdd._ck(b)), lambda v: a if v <= 0 else b, s)
        return apply1(("mx", mdd._ck(a), mdd._ck(b)), lambda v: a if v >= 0 else b, s)
    return apply2("fmin" if is_min else "fmax", f, x, y)


def fcopysign(x, y):
    def f(a, b):
        if isinstance(b, Term):
            s = term_sign(b)
        elif b is INF:
            s = 1
        elif b is NINF:
            s = -1
        else:
            return a if False else mux(mdd.bool_atom("nan-sign#%d" % _fresh()), [fabs(a), fneg(fabs(a))])
        m = fabs(a)
        # the sign of a zero is not tracked: +0 is assumed
        return apply2("cps", lambda v, w: w if v >= 0 else _fneg(w), s, m)
    return apply2("fcopysign", f, x, y)


def fnarrow(x, frm, to):
    """f64 -> f32: exact only for values already in single precision."""
    def f(t):
        if isinstance(t, Term):
            if t.is_const():
                c = t.const()
                v = float(c)
                if Fraction(v) == Fraction(c) and f32round(v) == v:
                    return t
                return fconst(f32round(v))
            if not t.den and t.vars() == {RING.by_name.get("pi")} and len(t.num.d) == 1:
                return t
            return _atom("narrow", (t,))
        return t
    return apply1(tag("narrow"), f, x)
