"""Hash-consed decision diagrams.

A scalar abstract value is either a terminal (int, bool, float Term, pointer, ...) or a Node that
branches on one *atom*: the sign of a canonical polynomial (negative / zero / positive) or a free
boolean.  Diagrams are the joins of the dataflow analysis: at a control-flow merge the value is the
multiplexer of the incoming values over the branch conditions.
"""
from . import poly
from .poly import RING, ALL, content, poly_dom, _sg


class Atom:
    __slots__ = ("id", "kind", "key", "kids", "note")
    # kind 'sign': key=Poly, kids subset of (-1,0,1);  kind 'bool': key=name, kids=(False,True)

    def show(self):
        if self.kind == "sign":
            return "sign(%s)" % self.key.show()
        return str(self.key)


class Node:
    __slots__ = ("a", "k", "id", "_sup")

    def __repr__(self):
        return "<dd %s>" % self.a.show()[:40]


class Special:
    __slots__ = ("name",)

    def __init__(self, n):
        self.name = n

    def __repr__(self):
        return self.name

    def show(self):
        return self.name


NAN = Special("NaN")
INF = Special("+inf")
NINF = Special("-inf")
DIVZ = Special("nonfinite")      # result of dividing by zero: inf or NaN, unspecified
UNINIT = Special("uninit")

_atoms = []
_sign_atoms = {}
_bool_atoms = {}
_uniq = {}
_cache = {}
_free = [0]


def reset():
    _atoms.clear()
    _sign_atoms.clear()
    _bool_atoms.clear()
    _uniq.clear()
    _cache.clear()
    _free[0] = 0


def clear_cache():
    _cache.clear()


def _new_atom(kind, key, kids):
    a = Atom()
    a.id = len(_atoms)
    a.kind = kind
    a.key = key
    a.kids = kids
    a.note = None
    _atoms.append(a)
    return a


def bool_atom(name):
    a = _bool_atoms.get(name)
    if a is None:
        a = _new_atom("bool", name, (False, True))
        _bool_atoms[name] = a
    return a


def free_bool(tag):
    _free[0] += 1
    return mknode(bool_atom("%s#%d" % (tag, _free[0])), (False, True))


def bvar(name):
    return mknode(bool_atom(name), (False, True))


def tkey(x):
    # terminals: bool and int must not be conflated
    if x.__class__ is bool:
        return (0, x)
    return x


def mknode(atom, kids):
    k0 = kids[0]
    same = True
    for k in kids[1:]:
        if k is not k0 and not (k.__class__ is k0.__class__ and not isinstance(k, Node) and k == k0):
            same = False
            break
    if same:
        return k0
    key = (atom.id,) + tuple((1, k.id) if isinstance(k, Node) else (k.__class__, k) for k in kids)
    n = _uniq.get(key)
    if n is None:
        n = Node()
        n.a = atom
        n.k = kids
        n.id = len(_uniq)
        n._sup = None
        _uniq[key] = n
    return n


def _ck(x):
    return (1, x.id) if isinstance(x, Node) else (x.__class__, x)


def cof(x, atom, i):
    if isinstance(x, Node) and x.a is atom:
        return x.k[i]
    return x


def top(*xs):
    best = None
    for x in xs:
        if isinstance(x, Node) and (best is None or x.a.id < best.id):
            best = x.a
    return best


def mux(atom, kids):
    """Select kids[i] by the value of atom; kids may branch on any atoms."""
    t = top(*kids)
    if t is None or t.id > atom.id:
        return mknode(atom, tuple(kids))
    key = ("mux", atom.id) + tuple(_ck(k) for k in kids)
    r = _cache.get(key)
    if r is not None:
        return r[0]
    if t is atom:
        r = mux(atom, [cof(k, atom, i) for i, k in enumerate(kids)])
    else:
        r = mknode(t, tuple(mux(atom, [cof(k, t, i) for k in kids]) for i in range(len(t.kids))))
    _cache[key] = (r,)
    return r


def apply1(tag, f, x):
    """f maps a terminal to a terminal or a diagram."""
    if not isinstance(x, Node):
        return f(x)
    key = (tag, x.id)
    r = _cache.get(key)
    if r is not None:
        return r[0]
    r = mux(x.a, [apply1(tag, f, k) for k in x.k])
    _cache[key] = (r,)
    return r


def apply2(tag, f, x, y):
    xn = isinstance(x, Node)
    yn = isinstance(y, Node)
    if not xn and not yn:
        return f(x, y)
    key = (tag, _ck(x), _ck(y))
    r = _cache.get(key)
    if r is not None:
        return r[0]
    if xn and (not yn or x.a.id <= y.a.id):
        a = x.a
    else:
        a = y.a
    r = mux(a, [apply2(tag, f, cof(x, a, i), cof(y, a, i)) for i in range(len(a.kids))])
    _cache[key] = (r,)
    return r


def applyn(tag, f, xs):
    a = top(*xs)
    if a is None:
        return f(*xs)
    key = (tag,) + tuple(_ck(x) for x in xs)
    r = _cache.get(key)
    if r is not None:
        return r[0]
    r = mux(a, [applyn(tag, f, [cof(x, a, i) for x in xs]) for i in range(len(a.kids))])
    _cache[key] = (r,)
    return r


def NOT(x):
    if x is True:
        return False
    if x is False:
        return True
    return apply1("not", lambda v: (not v), x)


def AND(x, y):
    if x is True:
        return y
    if y is True:
        return x
    if x is False or y is False:
        return False
    if x is y:
        return x
    key = ("and", x.id, y.id) if x.id < y.id else ("and", y.id, x.id)
    r = _cache.get(key)
    if r is not None:
        return r[0]
    a = x.a if x.a.id <= y.a.id else y.a
    r = mknode(a, tuple(AND(cof(x, a, i), cof(y, a, i)) for i in range(len(a.kids))))
    _cache[key] = (r,)
    return r


def OR(x, y):
    if x is False:
        return y
    if y is False:
        return x
    if x is True or y is True:
        return True
    return NOT(AND(NOT(x), NOT(y)))


def ANDS(xs):
    r = True
    for x in xs:
        r = AND(r, x)
    return r


def ORS(xs):
    r = False
    for x in xs:
        r = OR(r, x)
    return r


def ite(c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    if x is y or (not isinstance(x, Node) and not isinstance(y, Node)
                  and x.__class__ is y.__class__ and x == y):
        return x
    if x is True and y is False:
        return c
    key = ("ite", c.id, _ck(x), _ck(y))
    r = _cache.get(key)
    if r is not None:
        return r[0]
    a = top(c, x, y)
    r = mknode(a, tuple(ite(cof(c, a, i), cof(x, a, i), cof(y, a, i)) for i in range(len(a.kids))))
    _cache[key] = (r,)
    return r


def restrict(f, care):
    """Some diagram that agrees with f wherever care holds (usually smaller)."""
    if not isinstance(f, Node) or care is True or care is False:
        return f
    key = ("restr", f.id, care.id)
    r = _cache.get(key)
    if r is not None:
        return r[0]
    if care.a.id < f.a.id:
        # drop the care variable: union of its branches
        c = False
        for k in care.k:
            c = OR(c, k)
        r = restrict(f, c)
    else:
        a = f.a
        ck = [cof(care, a, i) for i in range(len(a.kids))]
        live = [i for i, c in enumerate(ck) if c is not False]
        if len(live) == 1:
            r = restrict(f.k[live[0]], ck[live[0]])
        else:
            ks = [None] * len(ck)
            for i in live:
                ks[i] = restrict(f.k[i], ck[i])
            dflt = ks[live[0]]
            # dead branches take the value of a live neighbour
            for i in range(len(ks)):
                if ks[i] is None:
                    ks[i] = dflt
            r = mknode(a, tuple(ks))
    _cache[key] = (r,)
    return r


def terminals(x):
    seen = set()
    out = []
    tk = set()
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, Node):
            if n.id in seen:
                continue
            seen.add(n.id)
            st.extend(n.k)
        else:
            k = (n.__class__, n)
            if k not in tk:
                tk.add(k)
                out.append(n)
    return out


def size(x):
    seen = set()
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, Node) and n.id not in seen:
            seen.add(n.id)
            st.extend(n.k)
    return len(seen)


def support(x):
    seen = set()
    at = {}
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, Node) and n.id not in seen:
            seen.add(n.id)
            at[n.a.id] = n.a
            st.extend(n.k)
    return [at[i] for i in sorted(at)]


def when(x, val):
    """Boolean diagram: x equals the terminal val."""
    return apply1(("when", val.__class__, val), lambda t: t.__class__ is val.__class__ and t == val, x)


# ------------------------------------------------------------------ signs of polynomials and terms

def sign_atom(q):
    a = _sign_atoms.get(q)
    if a is None:
        d = poly_dom(q)
        a = _new_atom("sign", q, tuple(sorted(d)))
        _sign_atoms[q] = a
    return a


_sdd = {}


def poly_sign(p):
    """Diagram with terminals -1/0/1 for the sign of polynomial p."""
    if p.is_const():
        return _sg(p.const())
    r = _sdd.get(p)
    if r is not None and r[1] == len(_atoms) and False:
        return r[0]
    r = _poly_sign(p)
    return r


def _sqrt_var(p):
    """The most recent square-root atom occurring in p."""
    best = None
    for v in p.vars():
        if v in RING.sqrt_of and (best is None or v > best):
            best = v
    return best


def smul(a, b):
    return apply2("smul", lambda x, y: x * y, a, b)


def _poly_sign(p):
    k, q = content(p)
    s = _sg(k)
    if q.is_const():
        return s * _sg(q.const())
    key = ("psign", q)
    r = _cache.get(key)
    if r is None:
        r = (_prim_sign(q),)
        _cache[key] = r
    r = r[0]
    if s < 0:
        return apply1("sneg", lambda v: -v, r)
    return r


def _prim_sign(q):
    d = poly_dom(q)
    if len(d) == 1:
        return next(iter(d))
    m = poly.mono_content(q)
    if m:
        r = 1
        for v, e in m:
            sv = var_sign(v)
            if e % 2 == 0:
                sv = apply1("ssq", lambda x: x * x, sv)
            r = smul(r, sv)
        rest = poly.pdiv(q, poly.Poly({m: 1}))
        return smul(r, _poly_sign(rest))
    v = _sqrt_var(q)
    if v is not None and any(dict(m).get(v, 0) for m in q.d):
        A, B = {}, {}
        ok = True
        for m, c in q.d.items():
            e = dict(m).get(v, 0)
            if e == 0:
                A[m] = c
            elif e == 1:
                B[tuple(x for x in m if x[0] != v)] = c
            else:
                ok = False
        if ok:
            A, B = poly.Poly(A), poly.Poly(B)
            P = RING.sqrt_of[v]
            # sign(A + B*s), s = sqrt(P) >= 0
            sA = _poly_sign(A) if not A.is_zero() else 0
            sB = smul(_poly_sign(B), var_sign(v))
            D = A * A - B * B * P
            sD = _poly_sign(D) if not D.is_zero() else 0

            def comb(a, b, d):
                if b == 0:
                    return a
                if a == 0:
                    return b
                if a == b:
                    return a
                return a * d if d != 0 else 0
            return applyn("sqrtsign", comb, [sA, sB, sD])
    f, rest = poly.split_known(q)
    if f is not None:
        return smul(_poly_sign(f), _poly_sign(rest))
    root = poly.psqrt_exact(q)
    if root is not None:
        return apply1("ssq", lambda x: x * x, _poly_sign(root))
    a = sign_atom(q)
    return mknode(a, a.kids)


def var_sign(v):
    if v in RING.sqrt_of:
        P = RING.sqrt_of[v]
        return apply1("spos", lambda x: 1 if x > 0 else 0, _poly_sign(P))
    p = poly.pvar(v)
    d = poly_dom(p)
    if len(d) == 1:
        return next(iter(d))
    a = sign_atom(p)
    return mknode(a, a.kids)


def term_sign(t):
    r = _poly_sign(t.num) if not t.num.is_zero() else 0
    for f, e in t.den:
        s = _poly_sign(f)
        if e % 2 == 0:
            s = apply1("ssq", lambda x: x * x, s)
        # f == 0 cannot be reached here: division already split on it
        s = apply1("snz", lambda x: x if x != 0 else 1, s)
        r = smul(r, s)
    return r
