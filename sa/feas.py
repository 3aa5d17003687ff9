"""Emptiness of a conjunction of polynomial sign facts in the linear-relation domain.

Every monomial is read as an independent dimension; a conjunction is empty when some non-negative
combination of its facts (plus sign facts of monomials, registered premises and, on request,
pairwise products) is the contradiction 0 > 0.  The combination is found by an exact rational
simplex and is returned, so that the same contradictory core can be reused.
"""
from fractions import Fraction
from math import gcd, lcm
from . import poly, mdd
from .poly import Poly, RING, mono_dom, ONE


def _columns(cons):
    cols = []
    for i, (p, k) in enumerate(cons):
        cols.append((i, 1, k == ">", p.d))
        if k == "=":
            cols.append((i, -1, False, p.d))
    cols.append((-1, 1, True, {(): 1}))
    # a monomial that occurs with one sign only forces the columns it occurs in to zero
    occ = {}
    for j, (_, s, _, d) in enumerate(cols):
        for m, c in d.items():
            e = occ.setdefault(m, ([], []))
            e[0 if (c > 0) == (s > 0) else 1].append(j)
    alive = [True] * len(cols)
    cnt = {m: [len(p), len(n)] for m, (p, n) in occ.items()}
    todo = [m for m, (p, n) in cnt.items() if not p or not n]
    while todo:
        m = todo.pop()
        for js in occ[m]:
            for j in js:
                if alive[j]:
                    alive[j] = False
                    _, s, _, d = cols[j]
                    for m2, c in d.items():
                        e = cnt[m2]
                        e[0 if (c > 0) == (s > 0) else 1] -= 1
                        if (not e[0]) != (not e[1]):
                            todo.append(m2)
    cols = [c for c, a in zip(cols, alive) if a]
    return cols if any(c[2] for c in cols) else None


def farkas(cons):
    """cons: list of (Poly, kind) with kind '>' , '>=' or '='.
    Returns the list of indices with a non-zero multiplier in a contradiction, or None.

    Phase-1 simplex, exact, for  sum l_j col_j = 0, sum of strict l_j = 1, l >= 0.  Every tableau row
    is kept as coprime integers; the right-hand side sits in column RHS."""
    cols = _columns(cons)
    if cols is None:
        return None
    rows = {}
    for _, _, _, d in cols:
        for m in d:
            if m not in rows:
                rows[m] = len(rows)
    nr = len(rows) + 1
    nc = len(cols)
    RHS = nc
    A = [dict() for _ in range(nr)]
    for j, (_, s, strict, d) in enumerate(cols):
        for m, c in d.items():
            A[rows[m]][j] = Fraction(c) * s
        if strict:
            A[nr - 1][j] = Fraction(1)
    A[nr - 1][RHS] = Fraction(1)
    z = {}
    for r in A:
        for j, c in r.items():
            z[j] = z.get(j, 0) + c
    A = [_primitive(r) for r in A]
    z = _primitive({j: c for j, c in z.items() if c})
    basis = [None] * nr
    it = 0
    while z.get(RHS, 0) > 0:
        it += 1
        if it > 4000:
            return None
        enter = None
        if it < 400:
            best = 0
            for j, c in z.items():
                if j < nc and c > best:
                    best, enter = c, j
        else:
            for j in sorted(z):
                if j < nc and z[j] > 0:
                    enter = j
                    break
        if enter is None:
            return None
        lr = None
        for i in range(nr):
            c = A[i].get(enter, 0)
            if c > 0:
                q = A[i].get(RHS, 0)
                if lr is None:
                    lr, lq, lc = i, q, c
                    continue
                e = q * lc - lq * c
                if e < 0 or (e == 0 and _rank(basis, i, nc) < _rank(basis, lr, nc)):
                    lr, lq, lc = i, q, c
        if lr is None:
            return None
        row = A[lr]
        for i in range(nr):
            if i != lr and enter in A[i]:
                A[i] = _eliminate(A[i], row, enter)
        z = _eliminate(z, row, enter)
        basis[lr] = enter
    return sorted({cols[j][0] for i, j in enumerate(basis) if j is not None and RHS in A[i] and cols[j][0] >= 0})


def _rank(basis, i, nc):
    return nc + i if basis[i] is None else basis[i]


def _primitive(r):
    den = 1
    for c in r.values():
        den = lcm(den, Fraction(c).denominator)
    r = {j: int(c * den) for j, c in r.items()}
    g = gcd(*r.values()) if r else 1
    return r if g <= 1 else {j: c // g for j, c in r.items()}


def _eliminate(ri, row, enter):
    """ri with its `enter` entry removed by adding a multiple of row (whose entry there is positive)."""
    p, f = row[enter], ri[enter]
    g = gcd(p, f)
    p //= g
    f //= g
    if p == 1:
        out = dict(ri)
    else:
        out = {j: c * p for j, c in ri.items()}
    for j, c in row.items():
        n = out.get(j, 0) - f * c
        if n:
            out[j] = n
        else:
            out.pop(j, None)
    if p != 1 and out:
        g = 0
        for c in out.values():
            g = gcd(g, c)
            if g == 1:
                return out
        out = {j: c // g for j, c in out.items()}
    return out


def facts_of(path):
    """Constraints of a path [(atom, value)]."""
    out = []
    for a, v in path:
        if a.kind != "sign":
            continue
        if v > 0:
            out.append((a.key, ">"))
        elif v < 0:
            out.append((-a.key, ">"))
        else:
            out.append((a.key, "="))
    return out


def background(polys):
    """Sign facts that do not depend on the path: monomials and registered premises."""
    vs = set()
    monos = set()
    for p in polys:
        vs |= p.vars()
        monos |= set(p.d)
    out = []
    for m in monos:
        if not m:
            continue
        d = mono_dom(m)
        q = Poly({m: 1})
        if -1 not in d:
            out.append((q, ">" if 0 not in d else ">="))
        elif 1 not in d:
            out.append((-q, ">" if 0 not in d else ">="))
    for f in RING.nonneg:
        if f.vars() & vs:
            out.append((f, ">="))
    for v in vs:
        if v in RING.sqrt_of:
            out.append((poly.pvar(v), ">="))
    for q, d in RING.facts.items():
        if len(d) < 3 and q.vars() & vs:
            if d == frozenset((1,)):
                out.append((q, ">"))
            elif d == frozenset((-1,)):
                out.append((-q, ">"))
            elif d == frozenset((0,)):
                out.append((q, "="))
    return out


def _mulc(a, b):
    p = a[0] * b[0]
    if a[1] == "=" or b[1] == "=":
        return (p, "=")
    if a[1] == ">" and b[1] == ">":
        return (p, ">")
    return (p, ">=")


class Feas:
    @staticmethod
    def _eliminate_lines(cons, why):
        """Puts the value of a variable that a short equation determines into the other facts."""
        done = set()
        gone = set()
        while True:
            pick = None
            for i, (q, k) in enumerate(cons):
                if k != "=" or i in done:
                    continue
                r = _solve_for(q)
                if r is None or r[0] in gone:
                    continue
                if pick is None or len(r[1].d) < len(pick[2].d):
                    pick = (i,) + r
            if pick is None:
                return
            i, v, e = pick
            done.add(i)
            gone.add(v)
            for j, (q, k) in enumerate(cons):
                if j in done or v not in q.vars():
                    continue
                r = _replace(q, v, e)
                if r is not None:
                    cons[j] = (r, k)
                    why[j] = why[j] | why[i]

    def __init__(self, depth=2, maxdeg=8, extra=()):
        self.depth = depth
        self.maxdeg = maxdeg
        self.nogoods = []
        self.extra = list(extra)
        self.calls = 0

    def infeasible(self, path):
        """A contradictory subset of the path's facts (as a frozenset of (atom id, value)) or None."""
        ps = frozenset((a.id, v) for a, v in path)
        for ng in self.nogoods:
            if ng <= ps:
                return ng
        sp = [(a, v) for a, v in path if a.kind == "sign"]
        cons = facts_of(sp)
        self.calls += 1
        why0 = [frozenset((i,)) for i in range(len(cons))]
        zeros = {}
        for i, (q, k) in enumerate(cons):
            if k == "=" and len(q.d) == 1:
                (m,) = q.d
                if len(m) == 1 and m[0][0] not in RING.rules:
                    zeros[m[0][0]] = i
        if zeros:
            # variables that are zero on this path are dropped from the other facts
            for i, (q, k) in enumerate(cons):
                if i in zeros.values():
                    continue
                used = {zeros[v] for v in q.vars() if v in zeros}
                if used:
                    cons[i] = (Poly({m: c for m, c in q.d.items() if not any(v in zeros for v, _ in m)}), k)
                    why0[i] = why0[i] | used
                    if cons[i][0].is_zero() and k == ">":
                        ng = frozenset((sp[j][0].id, sp[j][1]) for j in why0[i])
                        self.nogoods.append(ng)
                        return ng
            vs = set()
            for q, _ in cons:
                vs |= q.vars()
            for q in RING.nonneg:
                used = {zeros[v] for v in q.vars() if v in zeros}
                if used:
                    q = Poly({m: c for m, c in q.d.items() if not any(v in zeros for v, _ in m)})
                    if not q.is_zero() and q.vars() <= vs:
                        cons.append((q, ">="))
                        why0.append(frozenset(used))
        self._eliminate_lines(cons, why0)
        for i, (q, k) in enumerate(cons):
            if (q.is_zero() and k == ">") or (q.is_const() and not q.is_zero() and (k == "=" or q.const() < 0)):
                ng = frozenset((sp[j][0].id, sp[j][1]) for j in why0[i])
                self.nogoods.append(ng)
                return ng
        base = list(cons) + self.extra
        # level 1
        bg = background([p for p, _ in base])
        n = len(cons)
        r = farkas(base + bg)
        if r is None and self.depth >= 2:
            prods = []
            src = []
            allc = [(c, why0[i]) for i, c in enumerate(cons)] + [(c, frozenset()) for c in self.extra]
            vs = set()
            for c in cons:
                vs |= c[0].vars()
            for q in RING.nonneg:
                if q.vars() <= vs:
                    allc.append(((q, ">="), frozenset()))
            for v in vs:
                d = RING.dom.get(v)
                if d is not None and -1 not in d:
                    allc.append(((poly.pvar(v), ">" if 0 not in d else ">="), frozenset()))
            if len(allc) <= 40:
                for i in range(len(allc)):
                    for j in range(i, len(allc)):
                        (c1, s1), (c2, s2) = allc[i], allc[j]
                        if deg(c1[0]) + deg(c2[0]) > self.maxdeg or len(c1[0].d) * len(c2[0].d) > 400:
                            continue
                        prods.append(_mulc(c1, c2))
                        src.append(s1 | s2)
                bg2 = background([p for p, _ in base] + [p for p, _ in prods])
                r2 = farkas(base + prods + bg2)
                if r2 is not None:
                    core = set()
                    for k in r2:
                        if k < n:
                            core |= why0[k]
                        elif len(base) <= k < len(base) + len(prods):
                            core |= src[k - len(base)]
                    r = sorted(core)
        elif r is not None:
            r = sorted({j for k in r if k < n for j in why0[k]})
        if r is None:
            return None
        ng = frozenset((sp[k][0].id, sp[k][1]) for k in r if k < n)
        self.nogoods.append(ng)
        return ng


def _solve_for(q):
    """A plain variable that an equation q = 0 determines, with its value as a short polynomial; or None."""
    if len(q.d) > 4:
        return None
    for m, c in q.d.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        v = m[0][0]
        if v in RING.sqrt_of or v in RING.rules or v in RING.fn:
            continue
        if any(v == w for n in q.d if n != m for w, _ in n):
            continue
        return v, Poly({n: poly._norm(-Fraction(k) / Fraction(c)) for n, k in q.d.items() if n != m})
    return None


def _replace(q, v, e):
    """q with e in place of the variable v, or None when that gets long."""
    out = Poly({})
    pw = {0: poly.pconst(1)}
    for m, c in q.d.items():
        k = 0
        rest = []
        for w, x in m:
            if w == v:
                k = x
            else:
                rest.append((w, x))
        if k > 4:
            return None
        while k not in pw:
            n = max(pw)
            pw[n + 1] = pw[n] * e
        out = out + Poly({tuple(rest): c}) * pw[k]
        if len(out.d) > 120:
            return None
    return out


def deg(p):
    return max((sum(e for _, e in m) for m in p.d), default=0)


def first_feasible(bad, feas, cap=20000):
    """A path of the boolean diagram `bad` to True that is not shown empty; None when all are empty.

    A sub-diagram whose paths were all shown empty is remembered together with the facts above it that
    the proofs used, so that it is not walked again below any other path that states the same facts."""
    count = [0]
    dead = {}
    keep = []

    def rec(n, path, ps):
        """(path, None) when feasible, else (None, facts above used)."""
        if n is False:
            return None, frozenset()
        if n is True:
            count[0] += 1
            if count[0] > cap:
                return path, None
            ng = feas.infeasible(path)
            return (path, None) if ng is None else (None, ng)
        for why in dead.get(id(n), ()):
            if why <= ps:
                return None, why
        used = set()
        for i, k in enumerate(n.k):
            if k is False:
                continue
            lit = (n.a.id, n.a.kids[i])
            p2 = ps | {lit}
            why = None
            for ng in feas.nogoods:
                if lit in ng and ng <= p2:
                    why = ng
                    break
            if why is None:
                r, why = rec(k, path + [(n.a, n.a.kids[i])], p2)
                if r is not None:
                    return r, None
            used |= why
        used = frozenset(x for x in used if x[0] != n.a.id)
        keep.append(n)
        dead.setdefault(id(n), []).append(used)
        return None, used
    if bad is False:
        return None
    return rec(bad, [], frozenset())[0]
