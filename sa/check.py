"""Checks: calling analysed functions on symbolic inputs, stating obligations, reporting."""
import itertools
import json
import os
import time
from fractions import Fraction
from . import poly, mdd, feas, values as VV
from .mdd import Node, NAN, INF, NINF, DIVZ, UNINIT, AND, OR, NOT, apply1, apply2, when, terminals, restrict
from .poly import Term, tconst, T0, T1, V
from .interp import Interp, State
from .values import Agg, EnumV, Ptr, VT, UNIT, is_scalar, fadd, fsub, fmul, fcmp
from .mir import Unsupported


class Missing(Exception):
    """A public operation the property speaks about is not in the program."""


class Slice:
    def __init__(self, elems):
        self.e = list(elems)


class Dyn:
    """A value passed behind a trait object."""

    def __init__(self, ty, val, obj=None):
        self.ty, self.val, self.obj = ty, val, obj


class Run:
    """One analysis run of public operations on shared symbolic inputs."""

    def __init__(self, ctx, overrides=None, facts=None):
        self.ctx = ctx
        self.p = ctx.p
        poly.reset_ring()
        mdd.reset()
        self.I = Interp(ctx.p, overrides=overrides)
        self.st = State(True, {})
        self.n = 0

    # ---------------------------------------------------------------- inputs
    def alloc(self, val, ty):
        self.n += 1
        o = ("in", self.n)
        self.st.mem[o] = val
        self.I.objty[o] = ty
        return Ptr(o, (), None)

    def arg(self, v, ty):
        p = self.p
        pt = self.I.peel(ty)
        t = p.types[pt]
        if t["k"] in ("ref", "ptr") and not isinstance(v, Ptr):
            e = t["e"]
            ek = p.types[e]["k"]
            if isinstance(v, Dyn) or ek == "dyn":
                if v.obj is None:
                    v.obj = self.alloc(v.val, v.ty)
                return Ptr(v.obj.obj, v.obj.path, VT(v.ty) if ek == "dyn" else None)
            if ek == "slice":
                self.n += 1
                o = ("in", self.n)
                es = [self.arg(x, p.types[e]["e"]) for x in v.e]
                self.st.mem[o] = Agg(es)
                return Ptr(o, (0,), len(es))
            return self.alloc(v, e)
        if isinstance(v, Dyn):
            return v.val
        return v

    def inst(self, name):
        k = self.p.fn(name)
        if k is None:
            raise Missing(name)
        return k

    def call(self, name, *args):
        """Analyse one call in the current state; returns the abstract result (None: never returns)."""
        k = self.inst(name)
        body = self.p.insts[k]["body"]
        if body["argc"] != len(args):
            raise Missing("%s with %d arguments" % (name, len(args)))
        vals = [self.arg(a, body["locals"][i + 1]) for i, a in enumerate(args)]
        self.ctx.note_fn(name)
        r, st = self.I.run(k, vals, self.st)
        if st is None:
            self.st.g = False
            return None
        self.st = st
        return r

    def restart(self):
        """Forget the path condition of earlier calls (inputs stay)."""
        self.st = State(True, dict(self.st.mem))

    @property
    def g(self):
        return self.st.g

    def deref(self, p):
        return self.I.load(self.st, p)

    # ---------------------------------------------------------------- data
    def fty(self, t, name):
        i = self.p.field_index(t, name)
        if i is None:
            raise Missing("field %s of %s" % (name, self.p.types[t]["n"]))
        return i, self.p.fields(t)[i]

    def get(self, t, v, name):
        """Field `name` of the struct value v."""
        i, ft = self.fty(t, name)
        tr = self.p.transparent(t)
        if tr is not None:
            return v if tr == i else UNIT
        if not isinstance(v, Agg) or i >= len(v.e):
            return UNINIT
        return v.e[i]

    def set(self, t, v, name, x):
        i, ft = self.fty(t, name)
        tr = self.p.transparent(t)
        if tr is not None:
            return x if tr == i else v
        e = list(v.e)
        e[i] = x
        return Agg(e)

    def struct(self, t, **kw):
        fs = self.p.types[t]["v"][0]["f"]
        v = self.I.skeleton(t)
        names = {f[0] for f in fs}
        for k, x in kw.items():
            if k not in names:
                raise Missing("field %s of %s" % (k, self.p.types[t]["n"]))
            v = self.set(t, v, k, x)
        return v

    def ret_ty(self, name):
        return self.p.insts[self.inst(name)]["body"]["locals"][0]

    def arg_ty(self, name, i):
        t = self.p.insts[self.inst(name)]["body"]["locals"][i + 1]
        t = self.I.peel(t)
        d = self.p.types[t]
        return d["e"] if d["k"] in ("ref", "ptr") else t


def vec(name, n, dom=None):
    return [V("%s%d" % (name, i), dom) for i in range(n)]


def items(v, n):
    """The n scalar leaves of a flat array value."""
    if isinstance(v, Agg):
        return list(v.e)
    if n == 1:
        return [v]
    return [UNINIT] * n


def some(v):
    """(is-some diagram, payload) of an Option value."""
    if not isinstance(v, EnumV):
        raise Unsupported("not an option: %r" % (v,))
    pay = v.p.get(1)
    return when(v.d, 1) if isinstance(v.d, Node) else (v.d == 1), (pay[0] if pay else None)


def variant(v, i):
    return when(v.d, i) if isinstance(v.d, Node) else (v.d == i)


def feq(x, y):
    """Boolean diagram: two abstract floats are the same value."""
    def f(a, b):
        if a is b:
            return True
        if isinstance(a, Term) and isinstance(b, Term):
            if poly.t_eq(a, b):
                return True
            s = mdd.term_sign(a - b)
            return apply1("is0", lambda v: v == 0, s)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a == b and a.__class__ is b.__class__
        return False
    return apply2("feq", f, x, y)


def beq(x, y):
    return apply2("beq", lambda a, b: a == b and a.__class__ is b.__class__, x, y)


def veq(xs, ys):
    r = True
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        r = AND(r, feq(x, y))
    return r


def lt(x, y):
    return fcmp("Lt", x, y)


def le(x, y):
    return fcmp("Le", x, y)


def gt(x, y):
    return fcmp("Gt", x, y)


def ge(x, y):
    return fcmp("Ge", x, y)


def eq(x, y):
    return fcmp("Eq", x, y)


def C(x):
    return tconst(Fraction(x))


def dot(a, b):
    r = T0
    for x, y in zip(a, b):
        r = fadd(r, fmul(x, y))
    return r


def cross(a, b):
    return [fsub(fmul(a[1], b[2]), fmul(a[2], b[1])),
            fsub(fmul(a[2], b[0]), fmul(a[0], b[2])),
            fsub(fmul(a[0], b[1]), fmul(a[1], b[0]))]


def vsub(a, b):
    return [fsub(x, y) for x, y in zip(a, b)]


def vadd(a, b):
    return [fadd(x, y) for x, y in zip(a, b)]


def vscale(a, k):
    return [fmul(x, k) for x in a]


def square_premise(*xs):
    """Registers that the sum of the squares of the given exact values is not negative."""
    t = T0
    for x in xs:
        t = fadd(t, fmul(x, x))
    if isinstance(t, Term):
        poly.RING.nonneg.append(t.num)


def unit_vec(name, n=3):
    """Free direction of length one: the last component's square is eliminated by the relation."""
    v = vec(name, n)
    last = v[-1].num.lead()[0][0]
    p = poly.ONE
    for x in v[:-1]:
        p = p - x.num * x.num
    poly.RING.rules[last] = p
    poly.add_fact(p, (0, 1))
    for k in range(n - 2, 0, -1):
        for some in itertools.combinations(v[:-1], k):
            q = poly.ONE
            for x in some:
                q = q - x.num * x.num
            poly.add_fact(q, (0, 1))
    return v


def show_path(path, limit=14):
    out = []
    for a, v in path:
        if a.kind == "sign":
            s = a.key.show()
            if len(s) > 160:
                s = s[:157] + "..."
            out.append("%s %s 0" % (s, {1: ">", 0: "=", -1: "<"}[v]))
        else:
            out.append("%s = %s" % (a.key, v))
    if len(out) > limit:
        out = out[:limit] + ["... %d more" % (len(out) - limit)]
    return out


def show_val(v, path=None, depth=0):
    """Readable form of a value on one path."""
    if isinstance(v, Node):
        if path is not None:
            d = {a.id: x for a, x in path}
            while isinstance(v, Node):
                if v.a.id in d:
                    v = v.k[v.a.kids.index(d[v.a.id])]
                else:
                    v = v.k[0]
            return show_val(v, path, depth)
        return "<diagram of %d nodes>" % mdd.size(v)
    if isinstance(v, Term):
        s = v.show()
        return s if len(s) < 200 else s[:197] + "..."
    if isinstance(v, Agg):
        return "[" + ", ".join(show_val(x, path, depth + 1) for x in v.e) + "]"
    if isinstance(v, EnumV):
        d = v.d
        if isinstance(d, Node) and path is not None:
            m = {a.id: x for a, x in path}
            while isinstance(d, Node):
                d = d.k[d.a.kids.index(m[d.a.id])] if d.a.id in m else d.k[0]
        if isinstance(d, Node):
            return "<enum>"
        return "variant %r(%s)" % (d, ", ".join(show_val(x, path, depth + 1) for x in v.p.get(d, ())))
    return repr(v)


class Ctx:
    def __init__(self, prog, pid, tier="quick", seed=1):
        self.p = prog
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.obls = []           # (key, description)
        self.viol = []           # dict(key, ...)
        self.known = []
        self.fns = {}
        self.notes = []
        self.counts = {}
        self.assumptions = []
        self.t0 = time.time()
        self.deep = set()
        self.explanation = None
        self.blocks = 0
        self.calls = 0
        self.atoms = 0
        self.pruned = 0

    def note_fn(self, n):
        self.fns[n] = self.fns.get(n, 0) + 1

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def run(self, overrides=None):
        return Run(self, overrides)

    def done(self, run):
        self.blocks += run.I.nblocks
        self.calls += run.I.sites
        self.deep |= run.I.fns_seen
        self.atoms += len(mdd._atoms)

    def violation(self, key, where, rule, detail):
        self.viol.append({"key": key, "where": where, "rule": rule, "detail": detail})

    def ob(self, key, where, rule, ok, g=True, show=None, depth=2, extra=()):
        """Obligation: `ok` holds on every abstract state described by g."""
        self.obls.append((key, where, rule))
        bad = AND(g, NOT(ok))
        if bad is False:
            return True
        f = feas.Feas(depth=depth, extra=extra)
        path = feas.first_feasible(bad, f)
        self.pruned += len(f.nogoods)
        if path is None:
            return True
        d = {"when": show_path(path)}
        if show:
            d["values"] = {k: show_val(v, path) for k, v in show.items()}
        self.violation(key, where, rule, d)
        return False

    def floor(self, name, n):
        """Instance counts below the floor mean that the check lost its subject."""
        c = self.counts.get(name, 0)
        self.obls.append(("floor-" + name, "-", "at least %d %s" % (n, name)))
        if c < n:
            self.violation("floor-" + name, "-", "at least %d %s must be analysed" % (n, name), {"found": c})

    def where(self, name):
        k = self.p.fn(name)
        if k is None:
            return name
        i = self.p.insts[k]
        f = self.p.loc(i["span"]) if i.get("span") else "?"
        return "%s (%s)" % (name, f)


class guard:
    """Context manager: a part of a check that must be analysable."""

    def __init__(self, ctx, key, where):
        self.ctx, self.key, self.where = ctx, key, where

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            return False
        if issubclass(et, Missing):
            self.ctx.violation(self.key + "/missing", self.where, "operation present", {"missing": str(ev)})
            return True
        if issubclass(et, (Unsupported, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError,
                           AssertionError, ZeroDivisionError)):
            import traceback
            self.ctx.violation(self.key + "/unanalysable", self.where, "operation within the analysed fragment",
                               {"reason": "%s: %s" % (et.__name__, ev),
                                "at": traceback.format_exception(et, ev, tb)[-3:]})
            return True
        return False
