"""Shapes and their bounds: C19-C24."""
import itertools
from fractions import Fraction
from ..check import *
from .. import poly, mdd, values as VV
from .mats import VecKind

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


PATHS = {"Point": "mazth::point::Point3", "Sphere": "mazth::sphere::Sphere", "Ray": "mazth::ray::Ray3",
         "Plane": "mazth::plane::Plane", "Box": "mazth::rbox::RecBox", "Line": "mazth::line::Line3",
         "TriPrism": "mazth::triprism::TriPrism"}
KINDS = ["Point", "Sphere", "Ray", "Plane", "Box", "Line", "TriPrism"]
AABB = "mazth::bound::AxisAlignedBBox"
SUPPORTED = {"Ray": ["Ray", "Point", "Sphere", "Plane"], "Sphere": ["Sphere", "Ray", "Point", "Plane"],
             "Plane": ["Ray", "Sphere", "Point"], "Point": ["Point", "Ray", "Sphere", "Plane", "Box", "TriPrism"],
             "Box": ["Point"], "TriPrism": ["Point", "Line"], "Line": ["TriPrism"]}


class Obj:
    """A shape in the analysed memory together with the symbolic values it was made from."""

    def __init__(self, kind, val, ty, **d):
        self.kind, self.val, self.ty = kind, val, ty
        self.__dict__.update(d)

    def dyn(self):
        return Dyn(self.ty, self.val)


PRISM_FIELDS = {"_tri_base", "_tri_base2", "_normal_height", "_bound", "_vicinity"}


def prism_values(K, R, nm):
    """Free corners and height vector of a prism.

    When prisms store more than corners, height vector, bound and tolerance, they have to come from the constructor: their
    base is then parallel to the x-y plane with its first edge along x, which is any prism up to a rotation.
    """
    t = K.ty(R)
    if {f[0] for f in K.ctx.p.types[t]["v"][0]["f"]} <= PRISM_FIELDS:
        return dict(v=[vec("%sv%d" % (nm, i), 3) for i in range(3)], n=vec(nm + "n", 3), h=None)
    o = vec(nm + "v0", 3)
    a, b, c, h = V(nm + "va", (1,)), V(nm + "vb"), V(nm + "vc", (1,)), V(nm + "vh", (1,))
    return dict(v=[o, [fadd(o[0], a), o[1], o[2]], [fadd(o[0], b), fadd(o[1], c), o[2]]], n=[T0, T0, h], h=h)


class SK:
    def __init__(self, ctx, kind):
        self.ctx, self.kind = ctx, kind
        self.path = PATHS[kind]
        self.v3 = VecKind(ctx, "Mat3x1", 3, "f64")

    def q(self, op):
        return "<%s as mazth::i_shape::IShape>::%s" % (self.path, op)

    def vq(self, op):
        return "<%s as mazth::i_vicinity::IVicinity<f64>>::%s" % (self.path, op)

    @property
    def init(self):
        return self.path + "::init"

    def ty(self, R):
        return R.ret_ty(self.init)

    def v3ty(self, R):
        return self.v3.ty(R)

    def args(self, nm, size=None, full=False):
        """Constructor arguments with free values, and the values by name.

        Sizes are positive; with `full`, zero sizes and heights of either sign are included.
        """
        k = self.kind
        if full and size is None:
            size = V(nm + "h") if k == "TriPrism" else V(nm + "r", (0, 1))
        o = vec(nm + "o", 3)
        if k == "Point":
            return [Slice(o)], dict(o=o)
        if k in ("Sphere", "Box"):
            r = V(nm + "r", (0, 1)) if size is None else size
            return [Slice(o), r], dict(o=o, r=r)
        if k in ("Ray", "Plane"):
            d = vec(nm + "d", 3)
            return [Slice(o), Slice(d)], dict(o=o, d=d)
        if k == "Line":
            b = vec(nm + "b", 3)
            return [Slice(o), Slice(b)], dict(a=o, b=b)
        v = [vec("%sv%d" % (nm, i), 3) for i in range(3)]
        h = V(nm + "h", (1,)) if size is None else size
        return [Slice(v[0] + v[1] + v[2]), h], dict(v=v, h=h)

    def make(self, R, nm, unit=True, open_bound=True):
        """A shape with free position, unit directions and positive sizes.

        Directions are taken of length one already; the prism is laid out free (base, offset and height
        vector are independent symbols), because its construction is decided separately.
        """
        k = self.kind
        if k in ("Ray", "Plane"):
            o = vec(nm + "o", 3)
            d = unit_vec(nm + "d", 3)
            val = R.call(self.init, Slice(o), Slice(d))
            t = self.ty(R)
            f = "_dir" if k == "Ray" else "_normal"
            got = self.v3.rd(R, R.get(t, val, f))
            self.ctx.ob("%s/unit-direction" % k, self.ctx.where(self.init), "a unit direction is kept", veq(got, d), R.g)
            ob = Obj(k, val, t, o=o, d=d)
        elif k == "TriPrism":
            d = prism_values(self, R, nm)
            ob = Obj(k, self.prism(R, d["v"], d["n"], d["h"]), self.ty(R), **d)
        else:
            args, d = self.args(nm)
            val = R.call(self.init, *args)
            ob = Obj(k, val, self.ty(R), **d)
        if open_bound:
            ob.val = self.set_bound(R, ob, [NINF] * 3, [INF] * 3)
        return ob

    def prism(self, R, v, n, h):
        if h is not None:
            return R.call(self.init, Slice(v[0] + v[1] + v[2]), h)
        return R.struct(self.ty(R), _tri_base=Agg([self.v3.mk(R, x) for x in v]),
                        _tri_base2=Agg([self.v3.mk(R, vadd(x, n)) for x in v]),
                        _normal_height=self.v3.mk(R, n), _vicinity=C(Fraction(0.000001)))

    def bound_ty(self, R):
        return R.ret_ty(AABB + "::init")

    def set_bound(self, R, ob, lo, hi):
        bt = self.bound_ty(R)
        return R.set(ob.ty, ob.val, "_bound", R.struct(bt, _bound_lower=Agg(lo), _bound_upper=Agg(hi)))

    def bound_of(self, R, ob):
        """(lower, upper) as reported through the bound interface."""
        p = R.call(self.q("get_bound"), ob.val)
        return p

    def result(self, R, r, q):
        """(flag, has location, location components) of an intersection result."""
        if r is None:
            return False, False, [UNINIT] * 3
        flag, opt = r.e
        s, pay = some(opt)
        loc = self.v3.rd(R, pay) if pay is not None else [UNINIT] * 3
        return flag, s, loc


def bq(op):
    return "<%s as mazth::i_bound::IBound>::%s" % (AABB, op)


def vals_of(R, v, n=None):
    """Elements of an analysed Vec<f64>."""
    return vec_items(R, v)


def vec_items(R, v):
    """(items, length) of a Vec value whose length is static."""
    from ..values import Ptr
    ptr = [None]
    ln = [None]

    def scan(x):
        if isinstance(x, Ptr):
            ptr[0] = x
        elif isinstance(x, int) and not isinstance(x, bool):
            ln[0] = x
        elif isinstance(x, Agg):
            for y in x.e:
                scan(y)
    scan(v)
    return ptr[0], ln[0]


def shape_data(R, K, ob):
    q = K.q("get_shape_data")
    r = R.call(q, ob.val)
    return r, R.ret_ty(q)


def read_vec(R, v, t):
    """Scalar elements of a Vec<f64>: its buffer pointer and length fields found by type."""
    p = R.p
    ft = p.fields(t)
    names = [f[0] for f in p.types[t]["v"][0]["f"]]
    n = R.get(t, v, "len")
    if not isinstance(n, int):
        raise Unsupported("vector length depends on inputs")
    buf = R.get(t, v, "buf")
    ptr, _ = vec_items(R, buf)
    if ptr is None:
        if n == 0:
            return []
        raise Unsupported("vector buffer")
    out = []
    for i in range(n):
        out.append(R.I.load(R.st, R.I.offset(ptr, i)))
    return out


@check("C19")
def c19(ctx):
    for k in KINDS:
        K = SK(ctx, k)
        where = ctx.where(K.vq("within_vicinity"))
        with guard(ctx, k + "/vicinity", K.vq("within_vicinity")):
            R = ctx.run()
            ob = K.make(R, "s")
            obj = R.alloc(ob.val, ob.ty)
            e, a, b = V("e"), V("a"), V("b")
            d = fsub(a, b)

            def within(tol):
                return AND(le(d, tol), ge(d, VV.fneg(tol)))
            r = R.call(K.vq("within_vicinity"), obj, a, b)
            ctx.ob(k + "/default", where, "a new shape accepts differences up to 1e-6", beq(r, within(C(Fraction(1e-6)))), R.g)
            before = R.deref(obj)
            R.call(K.vq("set_vicinity"), obj, e)
            after = R.deref(obj)
            ctx.ob(k + "/returns", ctx.where(K.vq("set_vicinity")), "every tolerance is accepted", R.g)
            vi, _ = R.fty(ob.ty, "_vicinity")
            same = True
            for i, (x, y) in enumerate(zip(before.e, after.e)):
                if i != vi:
                    same = AND(same, deq(x, y))
            ctx.ob(k + "/others", ctx.where(K.vq("set_vicinity")), "setting the tolerance changes nothing else", same, R.g)
            r = R.call(K.vq("within_vicinity"), obj, a, b)
            ctx.ob(k + "/set", where, "values are close exactly when they differ by at most the size of the tolerance set",
                   beq(r, within(VV.fabs(e))), R.g)
            # the last tolerance set counts, whatever was set before
            e2 = V("e2")
            R.call(K.vq("set_vicinity"), obj, e2)
            later = R.deref(obj)
            for i, (x, y) in enumerate(zip(before.e, later.e)):
                if i != vi:
                    same = AND(same, deq(x, y))
            ctx.ob(k + "/others-again", ctx.where(K.vq("set_vicinity")), "setting the tolerance changes nothing else", same, R.g)
            r = R.call(K.vq("within_vicinity"), obj, a, b)
            ctx.ob(k + "/set-again", where, "the tolerance set last counts", beq(r, within(VV.fabs(e2))), R.g)
            r = R.call(K.vq("within_vicinity"), obj, NAN, b)
            ctx.ob(k + "/nan-left", where, "a value that is not a number is close to nothing", NOT(r), R.g)
            r = R.call(K.vq("within_vicinity"), obj, a, NAN)
            ctx.ob(k + "/nan-right", where, "a value that is not a number is close to nothing", NOT(r), R.g)
            ctx.count("shapes")
            ctx.done(R)
    ctx.floor("shapes", 7)


def deq(x, y):
    """Two values of the same layout are identical."""
    if isinstance(x, Agg) and isinstance(y, Agg):
        r = len(x.e) == len(y.e)
        for a, b in zip(x.e, y.e):
            r = AND(r, deq(a, b))
        return r
    if isinstance(x, EnumV) and isinstance(y, EnumV):
        return x is y or (x.d == y.d and x.p == y.p)
    if x is y:
        return True
    if isinstance(x, (Term, int, bool, Node, mdd.Special)) and isinstance(y, (Term, int, bool, Node, mdd.Special)):
        return feq(x, y)
    return x == y


DIMS = {"Point": [3], "Sphere": [3], "Box": [3], "Ray": [3, 3], "Plane": [3, 3], "Line": [3, 3], "TriPrism": [9]}


@check("C20")
def c20(ctx):
    for k in KINDS:
        K = SK(ctx, k)
        q = K.init
        where = ctx.where(q)
        with guard(ctx, k + "/data", K.q("get_shape_data")):
            R = ctx.run()
            args, d = K.args("s", full=True)
            g = True
            if k in ("Ray", "Plane"):
                m = VV.fsqrt(dot(d["d"], d["d"]))
                g = gt(dot(d["d"], d["d"]), T0)
                exp = d["o"] + [VV.fdiv(x, m) for x in d["d"]]
                rule = "the shape's data are its origin and its direction scaled to length one"
            elif k == "TriPrism":
                c = cross(vsub(d["v"][1], d["v"][0]), vsub(d["v"][2], d["v"][0]))
                m = VV.fsqrt(dot(c, c))
                g = gt(dot(c, c), T0)
                n = [fmul(VV.fdiv(x, m), d["h"]) for x in c]
                exp = d["v"][0] + d["v"][1] + d["v"][2] + n
                rule = "the shape's data are the base and the right-handed unit normal times the height"
            elif k == "Line":
                exp = d["a"] + d["b"]
                rule = "the shape's data are its two ends"
            else:
                exp = d["o"] + ([d["r"]] if "r" in d else [])
                rule = "the shape's data are its origin and size"
            val = R.call(q, *args)
            ctx.ob(k + "/returns", where, "every admissible input makes a shape", R.g, g)
            r, t = shape_data(R, K, Obj(k, val, K.ty(R)))
            got = read_vec(R, r, t)
            if len(got) != len(exp):
                ctx.violation(k + "/data/length", ctx.where(K.q("get_shape_data")), rule,
                              {"got": len(got), "expected": len(exp)})
            for i, (a, b) in enumerate(zip(got, exp)):
                ctx.ob("%s/data/%d" % (k, i), ctx.where(K.q("get_shape_data")), rule,
                       feq(mdd.restrict(a, g), mdd.restrict(b, g)), AND(R.g, g), {"got": a, "expected": b})
            if k == "TriPrism":
                ty = K.ty(R)
                for j in range(3):
                    got = K.v3.rd(R, R.get(ty, val, "_tri_base2").e[j])
                    for i in range(3):
                        e = fadd(d["v"][j][i], n[i])
                        ctx.ob("%s/top/%d,%d" % (k, j, i), where, "the second base is the first one moved by the height",
                               feq(mdd.restrict(got[i], g), mdd.restrict(e, g)), AND(R.g, g), {"got": got[i], "expected": e})
            tq = K.q("get_type")
            r = R.call(tq, val)
            tt = R.ret_ty(tq)
            names = [x["n"] for x in ctx.p.types[tt]["v"]]
            want = names.index(k) if k in names else None
            dsc = r.d if isinstance(r, EnumV) else r
            ctx.ob(k + "/type", ctx.where(tq), "every shape reports its own kind", beq(dsc, want), R.g)
            ctx.count("shapes")
            ctx.done(R)
        for pos, n in enumerate(DIMS[k]):
            for bad in sorted({0, 1, n - 1, n + 1, 2 * n}):
                key = "%s/length/%d/%d" % (k, pos, bad)
                with guard(ctx, key, q):
                    R = ctx.run()
                    args, d = K.args("s")
                    args[pos] = Slice(vec("x", bad))
                    R.call(q, *args)
                    ctx.ob(key, where, "a coordinate list of the wrong length is refused", NOT(R.g))
                    ctx.count("refusals")
                    ctx.done(R)
    ctx.floor("shapes", 7)
    ctx.floor("refusals", 40)


def get_box(R, K, val):
    """Lower and upper corner reported through the shape's bound."""
    p = R.call(K.q("get_bound"), val)
    r = R.call(bq("get_bound_data"), R.arg_from(p) if hasattr(R, "arg_from") else p)
    return r.e[0:3], r.e[3:6]


@check("C21")
def c21(ctx):
    for k in KINDS:
        K = SK(ctx, k)
        key = k + "/bound"
        where = ctx.where(K.init)
        with guard(ctx, key, K.init):
            R = ctx.run()
            args, d = K.args("s", full=True)
            val = R.call(K.init, *args)
            lo, hi = get_box(R, K, val)
            g = R.g
            for i, ax in enumerate("xyz"):
                if k == "Point":
                    pts = [d["o"][i]]
                elif k in ("Sphere", "Box"):
                    pts = [fsub(d["o"][i], d["r"]), fadd(d["o"][i], d["r"])]
                elif k == "Line":
                    pts = [d["a"][i], d["b"][i]]
                elif k == "TriPrism":
                    pts = []
                    ty = K.ty(R)
                    for f in ("_tri_base", "_tri_base2"):
                        for j in range(3):
                            pts.append(K.v3.rd(R, R.get(ty, val, f).e[j])[i])
                elif k == "Plane":
                    pts = [NINF, INF]
                else:
                    pts = [d["o"][i], mdd.ite(gt(d["d"][i], T0), INF, mdd.ite(lt(d["d"][i], T0), NINF, d["o"][i]))]
                gg = g
                if k == "TriPrism":
                    cr = cross(vsub(d["v"][1], d["v"][0]), vsub(d["v"][2], d["v"][0]))
                    gg = AND(g, gt(dot(cr, cr), T0))
                for j, x in enumerate(pts):
                    ctx.ob("%s/%s/low%d" % (key, ax, j), where, "no point of the shape lies below its bound",
                           le(lo[i], x), gg, {"bound": lo[i], "point": x})
                    ctx.ob("%s/%s/high%d" % (key, ax, j), where, "no point of the shape lies above its bound",
                           ge(hi[i], x), gg, {"bound": hi[i], "point": x})
                tl, th = False, False
                for x in pts:
                    tl = OR(tl, eq(lo[i], x))
                    th = OR(th, eq(hi[i], x))
                ctx.ob("%s/%s/tight" % (key, ax), where, "the bound touches the shape on every side", AND(tl, th), gg,
                       {"lower": lo[i], "upper": hi[i]})
            bt = R.call(bq("get_type"), R.struct(K.bound_ty(R), _bound_lower=Agg([T0] * 3), _bound_upper=Agg([T0] * 3)))
            ctx.count("shapes")
            ctx.done(R)
    ctx.floor("shapes", 7)


def boxes(R, ctx, nm, n, K):
    bt = K.bound_ty(R)
    out = []
    for i in range(n):
        lo, hi = vec("%s%dl" % (nm, i), 3), vec("%s%dh" % (nm, i), 3)
        out.append((R.struct(bt, _bound_lower=Agg(lo), _bound_upper=Agg(hi)), lo, hi))
    return bt, out


@check("C22")
def c22(ctx):
    K = SK(ctx, "Point")
    q = bq("intersect")
    where = ctx.where(q)
    with guard(ctx, "overlap", q):
        R = ctx.run()
        bt, ((a, al, ah), (b, bl, bh)) = boxes(R, ctx, "b", 2, K)
        r = R.call(q, a, Dyn(bt, b))
        ok = True
        for i in range(3):
            ok = AND(ok, AND(le(al[i], bh[i]), le(bl[i], ah[i])))
        ctx.ob("overlap/returns", where, "every pair of boxes is answered", R.g)
        ctx.ob("overlap", where, "boxes overlap exactly when their intervals meet on every axis", beq(r, ok), R.g)
        r2 = R.call(q, b, Dyn(bt, a))
        ctx.ob("overlap/symmetric", where, "overlap does not depend on the order of the boxes", beq(r, r2), R.g)
        ctx.count("queries", 2)
        ctx.done(R)
    # every mixture of finite and infinite sides on one axis, the other two being finite or all unbounded
    names = {None: "x", 1: "+", -1: "-"}
    for i in range(3):
        for comb in itertools.product((None, 1, -1), repeat=4):
            if comb == (None,) * 4:
                continue
            key = "overlap/unbounded/%d/%s" % (i, "".join(names[c] for c in comb))
            with guard(ctx, key, q):
                R = ctx.run()
                bt, bs = boxes(R, ctx, "b", 2, K)
                lohi = [[list(x[1]), list(x[2])] for x in bs]
                for n, c in enumerate(comb):
                    if c is not None:
                        lohi[n // 2][n % 2][i] = INF if c > 0 else NINF
                vs = [R.struct(bt, _bound_lower=Agg(x[0]), _bound_upper=Agg(x[1])) for x in lohi]
                r = R.call(q, vs[0], Dyn(bt, vs[1]))
                ok = True
                for j in range(3):
                    ok = AND(ok, AND(le(lohi[0][0][j], lohi[1][1][j]), le(lohi[1][0][j], lohi[0][1][j])))
                ctx.ob(key, where, "sides at infinity are compared like any other", beq(r, ok), R.g)
                ctx.count("queries")
                ctx.done(R)
    q = bq("get_bound_data")
    with guard(ctx, "data", q):
        R = ctx.run()
        bt, ((a, al, ah),) = boxes(R, ctx, "b", 1, K)
        r = R.call(q, a)
        ctx.ob("data", ctx.where(q), "a box reports its lower corner followed by its upper corner",
               veq(list(r.e[:6]), al + ah), R.g)
        ctx.count("queries")
        r = R.call(bq("get_type"), a)
        tt = R.ret_ty(bq("get_type"))
        names = [x["n"] for x in ctx.p.types[tt]["v"]]
        ctx.ob("type", ctx.where(bq("get_type")), "a box reports that it is an axis-aligned box",
               beq(r.d if isinstance(r, EnumV) else r, names.index("AxisAlignBox")), R.g)
        ctx.done(R)
    q = "<%s as std::default::Default>::default" % AABB
    with guard(ctx, "default", q):
        R = ctx.run()
        r = R.call(q)
        lo, hi = R.get(R.ret_ty(q), r, "_bound_lower"), R.get(R.ret_ty(q), r, "_bound_upper")
        ctx.ob("default", ctx.where(q), "the default box is unbounded",
               all(x is NINF for x in lo.e) and all(x is INF for x in hi.e), R.g)
        ctx.count("queries")
        ctx.done(R)
    ctx.floor("queries", 240)


def least(xs, sign):
    r = xs[0]
    for x in xs[1:]:
        c = lt(x, r) if sign < 0 else gt(x, r)
        r = mdd.ite(c, x, r) if not isinstance(c, bool) else (x if c else r)
    return r


@check("C23")
def c23(ctx):
    K = SK(ctx, "Point")
    q = bq("get_union")
    top = 4 if ctx.tier == "thorough" else 3
    for n in range(0, top + 1):
        key = "union/%d" % n
        with guard(ctx, key, q):
            R = ctx.run()
            bt, bs = boxes(R, ctx, "b", n + 1, K)
            obj = R.alloc(bs[0][0], bt)
            R.call(q, obj, Slice([Dyn(bt, b[0]) for b in bs[1:]]))
            w = R.deref(obj)
            ctx.ob(key + "/returns", ctx.where(q), "every list of boxes has a union", R.g)
            for f, sg, col in (("_bound_lower", -1, 1), ("_bound_upper", 1, 2)):
                got = items(R.get(bt, w, f), 3)
                for i in range(3):
                    if n == 0:
                        ctx.ob("%s/%s/%d" % (key, f, i), ctx.where(q), "the union of no boxes is empty",
                               got[i] is (INF if sg < 0 else NINF), R.g)
                        continue
                    xs = [b[col][i] for b in bs[1:]]
                    inside, attained = True, False
                    for x in xs:
                        inside = AND(inside, le(got[i], x) if sg < 0 else ge(got[i], x))
                        attained = OR(attained, eq(got[i], x))
                    ctx.ob("%s/%s/%d" % (key, f, i), ctx.where(q),
                           "the union contains every given box and is the smallest such box", AND(inside, attained), R.g,
                           {"got": got[i]})
            ctx.count("unions")
            ctx.done(R)
    # long lists: no place in the list is left out
    for n in (5, 9, 17, 33, 67) + ((130,) if ctx.tier == "thorough" else ()):
        for at in range(0, n, 6):
            key = "union/long/%d/%d" % (n, at)
            with guard(ctx, key, q):
                R = ctx.run()
                R.I.loop_cap = 3 * n
                bt, bs = boxes(R, ctx, "b", 1, K)
                cs, vs = vec("c", 6), vec("v", 6)
                rows = []
                for i in range(n):
                    w = list(cs)
                    for k in range(6):
                        if min(at + k, n - 1) == i:
                            w[k] = vs[k]
                    rows.append(R.struct(bt, _bound_lower=Agg(w[:3]), _bound_upper=Agg(w[3:])))
                obj = R.alloc(bs[0][0], bt)
                R.call(q, obj, Slice([Dyn(bt, b) for b in rows]))
                w = R.deref(obj)
                got = items(R.get(bt, w, "_bound_lower"), 3) + items(R.get(bt, w, "_bound_upper"), 3)
                for k in range(6):
                    cmp = le if k < 3 else ge
                    ok = AND(AND(cmp(got[k], cs[k]), cmp(got[k], vs[k])), OR(eq(got[k], cs[k]), eq(got[k], vs[k])))
                    ctx.ob("%s/%d" % (key, k), ctx.where(q), "a box counts at every place of a long list", ok, R.g,
                           {"got": got[k]})
                ctx.count("unions")
                ctx.done(R)
    with guard(ctx, "union/unbounded", q):
        R = ctx.run()
        bt, bs = boxes(R, ctx, "b", 2, K)
        inf = R.struct(bt, _bound_lower=Agg([NINF] * 3), _bound_upper=Agg([INF] * 3))
        obj = R.alloc(bs[0][0], bt)
        R.call(q, obj, Slice([Dyn(bt, bs[1][0]), Dyn(bt, inf)]))
        w = R.deref(obj)
        ctx.ob("union/unbounded", ctx.where(q), "the union with an unbounded box is unbounded",
               all(x is NINF for x in items(R.get(bt, w, "_bound_lower"), 3)) and
               all(x is INF for x in items(R.get(bt, w, "_bound_upper"), 3)), R.g)
        ctx.count("unions")
        ctx.done(R)
    q = bq("get_centroid")
    with guard(ctx, "centroid", q):
        R = ctx.run()
        bt, ((a, al, ah),) = boxes(R, ctx, "b", 1, K)
        r = R.call(q, a)
        for i in range(3):
            e = fmul(fadd(al[i], ah[i]), C(Fraction(1, 2)))
            ctx.ob("centroid/%d" % i, ctx.where(q), "the centroid is the midpoint of the corners", feq(r.e[i], e), R.g,
                   {"got": r.e[i]})
        ctx.count("unions")
        ctx.done(R)
    ctx.floor("unions", 6)


@check("C24")
def c24(ctx):
    K = SK(ctx, "Point")
    q = AABB + "::get_longest_axis"
    with guard(ctx, "longest", q):
        R = ctx.run()
        bt, ((a, al, ah),) = boxes(R, ctx, "b", 1, K)
        r = R.call(q, a)
        where = ctx.where(q)
        ctx.ob("longest/returns", where, "every box has a longest axis", R.g)
        rt = R.ret_ty(q)
        names = [x["n"] for x in ctx.p.types[ctx.p.types[rt]["es"][0]]["v"]]
        axis, ext = r.e
        d = axis.d if isinstance(axis, EnumV) else axis
        ext_i = vsub(ah, al)
        for i, n in enumerate("XYZ"):
            is_i = when(d, names.index(n)) if isinstance(d, Node) else (d == names.index(n))
            ctx.ob("longest/%s/extent" % n, where, "the reported extent is the extent of the reported axis",
                   feq(mdd.restrict(ext, AND(is_i, R.g)), ext_i[i]), AND(R.g, is_i), {"extent": ext})
            for j in range(3):
                ctx.ob("longest/%s/max%d" % (n, j), where, "no axis is longer than the reported one",
                       ge(ext_i[i], ext_i[j]), AND(R.g, is_i))
            ctx.count("axes")
        ctx.done(R)
    ctx.floor("axes", 3)
