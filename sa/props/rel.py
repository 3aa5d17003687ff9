"""Relations between queries, refusals, copies: C43-C48."""
from fractions import Fraction
from ..check import *
from ..mir import Unsupported, norm_name
from .. import poly, mdd, values as VV
from .shapes import SK, SUPPORTED, KINDS, PATHS, Obj, AABB, bq, prism_values
from .pairs import ask, pair, crossing_premises, VIC

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


@check("C43")
def c43(ctx):
    rule = "a pair of shapes without an intersection test is refused, and answered with no when their bounds are apart"
    for ka in KINDS:
        for kb in KINDS:
            if kb in SUPPORTED[ka]:
                continue
            A = SK(ctx, ka)
            q = A.q("get_intersect")
            key = "%s-%s" % (ka, kb)
            with guard(ctx, key, q):
                R = ctx.run()
                A, B, a, b = pair(ctx, R, ka, kb)
                f, s, loc = ask(R, A, a, b)
                ctx.ob(key + "/refused", ctx.where(q), rule, NOT(R.g))
                ctx.count("pairs")
                ctx.done(R)
            for i in range(3):
                for up in (False, True):
                    k2 = "%s/apart/%d/%s" % (key, i, "up" if up else "down")
                    with guard(ctx, k2, q):
                        R = ctx.run()
                        A, B, a, b = pair(ctx, R, ka, kb)
                        lo, hi = [C(-1)] * 3, [C(1)] * 3
                        lo2, hi2 = list(lo), list(hi)
                        lo2[i], hi2[i] = (C(2), C(3)) if up else (C(-3), C(-2))
                        a.val = A.set_bound(R, a, lo, hi)
                        b.val = B.set_bound(R, b, lo2, hi2)
                        f, s, loc = ask(R, A, a, b)
                        ctx.ob(k2 + "/answers", ctx.where(q), rule, R.g)
                        ctx.ob(k2, ctx.where(q), rule, AND(NOT(f), NOT(s)), R.g)
                        ctx.count("apart")
                        ctx.done(R)
    ctx.floor("pairs", 28)
    ctx.floor("apart", 168)


def set_tol(R, K, ob, e):
    """The shape after its tolerance was set to e, and to something else before."""
    p = R.alloc(ob.val, ob.ty)
    R.call(K.vq("set_vicinity"), p, V("earlier"))
    R.call(K.vq("set_vicinity"), p, e)
    ob.val = R.deref(p)


def absv(e):
    return mdd.ite(ge(e, T0), e, VV.fneg(e))


@check("C44")
def c44(ctx):
    for p, q_ in (("Plane", "Point"), ("Point", "Plane"), ("Point", "Point"), ("Ray", "Point"), ("Point", "Ray")):
        key = "%s-%s" % (p, q_)
        A = SK(ctx, p)
        q = A.q("get_intersect")
        where = ctx.where(q)
        with guard(ctx, key, q):
            R = ctx.run()
            A, B, a, b = pair(ctx, R, p, q_)
            e, e2 = V("e"), V("e2")
            set_tol(R, A, a, e)
            set_tol(R, B, b, e2)
            R.restart()
            f, s, loc = ask(R, A, a, b)
            ctx.ob(key + "/returns", where, "the query answers for every tolerance", R.g)
            # the tolerance of the plane, of the ray, of the asked point
            tol = absv(e if p != "Point" or q_ == "Point" else e2)

            def near(x):
                return AND(le(x, tol), ge(x, VV.fneg(tol)))
            if "Plane" in (p, q_):
                pl, pt = (a, b) if p == "Plane" else (b, a)
                hit = near(dot(pl.d, vsub(pt.o, pl.o)))
                rule = "a point meets a plane exactly when its distance is at most the plane's tolerance"
                exp = pt.o
            elif "Ray" in (p, q_):
                ray, pt = (a, b) if p == "Ray" else (b, a)
                rel = vsub(pt.o, ray.o)
                t = dot(rel, ray.d)
                hit = ge(t, T0)
                exp = []
                for i in range(3):
                    x = fmul(ray.d[i], t)
                    exp.append(fadd(ray.o[i], x))
                    hit = AND(hit, near(fsub(rel[i], x)))
                rule = "a point meets a ray exactly when the nearest point of the ray's line is ahead and agrees in every " \
                       "coordinate within the ray's tolerance"
            else:
                hit = True
                for x, y in zip(a.o, b.o):
                    hit = AND(hit, near(fsub(x, y)))
                exp = a.o
                rule = "points whose bounds overlap meet exactly when every coordinate agrees within the asked point's tolerance"
            ctx.ob(key, where, rule, beq(f, hit), R.g, {"answer": f})
            h = AND(R.g, AND(f, AND(s, hit)))
            for i, ax in enumerate("xyz"):
                ctx.ob("%s/location/%s" % (key, ax), where, rule + "; the location is on the shape the rule names",
                       feq(mdd.restrict(loc[i], h), mdd.restrict(exp[i], h)), h, {"got": loc[i], "expected": exp[i]})
            ctx.count("queries")
            ctx.done(R)
    q = SK(ctx, "Ray").q("get_intersect")
    where = ctx.where(q)
    with guard(ctx, "Ray-Ray", q):
        R = ctx.run()
        A, B, a, b = pair(ctx, R, "Ray", "Ray")
        e, e2 = V("e"), V("e2")
        set_tol(R, A, a, e)
        set_tol(R, B, b, e2)
        R.restart()
        f, s, loc = ask(R, A, a, b)
        tol = absv(e)
        d = vsub(b.o, a.o)
        v = cross(a.d, b.d)
        crossing_premises(v)
        vd = dot(v, d)
        near = AND(le(vd, tol), ge(vd, VV.fneg(tol)))
        ctx.ob("Ray-Ray/skew", where, "rays on lines further apart than the asked ray's tolerance allows do not intersect", NOT(f),
               AND(R.g, NOT(near)))
        par = True
        for x in v:
            par = AND(par, AND(le(x, C(Fraction(0.0001))), ge(x, C(-Fraction(0.0001)))))
        tn, un = dot(cross(d, b.d), v), dot(cross(d, a.d), v)
        ctx.ob("Ray-Ray/crossing", where, "rays on lines within the asked ray's tolerance intersect exactly when the crossing is "
               "ahead of both", beq(f, AND(ge(tn, T0), ge(un, T0))), AND(R.g, AND(near, NOT(par))))
        ctx.count("queries")
        ctx.done(R)
    with guard(ctx, "Ray-Ray/parallel", q):
        R = ctx.run()
        A = SK(ctx, "Ray")
        a = A.make(R, "a")
        bo = vec("bo", 3)
        b = Obj("Ray", R.call(A.init, Slice(bo), Slice(a.d)), a.ty, o=bo, d=a.d)
        b.val = A.set_bound(R, b, [NINF] * 3, [INF] * 3)
        e, e2 = V("e"), V("e2")
        set_tol(R, A, a, e)
        set_tol(R, A, b, e2)
        R.restart()
        f, s, loc = ask(R, A, a, b)
        c = cross(a.d, vsub(bo, a.o))
        square_premise(*c)
        ctx.ob("Ray-Ray/parallel", where, "rays of one direction intersect exactly when their lines are no further apart than "
               "the asked ray's tolerance", beq(f, le(dot(c, c), fmul(e, e))), R.g)
        ctx.count("queries")
        ctx.done(R)
    ctx.floor("queries", 7)


def fill(R, t, nm, alts):
    """Every value of a plain type: free floats, with one alternative per enum variant or flag taken from `alts`."""
    p = R.p
    t = R.I.peel(t)
    ty = p.types[t]
    k = ty["k"]
    if k == "float":
        return V(nm)
    if k == "bool":
        return alts.pick(2) == 1
    if k == "array":
        return Agg([fill(R, ty["e"], "%s_%d" % (nm, i), alts) for i in range(ty["len"])])
    if k == "tuple":
        if not ty["es"]:
            return UNIT
        return Agg([fill(R, e, "%s_%d" % (nm, i), alts) for i, e in enumerate(ty["es"])])
    if k == "int":
        return alts.pick(3)
    if k == "adt" and ty["ak"] == "enum":
        i = alts.pick(len(ty["v"]))
        return EnumV(i, {i: tuple(fill(R, f[1], "%s_%d" % (nm, j), alts) for j, f in enumerate(ty["v"][i]["f"]))})
    if k == "adt" and ty["ak"] == "struct":
        tr = p.transparent(t)
        fs = p.fields(t)
        if tr is not None:
            return fill(R, fs[tr], "%s_%d" % (nm, tr), alts)
        if all(p.is_zst(f) for f in fs):
            return UNIT
        return Agg([UNIT if p.is_zst(f) else fill(R, f, "%s_%d" % (nm, i), alts) for i, f in enumerate(fs)])
    raise Unsupported("cannot build a value of %s" % ty["n"])


class Alts:
    """Enumerates the finite choices of a value."""

    def __init__(self, todo):
        self.todo, self.i, self.sizes = todo, 0, []

    def pick(self, n):
        self.sizes.append(n)
        v = self.todo[self.i] if self.i < len(self.todo) else 0
        self.i += 1
        return v


def choices(build):
    """Runs build(Alts) for every combination of finite choices."""
    cur = []
    while True:
        a = Alts(cur)
        build(a)
        full = cur + [0] * (len(a.sizes) - len(cur))
        i = len(full) - 1
        while i >= 0 and full[i] + 1 >= a.sizes[i]:
            i -= 1
        if i < 0:
            return
        cur = full[:i] + [full[i] + 1]


def same(x, y):
    if isinstance(x, Agg) or isinstance(y, Agg):
        if not (isinstance(x, Agg) and isinstance(y, Agg) and len(x.e) == len(y.e)):
            return False
        r = True
        for a, b in zip(x.e, y.e):
            r = AND(r, same(a, b))
        return r
    if isinstance(x, EnumV) or isinstance(y, EnumV):
        if not (isinstance(x, EnumV) and isinstance(y, EnumV)):
            return False
        r = beq(x.d, y.d)
        for k in y.p:
            if k in x.p:
                for a, b in zip(x.p[k], y.p[k]):
                    r = AND(r, same(a, b))
            else:
                r = False
        return r
    if x is UNIT or y is UNIT:
        return x is y
    return feq(x, y)


@check("C45")
def c45(ctx):
    p = ctx.p
    names = sorted({norm_name(i["name"]) for i in p.insts.values()
                    if i["local"] and i["body"] and i["name"].startswith("<mazth::") and i["name"].endswith(" as std::clone::Clone>::clone")})
    for q in names:
        ctx.count("types")

        def build(alts, q=q):
            key = q.split(" as ")[0][1:]
            with guard(ctx, key, q):
                R = ctx.run()
                t = R.arg_ty(q, 0)
                v = fill(R, t, "x", alts)
                obj = R.alloc(v, t)
                r = R.call(q, obj)
                tag = key + "".join("/%d" % x for x in alts.todo)
                ctx.ob(tag + "/returns", ctx.where(q), "a value can be copied", R.g)
                ctx.ob(tag + "/copy", ctx.where(q), "a copy equals its original in every component", same(r, v), R.g)
                ctx.ob(tag + "/original", ctx.where(q), "copying leaves the original as it was", same(R.deref(obj), v), R.g)
                ctx.done(R)
        choices(build)
    ctx.floor("types", 26)


def about(axis, u):
    """Rotation about a coordinate axis; u holds the cosine and the sine of its angle."""
    i, j = (axis + 1) % 3, (axis + 2) % 3

    def turn(w):
        r = list(w)
        r[i] = fsub(fmul(u[0], w[i]), fmul(u[1], w[j]))
        r[j] = fadd(fmul(u[1], w[i]), fmul(u[0], w[j]))
        return r
    return turn


def placed(ctx, R, K, nm, T, perm, first, flip=(), k=None, rot=None):
    """A shape made from the values `first`, moved by T, its axes relabelled by perm, the axes in `flip` reversed,
    turned by `rot` and every length multiplied by k."""
    kind = K.kind

    def turn(w):
        w = [w[i] for i in perm]
        w = [VV.fneg(x) if i in flip else x for i, x in enumerate(w)]
        return rot(w) if rot else w

    def size(x):
        return x if k is None else fmul(x, k)

    def pt(v):
        return [size(x) for x in turn(vadd(v, T) if T else v)]
    t = K.ty(R)
    if kind == "TriPrism":
        h = first["h"]
        val = K.prism(R, [pt(x) for x in first["v"]], [size(x) for x in turn(first["n"])], h if h is None else size(h))
        ob = Obj(kind, val, t)
        ob.val = K.set_bound(R, ob, [NINF] * 3, [INF] * 3)
        return ob
    if kind in ("Ray", "Plane"):
        args = [Slice(pt(first["o"])), Slice(turn(first["d"]))]
    elif kind in ("Sphere", "Box"):
        args = [Slice(pt(first["o"])), size(first["r"])]
    elif kind == "Point":
        args = [Slice(pt(first["o"]))]
    else:
        args = [Slice(pt(first["a"])), Slice(pt(first["b"]))]
    val = R.call(K.init, *args)
    return Obj(kind, val, t)


def free_values(K, R, nm):
    k = K.kind
    if k == "TriPrism":
        return prism_values(K, R, nm)
    if k in ("Ray", "Plane"):
        return dict(o=vec(nm + "o", 3), d=unit_vec(nm + "d", 3))
    if k in ("Sphere", "Box"):
        return dict(o=vec(nm + "o", 3), r=V(nm + "r", (0, 1)))
    if k == "Point":
        return dict(o=vec(nm + "o", 3))
    return dict(a=vec(nm + "o", 3), b=vec(nm + "b", 3))


@check("C46")
def c46(ctx):
    ID = (0, 1, 2)
    for ka in KINDS:
        for kb in SUPPORTED[ka]:
            if "TriPrism" in (ka, kb) and "Line" in (ka, kb):
                continue
            for what, perm in (("moved", ID), ("relabelled", (1, 2, 0)), ("swapped", (1, 0, 2)), ("reversed", ID)):
                flip = (0,) if what == "reversed" else ()
                if what in ("swapped", "reversed") and (ka == kb == "Ray" or "TriPrism" in (ka, kb)):
                    continue        # the winding of a prism and the side of a crossing change with the orientation of the axes
                key = "%s-%s/%s" % (ka, kb, what)
                A = SK(ctx, ka)
                q = A.q("get_intersect")
                with guard(ctx, key, q):
                    R = ctx.run()
                    A, B = SK(ctx, ka), SK(ctx, kb)
                    fa, fb = free_values(A, R, "a"), free_values(B, R, "b")
                    T = vec("t", 3) if what == "moved" else None
                    a1, b1 = placed(ctx, R, A, "a", None, ID, fa), placed(ctx, R, B, "b", None, ID, fb)
                    a2, b2 = placed(ctx, R, A, "a", T, perm, fa, flip), placed(ctx, R, B, "b", T, perm, fb, flip)
                    R.restart()
                    f1, s1, l1 = ask(R, A, a1, b1)
                    ctx.ob(key + "/answers", ctx.where(q), "the query answers", R.g)
                    g1 = R.g
                    R.restart()
                    f2, s2, l2 = ask(R, A, a2, b2)
                    g = AND(g1, R.g)
                    rule = "the answer does not depend on the choice of origin" if T else "the answer does not depend on the names and directions of the axes"
                    ctx.ob(key + "/answers-too", ctx.where(q), "the query answers", R.g)
                    ctx.ob(key, ctx.where(q), rule, AND(beq(f1, f2), beq(s1, s2)), g)
                    h = AND(g, AND(AND(f1, s1), AND(f2, s2)))
                    e = vadd(l1, T) if T else l1
                    e = [VV.fneg(e[p]) if i in flip else e[p] for i, p in enumerate(perm)]
                    for i, ax in enumerate("xyz"):
                        ctx.ob("%s/location/%s" % (key, ax), ctx.where(q), "the location moves along with the shapes",
                               feq(mdd.restrict(l2[i], h), mdd.restrict(e[i], h)), h, {"one": e[i], "other": l2[i]})
                    ctx.count("queries")
                    ctx.done(R)
    ctx.floor("queries", 40)


def symbolic_bound(R, K, ob, nm):
    lo, hi = vec(nm + "lo", 3), vec(nm + "hi", 3)
    ob.val = K.set_bound(R, ob, lo, hi)
    pre = True
    for x, y in zip(lo, hi):
        pre = AND(pre, le(x, y))
    return lo, hi, pre


@check("C47")
def c47(ctx):
    for ka in KINDS:
        for kb in SUPPORTED[ka]:
            if "TriPrism" in (ka, kb) and "Line" in (ka, kb):
                continue
            key = "%s-%s" % (ka, kb)
            A = SK(ctx, ka)
            q = A.q("get_intersect")
            where = ctx.where(q)
            with guard(ctx, key, q):
                R = ctx.run()
                A, B, a, b = pair(ctx, R, ka, kb)
                f0, s0, l0 = ask(R, A, a, b)
                g0 = R.g
                R.restart()
                al, ah, p1 = symbolic_bound(R, A, a, "a")
                bl, bh, p2 = symbolic_bound(R, B, b, "b")
                f1, s1, l1 = ask(R, A, a, b)
                pre = AND(p1, p2)
                meet = True
                for i in range(3):
                    meet = AND(meet, AND(le(al[i], bh[i]), le(bl[i], ah[i])))
                ctx.ob(key + "/answers", where, "the query answers for all bounds", R.g, pre)
                g = AND(AND(g0, R.g), pre)
                ctx.ob(key + "/apart", where, "shapes whose bounds do not meet do not intersect", AND(NOT(f1), NOT(s1)),
                       AND(g, NOT(meet)))
                rule = "shapes whose bounds meet get the answer of their geometry"
                ctx.ob(key + "/meet", where, rule, AND(beq(f0, f1), beq(s0, s1)), AND(g, meet))
                h = AND(AND(g, meet), AND(AND(f0, f1), AND(s0, s1)))
                for i, ax in enumerate("xyz"):
                    ctx.ob("%s/location/%s" % (key, ax), where, rule, feq(mdd.restrict(l0[i], h), mdd.restrict(l1[i], h)), h,
                           {"without bounds": l0[i], "with": l1[i]})
                ctx.count("queries")
                ctx.done(R)
    # the bound of a shape holds its points
    rule = "every point of a shape lies in its bound"
    for k in KINDS:
        K = SK(ctx, k)
        q = K.init
        with guard(ctx, k + "/inside", q):
            R = ctx.run()
            if k == "TriPrism":
                args, d = K.args("s", full=True)
                val = R.call(q, *args)
                t = K.ty(R)
                pts = []
                for f in ("_tri_base", "_tri_base2"):
                    pts += [K.v3.rd(R, x) for x in R.get(t, val, f).e]
                ob = Obj(k, val, t)
            elif k == "Line":
                ob = K.make(R, "s", open_bound=False)
                pts = [ob.a, ob.b]
            else:
                ob = K.make(R, "s", open_bound=False)
                t = V("t", (0, 1))
                if k == "Point":
                    pts = [ob.o]
                elif k == "Ray":
                    pts = [vadd(ob.o, vscale(ob.d, t))]
                elif k == "Plane":
                    pts = [vec("p", 3)]
                else:
                    pts = [vec("p", 3)]
            g = R.g
            if k == "TriPrism":
                cr = cross(vsub(d["v"][1], d["v"][0]), vsub(d["v"][2], d["v"][0]))
                g = AND(g, gt(dot(cr, cr), T0))
            if k in ("Sphere", "Box"):
                for x, y in zip(pts[0], ob.o):
                    d = fsub(x, y)
                    g = AND(g, AND(le(d, ob.r), ge(d, VV.fneg(ob.r))))
            bt = K.bound_ty(R)
            bv = R.get(ob.ty, ob.val, "_bound")
            lo, hi = R.get(bt, bv, "_bound_lower").e, R.get(bt, bv, "_bound_upper").e
            for j, pnt in enumerate(pts):
                for i, ax in enumerate("xyz"):
                    ctx.ob("%s/inside/%d/%s" % (k, j, ax), ctx.where(q), rule, AND(le(lo[i], pnt[i]), le(pnt[i], hi[i])), g,
                           {"lower": lo[i], "upper": hi[i], "point": pnt[i]})
            ctx.count("shapes")
            ctx.done(R)
    ctx.floor("queries", 19)
    ctx.floor("shapes", 7)


SLICES = {"Point": [3], "Sphere": [3], "Box": [3], "Ray": [3, 3], "Plane": [3, 3], "Line": [3, 3], "TriPrism": [9]}
BOUND_LENS = {"Point": 3, "Ray": 6, "Sphere": 4, "Plane": 6, "Box": 4, "Rect": 6}


# indices that come back into range when they are cut to fewer bits or digits, and their neighbours
FAR_INDICES = sorted({2 ** k + d for k in range(5, 64) for d in (-1, 0, 1)} | {10 ** k + d for k in range(2, 19) for d in (0, 1)} |
                     {2 ** 64 - 1})
FAR_LENGTHS = [24, 27, 32, 36, 48, 64, 100, 128, 256, 260]


@check("C48")
def c48(ctx):
    """Refusals: wrong numbers of coordinates, indices out of range, shapes without a bound."""
    top = 12 if ctx.tier == "quick" else 20
    rule = "a shape is not made from a wrong number of coordinates"
    for k in KINDS:
        K = SK(ctx, k)
        lens = SLICES[k]
        for j in range(len(lens)):
            for n in list(range(top)) + FAR_LENGTHS:
                if n == lens[j]:
                    continue
                key = "%s/%d/%d" % (k, j, n)
                with guard(ctx, key, K.init):
                    R = ctx.run()
                    args = [Slice(vec("a%d_" % i, n if i == j else lens[i])) for i in range(len(lens))]
                    if k in ("Sphere", "Box", "TriPrism"):
                        args.append(V("r", (1,)))
                    R.call(K.init, *args)
                    ctx.ob(key, ctx.where(K.init), rule, NOT(R.g))
                    ctx.count("constructions")
                    ctx.done(R)
    q = AABB + "::init"
    st = ctx.p.adt("i_shape::ShapeType")
    for i, v in enumerate(ctx.p.types[st]["v"]):
        for n in list(range(top)) + FAR_LENGTHS:
            key = "bound/%s/%d" % (v["n"], n)
            if BOUND_LENS.get(v["n"]) == n or v["n"] in ("TriPrism", "Line", "Trig", "Frustum", "Complex"):
                continue
            with guard(ctx, key, q):
                R = ctx.run()
                R.call(q, EnumV(i, {i: ()}), Slice(vec("v", n)))
                ctx.ob(key, ctx.where(q), "a bound is not made from a wrong number of coordinates", NOT(R.g))
                ctx.count("bounds")
                ctx.done(R)
    rule = "an entry that does not exist is refused"
    for f in ("f32", "f64"):
        for m, n in (("Mat2x1", 2), ("Mat1x2", 2), ("Mat3x1", 3), ("Mat1x3", 3), ("Mat4x1", 4), ("Mat1x4", 4)):
            for tr, op in (("Index", "index"), ("IndexMut", "index_mut")):
                q = "<mazth::mat::%s<%s> as std::ops::%s<usize>>::%s" % (m, f, tr, op)
                for i in list(range(n, top)) + FAR_INDICES:
                    key = "%s<%s>/%s/%d" % (m, f, op, i)
                    with guard(ctx, key, q):
                        R = ctx.run()
                        v = vec("x", n)
                        from .mats import VecKind
                        K = VecKind(ctx, m, n, f)
                        R.call(q, K.mk(R, v), i)
                        ctx.ob(key, ctx.where(q), rule, NOT(R.g))
                        ctx.count("entries")
                        ctx.done(R)
    # foreign kinds of bound
    for op in ("intersect", "get_union"):
        q = bq(op)
        key = "foreign/" + op
        with guard(ctx, key, q):
            R = ctx.run()
            bs = ctx.p.adt("bound_sphere::BoundSphere")
            v = Dyn(bs, R.I.skeleton(bs))
            bt = R.ret_ty(AABB + "::init")
            a = R.struct(bt, _bound_lower=Agg(vec("l", 3)), _bound_upper=Agg(vec("h", 3)))
            R.call(q, a, v if op == "intersect" else Slice([v]))
            ctx.ob(key, ctx.where(q), "boxes are not combined with bounds of another kind", NOT(R.g))
            ctx.count("foreign")
            ctx.done(R)
    ctx.floor("constructions", 90)
    ctx.floor("bounds", 60)
    ctx.floor("entries", 180)


class NoValue(Exception):
    pass


def any_arg(R, t, nm, alts, kinds):
    """Some argument of a parameter type: free numbers, every kind of shape, lists of every relevant length."""
    p = R.p
    t = R.I.peel(t)
    ty = p.types[t]
    if ty["k"] in ("ref", "ptr"):
        e = ty["e"]
        ek = p.types[e]
        if ek["k"] == "dyn":
            if "IShape" in ek["n"]:
                K = kinds[alts.pick(len(kinds))]
                return K.make(R, nm).dyn()
            if "IBound" in ek["n"]:
                bt = kinds[0].bound_ty(R)
                return Dyn(bt, fill(R, bt, nm, alts))
            raise NoValue(ek["n"])
        if ek["k"] == "slice":
            se = p.types[R.I.peel(ek["e"])]
            if se["k"] == "float":
                n = (0, 1, 2, 3, 4, 6, 9, 12, 16)[alts.pick(9)]
                return Slice(vec(nm, n))
            n = alts.pick(4)
            return Slice([any_arg(R, ek["e"], "%s_%d" % (nm, i), alts, kinds) for i in range(n)])
        if ek["k"] == "adt" and not ek["def"].startswith("mazth"):
            raise NoValue(ek["n"])
        return R.alloc(fill(R, e, nm, alts), e)
    if ty["k"] == "int":
        return alts.pick(6)
    if ty["k"] in ("closure", "fndef", "fnptr", "param"):
        raise NoValue(ty["n"])
    return fill(R, t, nm, alts)


@check("C49")
def c49(ctx):
    p = ctx.p
    kinds = [SK(ctx, k) for k in KINDS]
    rule = "every loop has a number of rounds, and every chain of calls a depth, that the numbers given to it do not affect"
    ctx.explanation = ("Abstract interpretation of every operation of the library on arguments with free numbers: a loop is "
                       "accepted when its exit is decided, for all values at once, within %d rounds." % 70)
    called = set()
    mine = {}
    for k, i in p.insts.items():
        if i["local"] and i["body"]:
            mine[k] = i
    for k, i in mine.items():
        for b in i["body"]["blocks"]:
            t = b[1]
            if t[0] == "call" and isinstance(t[1], str):
                called.add(t[1])
    byname = {}
    for k, i in mine.items():
        n = norm_name(i["name"])
        if "{" in n or n.endswith("::fmt") or "::query_intersect" in n or "::{closure" in i["name"] or i["kind"] == "shim":
            continue
        byname.setdefault(n, k)
    for q in sorted(byname):
        k = byname[q]
        body = p.insts[k]["body"]
        worst = [0]
        found = []
        skipped = []

        def build(alts):
            if found or skipped:
                alts.sizes = [1] * len(alts.todo)
                return
            try:
                m = q.rsplit("::", 1)[1]
                R = ctx.run()
                args = []
                for a in range(body["argc"]):
                    t = body["locals"][a + 1]
                    if m in ("get_intersect", "get_support") and a == 0:
                        K = [x for x in kinds if q.startswith("<%s as" % x.path)]
                        if K:
                            args.append(K[0].make(R, "a").val)
                            continue
                    args.append(any_arg(R, t, "x%d" % a, alts, kinds))
                R.restart()
                R.I.coarse = True
                R.call(q, *args)
                worst[0] = max(worst[0], R.I.nblocks)
                ctx.done(R)
            except NoValue as e:
                skipped.append("arguments")
            except (Unsupported, RecursionError) as e:
                s = str(e)
                if "loop bound" in s or "recursion" in s or isinstance(e, RecursionError) or "budget" in s:
                    found.append(s)
                elif "cannot build" in s or k in called:
                    skipped.append(s)
                else:
                    found.append(s)
        with guard(ctx, q, q):
            choices(build)
            if skipped and not found:
                ctx.count("covered through their callers")
                continue
            ctx.obls.append((q, ctx.where(q), rule))
            ctx.count("operations")
            ctx.counts["steps at most"] = max(ctx.counts.get("steps at most", 0), worst[0])
            if found:
                ctx.violation(q + "/loop", ctx.where(q), rule, {"reason": found[0]})
    ctx.floor("operations", 400)


@check("C50")
def c50(ctx):
    ID = (0, 1, 2)
    for ka in KINDS:
        for kb in SUPPORTED[ka]:
            if "TriPrism" in (ka, kb) and "Line" in (ka, kb):
                continue
            key = "%s-%s" % (ka, kb)
            q = SK(ctx, ka).q("get_intersect")
            with guard(ctx, key, q):
                R = ctx.run()
                A, B = SK(ctx, ka), SK(ctx, kb)
                fa, fb = free_values(A, R, "a"), free_values(B, R, "b")
                if ka == kb == "Ray":
                    crossing_premises(cross(fa["d"], fb["d"]))
                k, ea, eb = V("k", (1,)), V("ea", (0, 1)), V("eb", (0, 1))
                obs = []
                for u in (None, k):
                    a, b = placed(ctx, R, A, "a", None, ID, fa, (), u), placed(ctx, R, B, "b", None, ID, fb, (), u)
                    set_tol(R, A, a, ea if u is None else fmul(ea, u))
                    set_tol(R, B, b, eb if u is None else fmul(eb, u))
                    obs.append((a, b))
                res = []
                for a, b in obs:
                    R.restart()
                    f, s, l = ask(R, A, a, b)
                    res.append((R.g, f, s, l))
                (g1, f1, s1, l1), (g2, f2, s2, l2) = res
                rule = "the answer does not depend on the unit of length"
                ctx.ob(key + "/answers", ctx.where(q), "the query answers in either unit or in neither", beq(g1, g2))
                g = AND(g1, g2)
                ctx.ob(key, ctx.where(q), rule, AND(beq(f1, f2), beq(s1, s2)), g)
                h = AND(g, AND(AND(f1, s1), AND(f2, s2)))
                for i, ax in enumerate("xyz"):
                    e = fmul(l1[i], k)
                    ctx.ob("%s/location/%s" % (key, ax), ctx.where(q), "the location is the same place in either unit",
                           feq(mdd.restrict(l2[i], h), mdd.restrict(e, h)), h, {"one": e, "other": l2[i]})
                ctx.count("queries")
                ctx.done(R)
    ctx.floor("queries", 19)


ROUND = [("Sphere", "Sphere"), ("Sphere", "Point"), ("Point", "Sphere"), ("Sphere", "Plane"), ("Plane", "Sphere"), ("Ray", "Sphere"),
         ("Sphere", "Ray"), ("Ray", "Plane"), ("Plane", "Ray"), ("Plane", "Point"), ("Point", "Plane"), ("Ray", "Ray"),
         ("TriPrism", "Point"), ("Point", "TriPrism")]


def apart(c):
    """The cross product of two directions is not taken for zero, being larger than 0.0002 in some component."""
    r, e = False, C(Fraction(2, 10 ** 4))
    for x in c:
        r = OR(r, OR(gt(x, e), lt(x, VV.fneg(e))))
    return r


@check("C53")
def c53(ctx):
    ID = (0, 1, 2)
    for ka, kb, axis in [(a, b, i) for a, b in ROUND for i in range(3)]:
        if kb not in SUPPORTED[ka]:
            continue
        key = "%s-%s/%s" % (ka, kb, "xyz"[axis])
        q = SK(ctx, ka).q("get_intersect")
        with guard(ctx, key, q):
            R = ctx.run()
            A, B = SK(ctx, ka), SK(ctx, kb)
            fa, fb = free_values(A, R, "a"), free_values(B, R, "b")
            rot = about(axis, unit_vec("u", 2))
            pre = True
            if ka == kb == "Ray":
                c = cross(fa["d"], fb["d"])
                crossing_premises(c)
                crossing_premises(rot(c))
                pre = AND(apart(c), apart(rot(c)))
            obs = []
            for r in (None, rot):
                obs.append((placed(ctx, R, A, "a", None, ID, fa, rot=r), placed(ctx, R, B, "b", None, ID, fb, rot=r)))
            res = []
            for a, b in obs:
                a.val = A.set_bound(R, a, [NINF] * 3, [INF] * 3)
                b.val = B.set_bound(R, b, [NINF] * 3, [INF] * 3)
                R.restart()
                res.append((lambda t: (R.g,) + tuple(t))(ask(R, A, a, b)))
            (g1, f1, s1, l1), (g2, f2, s2, l2) = res
            ctx.ob(key + "/answers", ctx.where(q), "the query answers whichever way the axes point", beq(g1, g2), pre)
            g = AND(pre, AND(g1, g2))
            ctx.ob(key, ctx.where(q), "the answer does not depend on the directions of the axes", AND(beq(f1, f2), beq(s1, s2)), g)
            h = AND(g, AND(AND(f1, s1), AND(f2, s2)))
            for i, e in enumerate(rot(l1)):
                ctx.ob("%s/location/%s" % (key, "xyz"[i]), ctx.where(q), "the location turns along with the shapes",
                       feq(mdd.restrict(l2[i], h), mdd.restrict(e, h)), h, {"one": e, "other": l2[i]})
            ctx.count("queries")
            ctx.done(R)
    ctx.floor("queries", 39)
