"""Intersection queries between pairs of shapes: C25-C36."""
from fractions import Fraction
from ..check import *
from .. import poly, mdd, values as VV
from .shapes import SK, SUPPORTED, KINDS, PATHS

CHECKS = {}
VIC = Fraction(0.000001)


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def ask(R, A, a, b):
    """(flag, has location, location) of a.get_intersect(b)."""
    q = A.q("get_intersect")
    r = R.call(q, a.val, b.dyn())
    return A.result(R, r, q)


def pair(ctx, R, ka, kb, open_bound=True):
    A, B = SK(ctx, ka), SK(ctx, kb)
    a = A.make(R, "a", open_bound=open_bound)
    b = B.make(R, "b", open_bound=open_bound)
    R.restart()
    return A, B, a, b


def crossing_premises(v):
    """The square of the length of v is at least the square of each component."""
    square_premise(v[0], v[1])
    square_premise(v[1], v[2])
    square_premise(v[2], v[0])


def both_ways(ctx, ka, kb, key, rule, spec):
    """Obligations of the pair asked from either side: spec(R, x, y) with x of kind ka, y of kind kb gives
    (premise, hit, location)."""
    for p, q_ in ((ka, kb), (kb, ka)) if ka != kb else ((ka, kb),):
        k2 = "%s/%s-%s" % (key, p, q_)
        A = SK(ctx, p)
        q = A.q("get_intersect")
        with guard(ctx, k2, q):
            R = ctx.run()
            A, B, a, b = pair(ctx, R, p, q_)
            x, y = (a, b) if p == ka else (b, a)
            f, s, loc = ask(R, A, a, b)
            where = ctx.where(q)
            pre, hit, exp = spec(R, x, y)
            ctx.ob(k2 + "/returns", where, "the query answers", R.g, pre)
            g = AND(R.g, pre)
            ctx.ob(k2 + "/hit", where, rule, beq(f, hit), g, {"answer": f})
            ctx.ob(k2 + "/coherent", where, "a location is given exactly when the answer is yes", beq(f, s), g)
            h = AND(g, AND(f, AND(s, hit)))
            if exp is not None:
                for i, ax in enumerate("xyz"):
                    ctx.ob("%s/location/%s" % (k2, ax), where, rule + "; the location is the stated one",
                           feq(mdd.restrict(loc[i], h), mdd.restrict(exp[i], h)), h, {"got": loc[i], "expected": exp[i]})
            ctx.count("queries")
            ctx.done(R)


def located(ctx, A, q, key, ka, kb):
    with guard(ctx, key, q):
        R = ctx.run()
        A, B, a, b = pair(ctx, R, ka, kb)
        if ka == kb == "Ray":
            crossing_premises(cross(a.d, b.d))
        f, s, loc = ask(R, A, a, b)
        ctx.ob(key + "/flag", ctx.where(q), "a location is given exactly when the answer is yes", beq(f, s), R.g)
        for i, x in enumerate(loc):
            bad = [t for t in terminals(x) if not isinstance(t, Term)] if isinstance(x, Node) else \
                ([x] if not isinstance(x, Term) else [])
            if s is not False:
                h = AND(AND(R.g, f), s)
                y = mdd.restrict(x, h)
                ok = apply1("isnum", lambda t: isinstance(t, Term), y)
                ctx.ob("%s/number%d" % (key, i), ctx.where(q), "the location of an intersection is a number", ok, h,
                       {"got": x})
        ctx.count("pairs")
        ctx.done(R)


@check("C25")
def c25(ctx):
    for ka in KINDS:
        for kb in SUPPORTED[ka]:
            A = SK(ctx, ka)
            q = A.q("get_intersect")
            key = "%s-%s" % (ka, kb)
            if not ("TriPrism" in (ka, kb) and "Line" in (ka, kb)):     # that pair is decided with its geometry (C37)
                located(ctx, A, q, key, ka, kb)
            # bounds that do not meet
            for i in range(3):
                k2 = "%s/apart/%d" % (key, i)
                with guard(ctx, k2, q):
                    R = ctx.run()
                    A, B, a, b = pair(ctx, R, ka, kb)
                    lo, hi = [C(-1)] * 3, [C(1)] * 3
                    lo2, hi2 = list(lo), list(hi)
                    lo2[i], hi2[i] = C(2), C(3)
                    a.val = A.set_bound(R, a, lo, hi)
                    b.val = B.set_bound(R, b, lo2, hi2)
                    f, s, loc = ask(R, A, a, b)
                    ctx.ob(k2, ctx.where(q), "a location is given exactly when the answer is yes", beq(f, s), R.g)
                    ctx.count("pairs")
                    ctx.done(R)
    ctx.floor("pairs", 70)


def parts_of_square(d):
    """Any two components of d have a sum of squares that is not negative."""
    for i in range(3):
        square_premise(d[(i + 1) % 3], d[(i + 2) % 3])


@check("C26")
def c26(ctx):
    for ka in KINDS:
        for kb in SUPPORTED[ka]:
            if "TriPrism" in (ka, kb) and "Line" in (ka, kb):
                continue
            A = SK(ctx, ka)
            q = A.q("get_intersect")
            key = "%s-%s" % (ka, kb)
            with guard(ctx, key, q):
                R = ctx.run()
                A, B, a, b = pair(ctx, R, ka, kb)
                if ka == kb == "Sphere":
                    parts_of_square(vsub(b.o, a.o))
                f, s, loc = ask(R, A, a, b)
                ctx.ob(key + "/answers", ctx.where(q), "the query answers for every pair of positions", R.g)
                ctx.count("pairs")
                if ka == "Ray" and kb == "Ray":
                    ctx.done(R)
                    continue
                R.restart()
                f2, s2, loc2 = ask(R, B, b, a)
                ctx.ob(key + "/symmetric", ctx.where(q), "the answer does not depend on which shape is asked", beq(f, f2), R.g)
                if ka != kb or ka == "Sphere":
                    h = AND(AND(R.g, AND(f, f2)), AND(s, s2))
                    for i in range(3):
                        ctx.ob("%s/symmetric/%d" % (key, i), ctx.where(q),
                               "the location does not depend on which shape is asked",
                               feq(mdd.restrict(loc[i], h), mdd.restrict(loc2[i], h)), h, {"one": loc[i], "other": loc2[i]})
                ctx.done(R)
    ctx.floor("pairs", 19)


@check("C27")
def c27(ctx):
    def spec(R, ray, sph):
        rel = vsub(ray.o, sph.o)
        b = dot(rel, ray.d)
        square_premise(b)
        c = fsub(dot(rel, rel), fmul(sph.r, sph.r))
        disc = fsub(fmul(b, b), c)
        hit = OR(le(c, T0), AND(le(b, T0), ge(disc, T0)))
        s = VV.fsqrt(mdd.restrict(disc, hit))
        t1, t2 = fsub(VV.fneg(b), s), fadd(VV.fneg(b), s)
        t = mdd.ite(ge(t1, T0), t1, t2)
        return True, hit, vadd(ray.o, vscale(ray.d, t))
    both_ways(ctx, "Ray", "Sphere", "ray-sphere",
              "a ray meets a sphere exactly when it starts inside or runs into it, at the first point ahead", spec)
    ctx.floor("queries", 2)


@check("C28")
def c28(ctx):
    def spec(R, ray, pl):
        den = dot(pl.d, ray.d)
        num = dot(pl.d, vsub(pl.o, ray.o))
        on = eq(num, T0)
        flat = eq(den, T0)
        front = lt(den, T0)
        hit = OR(AND(flat, on), AND(front, le(num, T0)))
        t = VV.fdiv(mdd.restrict(num, front), mdd.restrict(den, front))
        loc = [mdd.ite(flat, o, fadd(o, fmul(d, t))) for o, d in zip(ray.o, ray.d)]
        return True, hit, loc
    both_ways(ctx, "Ray", "Plane", "ray-plane",
              "a ray meets a plane exactly when it runs into its front side ahead or starts in it and runs along it", spec)
    ctx.floor("queries", 2)


@check("C29")
def c29(ctx):
    A = SK(ctx, "Ray")
    q = A.q("get_intersect")
    where = ctx.where(q)
    with guard(ctx, "general", q):
        R = ctx.run()
        A, B, a, b = pair(ctx, R, "Ray", "Ray")
        f, s, loc = ask(R, A, a, b)
        ctx.ob("general/returns", where, "the query answers", R.g)
        d = vsub(b.o, a.o)
        v = cross(a.d, b.d)
        crossing_premises(v)
        vd = dot(v, d)
        near = AND(le(vd, C(VIC)), ge(vd, C(-VIC)))
        ctx.ob("general/skew", where, "rays on lines that do not meet do not intersect", NOT(f), AND(R.g, NOT(near)))
        par = True
        for x in v:
            par = AND(par, AND(le(x, C(Fraction(0.0001))), ge(x, C(-Fraction(0.0001)))))
        vv = dot(v, v)
        g = AND(R.g, AND(near, NOT(par)))
        tn, un = dot(cross(d, b.d), v), dot(cross(d, a.d), v)
        ctx.ob("general/crossing", where, "rays on crossing lines intersect exactly when the crossing is ahead of both",
               beq(f, AND(ge(tn, T0), ge(un, T0))), g)
        h = AND(g, AND(f, s))
        t = VV.fdiv(tn, mdd.restrict(vv, h))
        for i, ax in enumerate("xyz"):
            e = fadd(a.o[i], fmul(a.d[i], t))
            ctx.ob("general/location/" + ax, where, "the location is the point of the asked ray nearest to the other line",
                   feq(mdd.restrict(loc[i], h), mdd.restrict(e, h)), h, {"got": loc[i], "expected": e})
        ctx.ob("general/coherent", where, "a location is given exactly when the answer is yes", beq(f, s), R.g)
        ctx.count("queries")
        ctx.done(R)
    # one line: the second ray starts on the line of the first and runs along or against it
    for same in (True, False):
        key = "colinear/" + ("same" if same else "opposite")
        with guard(ctx, key, q):
            R = ctx.run()
            A = SK(ctx, "Ray")
            a = A.make(R, "a")
            k = V("k")
            bo = vadd(a.o, vscale(a.d, k))
            bd = a.d if same else [VV.fneg(x) for x in a.d]
            bval = R.call(A.init, Slice(bo), Slice(bd))
            from .shapes import Obj
            b = Obj("Ray", bval, a.ty, o=bo, d=bd)
            b.val = A.set_bound(R, b, [NINF] * 3, [INF] * 3)
            R.restart()
            f, s, loc = ask(R, A, a, b)
            ctx.ob(key + "/returns", where, "the query answers", R.g)
            ahead = ge(k, T0)
            if same:
                ctx.ob(key, where, "rays on one line in one direction intersect", f, R.g)
                exp = [mdd.ite(ahead, x, y) for x, y in zip(bo, a.o)]
                rule = "the location is the later of the two origins"
            else:
                ctx.ob(key, where, "rays on one line in opposite directions intersect exactly when they face each other",
                       beq(f, ahead), R.g)
                exp = bo
                rule = "the location is the origin of the other ray"
            h = AND(R.g, AND(f, s))
            for i, ax in enumerate("xyz"):
                ctx.ob("%s/location/%s" % (key, ax), where, rule,
                       feq(mdd.restrict(loc[i], h), mdd.restrict(exp[i], h)), h, {"got": loc[i], "expected": exp[i]})
            ctx.count("queries")
            ctx.done(R)
    # parallel lines apart
    with guard(ctx, "parallel", q):
        R = ctx.run()
        A = SK(ctx, "Ray")
        a = A.make(R, "a")
        bo = vec("bo", 3)
        b = Obj("Ray", R.call(A.init, Slice(bo), Slice(a.d)), a.ty, o=bo, d=a.d)
        b.val = A.set_bound(R, b, [NINF] * 3, [INF] * 3)
        R.restart()
        f, s, loc = ask(R, A, a, b)
        c = cross(a.d, vsub(bo, a.o))
        ctx.ob("parallel", where, "rays on parallel lines further apart than the tolerance do not intersect", NOT(f),
               AND(R.g, gt(dot(c, c), C(VIC * VIC))))
        ctx.count("queries")
        ctx.done(R)
    ctx.floor("queries", 4)


from .shapes import Obj


@check("C30")
def c30(ctx):
    for p, q_ in (("Ray", "Point"), ("Point", "Ray")):
        key = "ray-point/%s-%s" % (p, q_)
        A = SK(ctx, p)
        q = A.q("get_intersect")
        where = ctx.where(q)
        with guard(ctx, key, q):
            R = ctx.run()
            A, B, a, b = pair(ctx, R, p, q_)
            ray, pt = (a, b) if p == "Ray" else (b, a)
            f, s, loc = ask(R, A, a, b)
            ctx.ob(key + "/returns", where, "the query answers", R.g)
            rel = vsub(pt.o, ray.o)
            t = dot(rel, ray.d)
            off = [fsub(x, fmul(d, t)) for x, d in zip(rel, ray.d)]
            far = False
            for x in off:
                far = OR(far, OR(gt(x, C(2 * VIC)), lt(x, C(-2 * VIC))))
            ctx.ob(key + "/near", where, "a point further from the line than the tolerance is not on the ray", NOT(f),
                   AND(R.g, far))
            ctx.ob(key + "/behind", where, "a point behind the ray's origin by more than the tolerance is not on it", NOT(f),
                   AND(R.g, lt(t, C(-VIC * 2))))
            ctx.ob(key + "/coherent", where, "a location is given exactly when the answer is yes", beq(f, s), R.g)
            for i, ax in enumerate("xyz"):
                h = AND(R.g, AND(f, s))
                dd = fsub(loc[i], pt.o[i])
                dd = mdd.restrict(dd, h)
                ctx.ob("%s/location/%s" % (key, ax), where, "the location is the point up to the tolerance",
                       AND(le(dd, C(2 * VIC)), ge(dd, C(-2 * VIC))), h, {"offset": dd})
            ctx.count("queries")
            ctx.done(R)
        with guard(ctx, key + "/exact", q):
            R = ctx.run()
            RK, PK = SK(ctx, "Ray"), SK(ctx, "Point")
            ray = RK.make(R, "a")
            k = V("k")
            po = vadd(ray.o, vscale(ray.d, k))
            pt = Obj("Point", R.call(PK.init, Slice(po)), PK.ty(R), o=po)
            pt.val = PK.set_bound(R, pt, [NINF] * 3, [INF] * 3)
            R.restart()
            a, b = (ray, pt) if p == "Ray" else (pt, ray)
            f, s, loc = ask(R, A, a, b)
            ctx.ob(key + "/ahead", where, "a point on the ray is met", f, AND(R.g, ge(k, T0)))
            ctx.ob(key + "/back", where, "a point behind the origin is not met", NOT(f), AND(R.g, lt(k, C(-2 * VIC))))
            h = AND(AND(R.g, ge(k, T0)), AND(f, s))
            for i, ax in enumerate("xyz"):
                ctx.ob("%s/exact/%s" % (key, ax), where, "the location of a point on the ray is the point",
                       feq(mdd.restrict(loc[i], h), po[i]), h, {"got": loc[i], "expected": po[i]})
            ctx.count("queries")
            ctx.done(R)
    ctx.floor("queries", 4)


@check("C31")
def c31(ctx):
    def spec(R, a, b):
        d = vsub(b.o, a.o)
        parts_of_square(d)
        sm = fadd(a.r, b.r)
        hit = le(dot(d, d), fmul(sm, sm))
        # spheres of radius 0 that meet have one centre
        loc = vadd(a.o, vscale(d, VV.fdiv(a.r, sm)))
        return True, hit, [mdd.ite(gt(sm, T0), x, o) for x, o in zip(loc, a.o)]
    both_ways(ctx, "Sphere", "Sphere", "sphere-sphere",
              "spheres meet exactly when the centres are no further apart than the sum of the radii", spec)
    ctx.floor("queries", 1)


@check("C32")
def c32(ctx):
    def spec(R, sph, pt):
        d = vsub(pt.o, sph.o)
        return True, le(dot(d, d), fmul(sph.r, sph.r)), pt.o
    both_ways(ctx, "Sphere", "Point", "sphere-point",
              "a point meets a sphere exactly when it is no further from the centre than the radius", spec)
    ctx.floor("queries", 2)


@check("C33")
def c33(ctx):
    def spec(R, sph, pl):
        t = dot(pl.d, vsub(sph.o, pl.o))
        hit = AND(le(t, sph.r), ge(t, VV.fneg(sph.r)))
        return True, hit, [fsub(o, fmul(t, n)) for o, n in zip(sph.o, pl.d)]
    both_ways(ctx, "Sphere", "Plane", "sphere-plane",
              "a sphere meets a plane exactly when the centre is no further from it than the radius", spec)
    ctx.floor("queries", 2)


@check("C34")
def c34(ctx):
    def spec(R, pl, pt):
        t = dot(pl.d, vsub(pt.o, pl.o))
        return True, AND(le(t, C(VIC)), ge(t, C(-VIC))), pt.o
    both_ways(ctx, "Plane", "Point", "plane-point",
              "a point meets a plane exactly when it is within the tolerance of it", spec)
    ctx.floor("queries", 2)


@check("C35")
def c35(ctx):
    def pp(R, a, b):
        ok = True
        for x, y in zip(a.o, b.o):
            d = fsub(x, y)
            ok = AND(ok, AND(le(d, C(VIC)), ge(d, C(-VIC))))
        return True, ok, a.o
    both_ways(ctx, "Point", "Point", "point-point",
              "points whose bounds overlap meet exactly when every coordinate agrees within the tolerance", pp)
    for p, q_ in (("Box", "Point"), ("Point", "Box")):
        key = "box-point/%s-%s" % (p, q_)
        A = SK(ctx, p)
        q = A.q("get_intersect")
        where = ctx.where(q)
        with guard(ctx, key, q):
            R = ctx.run()
            A, B, a, b = pair(ctx, R, p, q_, open_bound=False)
            box, pt = (a, b) if p == "Box" else (b, a)
            f, s, loc = ask(R, A, a, b)
            ctx.ob(key + "/returns", where, "the query answers", R.g)
            ok = True
            for x, y in zip(pt.o, box.o):
                d = fsub(x, y)
                ok = AND(ok, AND(le(d, box.r), ge(d, VV.fneg(box.r))))
            ctx.ob(key, where, "a point meets a box exactly when no coordinate is further from the centre than the half edge",
                   beq(f, ok), R.g)
            ctx.ob(key + "/coherent", where, "a location is given exactly when the answer is yes", beq(f, s), R.g)
            h = AND(R.g, AND(f, s))
            for i, ax in enumerate("xyz"):
                ctx.ob("%s/location/%s" % (key, ax), where, "the location is the point",
                       feq(mdd.restrict(loc[i], h), pt.o[i]), h)
            ctx.count("queries")
            ctx.done(R)
    key = "point-point/apart"
    A = SK(ctx, "Point")
    q = A.q("get_intersect")
    with guard(ctx, key, q):
        R = ctx.run()
        A, B, a, b = pair(ctx, R, "Point", "Point", open_bound=False)
        f, s, loc = ask(R, A, a, b)
        same = True
        for x, y in zip(a.o, b.o):
            same = AND(same, eq(x, y))
        ctx.ob(key + "/same", ctx.where(q), "a point meets itself", f, AND(R.g, same))
        far = False
        for x, y in zip(a.o, b.o):
            d = fsub(x, y)
            far = OR(far, OR(gt(d, C(VIC)), lt(d, C(-VIC))))
        ctx.ob(key, ctx.where(q), "points further apart than the tolerance do not meet", NOT(f), AND(R.g, far))
        ctx.count("queries")
        ctx.done(R)
    ctx.floor("queries", 4)


def halfspaces(pr):
    """(vertex, outward normal) of the five facets of a prism laid out by base v and height vector n."""
    v, n = pr.v, pr.n
    top = vadd(v[0], n)
    return [(v[0], [VV.fneg(x) for x in n]), (top, n)] + \
        [(v[i], cross(vsub(v[(i + 1) % 3], v[i]), n)) for i in range(3)]


def inside(pr, p):
    ok = True
    for vert, nor in halfspaces(pr):
        ok = AND(ok, le(dot(vsub(p, vert), nor), T0))
    return ok


@check("C36")
def c36(ctx):
    def spec(R, pr, pt):
        return True, inside(pr, pt.o), pt.o
    both_ways(ctx, "TriPrism", "Point", "prism-point",
              "a point meets a prism exactly when it is outside none of the five facets", spec)
    ctx.floor("queries", 2)
