"""Prism against line, support functions and the convex collision query: C37-C39."""
from fractions import Fraction
from ..check import *
from ..mir import Unsupported
from .. import poly, mdd, values as VV
from .shapes import SK, KINDS, Obj
from .pairs import ask, pair, halfspaces, inside

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def crossings(pr, a, b):
    """Per facet: (the segment a-b runs into the facet at a point of the prism, that point)."""
    v = vsub(b, a)
    out = []
    for vert, nor in halfspaces(pr):
        den, num = dot(nor, v), dot(nor, vsub(vert, a))
        c = AND(lt(den, T0), AND(le(num, T0), ge(num, den)))
        t = VV.fdiv(mdd.restrict(num, c), mdd.restrict(den, c))
        cp = vadd(a, vscale(v, t))
        c = AND(c, mdd.restrict(inside(pr, cp), c))
        out.append((c, cp))
    return out


@check("C37")
def c37(ctx):
    for p, q_ in (("TriPrism", "Line"), ("Line", "TriPrism")):
        A = SK(ctx, p)
        q = A.q("get_intersect")
        where = ctx.where(q)
        for point in (False, True):
            key = "prism-line/%s-%s/%s" % (p, q_, "point" if point else "segment")
            with guard(ctx, key, q):
                R = ctx.run()
                PK, LK = SK(ctx, "TriPrism"), SK(ctx, "Line")
                pr = PK.make(R, "p")
                for vert, nor in halfspaces(pr)[1:]:
                    poly.add_fact(dot(nor, nor).num, (1,))
                a = vec("a", 3)
                b = a if point else vec("b", 3)
                ln = Obj("Line", R.call(LK.init, Slice(a), Slice(b)), LK.ty(R), a=a, b=b)
                ln.val = LK.set_bound(R, ln, [NINF] * 3, [INF] * 3)
                R.restart()
                x, y = (pr, ln) if p == "TriPrism" else (ln, pr)
                v = vsub(b, a)
                g = True
                if not point:
                    square_premise(*v)
                    g = gt(dot(v, v), T0)
                f, s, loc = ask(R, A, x, y)
                ctx.ob(key + "/returns", where, "the query answers", R.g, g)
                g = AND(R.g, g)
                ctx.ob(key + "/coherent", where, "a location is given exactly when the answer is yes", beq(f, s), g)
                ina, inb = inside(pr, a), inside(pr, b)
                hit = OR(ina, inb)
                cr = [] if point else crossings(pr, a, b)
                for c, _ in cr:
                    hit = OR(hit, c)
                ctx.ob(key + "/hit", where,
                       "a segment meets a prism exactly when an end lies in it or it runs into a facet at a point of the prism",
                       beq(f, hit), g, {"answer": f})
                h = AND(g, AND(f, s))
                at = OR(AND(ina, same(loc, a, h)), AND(inb, same(loc, b, h)))
                for c, cp in cr:
                    at = OR(at, AND(c, same(loc, cp, AND(h, c))))
                ctx.ob(key + "/location", where, "the location is an end in the prism or such a crossing point", at, h)
                ctx.count("queries")
                ctx.done(R)
    ctx.floor("queries", 4)


def same(xs, ys, h):
    r = True
    for x, y in zip(xs, ys):
        r = AND(r, feq(mdd.restrict(x, h), mdd.restrict(y, h)))
    return r


@check("C38")
def c38(ctx):
    for k in ("Point", "Sphere", "Box", "TriPrism", "Ray", "Plane"):
        K = SK(ctx, k)
        q = K.q("get_support")
        where = ctx.where(q)
        with guard(ctx, k, q):
            R = ctx.run()
            ob = K.make(R, "s")
            R.restart()
            d = vec("d", 3)
            square_premise(*d)
            nz = gt(dot(d, d), T0)
            r = R.call(q, ob.val, K.v3.mk(R, d))
            s, pay = some(r)
            got = K.v3.rd(R, pay) if pay is not None else [UNINIT] * 3
            ctx.ob(k + "/returns", where, "the support query answers", R.g, nz)
            g = AND(AND(R.g, nz), s)
            ctx.count("shapes")
            if k in ("Ray", "Plane"):
                ctx.ob(k + "/none", where, "unlimited shapes have no furthest point", NOT(s), R.g)
                ctx.done(R)
                continue
            ctx.ob(k + "/some", where, "a limited shape has a furthest point in every direction", s, AND(R.g, nz))
            if k == "Point":
                ctx.ob(k + "/point", where, "the furthest point of a point is the point", veq(got, ob.o), g)
            elif k == "Sphere":
                m = VV.fsqrt(dot(d, d))
                for i in range(3):
                    e = fadd(ob.o[i], fmul(VV.fdiv(d[i], m), ob.r))
                    ctx.ob("%s/point/%d" % (k, i), where, "the furthest point of a sphere is the centre plus the radius along the direction",
                           feq(mdd.restrict(got[i], g), mdd.restrict(e, g)), g, {"got": got[i], "expected": e})
            elif k == "Box":
                for i in range(3):
                    e = fsub(mdd.restrict(got[i], g), ob.o[i])
                    up, dn = feq(e, ob.r), feq(e, VV.fneg(ob.r))
                    ctx.ob("%s/corner/%d" % (k, i), where, "the furthest point of a box is a corner", OR(up, dn), g, {"got": got[i]})
                    ctx.ob("%s/side/%d" % (k, i), where, "no corner of the box is further in the direction",
                           AND(OR(up, le(d[i], T0)), OR(dn, ge(d[i], T0))), g, {"got": got[i]})
            else:
                pts = ob.v + [vadd(x, ob.n) for x in ob.v]
                gg = [mdd.restrict(x, g) for x in got]
                best = dot(gg, d)
                isv = False
                for i, p in enumerate(pts):
                    isv = OR(isv, same(gg, p, g))
                    ctx.ob("%s/furthest/%d" % (k, i), where, "no vertex of the prism is further in the direction",
                           ge(best, dot(p, d)), g)
                ctx.ob(k + "/vertex", where, "the furthest point of a prism is a vertex", isv, g)
            ctx.done(R)
        if k in ("Sphere", "Box", "TriPrism"):
            with guard(ctx, k + "/zero", q):
                R = ctx.run()
                ob = K.make(R, "s")
                R.restart()
                r = R.call(q, ob.val, K.v3.mk(R, [T0] * 3))
                s, pay = some(r)
                ctx.ob(k + "/zero", where, "no direction has no furthest point", NOT(s), R.g)
                ctx.ob(k + "/zero/returns", where, "the support query answers", R.g)
                ctx.done(R)
    ctx.floor("shapes", 6)


QI = "mazth::intersect_gjk::query_intersect"


class Supports:
    """Records the direction and state of every support request; answers with a free vertex, or lets the analysis go on
    into the real support function; cuts the states that ask for more than `rounds` vertices of a shape."""

    def __init__(self, K, rounds, free):
        self.K, self.rounds, self.free = K, rounds, free            # free: number of free components of a vertex
        self.seen = {}

    def __call__(self, I, s, inst, vals, fr, span):
        R, K = self.R, self.K
        who = self.objs.get(vals[0].obj)
        if who is None:
            raise Unsupported("support of a copy of a shape")
        lst = self.seen.setdefault(who, [])
        if len(lst) >= self.rounds:
            return None, None
        # vertices of one plane: only their difference counts, so the second shape's are the origin
        w = [T0] * 3 if who == "b" and self.free == 2 else vec("%s%d" % (who, len(lst)), self.free) + [T0] * (3 - self.free)
        lst.append((s.g, K.v3.rd(R, I.load(s, vals[1])), w))
        if not self.free:
            return NotImplemented
        return EnumV(1, {1: [K.v3.mk(R, w)]}), s


def spheres(ctx, rounds, free):
    """Abstract verdict on two spheres of free centres and radii."""
    S = SK(ctx, "Sphere")
    ov = Supports(S, rounds, free)
    R = ctx.run({S.q("get_support"): ov})
    ov.R = R
    a, b = S.make(R, "a"), S.make(R, "b")
    c = vec("c", 3)
    if not free:
        # premises are stated over the offset of the centres
        ao = a.o
        b = Obj("Sphere", R.call(S.init, Slice(vadd(ao, c)), b.r), b.ty, o=vadd(ao, c), r=b.r)
    R.restart()
    rs = fadd(a.r, b.r)
    if not free:
        w1 = [fsub(rs, c[0]), c[1], c[2]]
        square_premise(w1[0])
        square_premise(*w1)
        square_premise(c[1], c[2])
        poly.RING.hints += [dot(w1, w1).num, rs.num, dot(c[1:], c[1:]).num]
    if free == 2:
        # known factors: areas spanned by pairs and triples of vertices, squared lengths
        ps = [vec("a%d" % k, 2) for k in range(rounds)]
        area = lambda p, q: fsub(fmul(p[0], q[1]), fmul(p[1], q[0]))
        for i, p in enumerate(ps):
            poly.RING.hints.append(dot(p, p).num)
            square_premise(*p)
            for j, q in enumerate(ps[:i]):
                poly.RING.hints += [area(p, q).num, dot(vsub(p, q), vsub(p, q)).num]
                square_premise(*vsub(p, q))
                for r_ in ps[:j]:
                    poly.RING.hints.append(area(vsub(p, q), vsub(r_, q)).num)
    da, db = a.dyn(), b.dyn()
    for x in (da, db):
        x.obj = R.alloc(x.val, x.ty)
    ov.objs = {da.obj.obj: "a", db.obj.obj: "b"}
    r = R.call(QI, da, db)
    s, pay = some(r)
    return R, ov, s, AND(AND(R.g, s), pay), AND(AND(R.g, s), NOT(pay)), fsub(dot(c, c), fmul(rs, rs))


def apart(x, y):
    """The two numbers lie on different sides of zero."""
    return OR(AND(lt(x, T0), gt(y, T0)), AND(gt(x, T0), lt(y, T0)))


@check("C39")
def c39(ctx):
    where = ctx.where(QI)
    with guard(ctx, "verdict", QI):
        R, ov, s, yes, no, gap = spheres(ctx, 3, 0)
        ctx.ob("verdict/answers", where, "spheres always get an answer", s, R.g)
        ctx.ob("verdict/yes", where, "spheres said to collide are no further apart than the sum of the radii", le(gap, T0), yes)
        ctx.ob("verdict/no", where, "spheres said not to collide are at least the sum of the radii apart", ge(gap, T0), no)
        ctx.ob("verdict/both", where, "both verdicts are reached within the analysed rounds",
               yes is not False and no is not False)
        ctx.count("analyses")
        ctx.done(R)
    top = 7 if ctx.tier == "thorough" else 6
    with guard(ctx, "separation", QI):
        R, ov, s, yes, no, _ = spheres(ctx, top, 3)
        ctx.ob("separation/answers", where, "spheres always get an answer", s, R.g)
        ok = False
        for k, ((ga, dA, wa), (gb, dB, wb)) in enumerate(zip(ov.seen.get("a", ()), ov.seen.get("b", ()))):
            h = AND(no, gb)
            proj = dot(vsub(wa, wb), [mdd.restrict(x, h) for x in dA])
            ok = OR(ok, AND(gb, le(proj, T0)))
            ctx.ob("separation/opposite/%d" % k, where, "the second shape is asked in the opposite direction of the first",
                   same(dB, [VV.fneg(mdd.restrict(x, gb)) for x in dA], gb), gb)
            ctx.count("support rounds")
        ctx.ob("separation/no", where, "shapes are said not to collide only if the furthest vertex in some requested direction does not pass the origin",
               ok, no)
        ctx.count("analyses")
        ctx.done(R)
    with guard(ctx, "enclosure", QI):
        R, ov, s, yes, no, _ = spheres(ctx, top, 2)
        ws = [(gb, vsub(wa, wb)) for (ga, _, wa), (gb, _, wb) in zip(ov.seen.get("a", ()), ov.seen.get("b", ()))]
        dirs = [d for _, d, _ in ov.seen.get("a", ())]
        h = yes
        for i, (gi, p) in enumerate(ws):
            for j, (gj, q) in enumerate(ws):
                if i != j and j < 2:
                    # support vertices: none passes the one asked for in a direction
                    d = [mdd.restrict(x, AND(h, AND(gi, gj))) for x in dirs[j]]
                    h = AND(h, OR(NOT(AND(gi, gj)), le(dot(vsub(p, q), d), T0)))
        enclosed = False
        for i, (_, p) in enumerate(ws):
            for j in range(i):
                for k in range(j):
                    (_, q), (g, r) = ws[j], ws[k]
                    o = [fsub(fmul(x[0], y[1]), fmul(x[1], y[0])) for x, y in ((p, q), (q, r), (r, p))]
                    ccw = AND(ge(o[0], T0), AND(ge(o[1], T0), ge(o[2], T0)))
                    cw = AND(le(o[0], T0), AND(le(o[1], T0), le(o[2], T0)))
                    enclosed = OR(enclosed, AND(ws[i][0], OR(ccw, cw)))
        for i, (gi, p) in enumerate(ws):
            enclosed = OR(enclosed, AND(gi, AND(eq(p[0], T0), eq(p[1], T0))))
            for j in range(i):
                q = ws[j][1]
                flat = AND(eq(fsub(fmul(p[0], q[1]), fmul(p[1], q[0])), T0), OR(apart(p[0], q[0]), AND(
                    AND(eq(p[0], T0), eq(q[0], T0)), apart(p[1], q[1]))))
                enclosed = OR(enclosed, AND(gi, flat))
        ctx.ob("enclosure/yes", where, "shapes are said to collide only if requested vertices enclose the origin (vertices of one plane)",
               enclosed, h)
        ctx.count("analyses")
        ctx.done(R)
    for ka in KINDS:
        for kb in KINDS:
            if ka == kb == "Sphere":
                continue
            key = "refused/%s-%s" % (ka, kb)
            with guard(ctx, key, QI):
                R = ctx.run()
                a, b = SK(ctx, ka).make(R, "a"), SK(ctx, kb).make(R, "b")
                R.restart()
                R.call(QI, a.dyn(), b.dyn())
                ctx.ob(key, where, "shapes other than two spheres are refused", NOT(R.g))
                ctx.count("refused")
                ctx.done(R)
    ctx.floor("analyses", 3)
    ctx.floor("support rounds", 3)
    ctx.floor("refused", 48)
