"""Quaternions: C09-C18."""
from fractions import Fraction
from ..check import *
from .. import poly, mdd, values as VV
from .mats import FLOATS, VecKind, MatKind, lay, opt_ob, flat

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


FIELDS = ["_x", "_y", "_z", "_w"]


class QK:
    def __init__(self, ctx, f):
        self.ctx, self.f = ctx, f
        self.key = "Quat/%s" % f
        self.v3 = VecKind(ctx, "Mat3x1", 3, f)

    def q(self, op):
        return "mazth::quat::Quat::<%s>::%s" % (self.f, op)

    def ty(self, R):
        return R.arg_ty(self.q("length_squared"), 0)

    def mk(self, R, xs):
        return R.struct(self.ty(R), **dict(zip(FIELDS, xs)))

    def rd(self, R, v):
        return [R.get(self.ty(R), v, n) for n in FIELDS]


def ham(a, b):
    """Hamilton product of (x, y, z, w) quadruples."""
    ax, ay, az, aw = a
    bx, by, bz, bw = b

    def s(*ts):
        r = T0
        for sg, x, y in ts:
            p = fmul(x, y)
            r = fadd(r, p) if sg > 0 else fsub(r, p)
        return r
    return [s((1, aw, bx), (1, ax, bw), (1, ay, bz), (-1, az, by)),
            s((1, aw, by), (-1, ax, bz), (1, ay, bw), (1, az, bx)),
            s((1, aw, bz), (1, ax, by), (-1, ay, bx), (1, az, bw)),
            s((1, aw, bw), (-1, ax, bx), (-1, ay, by), (-1, az, bz))]


def conj(q):
    return [VV.fneg(q[0]), VV.fneg(q[1]), VV.fneg(q[2]), q[3]]


def comps(ctx, R, key, q, rule, got, exp, g=True, names="xyzw"):
    where = ctx.where(q)
    ctx.ob(key + "/returns", where, "produces a result for every admissible input", R.g, g)
    gg = AND(R.g, g)
    for n, a, b in zip(names, got, exp):
        ctx.ob("%s/%s" % (key, n), where, rule, feq(a, b), gg, {"got": a, "expected": b})
    ctx.count("operations")
    ctx.done(R)


@check("C09")
def c09(ctx):
    for f in FLOATS:
        K = QK(ctx, f)
        for op, fn, rule in (("add", lambda a, b: vadd(a, b), "sum is componentwise"),
                             ("minus", lambda a, b: vsub(a, b), "difference is componentwise"),
                             ("mul", ham, "product is the Hamilton product")):
            q = K.q(op)
            key = "%s/%s" % (K.key, op)
            with guard(ctx, key, q):
                R = ctx.run()
                a, b = vec("a", 4), vec("b", 4)
                r = R.call(q, K.mk(R, a), K.mk(R, b))
                comps(ctx, R, key, q, rule, K.rd(R, r), fn(a, b))
        for op, fn, rule in (("negate", lambda a: [VV.fneg(x) for x in a], "negation flips every component"),
                             ("conjugate", conj, "conjugation flips the vector part only")):
            q = K.q(op)
            key = "%s/%s" % (K.key, op)
            with guard(ctx, key, q):
                R = ctx.run()
                a = vec("a", 4)
                r = R.call(q, K.mk(R, a))
                comps(ctx, R, key, q, rule, K.rd(R, r), fn(a))
        q = K.q("scale")
        key = K.key + "/scale"
        with guard(ctx, key, q):
            R = ctx.run()
            a, s = vec("a", 4), V("s")
            r = R.call(q, K.mk(R, a), s)
            comps(ctx, R, key, q, "scaling multiplies every component", K.rd(R, r), vscale(a, s))
        for op, fn in (("length_squared", lambda a: dot(a, a)), ("length", lambda a: VV.fsqrt(dot(a, a)))):
            q = K.q(op)
            key = "%s/%s" % (K.key, op)
            with guard(ctx, key, q):
                R = ctx.run()
                a = vec("a", 4)
                r = R.call(q, K.mk(R, a))
                comps(ctx, R, key, q, "length is the Euclidean norm of the four components", [r], [fn(a)])
        for q, key in ((K.q("init"), K.key + "/init"),
                       ("<mazth::quat::Quat<%s> as std::default::Default>::default" % f, K.key + "/default")):
            with guard(ctx, key, q):
                R = ctx.run()
                r = R.call(q)
                comps(ctx, R, key, q, "the initial quaternion is the identity", K.rd(R, r), [T0, T0, T0, T1])
        q = K.q("init_from_vals_raw")
        key = K.key + "/init_from_vals_raw"
        with guard(ctx, key, q):
            R = ctx.run()
            a = vec("a", 4)
            r = R.call(q, *a)
            comps(ctx, R, key, q, "given components are kept", K.rd(R, r), a)
    ctx.floor("operations", 22)


@check("C10")
def c10(ctx):
    for f in FLOATS:
        K = QK(ctx, f)
        q = K.q("inverse")
        key = K.key + "/inverse"
        with guard(ctx, key, q):
            R = ctx.run()
            a = vec("a", 4)
            nz = gt(dot(a, a), T0)
            r = R.call(q, K.mk(R, a))
            x = [mdd.restrict(c, AND(nz, R.g)) for c in K.rd(R, r)]
            comps(ctx, R, key + "/right", q, "a quaternion times its inverse is the identity", ham(a, x),
                  [T0, T0, T0, T1], nz)
            comps(ctx, R, key + "/left", q, "the inverse times its quaternion is the identity", ham(x, a),
                  [T0, T0, T0, T1], nz)
        for op in ("normalize", "init_from_vals_normalize"):
            q = K.q(op)
            key = "%s/%s" % (K.key, op)
            with guard(ctx, key, q):
                R = ctx.run()
                a = vec("a", 4)
                nz = gt(dot(a, a), T0)
                m = VV.fsqrt(dot(a, a))
                r = R.call(q, K.mk(R, a)) if op == "normalize" else R.call(q, *a)
                comps(ctx, R, key, q, "normalisation divides every component by the norm", K.rd(R, r),
                      [VV.fdiv(x, m) for x in a], nz)
        q = K.q("normalize")
        key = K.key + "/normalize/zero"
        with guard(ctx, key, q):
            R = ctx.run()
            R.call(q, K.mk(R, [T0] * 4))
            ctx.ob(key, ctx.where(q), "the zero quaternion is refused", NOT(R.g))
            ctx.count("operations")
            ctx.done(R)
    ctx.floor("operations", 10)


def rotm(q):
    """Rows of the rotation matrix of a unit quaternion."""
    x, y, z, w = q
    two = C(2)

    def d(*ts):
        r = T0
        for sg, a, b in ts:
            p = fmul(a, b)
            r = fadd(r, p) if sg > 0 else fsub(r, p)
        return fmul(two, r)
    return [[fsub(T1, d((1, y, y), (1, z, z))), d((1, x, y), (-1, z, w)), d((1, x, z), (1, y, w))],
            [d((1, x, y), (1, z, w)), fsub(T1, d((1, x, x), (1, z, z))), d((1, y, z), (-1, x, w))],
            [d((1, x, z), (-1, y, w)), d((1, y, z), (1, x, w)), fsub(T1, d((1, x, x), (1, y, y)))]]


@check("C11")
def c11(ctx):
    for f in FLOATS:
        K = QK(ctx, f)
        M = MatKind(ctx, "Mat4", 4, f)
        for rm in (True, False):
            q = K.q("to_rotation_matrix")
            key = "%s/to_rotation_matrix/%s" % (K.key, lay(rm))
            with guard(ctx, key, q):
                R = ctx.run()
                u = unit_vec("q", 4)
                r = R.call(q, K.mk(R, u), rm)
                E = rotm(u)
                exp = [E[i][j] if i < 3 and j < 3 else (T1 if i == j else T0) for i in range(4) for j in range(4)]
                comps(ctx, R, key, q, "entry (r, c) is the rotation of a unit quaternion in either storage order",
                      M.rd(R, r), exp, names=["%d,%d" % (i, j) for i in range(4) for j in range(4)])
                ctx.ob(key + "/flag", ctx.where(q), "the requested storage order is used", beq(M.flag(R, r), rm))
        q = K.q("rotate_vector")
        key = K.key + "/rotate_vector"
        with guard(ctx, key, q):
            R = ctx.run()
            u = unit_vec("q", 4)
            p = vec("p", 3)
            r = R.call(q, K.mk(R, u), K.v3.mk(R, p))
            got = K.v3.rd(R, r, R.ret_ty(q))
            exp = ham(ham(u, p + [T0]), conj(u))
            comps(ctx, R, key, q, "rotation conjugates the vector by the unit quaternion", got, exp[:3], names="xyz")
            ctx.ob(key + "/length", ctx.where(q), "rotation preserves length", feq(dot(got, got), dot(p, p)), R.g)
            E = rotm(u)
            comps(ctx, R, key + "/matrix", q, "rotating a vector agrees with the rotation matrix", got,
                  [dot(row, p) for row in E], names="xyz")
    ctx.floor("operations", 8)


@check("C12")
def c12(ctx):
    for f in FLOATS:
        K = QK(ctx, f)

        def par(n, p):
            return vsub(p, vscale(n, dot(n, p)))
        for op, fn, rule in (
                ("reflection_in_plane", lambda n, p: vsub(p, vscale(n, fmul(C(2), dot(n, p)))),
                 "reflection negates the component along the unit normal"),
                ("parallel_component_of_plane", par, "parallel component drops the part along the unit normal"),
                ("orthogonal_component_of_plane", lambda n, p: vscale(n, dot(n, p)),
                 "orthogonal component is the part along the unit normal")):
            q = K.q(op)
            key = "%s/%s" % (K.key, op)
            with guard(ctx, key, q):
                R = ctx.run()
                n = unit_vec("n", 3)
                p = vec("p", 3)
                r = R.call(q, K.mk(R, n + [T0]), K.v3.mk(R, p))
                comps(ctx, R, key, q, rule, K.v3.rd(R, r, R.ret_ty(q)), fn(n, p), names="xyz")
    ctx.floor("operations", 6)


@check("C13")
def c13(ctx):
    for f in FLOATS:
        K = QK(ctx, f)
        for op in ("init_from_axis_angle_radian", "init_from_axis_angle_degree"):
            q = K.q(op)
            key = "%s/%s" % (K.key, op)
            with guard(ctx, key, q):
                R = ctx.run()
                a = vec("a", 3)
                nz = gt(dot(a, a), T0)
                m = VV.fsqrt(dot(a, a))
                t = V("t")
                half = fmul(t, C(Fraction(1, 2)))
                if op.endswith("degree"):
                    half = fmul(half, fmul(VV.pi(), C(Fraction(1, 180))))
                tt = R.arg_ty(q, 0)
                arg = R.I.mkstruct(tt, [K.v3.mk(R, a), t])
                r = R.call(q, arg)
                s, c = VV.ffn("sin", half), VV.ffn("cos", half)
                comps(ctx, R, key, q, "axis-angle construction is (axis/|axis| * sin(angle/2), cos(angle/2))",
                      K.rd(R, r), [fmul(VV.fdiv(x, m), s) for x in a] + [c], nz)
        q = K.q("to_axis_angle")
        key = K.key + "/to_axis_angle"
        with guard(ctx, key, q):
            R = ctx.run()
            # vector part first: w is free in [-1, 1] and the unit relation eliminates z^2
            w = V("w")
            x, y, z = V("x"), V("y"), V("z")
            zid = z.num.lead()[0][0]
            rel = poly.ONE - w.num * w.num - x.num * x.num - y.num * y.num
            poly.RING.rules[zid] = rel
            poly.add_fact(rel, (0, 1))
            poly.add_fact(poly.ONE - w.num * w.num, (0, 1))
            u = [x, y, z, w]
            r = R.call(q, K.mk(R, u))
            rt = R.ret_ty(q)
            es = ctx.p.types[rt]["es"]
            axis = K.v3.rd(R, r.e[0], es[0])
            ang = r.e[1]
            where = ctx.where(q)
            ctx.ob(key + "/returns", where, "answers for every unit quaternion", R.g)
            ctx.ob(key + "/unit", where, "the axis has length one", feq(dot(axis, axis), T1), R.g, {"axis": Agg(axis)})
            k2 = fsub(T1, fmul(w, w))
            far = ge(k2, C(Fraction(1, 10 ** 10)))
            half = fmul(ang, C(Fraction(1, 2)))
            g = AND(R.g, far)
            s = VV.ffn("sin", mdd.restrict(half, g))
            c = VV.ffn("cos", mdd.restrict(half, g))
            ctx.ob(key + "/w", where, "cos(angle/2) recovers the scalar part away from the identity", feq(c, w), g,
                   {"angle": ang})
            for nme, a, b in zip("xyz", axis, u):
                ctx.ob(key + "/" + nme, where, "axis * sin(angle/2) recovers the vector part away from the identity",
                       feq(fmul(a, s), b), g, {"axis": a, "angle": ang})
            g2 = AND(R.g, NOT(far))
            ctx.ob(key + "/near", where, "next to the identity the angle is 0 or the exact one",
                   OR(feq(ang, T0), feq(VV.ffn("cos", mdd.restrict(half, g2)), w)), g2, {"angle": ang})
            ctx.count("operations")
            ctx.done(R)
    ctx.floor("operations", 6)


@check("C14")
def c14(ctx):
    for f in FLOATS:
        K = QK(ctx, f)
        for op in ("ln", "pow"):
            q = K.q(op)
            key = "%s/%s" % (K.key, op)
            with guard(ctx, key, q):
                R = ctx.run()
                a = vec("a", 4)
                v = a[:3]
                nz = gt(dot(v, v), T0)
                vl = VV.fsqrt(dot(v, v))
                l = VV.fsqrt(dot(a, a))
                al = VV.ffn("acos", VV.fdiv(a[3], l))
                if op == "ln":
                    r = R.call(q, K.mk(R, a))
                    exp = [fmul(VV.fdiv(x, vl), al) for x in v] + [VV.ffn("ln", l)]
                    rule = "logarithm is (v/|v| * acos(w/|q|), ln |q|)"
                else:
                    t = V("t")
                    r = R.call(q, K.mk(R, a), t)
                    beta = fmul(t, al)
                    co = VV.ffn("pow", l, t)
                    sb, cb = VV.ffn("sin", beta), VV.ffn("cos", beta)
                    exp = [fmul(fmul(co, VV.fdiv(x, vl)), sb) for x in v] + [fmul(co, cb)]
                    rule = "power is |q|^t * (v/|v| * sin(t*acos(w/|q|)), cos(t*acos(w/|q|)))"
                comps(ctx, R, key, q, rule, [mdd.restrict(x, nz) for x in K.rd(R, r)],
                      [mdd.restrict(x, nz) for x in exp], nz)
    ctx.floor("operations", 4)


def clamp01(t):
    def sel(v):
        return v
    hi = mdd.ite(gt(t, T1), T1, t)
    return mdd.ite(lt(t, T0), T0, hi)


@check("C15")
def c15(ctx):
    for f in FLOATS:
        K = QK(ctx, f)
        q = K.q("interpolate_linear")
        key = K.key + "/interpolate_linear"
        with guard(ctx, key, q):
            R = ctx.run()
            a, b, t = vec("a", 4), vec("b", 4), V("t")
            r = R.call(q, K.mk(R, a), K.mk(R, b), t)
            c = clamp01(t)
            comps(ctx, R, key, q, "linear interpolation is start + clamp(t) * (end - start)", K.rd(R, r),
                  [fadd(x, fmul(c, fsub(y, x))) for x, y in zip(a, b)])
    ctx.floor("operations", 2)


@check("C16")
def c16(ctx):
    for f in FLOATS:
        K = QK(ctx, f)
        q = K.q("interpolate_slerp")
        key = K.key + "/interpolate_slerp"
        with guard(ctx, key, q):
            R = ctx.run()
            a, b = unit_vec("a", 4), unit_vec("b", 4)
            t = V("t")
            r = R.call(q, K.mk(R, a), K.mk(R, b), t)
            got = K.rd(R, r)
            where = ctx.where(q)
            ctx.ob(key + "/returns", where, "answers for every pair of unit quaternions", R.g)
            c = dot(a, b)
            neg = lt(c, T0)
            ca = VV.fabs(c)
            c1 = clamp01(t)
            far = le(ca, C(Fraction(9998, 10000)))
            om = VV.ffn("acos", mdd.restrict(ca, far))
            so = VV.ffn("sin", om)
            k0 = VV.fdiv(VV.ffn("sin", fmul(fsub(T1, c1), om)), so)
            k1 = VV.fdiv(VV.ffn("sin", fmul(c1, om)), so)
            for i, nm in enumerate("xyzw"):
                e = mdd.ite(neg, VV.fneg(b[i]), b[i])
                sph = fadd(fmul(a[i], k0), fmul(e, k1))
                lin = fadd(a[i], fmul(c1, fsub(e, a[i])))
                ctx.ob("%s/far/%s" % (key, nm), where,
                       "spherical interpolation follows the shorter great arc between unit quaternions",
                       feq(mdd.restrict(got[i], far), mdd.restrict(sph, far)), AND(R.g, far),
                       {"got": got[i], "expected": sph})
                near = NOT(far)
                om2 = VV.ffn("acos", mdd.restrict(ca, near))
                so2 = VV.ffn("sin", om2)
                sph2 = fadd(fmul(a[i], VV.fdiv(VV.ffn("sin", fmul(fsub(T1, c1), om2)), so2)),
                            fmul(e, VV.fdiv(VV.ffn("sin", fmul(c1, om2)), so2)))
                ctx.ob("%s/near/%s" % (key, nm), where,
                       "for nearly equal quaternions the result is the linear or the spherical blend",
                       OR(feq(mdd.restrict(got[i], near), mdd.restrict(lin, near)),
                          feq(mdd.restrict(got[i], near), mdd.restrict(sph2, near))), AND(R.g, near),
                       {"got": got[i], "linear": lin})
            ctx.count("operations")
            ctx.done(R)
    ctx.floor("operations", 2)


@check("C17")
def c17(ctx):
    for f in FLOATS:
        K = QK(ctx, f)
        M = MatKind(ctx, "Mat4", 4, f)
        q = K.q("init_from_translation")
        key = K.key + "/init_from_translation"
        with guard(ctx, key, q):
            R = ctx.run()
            t = vec("t", 3)
            r = R.call(q, K.v3.mk(R, t))
            comps(ctx, R, key, q, "a translation becomes the pure quaternion of half its components", K.rd(R, r),
                  vscale(t, C(Fraction(1, 2))) + [T0])
        for rm in (True, False):
            q = K.q("to_translation_matrix")
            key = "%s/to_translation_matrix/%s" % (K.key, lay(rm))
            with guard(ctx, key, q):
                R = ctx.run()
                a = vec("a", 4)
                r = R.call(q, K.mk(R, a), rm)
                exp = []
                for i in range(4):
                    for j in range(4):
                        exp.append(a[i] if j == 3 and i < 3 else (T1 if i == j else T0))
                comps(ctx, R, key, q, "the matrix translates by the vector part in either storage order",
                      M.rd(R, r), exp, names=["%d,%d" % (i, j) for i in range(4) for j in range(4)])
                ctx.ob(key + "/flag", ctx.where(q), "the requested storage order is used", beq(M.flag(R, r), rm))
        q = "mazth::dualquat::DualQuat::<%s>::init" % f
        key = "DualQuat/%s/init" % f
        with guard(ctx, key, q):
            R = ctx.run()
            a, b = vec("a", 4), vec("b", 4)
            r = R.call(q, K.mk(R, a), K.mk(R, b))
            dt = R.ret_ty(q)
            comps(ctx, R, key, q, "a dual quaternion keeps its rotation and translation parts",
                  K.rd(R, R.get(dt, r, "_rot")) + K.rd(R, R.get(dt, r, "_tra")), a + b,
                  names=["rot%d" % i for i in range(4)] + ["tra%d" % i for i in range(4)])
    ctx.floor("operations", 8)


@check("C18")
def c18(ctx):
    for f in FLOATS:
        K = QK(ctx, f)
        q = K.q("init_from_vals_auto_w")
        key = K.key + "/auto_w"
        with guard(ctx, key, q):
            R = ctx.run()
            v = vec("v", 3)
            r = R.call(q, *v)
            k = fsub(T1, dot(v, v))
            inside = ge(k, T0)
            w = VV.fneg(VV.fsqrt(mdd.restrict(k, inside)))
            comps(ctx, R, key, q, "a vector part no longer than one is completed to a unit quaternion with w <= 0",
                  [mdd.restrict(x, inside) for x in K.rd(R, r)], v + [w], inside)
            for nm, a, b in zip("xyz", K.rd(R, r), v):
                ctx.ob("%s/kept/%s" % (key, nm), ctx.where(q), "the vector part is kept", feq(a, b), R.g)
    ctx.floor("operations", 2)
