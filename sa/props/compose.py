"""Operations agree with one another: C51, C52."""
from ..check import *
from .. import poly, values as VV
from .mats import FLOATS, MATS, VecKind, MatKind, lay, flat, kinds, vn, tn
from .quats import QK

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


class Steps:
    """A chain of calls whose optional results must be present."""

    def __init__(self, ctx, R, key, q, rule):
        self.ctx, self.R, self.key, self.q, self.rule = ctx, R, key, q, rule
        self.ok = True

    def __call__(self, q, *args, opt=False):
        r = self.R.call(q, *args)
        if opt:
            s, r = some(r)
            self.ok = AND(self.ok, s)
        return r

    def done(self, got, exp, pre=True):
        ctx, R = self.ctx, self.R
        where = ctx.where(self.q)
        ctx.ob(self.key + "/answers", where, "the operations give results", AND(R.g, self.ok), pre)
        g = AND(pre, AND(R.g, self.ok))
        for i, (a, b) in enumerate(zip(got, exp)):
            ctx.ob("%s/%d" % (self.key, i), where, self.rule, feq(a, b), g, {"one": a, "other": b})
        ctx.count("identities")
        ctx.done(R)


@check("C51")
def c51(ctx):
    for f in FLOATS:
        K = QK(ctx, f)
        M = MatKind(ctx, "Mat4", 4, f)
        c4 = VecKind(ctx, "Mat4x1", 4, f)

        def rotate(S, a, p):
            return S(K.q("rotate_vector"), a, p)

        def run(name, q, rule, body):
            key = "%s/%s" % (K.key, name)
            q = K.q(q)
            with guard(ctx, key, q):
                R = ctx.run()
                S = Steps(ctx, R, key, q, rule)
                ua, ub, p = unit_vec("a", 4), unit_vec("b", 4), vec("p", 3)
                body(R, S, K.mk(R, ua), K.mk(R, ub), K.v3.mk(R, p), ua, p)

        def product(R, S, a, b, pv, ua, p):
            ab = S(K.q("mul"), a, b)
            S.done(K.v3.rd(R, rotate(S, ab, pv)), K.v3.rd(R, rotate(S, a, rotate(S, b, pv))))
        run("product", "mul", "rotating by a product is rotating by the right factor and then by the left one", product)

        for op in ("inverse", "conjugate"):
            def undo(R, S, a, b, pv, ua, p, op=op):
                S.done(K.v3.rd(R, rotate(S, S(K.q(op), a), rotate(S, a, pv))), p)
            run("undo/" + op, op, "the inverse of a rotation undoes it", undo)

        def negated(R, S, a, b, pv, ua, p):
            S.done(K.v3.rd(R, rotate(S, S(K.q("negate"), a), pv)), K.v3.rd(R, rotate(S, a, pv)))
        run("negated", "negate", "a quaternion and its negative are the same rotation", negated)

        def normalised(R, S, a, b, pv, ua, p):
            big = S(K.q("scale"), a, V("k", (1,)))
            S.done(K.v3.rd(R, rotate(S, S(K.q("normalize"), big), pv)), K.v3.rd(R, rotate(S, a, pv)))
        run("normalised", "normalize", "a scaled quaternion normalises to the same rotation", normalised)

        def plane(R, S, a, b, pv, ua, p):
            n = K.mk(R, unit_vec("n", 3) + [T0])
            par = K.v3.rd(R, S(K.q("parallel_component_of_plane"), n, pv))
            ort = K.v3.rd(R, S(K.q("orthogonal_component_of_plane"), n, pv))
            ref = S(K.q("reflection_in_plane"), n, pv)
            back = K.v3.rd(R, S(K.q("reflection_in_plane"), n, ref))
            S.done(vadd(par, ort) + vsub(par, ort) + back + [dot(par, ort)], p + K.v3.rd(R, ref) + p + [T0])
        run("plane", "reflection_in_plane",
            "a vector is the sum of its components along and across a plane, reflecting reverses the second and twice gives "
            "the vector back", plane)

        def angles(R, S, a, b, pv, ua, p):
            ax, x = K.v3.mk(R, p), V("x")
            q1 = S(K.q("init_from_axis_angle_radian"), Agg([ax, x]))
            q2 = S(K.q("init_from_axis_angle_radian"), Agg([ax, VV.fneg(x)]))
            S.done(K.rd(R, S(K.q("mul"), q1, q2)) + K.rd(R, q2),
                   [T0, T0, T0, T1] + K.rd(R, S(K.q("conjugate"), q1)), NOT(vzero(p)))
        run("angles", "init_from_axis_angle_radian", "turning by an angle and by its negative about one axis cancel", angles)

        for rm in (True, False):
            def matrix(R, S, a, b, pv, ua, p, rm=rm):
                ab = S(K.q("mul"), a, b)
                A, B = S(K.q("to_rotation_matrix"), a, rm), S(K.q("to_rotation_matrix"), b, rm)
                S.done(M.rd(R, S(K.q("to_rotation_matrix"), ab, rm)), M.rd(R, S(M.q("mul"), A, B, opt=True)))
            run("matrix/" + lay(rm), "to_rotation_matrix", "the matrix of a product is the product of the matrices", matrix)

            def transposed(R, S, a, b, pv, ua, p, rm=rm):
                A = S(K.q("to_rotation_matrix"), a, rm)
                C_ = S(K.q("to_rotation_matrix"), S(K.q("conjugate"), a), rm)
                S.done(M.rd(R, C_) + M.rd(R, S(K.q("to_rotation_matrix"), S(K.q("negate"), a), rm)),
                       M.rd(R, S(M.q("transpose"), A)) + M.rd(R, A))
            run("transposed/" + lay(rm), "to_rotation_matrix",
                "the matrix of the inverse rotation is the transposed matrix, that of the negative the same", transposed)

            def applied(R, S, a, b, pv, ua, p, rm=rm):
                A = S(K.q("to_rotation_matrix"), a, rm)
                v = S(M.q("mul_mat4x1"), A, c4.mk(R, p + [T1]), opt=True)
                S.done(c4.rd(R, v), K.v3.rd(R, rotate(S, a, pv)) + [T1])
            run("applied/" + lay(rm), "to_rotation_matrix", "the matrix moves points as the quaternion does", applied)

            def shifted(R, S, a, b, pv, ua, p, rm=rm):
                t = vec("t", 3)
                q = S(K.q("scale"), S(K.q("init_from_translation"), K.v3.mk(R, t)), C(2))
                A = S(K.q("to_translation_matrix"), q, rm)
                v = S(M.q("mul_mat4x1"), A, c4.mk(R, p + [T1]), opt=True)
                S.done(c4.rd(R, v), vadd(p, t) + [T1])
            run("shifted/" + lay(rm), "to_translation_matrix",
                "the matrix of the doubled translation quaternion moves points by the translation", shifted)
    ctx.floor("identities", 30)


def vzero(v):
    r = True
    for x in v:
        r = AND(r, feq(x, T0))
    return r


@check("C52")
def c52(ctx):
    for K in kinds(ctx):
        n = K.n
        cv = VecKind(ctx, "Mat%dx1" % n, n, K.f)
        rv = VecKind(ctx, "Mat1x%d" % n, n, K.f)
        mulv, rmul = K.q("mul_mat%dx1" % n), vn("Mat1x%d" % n, K.f, "mul_mat%dx%d" % (n, n))
        for rm in (True, False):
            def run(name, q, rule, body):
                key = "%s/%s/%s" % (K.key, name, lay(rm))
                with guard(ctx, key, q):
                    R = ctx.run()
                    S = Steps(ctx, R, key, q, rule)
                    body(R, S, K.mk(R, K.sym("a"), rm), K.mk(R, K.sym("b"), rm), vec("x", n))

            def mul(S, a, b):
                return S(K.q("mul"), a, b, opt=True)

            def assoc(R, S, a, b, x):
                v = cv.mk(R, x)
                S.done(cv.rd(R, S(mulv, mul(S, a, b), v, opt=True)), cv.rd(R, S(mulv, a, S(mulv, b, v, opt=True), opt=True)))
            run("applied", mulv, "applying a product is applying the right factor and then the left one", assoc)

            def rassoc(R, S, a, b, x):
                v = rv.mk(R, x)
                S.done(rv.rd(R, S(rmul, v, mul(S, a, b), opt=True)), rv.rd(R, S(rmul, S(rmul, v, a, opt=True), b, opt=True)))
            run("row", rmul, "a row vector passes a product factor by factor", rassoc)

            def turned(R, S, a, b, x):
                t = S(K.q("transpose"), a)
                l = S(rmul, rv.mk(R, x), a, opt=True)
                S.done(cv.rd(R, S(vn(rv.name, K.f, "transpose"), l)), cv.rd(R, S(mulv, t, cv.mk(R, x), opt=True)))
            run("turned", rmul, "a row times a matrix is the transposed matrix times the column", turned)

            def trans(R, S, a, b, x):
                one = S(K.q("transpose"), mul(S, a, b))
                two = mul(S, S(K.q("transpose"), b), S(K.q("transpose"), a))
                S.done(K.rd(R, one), K.rd(R, two))
            run("transposed", K.q("transpose"), "the transposed product is the product of the transposed factors in reverse", trans)

            def distr(R, S, a, b, x):
                c = K.mk(R, K.sym("c"), rm)
                one = mul(S, a, S(K.q("plus"), b, c, opt=True))
                two = S(K.q("plus"), mul(S, a, b), mul(S, a, c), opt=True)
                k = V("k")
                three = S(K.q("scale"), mul(S, a, b), k, opt=True)
                four = mul(S, a, S(K.q("scale"), b, k, opt=True))
                S.done(K.rd(R, one) + K.rd(R, three), K.rd(R, two) + K.rd(R, four))
            run("distributive", K.q("mul"), "a product distributes over sums and scalings", distr)

            def inv(R, S, a, b, x):
                v = cv.mk(R, x)
                r = S.R.call(K.q("inverse"), a)
                s, m = some(r)
                w = S(mulv, m, S(mulv, a, v, opt=True), opt=True)
                S.done(cv.rd(R, w), x, s)
            run("undone", K.q("inverse"), "the inverse undoes what a matrix does to a vector", inv)

        key = K.key + "/identity"
        with guard(ctx, key, K.q("iden")):
            R = ctx.run()
            S = Steps(ctx, R, key, K.q("iden"), "the identity matrix changes nothing and is its own inverse")
            e = S(K.q("iden"))
            fl = K.flag(R, e)
            L = K.sym("a")
            if fl not in (True, False):
                raise Unsupported("storage order of the identity")
            a = K.mk(R, L, fl)
            got = K.rd(R, S(K.q("mul"), a, e, opt=True)) + K.rd(R, S(K.q("mul"), e, a, opt=True)) \
                + K.rd(R, S(K.q("inverse"), e, opt=True))
            S.done(got, flat(L) + flat(L) + K.rd(R, e))
    for f in FLOATS:
        for name, n in (("Mat2x1", 2), ("Mat1x2", 2), ("Mat3x1", 3), ("Mat1x3", 3), ("Mat4x1", 4), ("Mat1x4", 4)):
            K = VecKind(ctx, name, n, f)

            def q(op):
                return vn(name, f, op)
            key = K.key + "/length"
            with guard(ctx, key, q("magnitude")):
                R = ctx.run()
                S = Steps(ctx, R, key, q("magnitude"), "the squared length is the product of the vector with itself and grows "
                                                       "with the size of a factor")
                x, y, k = vec("x", n), vec("y", n), V("k", (0, 1))
                v, w = K.mk(R, x), K.mk(R, y)
                m = S(q("magnitude"), v, opt=True)
                d = S(q("dot"), v, v, opt=True)
                mk = S(q("magnitude"), S(q("scale"), v, k, opt=True), opt=True)
                xy, yx = S(q("dot"), v, w, opt=True), S(q("dot"), w, v, opt=True)
                S.done([fmul(m, m), mk, xy], [d, fmul(k, m), yx])
            key = K.key + "/unit"
            with guard(ctx, key, q("normalize")):
                R = ctx.run()
                S = Steps(ctx, R, key, q("normalize"), "a normalised vector has length one and normalising it again keeps it")
                x = vec("x", n)
                u = S(q("normalize"), K.mk(R, x), opt=True)
                uu = S(q("normalize"), u, opt=True)
                S.done([S(q("magnitude"), u, opt=True)] + K.rd(R, uu), [T1] + K.rd(R, u), NOT(vzero(x)))
            key = K.key + "/inverse-operations"
            with guard(ctx, key, q("plus")):
                R = ctx.run()
                S = Steps(ctx, R, key, q("plus"), "subtracting what was added, and dividing by what was multiplied, gives the vector back")
                x, y = vec("x", n), vec("y", n)
                z = [V("z%d" % i, (-1, 1)) for i in range(n)]
                v, w, s = K.mk(R, x), K.mk(R, y), K.mk(R, z)
                one = S(q("minus"), S(q("plus"), v, w, opt=True), w, opt=True)
                two = S(q("div"), S(q("mul_elem"), v, s, opt=True), s, opt=True)
                S.done(K.rd(R, one) + K.rd(R, two), x + x)
            if n == 3:
                key = K.key + "/cross"
                with guard(ctx, key, q("cross")):
                    R = ctx.run()
                    S = Steps(ctx, R, key, q("cross"), "the cross product is perpendicular to both factors and changes sign with their order")
                    x, y = vec("x", n), vec("y", n)
                    v, w = K.mk(R, x), K.mk(R, y)
                    c, d = S(q("cross"), v, w, opt=True), S(q("cross"), w, v, opt=True)
                    S.done([S(q("dot"), v, c, opt=True), S(q("dot"), w, c, opt=True)] + K.rd(R, d),
                           [T0, T0] + [VV.fneg(t) for t in K.rd(R, c)])
    ctx.floor("identities", 88)
