"""Vectors and matrices: C01-C08."""
from fractions import Fraction
from ..check import *
from .. import poly, mdd, values as VV

VECS = [("Mat2x1", 2, "Mat1x2"), ("Mat1x2", 2, "Mat2x1"), ("Mat3x1", 3, "Mat1x3"),
        ("Mat1x3", 3, "Mat3x1"), ("Mat4x1", 4, "Mat1x4"), ("Mat1x4", 4, "Mat4x1")]
MATS = [("Mat3", 3), ("Mat4", 4)]
FLOATS = ["f64", "f32"]
CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def vn(name, f, op):
    return "mazth::mat::%s::<%s>::%s" % (name, f, op)


def tn(name, f, trait, op):
    return "<mazth::mat::%s<%s> as %s>::%s" % (name, f, trait, op)


class VecKind:
    """One vector type at one precision, seen through its public field."""

    def __init__(self, ctx, name, n, f):
        self.ctx, self.name, self.n, self.f = ctx, name, n, f
        self.key = "%s/%s" % (name, f)

    def ty(self, R):
        return R.arg_ty(vn(self.name, self.f, "dot"), 0)

    def mk(self, R, xs):
        return R.struct(self.ty(R), _val=Agg(xs))

    def rd(self, R, v, t=None):
        return items(R.get(t if t is not None else self.ty(R), v, "_val"), self.n)


def opt_ob(ctx, R, key, where, rule, r, exp, rd, g=True, show=None):
    """The call returned Some(x) with the expected scalar leaves."""
    ctx.ob(key + "/returns", where, "produces a result for every admissible input", R.g, g)
    if r is None:
        return
    s, pay = some(r)
    ctx.ob(key + "/some", where, "result is present", s, AND(R.g, g))
    if pay is None:
        return
    got = rd(pay)
    for i, (a, b) in enumerate(zip(got, exp)):
        ctx.ob("%s/%d" % (key, i), where, rule, feq(a, b), AND(R.g, g), {"got": a, "expected": b})
    if len(got) != len(exp):
        ctx.violation(key + "/arity", where, rule, {"got": len(got), "expected": len(exp)})


@check("C01")
def c01(ctx):
    for f in FLOATS:
        for name, n, tname in VECS:
            K = VecKind(ctx, name, n, f)
            ops = {"plus": (fadd, "component i of the sum is a_i + b_i"),
                   "minus": (fsub, "component i of the difference is a_i - b_i"),
                   "mul_elem": (fmul, "component i of the elementwise product is a_i * b_i"),
                   "div": (VV.fdiv, "component i of the quotient is a_i / b_i where b_i is not 0")}
            for op, (fn, rule) in ops.items():
                q = vn(name, f, op)
                with guard(ctx, K.key + "/" + op, q):
                    R = ctx.run()
                    a = vec("a", n)
                    b = vec("b", n, (-1, 1) if op == "div" else None)
                    r = R.call(q, K.mk(R, a), K.mk(R, b))
                    opt_ob(ctx, R, K.key + "/" + op, ctx.where(q), rule, r,
                           [fn(x, y) for x, y in zip(a, b)], lambda v: K.rd(R, v))
                    ctx.count("operations")
                    ctx.done(R)
            q = vn(name, f, "scale")
            with guard(ctx, K.key + "/scale", q):
                R = ctx.run()
                a = vec("a", n)
                s = V("s")
                r = R.call(q, K.mk(R, a), s)
                opt_ob(ctx, R, K.key + "/scale", ctx.where(q), "component i of the scaled vector is s * a_i", r,
                       [fmul(x, s) for x in a], lambda v: K.rd(R, v))
                ctx.count("operations")
                ctx.done(R)
            q = vn(name, f, "transpose")
            with guard(ctx, K.key + "/transpose", q):
                R = ctx.run()
                a = vec("a", n)
                r = R.call(q, K.mk(R, a))
                T = VecKind(ctx, tname, n, f)
                got = T.rd(R, r)
                ctx.ob(K.key + "/transpose", ctx.where(q), "transposition keeps component order",
                       AND(R.g, veq(got, a)))
                if R.ret_ty(q) != T.ty(R):
                    ctx.violation(K.key + "/transpose/type", ctx.where(q), "row and column vectors transpose into each other",
                                  {"type": ctx.p.types[R.ret_ty(q)]["n"]})
                ctx.count("operations")
                ctx.done(R)
            q = vn(name, f, "size")
            with guard(ctx, K.key + "/size", q):
                R = ctx.run()
                r = R.call(q, K.mk(R, vec("a", n)))
                s, pay = some(r)
                ctx.ob(K.key + "/size", ctx.where(q), "size is the number of components",
                       AND(AND(R.g, s), beq(pay, n)))
                ctx.count("operations")
                ctx.done(R)
            q = tn(name, f, "std::default::Default", "default")
            with guard(ctx, K.key + "/default", q):
                R = ctx.run()
                r = R.call(q)
                ctx.ob(K.key + "/default", ctx.where(q), "the default vector is zero",
                       AND(R.g, veq(K.rd(R, r), [T0] * n)))
                ctx.count("operations")
                ctx.done(R)
            for op, tr in (("index", "std::ops::Index<usize>"), ("index_mut", "std::ops::IndexMut<usize>")):
                q = tn(name, f, tr, op)
                for i in range(n + 2):
                    with guard(ctx, "%s/%s/%d" % (K.key, op, i), q):
                        R = ctx.run()
                        a = vec("a", n)
                        obj = R.alloc(K.mk(R, a), K.ty(R))
                        p = R.call(q, obj, i)
                        key = "%s/%s/%d" % (K.key, op, i)
                        if i >= n:
                            ctx.ob(key, ctx.where(q), "a position outside the vector is refused", NOT(R.g))
                        else:
                            ctx.ob(key, ctx.where(q), "position i denotes component i",
                                   AND(R.g, feq(R.deref(p), a[i])))
                            if op == "index_mut":
                                z = V("z")
                                R.I.store(R.st, p, z)
                                b = list(a)
                                b[i] = z
                                ctx.ob(key + "/write", ctx.where(q), "writing position i changes component i only",
                                       veq(K.rd(R, R.deref(obj)), b))
                        ctx.done(R)
                ctx.count("operations")
    ctx.floor("operations", 120)


@check("C02")
def c02(ctx):
    for f in FLOATS:
        for name, n, _ in VECS:
            K = VecKind(ctx, name, n, f)
            q = vn(name, f, "dot")
            with guard(ctx, K.key + "/dot", q):
                R = ctx.run()
                a, b = vec("a", n), vec("b", n)
                r = R.call(q, K.mk(R, a), K.mk(R, b))
                opt_ob(ctx, R, K.key + "/dot", ctx.where(q), "dot product is the sum of component products", r,
                       [dot(a, b)], lambda v: [v])
                ctx.count("operations")
                ctx.done(R)
            q = vn(name, f, "cross")
            with guard(ctx, K.key + "/cross", q):
                R = ctx.run()
                a, b = vec("a", n), vec("b", n)
                r = R.call(q, K.mk(R, a), K.mk(R, b))
                if n == 3:
                    opt_ob(ctx, R, K.key + "/cross", ctx.where(q), "cross product is the right-handed one", r,
                           cross(a, b), lambda v: K.rd(R, v))
                else:
                    s, _p = some(r)
                    ctx.ob(K.key + "/cross", ctx.where(q), "no cross product outside three dimensions", AND(R.g, NOT(s)))
                ctx.count("operations")
                ctx.done(R)
            q = vn(name, f, "magnitude")
            with guard(ctx, K.key + "/magnitude", q):
                R = ctx.run()
                a = vec("a", n)
                r = R.call(q, K.mk(R, a))
                opt_ob(ctx, R, K.key + "/magnitude", ctx.where(q), "magnitude is the root of the sum of squares", r,
                       [VV.fsqrt(dot(a, a))], lambda v: [v])
                ctx.count("operations")
                ctx.done(R)
            q = vn(name, f, "normalize")
            with guard(ctx, K.key + "/normalize", q):
                R = ctx.run()
                a = vec("a", n)
                nz = gt(dot(a, a), T0)
                m = VV.fsqrt(dot(a, a))
                r = R.call(q, K.mk(R, a))
                opt_ob(ctx, R, K.key + "/normalize", ctx.where(q), "a nonzero vector normalises to itself over its magnitude",
                       r, [VV.fdiv(x, m) for x in a], lambda v: K.rd(R, v), nz)
                ctx.count("operations")
                ctx.done(R)
    ctx.floor("operations", 48)


class MatKind:
    def __init__(self, ctx, name, n, f):
        self.ctx, self.name, self.n, self.f = ctx, name, n, f
        self.key = "%s/%s" % (name, f)

    def q(self, op):
        return vn(self.name, self.f, op)

    def ty(self, R):
        return R.arg_ty(self.q("index"), 0)

    def mk(self, R, L, rm):
        """Matrix with logical entries L[r][c] stored in the given order."""
        n = self.n
        xs = [L[k // n][k % n] if rm else L[k % n][k // n] for k in range(n * n)]
        return R.struct(self.ty(R), _val=Agg(xs), _is_row_major=rm)

    def rd(self, R, v):
        """Logical entries (row by row) according to the matrix's own storage flag."""
        n = self.n
        t = self.ty(R)
        xs = items(R.get(t, v, "_val"), n * n)
        fl = R.get(t, v, "_is_row_major")
        return [VV.vite(fl, xs[r * n + c], xs[c * n + r]) if xs[r * n + c] is not xs[c * n + r] else xs[r * n + c]
                for r in range(n) for c in range(n)]

    def flag(self, R, v):
        return R.get(self.ty(R), v, "_is_row_major")

    def sym(self, nm, dom=None):
        n = self.n
        return [[V("%s%d%d" % (nm, r, c), dom) for c in range(n)] for r in range(n)]


def flat(L):
    return [x for row in L for x in row]


def matmul(A, B):
    n = len(A)
    out = []
    for r in range(n):
        row = []
        for c in range(len(B[0])):
            s = T0
            for k in range(len(B)):
                s = fadd(s, fmul(A[r][k], B[k][c]))
            row.append(s)
        out.append(row)
    return out


def kinds(ctx):
    for f in FLOATS:
        for name, n in MATS:
            yield MatKind(ctx, name, n, f)


def lay(rm):
    return "row" if rm else "col"


@check("C03")
def c03(ctx):
    for K in kinds(ctx):
        n = K.n
        for rm in (True, False):
            kk = "%s/%s" % (K.key, lay(rm))
            q = K.q("init")
            with guard(ctx, kk + "/init", q):
                R = ctx.run()
                L = K.sym("a")
                r = R.call(q, Agg(flat(L)), rm)
                ctx.ob(kk + "/init", ctx.where(q), "values given row by row become the logical entries in either storage order",
                       AND(R.g, veq(K.rd(R, r), flat(L))))
                ctx.ob(kk + "/init/flag", ctx.where(q), "the requested storage order is recorded", beq(K.flag(R, r), rm))
                ctx.count("operations")
                ctx.done(R)
            far = [1 << k for k in range(5, 64) if k != 32 and k != 63] + [10 ** k for k in range(2, 19)]
            bad = [n, n + 1, n * n, n * n + n, 1 << 32, 1 << 63, (1 << 64) - 1]
            for op in ("index", "index_mut"):
                q = K.q(op)
                for r_ in range(n):
                    for c_ in range(n):
                        key = "%s/%s/%d,%d" % (kk, op, r_, c_)
                        with guard(ctx, key, q):
                            R = ctx.run()
                            L = K.sym("a")
                            obj = R.alloc(K.mk(R, L, rm), K.ty(R))
                            p = R.call(q, obj, r_, c_)
                            v = R.deref(p) if op == "index_mut" else p
                            ctx.ob(key, ctx.where(q), "entry (r, c) is read at row r, column c",
                                   AND(R.g, feq(v, L[r_][c_])))
                            if op == "index_mut":
                                z = V("z")
                                R.I.store(R.st, p, z)
                                L2 = [list(x) for x in L]
                                L2[r_][c_] = z
                                w = R.deref(obj)
                                ctx.ob(key + "/write", ctx.where(q), "writing entry (r, c) changes that entry only",
                                       AND(beq(K.flag(R, w), rm), veq(K.rd(R, w), flat(L2))))
                            ctx.count("entries")
                            ctx.done(R)
                for r_, c_ in [(0, b) for b in bad] + [(n - 1, b) for b in bad] + [(b, 0) for b in bad] + \
                        [(b, n - 1) for b in bad] + [(n, n)] + [(0, b) for b in far] + [(b, 0) for b in far]:
                    key = "%s/%s/out/%d,%d" % (kk, op, r_, c_)
                    with guard(ctx, key, q):
                        R = ctx.run()
                        obj = R.alloc(K.mk(R, K.sym("a"), rm), K.ty(R))
                        R.call(q, obj, r_, c_)
                        ctx.ob(key, ctx.where(q), "a row or column outside the matrix is refused", NOT(R.g))
                        ctx.count("refusals")
                        ctx.done(R)
            q = K.q("trace")
            with guard(ctx, kk + "/trace", q):
                R = ctx.run()
                L = K.sym("a")
                r = R.call(q, K.mk(R, L, rm))
                s = T0
                for i in range(n):
                    s = fadd(s, L[i][i])
                ctx.ob(kk + "/trace", ctx.where(q), "trace is the sum of the diagonal entries", AND(R.g, feq(r, s)),
                       show={"got": r})
                ctx.count("operations")
                ctx.done(R)
            q = K.q("size")
            with guard(ctx, kk + "/size", q):
                R = ctx.run()
                r = R.call(q, K.mk(R, K.sym("a"), rm))
                s, pay = some(r)
                ctx.ob(kk + "/size", ctx.where(q), "size is the number of entries", AND(AND(R.g, s), beq(pay, n * n)))
                ctx.count("operations")
                ctx.done(R)
        q = K.q("iden")
        with guard(ctx, K.key + "/iden", q):
            R = ctx.run()
            r = R.call(q)
            ctx.ob(K.key + "/iden", ctx.where(q), "identity has ones on the diagonal and zeros elsewhere",
                   AND(R.g, veq(K.rd(R, r), [T1 if i == j else T0 for i in range(n) for j in range(n)])))
            ctx.count("operations")
            ctx.done(R)
        q = tn(K.name, K.f, "std::default::Default", "default")
        with guard(ctx, K.key + "/default", q):
            R = ctx.run()
            r = R.call(q)
            ctx.ob(K.key + "/default", ctx.where(q), "the default matrix is zero",
                   AND(R.g, veq(K.rd(R, r), [T0] * (n * n))))
            ctx.count("operations")
            ctx.done(R)
    ctx.floor("operations", 28)
    ctx.floor("entries", 200)
    ctx.floor("refusals", 200)


@check("C04")
def c04(ctx):
    ops = {"plus": (fadd, "entry (r, c) of the sum is a_rc + b_rc"),
           "minus": (fsub, "entry (r, c) of the difference is a_rc - b_rc"),
           "mul_elem": (fmul, "entry (r, c) of the elementwise product is a_rc * b_rc"),
           "div": (VV.fdiv, "entry (r, c) of the elementwise quotient is a_rc / b_rc where b_rc is not 0")}
    for K in kinds(ctx):
        n = K.n
        for op, (fn, rule) in ops.items():
            q = K.q(op)
            for r1 in (True, False):
                for r2 in (True, False):
                    key = "%s/%s/%s-%s" % (K.key, op, lay(r1), lay(r2))
                    with guard(ctx, key, q):
                        R = ctx.run()
                        A = K.sym("a")
                        B = K.sym("b", (-1, 1) if op == "div" else None)
                        r = R.call(q, K.mk(R, A, r1), K.mk(R, B, r2))
                        exp = [fn(x, y) for x, y in zip(flat(A), flat(B))]
                        binary(ctx, R, K, key, q, rule, r, exp, r1 == r2)
        for r1 in (True, False):
            key = "%s/scale/%s" % (K.key, lay(r1))
            q = K.q("scale")
            with guard(ctx, key, q):
                R = ctx.run()
                A = K.sym("a")
                s = V("s")
                r = R.call(q, K.mk(R, A, r1), s)
                binary(ctx, R, K, key, q, "entry (r, c) of the scaled matrix is s * a_rc", r,
                       [fmul(x, s) for x in flat(A)], True)
            key = "%s/normalize/%s" % (K.key, lay(r1))
            q = K.q("normalize")
            with guard(ctx, key, q):
                R = ctx.run()
                A = K.sym("a")
                A[n - 1][n - 1] = V("last", (-1, 1))
                r = R.call(q, K.mk(R, A, r1))
                binary(ctx, R, K, key, q, "normalisation divides every entry by the last diagonal entry", r,
                       [VV.fdiv(x, A[n - 1][n - 1]) for x in flat(A)], True)
            for op in ("dot", "cross"):
                key = "%s/%s/%s" % (K.key, op, lay(r1))
                q = K.q(op)
                with guard(ctx, key, q):
                    R = ctx.run()
                    r = R.call(q, K.mk(R, K.sym("a"), r1), K.mk(R, K.sym("b"), r1))
                    ctx.ob(key, ctx.where(q), "no dot or cross product of square matrices is reported",
                           AND(R.g, NOT(some(r)[0])))
                    ctx.count("operations")
                    ctx.done(R)
    ctx.floor("operations", 90)


def binary(ctx, R, K, key, q, rule, r, exp, must):
    """Logical result in the operands' storage order; operands of different order may also be refused."""
    where = ctx.where(q)
    if must:
        ctx.ob(key + "/returns", where, "produces a result when the operands share a storage order", R.g)
    if r is not None:
        s, pay = some(r)
        if must:
            ctx.ob(key + "/some", where, "result is present", s, R.g)
        if pay is not None:
            got = K.rd(R, pay)
            for i, (a, b) in enumerate(zip(got, exp)):
                ctx.ob("%s/%d,%d" % (key, i // K.n, i % K.n), where, rule, feq(a, b), AND(R.g, s),
                       {"got": a, "expected": b})
    elif must:
        pass
    ctx.count("operations")
    ctx.done(R)


@check("C05")
def c05(ctx):
    for K in kinds(ctx):
        n = K.n
        q = K.q("mul")
        for r1 in (True, False):
            for r2 in (True, False):
                key = "%s/mul/%s-%s" % (K.key, lay(r1), lay(r2))
                with guard(ctx, key, q):
                    R = ctx.run()
                    A, B = K.sym("a"), K.sym("b")
                    r = R.call(q, K.mk(R, A, r1), K.mk(R, B, r2))
                    binary(ctx, R, K, key, q, "entry (r, c) of the product is the sum over k of a_rk * b_kc", r,
                           flat(matmul(A, B)), r1 == r2)
        cv = VecKind(ctx, "Mat%dx1" % n, n, K.f)
        rv = VecKind(ctx, "Mat1x%d" % n, n, K.f)
        for r1 in (True, False):
            q = K.q("mul_mat%dx1" % n)
            key = "%s/mul_vec/%s" % (K.key, lay(r1))
            with guard(ctx, key, q):
                R = ctx.run()
                A, x = K.sym("a"), vec("x", n)
                r = R.call(q, K.mk(R, A, r1), cv.mk(R, x))
                opt_ob(ctx, R, key, ctx.where(q), "component r of matrix times column is the sum over k of a_rk * x_k",
                       r, flat(matmul(A, [[c] for c in x])), lambda v: cv.rd(R, v))
                ctx.count("operations")
                ctx.done(R)
            q = vn("Mat1x%d" % n, K.f, "mul_mat%dx%d" % (n, n))
            key = "%s/row_mul/%s" % (K.key, lay(r1))
            with guard(ctx, key, q):
                R = ctx.run()
                A, x = K.sym("a"), vec("x", n)
                r = R.call(q, rv.mk(R, x), K.mk(R, A, r1))
                opt_ob(ctx, R, key, ctx.where(q), "component c of row times matrix is the sum over k of x_k * a_kc",
                       r, flat(matmul([x], A)), lambda v: rv.rd(R, v))
                ctx.count("operations")
                ctx.done(R)
    ctx.floor("operations", 32)


@check("C06")
def c06(ctx):
    for K in kinds(ctx):
        n = K.n
        for r1 in (True, False):
            A0 = None
            q = K.q("transpose")
            key = "%s/transpose/%s" % (K.key, lay(r1))
            with guard(ctx, key, q):
                R = ctx.run()
                A = K.sym("a")
                exp = [A[c][r] for r in range(n) for c in range(n)]
                r = R.call(q, K.mk(R, A, r1))
                got = K.rd(R, r)
                for i in range(n * n):
                    ctx.ob("%s/%d,%d" % (key, i // n, i % n), ctx.where(q), "entry (r, c) of the transpose is a_cr",
                           AND(R.g, feq(got[i], exp[i])), show={"got": got[i], "expected": exp[i]})
                ctx.count("operations")
                ctx.done(R)
            q = K.q("transpose_self")
            key = "%s/transpose_self/%s" % (K.key, lay(r1))
            with guard(ctx, key, q):
                R = ctx.run()
                A = K.sym("a")
                exp = [A[c][r] for r in range(n) for c in range(n)]
                obj = R.alloc(K.mk(R, A, r1), K.ty(R))
                R.call(q, obj)
                got = K.rd(R, R.deref(obj))
                for i in range(n * n):
                    ctx.ob("%s/%d,%d" % (key, i // n, i % n), ctx.where(q), "in-place transposition replaces entry (r, c) by a_cr",
                           AND(R.g, feq(got[i], exp[i])), show={"got": got[i], "expected": exp[i]})
                ctx.count("operations")
                ctx.done(R)
            if n == 4:
                q = K.q("submat_mat3")
                key = "%s/submat/%s" % (K.key, lay(r1))
                K3 = MatKind(ctx, "Mat3", 3, K.f)
                with guard(ctx, key, q):
                    R = ctx.run()
                    A = K.sym("a")
                    r = R.call(q, K.mk(R, A, r1))
                    got = K3.rd(R, r)
                    exp = [A[r_][c_] for r_ in range(3) for c_ in range(3)]
                    for i in range(9):
                        ctx.ob("%s/%d,%d" % (key, i // 3, i % 3), ctx.where(q), "the extracted block is the upper left one",
                               AND(R.g, feq(got[i], exp[i])), show={"got": got[i], "expected": exp[i]})
                    ctx.count("operations")
                    ctx.done(R)
    ctx.floor("operations", 20)


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    s = T0
    for c in range(n):
        m = [row[:c] + row[c + 1:] for row in M[1:]]
        t = fmul(M[0][c], det(m))
        s = fadd(s, t) if c % 2 == 0 else fsub(s, t)
    return s


TINY = Fraction(1, 10 ** 6)


@check("C07")
def c07(ctx):
    for K in kinds(ctx):
        n = K.n
        q = K.q("inverse")
        for r1 in (True, False):
            key = "%s/inverse/%s" % (K.key, lay(r1))
            with guard(ctx, key, q):
                R = ctx.run()
                A = K.sym("a")
                d = det(A)
                r = R.call(q, K.mk(R, A, r1))
                where = ctx.where(q)
                ctx.ob(key + "/returns", where, "always answers", R.g)
                s, pay = some(r)
                ctx.ob(key + "/singular", where, "a singular matrix has no inverse", NOT(AND(s, eq(d, T0))), R.g)
                ctx.ob(key + "/refused", where, "only a determinant within 1e-6 of zero is refused",
                       AND(le(d, C(TINY)), ge(d, C(-TINY))), AND(R.g, NOT(s)))
                if pay is None:
                    ctx.violation(key + "/never", where, "an invertible matrix has an inverse", {})
                    continue
                g = AND(AND(R.g, s), NOT(eq(d, T0)))
                xs = K.rd(R, pay)
                X = [[mdd.restrict(xs[r_ * n + c_], g) for c_ in range(n)] for r_ in range(n)]
                for i in range(n):
                    for j in range(n):
                        e = T0
                        for k in range(n):
                            e = fadd(e, fmul(A[i][k], X[k][j]))
                        ctx.ob("%s/%d,%d" % (key, i, j), where, "matrix times its inverse is the identity, entry by entry",
                               feq(e, T1 if i == j else T0), g, {"product entry": e})
                ctx.count("inverses")
                ctx.done(R)
    ctx.floor("inverses", 8)


@check("C08")
def c08(ctx):
    tr = "mazth::i_comparable::IComparableError<%s>"
    for f in FLOATS:
        for name, n, _ in VECS:
            K = VecKind(ctx, name, n, f)
            q = tn(name, f, tr % f, "is_equal")
            key = K.key + "/is_equal"
            with guard(ctx, key, q):
                R = ctx.run()
                a, b, e = vec("a", n), vec("b", n), V("e")
                r = R.call(q, K.mk(R, a), K.mk(R, b), e)
                close(ctx, R, key, q, r, a, b, e)
                ctx.done(R)
            for i in range(n):
                key2 = "%s/nan%d" % (key, i)
                with guard(ctx, key2, q):
                    R = ctx.run()
                    a, b, e = vec("a", n), vec("b", n), V("e")
                    a[i] = NAN
                    r = R.call(q, K.mk(R, a), K.mk(R, b), e)
                    notequal(ctx, R, key2, q, r)
                    ctx.done(R)
    for K in kinds(ctx):
        n = K.n
        q = tn(K.name, K.f, tr % K.f, "is_equal")
        for r1 in (True, False):
            for r2 in (True, False):
                key = "%s/is_equal/%s-%s" % (K.key, lay(r1), lay(r2))
                with guard(ctx, key, q):
                    R = ctx.run()
                    A, B, e = K.sym("a"), K.sym("b"), V("e")
                    r = R.call(q, K.mk(R, A, r1), K.mk(R, B, r2), e)
                    if r1 == r2:
                        close(ctx, R, key, q, r, flat(A), flat(B), e)
                    else:
                        s, pay = some(r)
                        ok = True
                        for x, y in zip(flat(A), flat(B)):
                            ok = AND(ok, AND(le(fsub(x, y), e), ge(fsub(x, y), VV.fneg(e))))
                        ctx.ob(key, ctx.where(q), "matrices of different storage order are reported equal only when they agree",
                               OR(NOT(AND(s, pay)), ok), R.g)
                        ctx.count("comparisons")
                    ctx.done(R)
        for i in range(n * n):
            key = "%s/is_equal/nan%d" % (K.key, i)
            with guard(ctx, key, q):
                R = ctx.run()
                A, B, e = K.sym("a"), K.sym("b"), V("e")
                A[i // n][i % n] = NAN
                r = R.call(q, K.mk(R, A, True), K.mk(R, B, True), e)
                notequal(ctx, R, key, q, r)
                ctx.done(R)
    ctx.floor("comparisons", 28)


def close(ctx, R, key, q, r, a, b, e):
    where = ctx.where(q)
    ctx.ob(key + "/returns", where, "always answers", R.g)
    s, pay = some(r)
    ctx.ob(key + "/some", where, "an answer is present", s, R.g)
    ok = True
    for x, y in zip(a, b):
        d = fsub(x, y)
        ok = AND(ok, AND(le(d, e), ge(d, VV.fneg(e))))
    ctx.ob(key, where, "equal within e exactly when every component differs by at most e", beq(pay, ok), AND(R.g, s))
    ctx.count("comparisons")


def notequal(ctx, R, key, q, r):
    s, pay = some(r) if r is not None else (False, False)
    ctx.ob(key, ctx.where(q), "a value that is not a number equals nothing", NOT(AND(s, pay)), R.g)
    ctx.count("nan cases")
