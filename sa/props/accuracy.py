"""Accumulated rounding of sums, products, quotients and lengths: C54."""
from fractions import Fraction
from ..check import *
from .. import poly, mdd, rounding, magnitude, values as VV
from ..poly import T0, T1, tconst, Term
from .mats import FLOATS, VECS, VecKind, lay, kinds, vn
from .quats import QK

CHECKS = {}
UNITS = 64
# operands of size 10**-n to 10**n; smallest normal and largest number
SIZES = {"f64": (50, -307, 308), "f32": (6, -37, 38)}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


class Tracked:
    """Calls whose arithmetic is tracked."""
    mode = rounding

    def __init__(self, ctx, key, q, what):
        self.ctx, self.key, self.q, self.what = ctx, key, q, what

    def __enter__(self):
        self.R = self.ctx.run()
        self.mode.reset()
        self.some = True
        I = self.R.I
        magnitude.AT = lambda: I.where(*I.at)
        VV.ROUND = self.mode
        return self

    def __exit__(self, *a):
        VV.ROUND = None

    def call(self, q, *args, opt=False):
        r = self.R.call(q, *args)
        if opt:
            s, r = some(r)
            self.some = AND(self.some, s)
        return r

    def done(self, got, scales, pre=True):
        """Every result is exact up to UNITS units of rounding of its scale."""
        VV.ROUND = None
        ctx, R = self.ctx, self.R
        g = AND(pre, AND(R.g, self.some))
        for i, (x, s) in enumerate(zip(got, scales)):
            k = s * tconst(UNITS)

            def ok(t, k=k):
                return not isinstance(t, Term) or rounding.within(rounding.err(t), k)
            x = mdd.restrict(x, g)
            ctx.ob("%s/%d" % (self.key, i), ctx.where(self.q), self.what, mdd.apply1(("acc", i, k), ok, x), g,
                   {"result": x, "error in units of rounding": mdd.apply1(("err", i), show_err, x), "allowed": k})
            ctx.count("results")
        ctx.count("operations")
        ctx.done(R)


class Sized(Tracked):
    """Calls whose intermediate results are judged by their size."""
    mode = magnitude
    ones = frozenset()

    def done(self, got, scales, pre=True):
        VV.ROUND = None
        ctx = self.ctx
        lg, lo, hi = SIZES["f32" if "f32" in self.q else "f64"]
        what = "no intermediate result overflows, and no product underflows, for operands of ordinary size"
        ctx.obls.append((self.key, ctx.where(self.q), what))
        for how, t, at in magnitude.outside(lg, lo, hi, self.ones):
            ctx.violation(self.key, "%s, computed at %s" % (ctx.where(self.q), at), what, {"how": how, "result": t.show()[:200]})
            break
        ctx.count("intermediate results", len(magnitude.NOTES))
        ctx.count("operations")
        ctx.done(self.R)


def show_err(t):
    e = rounding.err(t) if isinstance(t, Term) else T0
    return T0 if e is rounding.UNKNOWN else e


def mags(ts):
    return [rounding.mag(t) for t in ts]


def total(ts):
    r = T0
    for t in ts:
        r = r + rounding.mag(t)
    return r


def plus(xs, ys):
    return [rounding.mag(x) + rounding.mag(y) for x, y in zip(xs, ys)]


def prods(xs, ys):
    return [rounding.mag(x) * rounding.mag(y) for x, y in zip(xs, ys)]


def inner(xs, ys):
    return total(prods(xs, ys))


def length(xs):
    return VV.fsqrt(dot(xs, xs))


SUM = "a sum or difference is accurate relative to its two parts"
PRODUCT = "a product or quotient is accurate relative to its size"
INNER = "a sum of products is accurate relative to the sum of the sizes of the products"
LENGTH = "a length, or an entry divided by it, is accurate relative to its size"


@check("C54")
def c54(ctx):
    ctx.track = Tracked
    arithmetic(ctx)


@check("C55")
def c55(ctx):
    ctx.track = Sized
    arithmetic(ctx)
    for f in FLOATS:
        conversions(ctx, QK(ctx, f))
    for K in kinds(ctx):
        for rm in (True, False):
            normalised(ctx, K, rm)
    queries(ctx)
    extremes(ctx)
    ctx.floor("operations", 235)
    ctx.floor("intermediate results", 2500)


def conversions(ctx, K):
    """Quaternion operations with transcendental functions and other constructors."""
    for op in ("ln", "pow", "to_axis_angle", "to_translation_matrix", "init_from_translation", "init_from_vals_normalize",
               "init_from_axis_angle_radian", "init_from_axis_angle_degree", "interpolate_slerp"):
        q = K.q(op)
        key = "%s/%s" % (K.key, op)
        with guard(ctx, key, q):
            with Sized(ctx, key, q, "") as S:
                VV.ROUND = None
                unit = op in ("to_axis_angle", "interpolate_slerp")
                a, b = (unit_vec("a", 4), unit_vec("b", 4)) if unit else (vec("a", 4), vec("b", 4))
                p, t = vec("p", 3), V("t")
                S.ones = {x.num.lead()[0][0] for x in (a + b if unit else [])} | ({t.num.lead()[0][0]} if op != "pow" else set())
                x, y, v = K.mk(S.R, a), K.mk(S.R, b), K.v3.mk(S.R, p)
                if "axis_angle_" in op:
                    from ..values import Agg
                    v = Agg([v, t])
                VV.ROUND = magnitude
                S.call(q, *{"ln": [x], "pow": [x, t], "to_axis_angle": [x], "to_translation_matrix": [x, True], "interpolate_slerp": [x, y, t],
                            "init_from_translation": [v], "init_from_vals_normalize": a}.get(op, [v]))
                S.done((), ())


def normalised(ctx, K, rm):
    op = "normalize"
    q = K.q(op)
    key = "%s/%s/%s" % (K.key, op, lay(rm))
    with guard(ctx, key, q):
        with Sized(ctx, key, q, "") as S:
            S.call(q, K.mk(S.R, K.sym("a"), rm))
            S.done((), ())


def queries(ctx):
    """The intersection queries on shapes as they are after construction, without their bounds."""
    from .rel import free_values, placed, KINDS, SUPPORTED, SK, ask
    ID = (0, 1, 2)
    for ka in KINDS:
        for kb in SUPPORTED[ka]:
            if "TriPrism" in (ka, kb) and "Line" in (ka, kb):
                continue
            key = "%s-%s" % (ka, kb)
            q = SK(ctx, ka).q("get_intersect")
            with guard(ctx, key, q):
                with Sized(ctx, key, q, "") as S:
                    VV.ROUND = None
                    R = S.R
                    A, B = SK(ctx, ka), SK(ctx, kb)
                    fa, fb = free_values(A, R, "a"), free_values(B, R, "b")
                    a, b = placed(ctx, R, A, "a", None, ID, fa), placed(ctx, R, B, "b", None, ID, fb)
                    S.ones = {x.num.lead()[0][0] for f in (fa, fb) for x in f.get("d", ())}
                    VV.ROUND = magnitude
                    ask(R, A, a, b)
                    S.done((), ())


def extremes(ctx):
    """Furthest points in directions of ordinary length."""
    from .rel import free_values, placed, SK
    for kind in ("Point", "Sphere", "Box", "TriPrism"):
        K = SK(ctx, kind)
        q = K.q("get_support")
        key = "%s/support" % kind
        with guard(ctx, key, q):
            with Sized(ctx, key, q, "") as S:
                VV.ROUND = None
                R = S.R
                ob = placed(ctx, R, K, "s", None, (0, 1, 2), free_values(K, R, "s"))
                VV.ROUND = magnitude
                S.call(q, ob.val, K.v3.mk(R, vec("d", 3)))
                S.done((), ())


def arithmetic(ctx):
    for f in FLOATS:
        for name, n, tname in VECS:
            vectors(ctx, VecKind(ctx, name, n, f))
        quaternions(ctx, QK(ctx, f))
    for K in kinds(ctx):
        for rm in (True, False):
            matrices(ctx, K, rm)
    ctx.floor("operations", 200)


def vectors(ctx, K):
    name, n, f = K.name, K.n, K.f

    def run(op, what, body):
        q = vn(name, f, op)
        key = "%s/%s" % (K.key, op)
        with guard(ctx, key, q):
            with ctx.track(ctx, key, q, what) as S:
                x, y, k = vec("x", n), vec("y", n), V("k")
                body(S, q, K.mk(S.R, x), K.mk(S.R, y), x, y, k)

    for op, what, scale in (("plus", SUM, plus), ("minus", SUM, plus), ("mul_elem", PRODUCT, prods)):
        def binary(S, q, a, b, x, y, k, scale=scale):
            S.done(K.rd(S.R, S.call(q, a, b, opt=True)), scale(x, y))
        run(op, what, binary)

    def quotient(S, q, a, b, x, y, k):
        z = [V("z%d" % i, (-1, 1)) for i in range(n)]
        S.done(K.rd(S.R, S.call(q, a, K.mk(S.R, z), opt=True)), [rounding.mag(u) * rounding.inv_mag(w) for u, w in zip(x, z)])
    run("div", PRODUCT, quotient)

    def scaled(S, q, a, b, x, y, k):
        S.done(K.rd(S.R, S.call(q, a, k, opt=True)), prods(x, [k] * n))
    run("scale", PRODUCT, scaled)

    def dotted(S, q, a, b, x, y, k):
        S.done([S.call(q, a, b, opt=True)], [inner(x, y)])
    run("dot", INNER, dotted)

    def size(S, q, a, b, x, y, k):
        r = S.call(q, a, opt=True)
        VV.ROUND = None
        S.done([r], [length(x)])
    run("magnitude", LENGTH, size)

    def unit(S, q, a, b, x, y, k):
        r = K.rd(S.R, S.call(q, a, opt=True))
        VV.ROUND = None
        i = rounding.inv_mag(length(x))
        S.done(r, [rounding.mag(u) * i for u in x])
    run("normalize", LENGTH, unit)
    if n == 3:
        def crossed(S, q, a, b, x, y, k):
            S.done(K.rd(S.R, S.call(q, a, b, opt=True)),
                   [inner([x[(i + 1) % 3], x[(i + 2) % 3]], [y[(i + 2) % 3], y[(i + 1) % 3]]) for i in range(3)])
        run("cross", INNER, crossed)


def matrices(ctx, K, rm):
    n = K.n
    cv = VecKind(ctx, "Mat%dx1" % n, n, K.f)
    rv = VecKind(ctx, "Mat1x%d" % n, n, K.f)
    cells = [(i, j) for i in range(n) for j in range(n)]

    def run(op, q, what, body):
        key = "%s/%s/%s" % (K.key, op, lay(rm))
        with guard(ctx, key, q):
            with ctx.track(ctx, key, q, what) as S:
                A, B = K.sym("a"), K.sym("b")
                body(S, q, K.mk(S.R, A, rm), K.mk(S.R, B, rm), A, B)

    def flat(M):
        return [M[i][j] for i, j in cells]
    for op, what, scale in (("plus", SUM, plus), ("minus", SUM, plus), ("mul_elem", PRODUCT, prods)):
        def binary(S, q, a, b, A, B, scale=scale):
            S.done(K.rd(S.R, S.call(q, a, b, opt=True)), scale(flat(A), flat(B)))
        run(op, K.q(op), what, binary)

    def scaled(S, q, a, b, A, B):
        k = V("k")
        S.done(K.rd(S.R, S.call(q, a, k, opt=True)), prods(flat(A), [k] * (n * n)))
    run("scale", K.q("scale"), PRODUCT, scaled)

    def product(S, q, a, b, A, B):
        S.done(K.rd(S.R, S.call(q, a, b, opt=True)), [inner(A[i], [B[k][j] for k in range(n)]) for i, j in cells])
    run("mul", K.q("mul"), INNER, product)

    def column(S, q, a, b, A, B):
        x = vec("x", n)
        S.done(cv.rd(S.R, S.call(q, a, cv.mk(S.R, x), opt=True)), [inner(A[i], x) for i in range(n)])
    run("mul_column", K.q("mul_mat%dx1" % n), INNER, column)

    def row(S, q, a, b, A, B):
        x = vec("x", n)
        S.done(rv.rd(S.R, S.call(q, rv.mk(S.R, x), a, opt=True)), [inner(x, [A[k][j] for k in range(n)]) for j in range(n)])
    run("row_mul", vn(rv.name, K.f, "mul_mat%dx%d" % (n, n)), INNER, row)

    def traced(S, q, a, b, A, B):
        S.done([S.call(q, a)], [total([A[i][i] for i in range(n)])])
    run("trace", K.q("trace"), INNER, traced)

    def inverted(S, q, a, b, A, B):
        r = K.rd(S.R, S.call(q, a, opt=True))
        VV.ROUND = None
        d = det(A)
        D, ad = rounding.inv_mag(d), rounding.mag(d)
        sc = []
        for i, j in cells:
            m = rounding.mag(det([[A[r_][c] for c in range(n) if c != i] for r_ in range(n) if r_ != j]))
            sc.append(m * D + m * ad * D * D)
        S.done(r, sc)
    run("inverse", K.q("inverse"), "an entry of an inverse is accurate relative to the sizes of the terms of its cofactor and "
                                   "of the determinant", inverted)


def det(A):
    if len(A) == 1:
        return A[0][0]
    r = T0
    for j, x in enumerate(A[0]):
        t = x * det([[w for c, w in enumerate(row) if c != j] for row in A[1:]])
        r = r + t if j % 2 == 0 else r - t
    return r


def quaternions(ctx, K):
    def run(op, what, body):
        q = K.q(op)
        key = "%s/%s" % (K.key, op)
        with guard(ctx, key, q):
            with ctx.track(ctx, key, q, what) as S:
                a, b, p = vec("a", 4), vec("b", 4), vec("p", 3)
                body(S, q, K.mk(S.R, a), K.mk(S.R, b), a, b, p)
    for op in ("add", "minus"):
        run(op, SUM, lambda S, q, x, y, a, b, p: S.done(K.rd(S.R, S.call(q, x, y)), plus(a, b)))

    def product(S, q, x, y, a, b, p):
        perm = ([3, 2, 1, 0], [2, 3, 0, 1], [1, 0, 3, 2], [0, 1, 2, 3])
        S.done(K.rd(S.R, S.call(q, x, y)), [inner(a, [b[i] for i in pm]) for pm in perm])
    run("mul", INNER, product)

    def scaled(S, q, x, y, a, b, p):
        k = V("k")
        S.done(K.rd(S.R, S.call(q, x, k)), prods(a, [k] * 4))
    run("scale", PRODUCT, scaled)
    run("length_squared", INNER, lambda S, q, x, y, a, b, p: S.done([S.call(q, x)], [inner(a, a)]))

    def size(S, q, x, y, a, b, p):
        r = S.call(q, x)
        VV.ROUND = None
        S.done([r], [length(a)])
    run("length", LENGTH, size)

    def unit(S, q, x, y, a, b, p):
        r = K.rd(S.R, S.call(q, x))
        VV.ROUND = None
        i = rounding.inv_mag(length(a))
        S.done(r, [rounding.mag(t) * i for t in a])
    run("normalize", LENGTH, unit)

    def inverted(S, q, x, y, a, b, p):
        r = K.rd(S.R, S.call(q, x))
        VV.ROUND = None
        i = rounding.inv_mag(dot(a, a))
        S.done(r, [rounding.mag(t) * i for t in a])
    run("inverse", LENGTH, inverted)
    TURN = "a turned vector is accurate relative to its length (unit quaternions)"
    for op in ("rotate_vector", "reflection_in_plane", "parallel_component_of_plane", "orthogonal_component_of_plane"):
        def turned(S, q, x, y, a, b, p):
            w = T1 + total(a)
            S.done(K.v3.rd(S.R, S.call(q, x, K.v3.mk(S.R, p))), [total(p) * w * w] * 3)
        run(op, TURN, turned)
    for rm in (True, False):
        def matrix(S, q, x, y, a, b, p, rm=rm):
            M = MatKind(ctx, "Mat4", 4, K.f)
            w = T1 + total(a)
            S.done(M.rd(S.R, S.call(q, x, rm)), [w * w] * 16)
        run("to_rotation_matrix", "an entry of a rotation matrix is accurate relative to one (unit quaternions)", matrix)

    def mixed(S, q, x, y, a, b, p):
        t = V("t")
        S.done(K.rd(S.R, S.call(q, x, y, t)), [s * (T1 + rounding.mag(t)) for s in plus(a, b)])
    run("interpolate_linear", "an interpolated entry is accurate relative to the two ends", mixed)


from .mats import MatKind
