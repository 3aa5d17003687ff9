"""Transfer functions of the primitives below the analysed MIR: compiler intrinsics, libm, the
allocator and the panic entry points."""
import re
from fractions import Fraction
from . import mdd, poly
from .mdd import Node, NAN, UNINIT, apply1, apply2, when, restrict, terminals, NOT, AND
from .mir import Unsupported
from .values import *
from . import values as VV
from .poly import tconst, T0, T1, Term

_cache = {}


def strip(n):
    """Path without generic arguments."""
    out = []
    d = 0
    i = 0
    while i < len(n):
        c = n[i]
        if c == "<":
            d += 1
        elif c == ">" and n[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return re.sub(r"(::)+", "::", "".join(out)).rstrip(":")


def find(inst):
    k = inst["key"]
    if k in _cache:
        return _cache[k]
    r = _find(inst)
    _cache[k] = r
    return r


def _find(inst):
    if inst["local"]:
        return None
    if inst["intr"]:
        f = INTR.get(inst["intr"])
        if f is not None:
            return f
        if inst["body"] is None:
            def bad(I, s, inst, vals, fr, span, tys):
                raise Unsupported("intrinsic %s" % inst["intr"])
            return bad
        return None
    n = strip(inst["name"])
    f = FNS.get(inst["name"]) or FNS.get(n) or FNS.get(strip(inst["def"]))
    if f is not None:
        return f
    for pre in PANIC:
        if n.startswith(pre):
            return m_panic
    if n.startswith(("std::fmt::Arguments::", "core::fmt::Arguments::", "core::fmt::rt::", "std::fmt::rt::")):
        return m_unit      # the parts of a message: nothing that an operation computes depends on them
    if inst["body"] is None:
        if n.endswith("Drop::drop") or "as std::ops::Drop>" in inst["name"] or "deallocate" in n:
            return m_unit
    return None


PANIC = ("core::panicking::", "std::rt::panic", "std::rt::begin_panic", "std::option::unwrap_failed",
         "std::option::expect_failed", "core::option::", "std::result::unwrap_failed", "core::slice::index::slice_",
         "std::alloc::handle_alloc_error", "core::result::unwrap_failed", "alloc::raw_vec::handle_error",
         "alloc::raw_vec::capacity_overflow", "std::process::abort", "core::cell::panic", "core::str::slice_error_fail",
         "std::vec::Vec::swap_remove::assert_failed", "std::vec::Vec::remove::assert_failed", "std::vec::Vec::insert::assert_failed")
PANICKIND = [("unwrap_failed", "unwrap"), ("expect_failed", "unwrap"), ("slice_", "bounds"), ("bounds", "bounds"),
             ("begin_panic", "explicit"), ("panic", "explicit"), ("abort", "abort")]


def m_panic(I, s, inst, vals, fr, span, tys):
    n = inst["name"]
    kind = "explicit"
    for a, b in PANICKIND:
        if a in n:
            kind = b
            break
    if "unimplemented_default_msg" in n:
        return UNIT, s
    return I.panic(s, kind, fr, span)


def m_unit(I, s, inst, vals, fr, span, tys):
    return UNIT, s


INTR = {}
FNS = {}


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


def fn(*names):
    def d(f):
        for n in names:
            FNS[n] = f
        return f
    return d


def targ(inst, i=0):
    a = [x for x in inst["args"] if isinstance(x, int)]
    return a[i]


for nm in ("sqrtf64", "sqrtf32", "sqrt"):
    intr(nm)(lambda I, s, inst, v, fr, sp, ty: (fsqrt(restrict(v[0], s.g)), s))
for nm in ("fabsf64", "fabsf32", "fabs"):
    intr(nm)(lambda I, s, inst, v, fr, sp, ty: (VV.fabs(restrict(v[0], s.g)), s))
for base in ("sin", "cos", "exp"):
    for suf in ("", "f32", "f64"):
        intr(base + suf)(lambda I, s, inst, v, fr, sp, ty, b=base: (ffn(b, restrict(v[0], s.g)), s))
for base, nm2 in (("log", "ln"),):
    for suf in ("", "f32", "f64"):
        intr(base + suf)(lambda I, s, inst, v, fr, sp, ty, b=nm2: (ffn(b, restrict(v[0], s.g)), s))
for suf in ("", "f32", "f64"):
    intr("pow" + suf)(lambda I, s, inst, v, fr, sp, ty: (ffn("pow", restrict(v[0], s.g), restrict(v[1], s.g)), s))
    intr("powf" + suf)(lambda I, s, inst, v, fr, sp, ty: (ffn("pow", restrict(v[0], s.g), restrict(v[1], s.g)), s))
    intr("log2" + suf)(lambda I, s, inst, v, fr, sp, ty: (ffn("log2", restrict(v[0], s.g)), s))
    intr("log10" + suf)(lambda I, s, inst, v, fr, sp, ty: (ffn("log10", restrict(v[0], s.g)), s))
    intr("exp2" + suf)(lambda I, s, inst, v, fr, sp, ty: (ffn("exp2", restrict(v[0], s.g)), s))
    intr("fma" + suf, "fmuladd" + suf)(lambda I, s, inst, v, fr, sp, ty: (fadd(fmul(v[0], v[1]), v[2]), s))
    intr("copysign" + suf)(lambda I, s, inst, v, fr, sp, ty: (VV.fcopysign(v[0], v[1]), s))


def _imm(I, s, inst, v, fr, sp, ty):
    f = min if inst["intr"].endswith("min") else max
    return apply2(inst["intr"], f, restrict(v[0], s.g), restrict(v[1], s.g)), s


intr("integer_min", "integer_max")(_imm)


def _powi(I, s, inst, v, fr, sp, ty):
    n = restrict(v[1], s.g)
    if not isinstance(n, int):
        raise Unsupported("powi exponent")
    return fpowi(v[0], n), s


intr("powi", "powif32", "powif64")(_powi)


def _minmax(I, s, inst, v, fr, sp, ty):
    return VV.fminmax(v[0], v[1], "min" in inst["intr"]), s


for nm in ("minimum_number_nsz_f64", "maximum_number_nsz_f64", "minimum_number_nsz_f32", "maximum_number_nsz_f32",
           "minnumf64", "maxnumf64", "minnumf32", "maxnumf32"):
    intr(nm)(_minmax)


def _fbin(op):
    def f(I, s, inst, v, fr, sp, ty):
        return op(v[0], v[1]), s
    return f


for nm, op in (("fadd_algebraic", fadd), ("fsub_algebraic", fsub), ("fmul_algebraic", fmul), ("fdiv_algebraic", fdiv),
               ("fadd_fast", fadd), ("fsub_fast", fsub), ("fmul_fast", fmul), ("fdiv_fast", fdiv)):
    intr(nm)(_fbin(op))

for nm, k, n in (("std::sys::cmath::acos", "acos", 1), ("std::sys::cmath::acosf", "acos", 1),
                 ("std::sys::cmath::asin", "asin", 1), ("std::sys::cmath::asinf", "asin", 1),
                 ("std::sys::cmath::atan", "atan", 1), ("std::sys::cmath::atanf", "atan", 1),
                 ("std::sys::cmath::tan", "tan", 1), ("std::sys::cmath::tanf", "tan", 1),
                 ("std::sys::cmath::sinh", "sinh", 1), ("std::sys::cmath::cosh", "cosh", 1), ("std::sys::cmath::tanh", "tanh", 1),
                 ("std::sys::cmath::cbrt", "cbrt", 1), ("std::sys::cmath::expm1", "expm1", 1),
                 ("std::sys::cmath::log1p", "log1p", 1),
                 ("std::sys::cmath::atan2", "atan2", 2), ("std::sys::cmath::atan2f", "atan2", 2)):
    fn(nm)(lambda I, s, inst, v, fr, sp, ty, k=k, n=n: (ffn(k, *[restrict(x, s.g) for x in v[:n]]), s))


def _hypot(I, s, inst, v, fr, sp, ty):
    return fsqrt(fadd(fmul(v[0], v[0]), fmul(v[1], v[1]))), s


fn("std::sys::cmath::hypot", "std::sys::cmath::hypotf")(_hypot)


def _bits_sign(I, s, inst, v, fr, sp, ty):
    def f(t):
        if isinstance(t, Term):
            return apply1("isneg", lambda x: x < 0, mdd.term_sign(t))
        return t is mdd.NINF
    return apply1("signneg", f, v[0]), s


for w in ("f64", "f32"):
    for pre in ("core::%s::<impl %s>::", "std::%s::<impl %s>::"):
        pass


@fn("core::f64::is_sign_negative", "core::f32::is_sign_negative", "std::f64::is_sign_negative", "std::f32::is_sign_negative")
def _isn(I, s, inst, v, fr, sp, ty):
    return _bits_sign(I, s, inst, v, fr, sp, ty)


@fn("core::f64::is_sign_positive", "core::f32::is_sign_positive")
def _isp(I, s, inst, v, fr, sp, ty):
    r, s = _bits_sign(I, s, inst, v, fr, sp, ty)
    return NOT(r), s


# ------------------------------------------------------------------------------- misc intrinsics

@intr("size_of", "min_align_of", "align_of", "pref_align_of", "size_of_type_id")
def _sizeof(I, s, inst, v, fr, sp, ty):
    t = targ(inst)
    lay = I.types[t]["lay"]
    return (lay["size"] if inst["intr"] == "size_of" else lay["align"]), s


@intr("size_of_val", "min_align_of_val", "align_of_val")
def _sizeofval(I, s, inst, v, fr, sp, ty):
    t = targ(inst)
    td = I.types[t]
    if td["k"] == "slice":
        e = I.types[td["e"]]["lay"]
        if inst["intr"] == "size_of_val":
            return apply1(("sov", e["size"]), lambda n: n * e["size"], I.meta(restrict(v[0], s.g))), s
        return e["align"], s
    lay = td["lay"]
    if td["k"] in ("dyn", "str"):
        raise Unsupported("size_of_val dyn")
    return (lay["size"] if inst["intr"] == "size_of_val" else lay["align"]), s


@intr("assume", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "cold_path", "forget",
      "prefetch_read_data", "black_box_unit")
def _nop(I, s, inst, v, fr, sp, ty):
    return UNIT, s


@intr("likely", "unlikely", "black_box", "type_id_identity")
def _ident(I, s, inst, v, fr, sp, ty):
    return v[0], s


@intr("ub_checks", "contract_checks")
def _ub(I, s, inst, v, fr, sp, ty):
    return False, s


@intr("needs_drop")
def _nd(I, s, inst, v, fr, sp, ty):
    return I.needs_drop(targ(inst), set()), s


@intr("ptr_offset_from_unsigned", "ptr_offset_from")
def _pofu(I, s, inst, v, fr, sp, ty):
    def f(a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return I.pdiff(a, b)
        if a == b:
            return 0
        raise Unsupported("pointer difference of %r %r" % (a, b))
    a, b = restrict(v[0], s.g), restrict(v[1], s.g)
    return _guard2(s, "pofu", f, a, b), s


def _guard2(s, tag, f, a, b):
    # combinations excluded by the path condition must not be evaluated
    return apply2(tag, f, a, b)


@intr("offset", "arith_offset")
def _off(I, s, inst, v, fr, sp, ty):
    return I.offset(restrict(v[0], s.g), restrict(v[1], s.g)), s


@intr("transmute", "transmute_unchecked")
def _tr(I, s, inst, v, fr, sp, ty):
    a = [x for x in inst["args"] if isinstance(x, int)]
    sp_, dp = I.types[I.peel(a[0])], I.types[I.peel(a[1])]
    if sp_["k"] in ("ptr", "ref") and dp["k"] in ("ptr", "ref"):
        return I.ptrcast(v[0], sp_["e"], dp["e"]), s
    return I.transmute(v[0], a[0], a[1]), s


@intr("const_eval_select")
def _ces(I, s, inst, v, fr, sp, ty):
    # arguments, const variant, runtime variant
    a = [x for x in inst["args"] if isinstance(x, int)]
    rt = None
    for t in a:
        td = I.types[t]
        if td["k"] == "fndef":
            rt = td
    args = I.untuple(a[0], v[0])
    return I.call_inst(s, rt["inst"], args, fr, sp)


@intr("copy_nonoverlapping", "copy")
def _cpy(I, s, inst, v, fr, sp, ty):
    I.copy(s, v[0], v[1], v[2])
    return UNIT, s


@intr("write_bytes")
def _wb(I, s, inst, v, fr, sp, ty):
    n = restrict(v[2], s.g)
    if n == 0:
        return UNIT, s
    raise Unsupported("write_bytes")


@intr("read_via_copy", "volatile_load", "unaligned_volatile_load")
def _rvc(I, s, inst, v, fr, sp, ty):
    return I.load(s, v[0]), s


@intr("write_via_move", "volatile_store")
def _wvm(I, s, inst, v, fr, sp, ty):
    if I.p.is_zst(targ(inst)):
        return UNIT, s
    I.store(s, v[0], v[1])
    return UNIT, s


@intr("typed_swap_nonoverlapping")
def _tsn(I, s, inst, v, fr, sp, ty):
    a, b = I.load(s, v[0]), I.load(s, v[1])
    I.store(s, v[0], b)
    I.store(s, v[1], a)
    return UNIT, s


@intr("ptr_metadata")
def _pm(I, s, inst, v, fr, sp, ty):
    m = I.meta(restrict(v[0], s.g))
    return (UNIT if m is None else m), s


@intr("aggregate_raw_ptr")
def _arp(I, s, inst, v, fr, sp, ty):
    return I.mkfat(v[0], v[1]), s


@intr("three_way_compare")
def _twc(I, s, inst, v, fr, sp, ty):
    def f(a, b):
        return (a > b) - (a < b)
    return I.ordering(apply2("twc", f, v[0], v[1])), s


@intr("discriminant_value")
def _dv(I, s, inst, v, fr, sp, ty):
    t = targ(inst)
    val = I.load(s, v[0])
    td = I.types[t]
    ds = [int(x["d"]) for x in td["v"]]
    for i, d in enumerate(ds):
        if d >= 1 << 63:
            ds[i] = d - (1 << 128) if d >= 1 << 127 else d
    return apply1(("dv", t), lambda i: ds[i], restrict(val.d, s.g)), s


def _iw(op):
    def f(I, s, inst, v, fr, sp, ty):
        t = I.types[targ(inst)]
        return I.binop(op, restrict(v[0], s.g), restrict(v[1], s.g), targ(inst)), s
    return f


for nm, op in (("wrapping_add", "Add"), ("wrapping_sub", "Sub"), ("wrapping_mul", "Mul"), ("unchecked_add", "Add"),
               ("unchecked_sub", "Sub"), ("unchecked_mul", "Mul"), ("unchecked_div", "Div"), ("unchecked_rem", "Rem"),
               ("exact_div", "Div"), ("disjoint_bitor", "BitOr"), ("unchecked_shl", "Shl"), ("unchecked_shr", "Shr")):
    intr(nm)(_iw(op))


def _ovf(op):
    def f(I, s, inst, v, fr, sp, ty):
        t = targ(inst)
        td = I.types[t]
        bits, sg = td["b"], td["s"]
        r = I.binop(op, restrict(v[0], s.g), restrict(v[1], s.g), t)

        def ov(a, b):
            x = a + b if op == "Add" else a - b if op == "Sub" else a * b
            return wrapi(x, bits, sg) != x
        return Agg([r, apply2("iov%s%d%d" % (op, bits, sg), ov, v[0], v[1])]), s
    return f


def wrapi(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


for nm, op in (("add_with_overflow", "Add"), ("sub_with_overflow", "Sub"), ("mul_with_overflow", "Mul")):
    intr(nm)(_ovf(op))


def _sat(op):
    def f(I, s, inst, v, fr, sp, ty):
        td = I.types[targ(inst)]
        bits, sg = td["b"], td["s"]
        lo = -(1 << (bits - 1)) if sg else 0
        hi = (1 << (bits - 1)) - 1 if sg else (1 << bits) - 1
        return apply2("sat%s%d%d" % (op, bits, sg),
                      lambda a, b: max(lo, min(hi, a + b if op == "Add" else a - b)), v[0], v[1]), s
    return f


intr("saturating_add")(_sat("Add"))
intr("saturating_sub")(_sat("Sub"))


def _bitcount(f):
    def g(I, s, inst, v, fr, sp, ty):
        td = I.types[targ(inst)]
        return apply1((inst["intr"], td["b"]), lambda a: f(a & ((1 << td["b"]) - 1), td["b"]), v[0]), s
    return g


intr("ctpop")(_bitcount(lambda a, b: bin(a).count("1")))
intr("ctlz", "ctlz_nonzero")(_bitcount(lambda a, b: b - a.bit_length()))
intr("cttz", "cttz_nonzero")(_bitcount(lambda a, b: b if a == 0 else (a & -a).bit_length() - 1))


@intr("raw_eq")
def _raweq(I, s, inst, v, fr, sp, ty):
    raise Unsupported("raw_eq")


@intr("type_name", "type_id", "caller_location")
def _opq(I, s, inst, v, fr, sp, ty):
    return UNINIT, s


def _round(f):
    def g(I, s, inst, v, fr, sp, ty):
        def h(t):
            if isinstance(t, Term) and t.is_const():
                return tconst(f(Fraction(t.const())))
            if isinstance(t, Term):
                return poly.tvar(poly.fn_atom(inst["intr"][:5], [t]))
            return t
        return apply1("rnd" + inst["intr"], h, v[0]), s
    return g


for suf in ("f32", "f64", ""):
    intr("floor" + suf)(_round(lambda c: c.numerator // c.denominator))
    intr("ceil" + suf)(_round(lambda c: -((-c.numerator) // c.denominator)))
    intr("trunc" + suf)(_round(lambda c: abs(c.numerator) // c.denominator * (1 if c >= 0 else -1)))
    intr("round" + suf)(_round(lambda c: int(abs(c) + Fraction(1, 2)) * (1 if c >= 0 else -1)))


# ------------------------------------------------------------------------------- allocation

def _alloc_elems(I, s, n):
    o = I.new_obj(s, "H", Agg([UNINIT] * n))
    return Ptr(o, (0,), None)


def _field(I, t, name):
    i = I.p.field_index(t, name)
    if i is None:
        raise Unsupported("field %s of %s" % (name, I.types[t]["n"]))
    return i


@fn("alloc::raw_vec::RawVecInner::with_capacity_in", "alloc::raw_vec::RawVecInner::with_capacity_zeroed_in",
    "alloc::raw_vec::RawVecInner::try_allocate_in")
def _wc(I, s, inst, v, fr, sp, ty):
    cap = restrict(v[0], s.g)
    caps = terminals(cap) if isinstance(cap, Node) else [cap]
    if not all(isinstance(c, int) and c <= 4096 for c in caps):
        raise Unsupported("allocation size")
    # the RawVecInner type: return type of this instance
    t = _rvi_type(I)
    n = max(max(caps), 0)
    p = _alloc_elems(I, s, n)
    fs = I.p.fields(t)
    vals = [UNIT] * len(fs)
    vals[_field(I, t, "ptr")] = p
    vals[_field(I, t, "cap")] = cap
    return I.mkstruct(t, vals), s


def _rvi_type(I):
    for i, t in enumerate(I.types):
        if t["k"] == "adt" and t["def"] == "alloc::raw_vec::RawVecInner" and "Global" in t["n"]:
            return i
    for i, t in enumerate(I.types):
        if t["k"] == "adt" and t["def"] == "alloc::raw_vec::RawVecInner":
            return i
    raise Unsupported("RawVecInner")


def _grow(I, s, ptr, need):
    """Reallocate the buffer behind `ptr` (a pointer to RawVec / RawVecInner)."""
    t = _rvi_type(I)
    v = I.load(s, ptr)
    ip, ic = _field(I, t, "ptr"), _field(I, t, "cap")
    buf = restrict(v.e[ip], s.g)
    cap = restrict(v.e[ic], s.g)
    nd = restrict(need, s.g) if need is not None else apply1("plus1", lambda c: c + 1, cap)
    mx = max([x for x in (terminals(nd) if isinstance(nd, Node) else [nd])])
    mc = max([x for x in (terminals(cap) if isinstance(cap, Node) else [cap])])
    n = max(mx, 2 * mc if mc < 64 else mx, 4)
    if n > 4096:
        raise Unsupported("vector growth")
    elems = []
    for i in range(n):
        acc = UNINIT
        for b in (terminals(buf) if isinstance(buf, Node) else [buf]):
            if not isinstance(b, Ptr):
                continue
            val = I.load1(s, Ptr(b.obj, b.path[:-1] + (b.path[-1] + i,), None))
            if val is UNINIT:
                continue
            c = when(buf, b) if isinstance(buf, Node) else True
            acc = vite(c, val, acc)
        elems.append(acc)
    o = I.new_obj(s, "H", Agg(elems))
    e = list(v.e)
    e[ip] = Ptr(o, (0,), None)
    e[ic] = n
    I.store(s, ptr, Agg(e))


@fn("alloc::raw_vec::RawVec::grow_one", "alloc::raw_vec::RawVecInner::grow_one")
def _g1(I, s, inst, v, fr, sp, ty):
    _grow(I, s, v[0], None)
    return UNIT, s


@fn("alloc::raw_vec::RawVecInner::reserve::do_reserve_and_handle", "alloc::raw_vec::do_reserve_and_handle")
def _drh(I, s, inst, v, fr, sp, ty):
    need = apply2("addn", lambda a, b: a + b, restrict(v[1], s.g), restrict(v[2], s.g))
    _grow(I, s, v[0], need)
    return UNIT, s


@fn("std::alloc::Global::alloc_impl_runtime", "std::alloc::Global::alloc_impl", "alloc::alloc::exchange_malloc",
    "std::boxed::box_new_uninit", "alloc::boxed::box_new_uninit")
def _ai(I, s, inst, v, fr, sp, ty):
    o = I.new_obj(s, "B", UNINIT)
    p = Ptr(o, (), None)
    if "alloc_impl" in inst["name"]:
        return EnumV(0, {0: (p,)}), s
    return p, s


@fn("<std::alloc::Global as std::alloc::Allocator>::deallocate", "std::alloc::dealloc", "alloc::alloc::dealloc")
def _da(I, s, inst, v, fr, sp, ty):
    return UNIT, s


@fn("<std::alloc::Global as std::clone::Clone>::clone", "<std::alloc::Global as std::default::Default>::default")
def _gc(I, s, inst, v, fr, sp, ty):
    return UNIT, s


FNS["::deallocate"] = _da
FNS["::clone#Global"] = _gc
