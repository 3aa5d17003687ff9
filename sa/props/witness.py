"""Type-level witnesses: programs that must, or must not, type-check against the library: C42."""
import glob
import json
import os
import re
import subprocess
import tempfile
import shutil
from ..check import *

CHECKS = {}
REPO = os.environ.get("MAZTH_REPO", "/repo")

VECS = ["Mat2x1", "Mat1x2", "Mat3x1", "Mat1x3", "Mat4x1", "Mat1x4"]
SQ = ["Mat3", "Mat4"]
FL = ["f32", "f64"]
SHAPES = ["point::Point3", "sphere::Sphere", "ray::Ray3", "plane::Plane", "rbox::RecBox", "line::Line3", "triprism::TriPrism"]


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def sh(cmd, env=None, cwd=None):
    return subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def library(scratch):
    """Metadata of the library at the current tree: (rmeta path, dependency dir) or an error."""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(scratch, "types"))
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    lock = os.path.join(REPO, "Cargo.lock")
    had = os.path.exists(lock)
    r = sh(["cargo", "+nightly", "check", "--lib", "--offline"], env=env, cwd=REPO)
    if not had and os.path.exists(lock):
        os.remove(lock)
    m = sorted(glob.glob(os.path.join(scratch, "types", "**", "libmazth-*.rmeta"), recursive=True))
    if m:
        dirs = {os.path.dirname(x) for x in glob.glob(os.path.join(scratch, "types", "**", "*.rmeta"), recursive=True)}
        return m[0], sorted(dirs), None
    return None, None, r.stdout[-2000:]


HEAD = "#![allow(warnings)]\nextern crate mazth;\nuse mazth::mat::*; use mazth::quat::Quat; use mazth::i_comparable::IComparableError as _; " \
       "use mazth::i_shape::*; use mazth::i_bound::*; use mazth::i_vicinity::IVicinity as _;\n"


def compile_witnesses(scratch, lib, deps, name, lines):
    """Errors per witness line: {index: {codes}}; errors outside any witness are under None."""
    src = os.path.join(scratch, name + ".rs")
    with open(src, "w") as f:
        f.write(HEAD + "\n".join(lines) + "\n")
    off = HEAD.count("\n") + 1
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--emit=metadata", "--error-format=json",
                        "--extern", "mazth=" + lib] + [x for d in deps for x in ("-L", "dependency=" + d)] + ["--out-dir", scratch, src],
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    out = {}
    for ln in r.stderr.splitlines():
        try:
            d = json.loads(ln)
        except ValueError:
            continue
        if d.get("level") != "error" or d.get("$message_type") != "diagnostic":
            continue
        code = (d.get("code") or {}).get("code")
        spans = [s for s in d["spans"] if s["is_primary"] and s["file_name"] == src]
        if not spans:
            if not d["message"].startswith("aborting"):
                out.setdefault(None, set()).add(d["message"][:200])
            continue
        out.setdefault(spans[0]["line_start"] - off, set()).add(code)
    return out, r.returncode


def ty(n, f):
    return "%s<%s>" % (n, f)


def operations():
    """(expression, [(parameter, type, by reference)]) of each operation, with its proper operand types."""
    ops = []
    for f in FL:
        for m in VECS + SQ:
            t = ty(m, f)
            for op in ("mul_elem", "div", "plus", "minus", "dot", "cross"):
                ops.append(("a.%s(%%s)" % op, t, t, True))
            ops.append(("a.is_equal(%%s, 0.5%s)" % f, t, t, True))
        for m in SQ:
            ops.append(("a.mul(%s)", ty(m, f), ty(m, f), True))
        ops.append(("a.mul_mat3x1(%s)", ty("Mat3", f), ty("Mat3x1", f), True))
        ops.append(("a.mul_mat4x1(%s)", ty("Mat4", f), ty("Mat4x1", f), True))
        ops.append(("a.mul_mat3x3(%s)", ty("Mat1x3", f), ty("Mat3", f), True))
        ops.append(("a.mul_mat4x4(%s)", ty("Mat1x4", f), ty("Mat4", f), True))
        q, v = ty("Quat", f), ty("Mat3x1", f)
        for op in ("add", "minus", "mul"):
            ops.append(("a.%s(%%s)" % op, q, q, False))
        for op in ("rotate_vector", "reflection_in_plane", "parallel_component_of_plane", "orthogonal_component_of_plane"):
            ops.append(("a.%s(%%s)" % op, q, v, False))
        ops.append(("%s::init_from_translation(%%s)" % ("Quat::<%s>" % f), q, v, False))
        for op in ("interpolate_linear", "interpolate_slerp"):
            ops.append(("Quat::<%s>::%s(*a, %%s, 0.5)" % (f, op), q, q, False))
            ops.append(("Quat::<%s>::%s(%%s, *a, 0.5)" % (f, op), q, q, False))
        for m in VECS + SQ + ["Quat"]:
            ops.append(("a.scale(%s)", ty(m, f), f, False))
        ops.append(("a.pow(%s)", q, f, False))
        for op in ("init_from_axis_angle_degree", "init_from_axis_angle_radian"):
            ops.append(("Quat::<%s>::%s((%%s, 0.5))" % (f, op), q, v, False))
    for s in SHAPES:
        ops.append(("a.get_support(%s)", "mazth::" + s, "Mat3x1<f64>", True))
    return ops


ALL = [ty(m, f) for f in FL for m in VECS + SQ + ["Quat"]] + FL


def results():
    """(expression on a, receiver type, result type): what each operation yields."""
    out = []
    for f in FL:
        for m in VECS + SQ:
            t = ty(m, f)
            for op in ("mul_elem", "div", "plus", "minus", "cross"):
                out.append(("a.%s(&a)" % op, t, "Option<%s>" % t))
            out.append(("a.dot(&a)", t, "Option<%s>" % f))
            out.append(("a.magnitude()", t, "Option<%s>" % f))
            out.append(("a.normalize()", t, "Option<%s>" % t))
            out.append(("a.scale(0.5)", t, "Option<%s>" % t))
            r = {"Mat2x1": "Mat1x2", "Mat1x2": "Mat2x1", "Mat3x1": "Mat1x3", "Mat1x3": "Mat3x1", "Mat4x1": "Mat1x4",
                 "Mat1x4": "Mat4x1"}.get(m, m)
            out.append(("a.transpose()", t, ty(r, f)))
        out.append(("a.submat_mat3()", ty("Mat4", f), ty("Mat3", f)))
        for m in SQ:
            out.append(("a.inverse()", ty(m, f), "Option<%s>" % ty(m, f)))
            out.append(("a.trace()", ty(m, f), f))
        q = ty("Quat", f)
        for e, t in (("a.to_rotation_matrix(true)", ty("Mat4", f)), ("a.to_translation_matrix(true)", ty("Mat4", f)),
                     ("a.to_axis_angle()", "(Mat3x1<%s>, %s)" % (f, f)), ("a.length()", f), ("a.normalize()", q),
                     ("a.inverse()", q), ("a.ln()", q), ("a.conjugate()", q), ("a.negate()", q)):
            out.append((e, q, t))
    for s in SHAPES:
        t = "mazth::" + s
        out.append(("a.get_intersect(&a)", t, "(bool, Option<Mat3x1<f64>>)"))
        out.append(("a.get_support(&Default::default())", t, "Option<Mat3x1<f64>>"))
    return out


@check("C42")
def c42(ctx):
    scratch = tempfile.mkdtemp(prefix="mazth-ty-")
    ctx.explanation = ("Type-level witnesses: programs generated over the operations and operand types are type-checked against "
                       "the library's current metadata; ill-shaped ones must be rejected, their well-shaped twins accepted.")
    try:
        lib, deps, err = library(scratch)
        if err is not None or lib is None:
            ctx.violation("build", REPO, "the library must compile", {"log": err})
            return
        ops = operations()
        neg, pos = [], []
        for i, (e, recv, arg, byref) in enumerate(ops):
            pos.append((e, recv, arg, byref))
            cand = ALL if not recv.startswith("mazth::") else ALL[:18]
            for t in cand:
                if t == arg:
                    continue
                neg.append((e, recv, t, byref))

        def text(k, n, w):
            e, recv, arg, byref = w
            return "pub fn %s%d(a: &%s, b: %s%s) { let _ = %s; }" % (k, n, recv, "&" if byref else "", arg, e % "b")
        rule = "an operation does not accept an operand of another shape, orientation or precision"
        errs, rc = compile_witnesses(scratch, lib, deps, "neg", [text("n", i, w) for i, w in enumerate(neg)])
        for i, w in enumerate(neg):
            key = "reject/%s/%s/%s" % (w[1], w[0] % "_", w[2])
            ctx.obls.append((key, w[1], rule))
            if not errs.get(i):
                ctx.violation(key, w[1], rule, {"accepted": text("n", i, w)})
            elif not errs[i] <= {"E0308", "E0277"}:
                ctx.violation(key, w[1], rule, {"rejected for another reason": sorted(map(str, errs[i])), "program": text("n", i, w)})
        ctx.count("rejected programs", len(neg))
        rule = "an operation accepts its operands through shared references and yields the stated type"
        lines = [text("p", i, w) for i, w in enumerate(pos)]
        desc = [(w[1], w[0] % "_") for w in pos]
        for e, recv, t in results():
            lines.append("pub fn r%d(a: %s) -> %s { %s }" % (len(lines), recv, t, e))
            desc.append((recv, e))
        lines.append("pub fn sync<T: Send + Sync + 'static>() {}")
        desc.append(("-", "helper"))
        everything = [ty(m, f) for f in FL for m in VECS + SQ + ["Quat"]] + ["mazth::" + s for s in SHAPES] + ["mazth::bound::AxisAlignedBBox"]
        for t in everything:
            lines.append("pub fn s%d() { sync::<%s>() }" % (len(lines), t))
            desc.append((t, "crosses threads"))
            lines.append("pub fn c%d(a: &%s) -> %s { a.clone() }" % (len(lines), t, t))
            desc.append((t, "can be copied"))
        for s in SHAPES:
            t = "mazth::" + s
            lines.append("pub fn d%d(a: %s) -> Box<dyn IShape + Send + Sync> { Box::new(a) }" % (len(lines), t))
            desc.append((t, "stands behind the shape interface"))
            lines.append("pub fn e%d(a: &%s, b: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) { let x = a.get_bound(); let y = a.get_intersect(b); let _ = x.get_centroid(); y }" % (len(lines), t))
            desc.append((t, "is queried while its bound is looked at"))
        errs, rc = compile_witnesses(scratch, lib, deps, "pos", lines)
        for i, (recv, e) in enumerate(desc):
            key = "accept/%s/%s" % (recv, e)
            ctx.obls.append((key, recv, rule))
            if errs.get(i):
                ctx.violation(key, recv, rule, {"codes": sorted(map(str, errs[i])), "program": lines[i]})
        if errs.get(None):
            ctx.violation("accept", "-", rule, {"errors": sorted(errs[None])})
        ctx.count("accepted programs", len(desc))
        # borrow rules
        rule = "a shape cannot be changed through a shared reference or while its bound is looked at, and a bound does not outlive its shape"
        bor = []
        for s in SHAPES:
            t = "mazth::" + s
            bor.append(("%s/vicinity through a shared reference" % s, {"E0596"}, "pub fn b%d(a: &" + t + ") { a.set_vicinity(0.5); }"))
            bor.append(("%s/changed under its bound" % s, {"E0502"},
                        "pub fn b%d(a: &mut " + t + ") { let x = a.get_bound(); a.set_vicinity(0.5); let _ = x.get_centroid(); }"))
            bor.append(("%s/bound outlives" % s, {"E0515"}, "pub fn b%d(a: " + t + ") -> Box<dyn Fn() -> f64> { let x: &'static dyn IBound = a.get_bound(); Box::new(move || x.get_centroid()[0]) }"))
        for f in FL:
            for m in SQ:
                bor.append(("%s<%s>/transposed through a shared reference" % (m, f), {"E0596"}, "pub fn b%d(a: &" + ty(m, f) + ") { a.transpose_self(); }"))
            for m in VECS:
                bor.append(("%s<%s>/entry through a shared reference" % (m, f), {"E0594", "E0596"}, "pub fn b%d(a: &" + ty(m, f) + ") { a[0] = 0.5; }"))
        bor.append(("AxisAlignedBBox/union through a shared reference", {"E0596"}, "pub fn b%d(a: &mazth::bound::AxisAlignedBBox) { a.get_union(&[]); }"))
        lines = [x[2] % i for i, x in enumerate(bor)]
        errs, rc = compile_witnesses(scratch, lib, deps, "bor", lines)
        for i, (k, codes, _) in enumerate(bor):
            key = "borrow/" + k
            ctx.obls.append((key, k, rule))
            if not errs.get(i):
                ctx.violation(key, k, rule, {"accepted": lines[i]})
            elif not errs[i] <= codes | {"E0505", "E0597", "E0515", "E0521", "E0716"}:
                ctx.violation(key, k, rule, {"rejected for another reason": sorted(map(str, errs[i])), "program": lines[i]})
        ctx.count("borrow programs", len(bor))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.floor("rejected programs", 2000)
    ctx.floor("accepted programs", 200)
    ctx.floor("borrow programs", 30)
