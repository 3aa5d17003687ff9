#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the registered checks (dev helper)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import props

MAT, QUAT = "lib/mat.rs", "lib/quat.rs"
P = []


def prop(pid, title, statement, qtext, why, files, mech, over=("inputs",), tech=None, note=None):
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier={"over": list(over), "text": qtext}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
                  _tech=tech, _note=note))


ALLV = "all component values, every vector type and both float precisions"
FEW = "the tests multiply or add a handful of fixed literals in f64; a wrong index or sign in one component, type or precision shows for other values only"

prop("C01", "Vector arithmetic is componentwise",
     "For row and column vectors of 2, 3 and 4 components, in both float precisions, sum, difference, elementwise product and quotient (nonzero divisors) and scaling act on each component independently and always give a result. "
     "Transposing keeps the components in order and turns rows into columns and columns into rows; the size is the number of components and the default vector is zero. "
     "Reading or writing by position touches exactly that component, and a position outside the vector is refused.",
     ALLV, FEW, [MAT], [("macro-generated vector operations", MAT)])
prop("C02", "Dot, cross, magnitude and normalisation of vectors",
     "The dot product is the sum of the products of components, the magnitude is the square root of the sum of squares, and a nonzero vector normalises to itself divided by its magnitude, for every vector type and precision. "
     "The cross product of three-component vectors is the right-handed one; other sizes report that there is none.",
     ALLV, FEW, [MAT], [("dot, cross, magnitude, normalize", MAT)])
prop("C03", "Matrix entries do not depend on the storage order",
     "Values given row by row to build a 3x3 or 4x4 matrix are its logical entries in either storage order, and the requested order is recorded. "
     "Reading entry (row, column) returns the logical entry and writing it changes that entry alone; a row or column outside the matrix is refused. "
     "The trace is the sum of the diagonal, the identity has ones on the diagonal and zeros elsewhere, the default matrix is zero and the size is the number of entries.",
     "all entry values, all rows and columns including out-of-range ones, both storage orders and precisions",
     "the tests read a few entries of fixed matrices and never a row or column out of range that still falls inside the storage", [MAT],
     [("init, index, index_mut, iden, trace, Default", MAT)])
prop("C04", "Elementwise matrix operations act on logical entries",
     "Sum, difference, elementwise product and quotient (nonzero divisors) of two 3x3 or 4x4 matrices pair equal rows and columns, also when the operands are stored in different orders, where a refusal is allowed but a wrong entry is not. "
     "Scaling multiplies every entry; normalising divides every entry by the last diagonal entry when that is not zero; square matrices report no dot or cross product.",
     "all entry values and all combinations of storage orders, sizes and precisions",
     "the tests use equal storage orders and symmetric literals", [MAT], [("plus, minus, mul_elem, div, scale, normalize", MAT)])
prop("C05", "Matrix products follow the row-by-column rule",
     "Entry (row, column) of the product of two 3x3 or 4x4 matrices is the sum over k of left(row, k) times right(k, column), for every combination of storage orders (operands stored in different orders may be refused). "
     "A matrix times a column vector and a row vector times a matrix obey the same rule in either storage order.",
     "all entry values, all storage order combinations, sizes and precisions",
     "the tests check one product per size; row-major and column-major code paths and the f32 copies are separate", [MAT],
     [("mul, mul_mat3x1, mul_mat4x1, mul_mat3x3, mul_mat4x4", MAT)])
prop("C06", "Transposition and block extraction respect entries",
     "Transposing a 3x3 or 4x4 matrix, in place or to a copy, exchanges entry (row, column) with entry (column, row) in either storage order. "
     "The 3x3 block of a 4x4 matrix is its upper left one in either storage order.",
     "all entry values, storage orders and precisions", "tests cover a single matrix and order", [MAT],
     [("transpose, transpose_self, submat_mat3", MAT)])
prop("C07", "A returned matrix inverse really inverts",
     "Whenever a 3x3 or 4x4 matrix with nonzero determinant yields an inverse, the matrix times that inverse is the identity, in either storage order. "
     "A matrix whose determinant is zero yields none, and only a determinant within 1e-6 of zero is refused.",
     "all entry values, both storage orders and precisions",
     "tests invert one matrix per size; a wrong cofactor sign or a transposed result passes for symmetric or special matrices", [MAT],
     [("inverse", MAT)])
prop("C08", "Tolerant equality bounds every component",
     "Comparing two vectors or two matrices of one storage order within e answers yes exactly when every pair of components differs by at most e, and always gives an answer. "
     "Matrices of different storage order are reported equal only if their logical entries agree within e, and a value that is not a number equals nothing.",
     "all component values including not-a-number, all tolerances, all vector and matrix types and precisions",
     "the suite relies on this comparison as its own oracle and never tests it with differences in each component or with NaN", [MAT],
     [("IComparableError::is_equal", MAT)])
prop("C09", "Quaternion arithmetic forms the quaternion algebra",
     "Sum, difference, negation and scaling of quaternions act on the four components, the product is the Hamilton product, and conjugation flips the vector part only. "
     "The length is the Euclidean norm of the components and its square the sum of squares; the initial and default quaternion is the identity, and components given directly are kept.",
     "all component values, both precisions", "the tests multiply one or two literals", [QUAT],
     [("add, minus, mul, scale, negate, conjugate, length", QUAT)])
prop("C10", "Quaternion inverse and normalisation",
     "Every nonzero quaternion times its inverse, in either order, is the identity. "
     "Normalising divides each component by the norm, and the zero quaternion is refused by normalisation.",
     "all nonzero component values, both precisions", "one literal is tested; unit test inputs hide a missing or repeated division by the norm", [QUAT],
     [("inverse, normalize, init_from_vals_normalize", QUAT)])
prop("C11", "Unit quaternions rotate consistently",
     "Rotating a vector by a unit quaternion conjugates it (q v q*), preserves its length and agrees with the quaternion's rotation matrix. "
     "The rotation matrix has the same logical entries in both storage orders, with an identity last row and column, and the requested order is recorded.",
     "all unit quaternions, all vectors, both storage orders and precisions", "tests rotate around one axis", [QUAT],
     [("rotate_vector, to_rotation_matrix", QUAT)])
prop("C12", "Reflection and projection by a plane normal",
     "For a unit normal n, reflecting p in the plane gives p - 2(n.p)n, the parallel component is p - (n.p)n and the orthogonal component is (n.p)n.",
     "all unit normals, all vectors, both precisions", "tests use axis-aligned normals", [QUAT],
     [("reflection_in_plane, parallel_component_of_plane, orthogonal_component_of_plane", QUAT)])
prop("C13", "Axis-angle conversion in both directions",
     "Building from a nonzero axis and an angle in radians or degrees gives the unit axis times sin(angle/2) with scalar part cos(angle/2). "
     "Converting a unit quaternion back always gives an axis of length one, and away from the identity (1 - w*w at least 1e-10) an axis and angle that build the same quaternion; closer to it the angle is 0 or the exact one.",
     "all axes and angles, all unit quaternions including scalar parts of both signs, both precisions",
     "tests round-trip a single angle per axis", [QUAT],
     [("init_from_axis_angle_radian, init_from_axis_angle_degree, to_axis_angle", QUAT)])
prop("C14", "Quaternion logarithm and power",
     "For a quaternion q with nonzero vector part v, the logarithm is v/|v| times acos(w/|q|) with scalar part ln|q|. "
     "The power t is |q|^t times (v/|v| sin(t acos(w/|q|)), cos(t acos(w/|q|))).",
     "all quaternions with nonzero vector part and all exponents, both precisions",
     "tests use unit quaternions, for which missing norms do not show", [QUAT], [("ln, pow", QUAT)])
prop("C15", "Linear interpolation is clamped and exact",
     "Linear interpolation of quaternions returns start + t (end - start) in every component, with t clamped to the interval from 0 to 1.",
     "all quaternions and all real parameters, both precisions", "tests try a few parameters", [QUAT], [("interpolate_linear", QUAT)])
prop("C16", "Spherical interpolation follows the shorter arc",
     "Between unit quaternions whose absolute dot product is at most 0.9998, spherical interpolation at t (clamped to 0..1) is the great-arc blend of the start with the end or the negated end, whichever is nearer, at angle acos of the absolute dot product. "
     "For closer pairs the result is that blend or the linear blend towards the same end.",
     "all pairs of unit quaternions, obtuse ones included, and all real parameters, both precisions",
     "tests interpolate one acute pair at three parameters", [QUAT], [("interpolate_slerp", QUAT)])
prop("C17", "Translations as quaternions and matrices",
     "A translation becomes the pure quaternion of half its components with scalar part 0, and the translation matrix of a quaternion is the identity with the vector part in its last column, with the same logical entries in either storage order. "
     "A dual quaternion keeps the rotation and translation it was built from.",
     "all values, both storage orders and precisions", "tests check one literal in one order", [QUAT, "lib/dualquat.rs"],
     [("init_from_translation, to_translation_matrix", QUAT), ("DualQuat::init", "lib/dualquat.rs")])
prop("C18", "Completing a vector part to a unit quaternion",
     "A vector part of length at most one is kept and completed with the nonpositive scalar part that makes the quaternion a unit one; longer vector parts are kept too.",
     "all vector parts, both precisions", "one literal is tested", [QUAT], [("init_from_vals_auto_w", QUAT)])

exec(open(os.path.join(HERE, "tools", "meta_shapes.py")).read())
exec(open(os.path.join(HERE, "tools", "meta_rel.py")).read())

NA = []
exec(open(os.path.join(HERE, "tools", "meta_na.py")).read())

TECH = ("static analysis: abstract interpretation of the compiler's resolved MIR (exact rational-function values, "
        "joins as sign-decision diagrams, linear-relation emptiness test)")
NOTE = ("Every abstract state of the current tree satisfies each obligation, so the property holds for all inputs of the stated "
        "ranges read as real numbers; trusts rustc's MIR, the transfer functions in sa/ and the models of core/alloc/libm calls; "
        "rounding, overflow and inputs outside the stated ranges are not covered.")


def main():
    reg = set(props.REGISTRY)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            if p["id"] in reg or p["id"] in {n["property"] for n in NA}:
                assert len(p["title"]) <= 80, p["title"]
                f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        if p["id"] not in reg:
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                       "thorough_cmd": "python3 check.py --tier thorough %s" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["_tech"] or TECH, "level": "other", "level_note": p["_note"] or NOTE})
    missing = reg - {p["id"] for p in P}
    assert not missing, missing
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": checks,
         "not_applicable": NA,
         "notes": "No hooks are needed: the checks read the compiler's MIR of the unmodified tree."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(NA), "n/a")


main()
