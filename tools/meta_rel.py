LIBALL = [MAT, QUAT, "lib/dualquat.rs", BND] + SHAPES + [GJK]
T_EFF = ("static analysis: effect and alias analysis over the resolved call graph (statics, cells, foreign functions, pointer constructs, "
         "numeric conversions)")
N_EFF = ("Every static, type, reachable foreign function and pointer construct of the current tree is classified, so the property holds for "
         "every schedule and history of safe callers; trusts rustc's resolution and the list of effect-free parts of core, alloc and libm.")
prop("C40", "Results depend on the operands alone",
     "No operation keeps or reads state outside its operands: there are no mutable or lazily filled statics, thread-local values or cells, and no input/output, clocks, environment, random state or object addresses are consulted. "
     "Equal operands therefore give equal results whatever was computed before or on other threads, and an operand that is only read is never changed.",
     "all operations of the library and everything they reach, for every history of calls and every interleaving of threads",
     "the tests run each operation once in one order on one thread", LIBALL, [("whole call graph of the library", "lib/mod.rs")],
     over=("inputs", "histories", "schedules"), tech=T_EFF, note=N_EFF)
prop("C41", "Double precision is kept throughout",
     "An operation on double-precision values passes none of them, and no intermediate result or constant, through single precision or an integer.",
     "all operations whose operands and results are double precision and everything they reach",
     "rounding to single precision stays below the tolerances the tests compare with", LIBALL,
     [("numeric conversions in every body", MAT)], tech=T_EFF,
     note="Every numeric conversion in every reachable body is classified; the rule is about conversions, not about rounding of the arithmetic itself.")
prop("C42", "Operands of another shape or precision do not type-check",
     "Programs that combine vectors, matrices or quaternions of different size, orientation (row or column) or precision are rejected by the compiler, and the result of each operation has the stated type. "
     "Reading operations work through shared references; shapes can be sent to and shared by threads and stand behind one interface. "
     "A value cannot be changed through a shared reference, nor while a bound borrowed from it is in use.",
     "all binary operations of all vector, matrix, quaternion and shape types against all 20 operand types",
     "a test that does not compile cannot be part of the suite", [MAT, QUAT, "lib/i_shape.rs", "lib/i_bound.rs"],
     [("operation signatures", MAT), ("IShape, IBound", "lib/i_shape.rs")],
     tech="static analysis: compile-fail and compile-pass witnesses type-checked against the library's current metadata",
     note="About 3,500 generated programs with accepted twins; covers the operations and operand types listed, for all values.")
prop("C43", "Pairs of shapes without an intersection test are refused",
     "Asking for the intersection of two shapes the library has no test for never yields a made-up answer: the query is refused, except that shapes whose bounds are apart are reported as not intersecting.",
     "all 28 pairs of shapes without an intersection test, in every pose", "the suite only asks supported pairs", SHAPES,
     [("IShape::get_intersect of each shape", BOX)])
prop("C44", "The tolerance that was set governs the queries",
     "After a tolerance is set, a point meets a plane within the plane's tolerance whichever is asked, two points whose bounds overlap agree in each coordinate within the asked point's, and a point is on a ray when the nearest point of the ray's line is ahead and agrees in each coordinate within the ray's. "
     "Two rays count as being on crossing or identical lines within the asked ray's tolerance. "
     "The tolerance of the other shape has no influence.",
     "all poses and all tolerances of both shapes, for shapes whose bounds overlap", "no test sets a tolerance before a query", [RAYF, PLN, PNT],
     [("get_intersect with within_vicinity", RAYF)])
prop("C45", "Copies are faithful",
     "A copy of any vector, matrix, quaternion, dual quaternion, bound or shape equals its original in every component, including storage order, bound and tolerance, and the original stays as it was.",
     "all component values and flags of the 26 and more copyable types", "the suite copies few types and compares fewer components", LIBALL,
     [("Clone of every type", MAT)])
prop("C46", "Queries do not depend on the origin or the names of the axes",
     "Moving two shapes by the same translation, or relabelling the coordinate axes cyclically, changes no answer of an intersection query, and its location moves along. "
     "For pairs without a prism, other than two rays, exchanging two axes or reversing one changes nothing either.",
     "all poses of the supported pairs with their own bounds and tolerances (prism against line excepted; prisms laid out freely and without a bound)",
     "the tests place shapes at or near the origin along one axis", SHAPES, [("IShape::get_intersect of each shape", RAYF)])
prop("C47", "Bounds settle a query only by being apart",
     "Every point of a shape lies in its bound. "
     "Two shapes whose bounds do not meet do not intersect, and two shapes whose bounds meet get the same answer and location as if they had no bounds.",
     "all poses and all bounds of the supported pairs (prism against line excepted), every point of the seven shapes",
     "the tests do not place shapes whose bounds touch or meet without contact", SHAPES + [BND],
     [("IShape::get_intersect, IBound::intersect", BND)])
prop("C48", "Malformed requests are refused",
     "A shape or a bound is never made from a list with the wrong number of values, and reading or writing a vector entry that does not exist is refused. "
     "Boxes are not compared or united with bounds of another kind.",
     "list lengths below 12 (20 in the thorough tier) and positions up to there and at the ends of the integer range, all values",
     "the suite makes no malformed request", SHAPES + [BND, MAT], [("init of each shape and bound", BND), ("Index, IndexMut", MAT)])
prop("C49", "Operations end after a fixed number of steps",
     "Every operation other than the convex collision query ends, with an answer or a refusal, after a number of steps that the numbers given to it do not affect; it depends only on the kinds of the shapes and the lengths of the lists. "
     "Shapes do not pass a query back and forth without end.",
     "every operation of the library in both precisions, all numbers, every pair of kinds of shapes, lists of up to 16 values or 3 bounds",
     "a loop that runs long or for ever does so for values the tests do not use", LIBALL,
     [("every function of the crate except query_intersect", MAT), ("IShape::get_intersect delegation", PNT)])
prop("C50", "Queries do not depend on the unit of length",
     "Scaling all positions, sizes and tolerances of two shapes by the same positive factor changes no answer of an intersection query, and its location scales along. "
     "No query compares a length with a fixed number.",
     "all poses, tolerances and positive factors of the supported pairs (prism against line excepted; shapes whose bounds overlap, prisms laid out freely)",
     "the tests use shapes of about unit size, where an absolute threshold goes unnoticed", SHAPES, [("IShape::get_intersect of each shape", RAYF)])
T_REL = ("static analysis: abstract interpretation of the compiler's IR; two chains of operations on shared symbolic operands give canonical "
         "rational functions that must be equal")
N_REL = ("Real-number semantics on all operands at once; each law compares two chains of the library's own operations, so a disagreement shows "
         "whichever of the two is wrong; rounding is not covered (see N01).")
prop("C51", "Rotations compose consistently in all their forms",
     "Rotating by a product of unit quaternions is rotating by its factors in turn, the inverse and the conjugate undo a rotation, and a quaternion, its negative and its normalised multiples rotate alike. "
     "The rotation matrix of a product is the product of the matrices, that of the inverse is the transposed one, and matrices move points as their quaternions do. "
     "Quaternions of opposite angles about an axis are conjugate to each other, and the parts of a vector along and across a plane add up to it.",
     "all unit quaternions, vectors, axes, angles and planes, both storage orders and precisions",
     "the tests check single operations on axis-aligned rotations and never two forms of a rotation against each other", [QUAT, MAT],
     [("mul, rotate_vector, inverse, conjugate, to_rotation_matrix, to_translation_matrix", QUAT)], tech=T_REL, note=N_REL)
prop("C52", "Matrix and vector operations agree with one another",
     "Applying a matrix product to a vector applies its factors in turn, a row vector times a matrix is the transposed matrix times the column, transposing a product reverses its factors, products distribute over sums and scalings, an inverse undoes its matrix and the identity changes nothing. "
     "The squared length of a vector is its product with itself, normalised vectors have length one, and subtraction and division undo addition and elementwise multiplication. "
     "A cross product is perpendicular to its factors and changes sign with their order.",
     "all entry values with equal storage orders, every size, both storage orders and precisions",
     "the tests check operations one by one on fixed literals", [MAT],
     [("mul, mul_mat*, transpose, inverse, scale, plus", MAT)], tech=T_REL, note=N_REL)
prop("C53", "Queries do not depend on the directions of the axes",
     "Turning two shapes together by any angle about a coordinate axis, and so by any rotation, changes no answer of an intersection query and turns its location along, for every pair without a box or a segment whose contact is not judged coordinate by coordinate. "
     "For two rays this holds when they are clearly not parallel.",
     "all poses and angles of rays, spheres, planes and prisms with each other and of points with spheres, planes and prisms, for shapes whose bounds overlap (sizes of the cross product above 0.0002 for two rays)",
     "the tests place shapes along the axes", SHAPES, [("IShape::get_intersect of each shape", RAYF)])
prop("C54", "Arithmetic stays accurate to a few units of rounding",
     "Sums, differences, products, quotients, scalings, dot and cross products, matrix products, lengths and normalised entries of vectors, matrices and quaternions differ from their exact values by at most 64 units of rounding of the sum of the sizes of the terms in their definition, as long as nothing overflows or underflows. "
     "The same holds for matrix inverses relative to the terms of cofactor and determinant, and for turned vectors, rotation matrices of unit quaternions and linear interpolation relative to the sizes of the operands.",
     "all operand values, storage orders and both precisions; errors to first order", "the tests compare small literals with coarse tolerances", [MAT, QUAT],
     [("arithmetic of vectors, matrices and quaternions", MAT)],
     tech="static analysis: abstract interpretation of the compiler's IR with first-order rounding-error bounds as polynomials in the sizes of the operands",
     note="Every arithmetic operation on the way to a result contributes one unit of its own size, carried through all later operations; the bound is compared with the allowed one coefficient by coefficient, for all operands at once. Products of errors, overflow and underflow are not covered.")
prop("C55", "Numbers of ordinary size neither overflow nor vanish on the way",
     "For operands whose entries are of sizes between 1e-50 and 1e50 (1e-6 and 1e6 in single precision), no intermediate result in the arithmetic of vectors, matrices and quaternions leaves the range of the number type and no product on the way underflows, divisions by operands aside. "
     "The same holds for intersection queries on shapes of such positions and sizes, other than between a prism and a segment, and for furthest-point queries on them.",
     "all operand values in the range, every storage order, both precisions, every supported pair of shapes but prism and segment", "the tests use literals near one", [MAT, QUAT],
     [("arithmetic of vectors, matrices and quaternions", MAT), ("IShape::get_intersect of each shape", RAYF)],
     tech="static analysis: abstract interpretation of the compiler's IR with bounds of the sizes of intermediate results, monomial by monomial",
     note="Each sum and product computed on the way is a polynomial in the operands; its size is bounded over the whole range of operands by the sizes of its monomials, wherever it is computed. Results that contain a quotient are not bounded.")
