prop("N01", "Answers of queries survive rounding, and nothing overflows needlessly",
     "Rounding never changes the answer of an intersection query whose exact margin exceeds the tolerance, conversions between angles, logarithms and quaternions lose only a few units, and no intermediate overflows or underflows when the exact result is representable.",
     "all finite inputs of both precisions", "tests compare with tolerances at a few points",
     [MAT, QUAT, "lib/ray.rs"], [("floating-point evaluation order", MAT)])
prop("N02", "The convex collision query always terminates",
     "The support-function collision query returns after finitely many steps for every pair of convex shapes, including touching and degenerate ones.",
     "all pairs of shapes and all poses", "a handful of poses is tested", ["lib/intersect_gjk.rs"], [("query_intersect loop", "lib/intersect_gjk.rs")])
NA += [
    {"property": "N01", "reason": "Margins of branches, transcendental functions and overflow depend on runtime magnitudes of unbounded inputs; no static argument in reach bounds them without input ranges, so queries and conversions are analysed over real numbers (the rounding of sums, products, lengths and inverses is claimed in C54, the range of intermediate results for operands of ordinary size in C55)."},
    {"property": "N02", "reason": "Termination of the simplex loop rests on a numeric progress measure (distance to the origin strictly decreasing) that real rounding does not preserve; no static ranking argument in reach decides it."},
]
