BND, RAYF, SPH, PLN, PNT, BOX, LIN, PRI, GJK = ("lib/bound.rs", "lib/ray.rs", "lib/sphere.rs", "lib/plane.rs", "lib/point.rs",
                                                "lib/rbox.rs", "lib/line.rs", "lib/triprism.rs", "lib/intersect_gjk.rs")
SHAPES = [PNT, SPH, RAYF, PLN, BOX, LIN, PRI]
POSES = "all positions, unit directions and positive sizes"
POSES_WHY = "the tests place a handful of shapes on the coordinate axes, where dropped components and swapped signs do not show"

prop("C19", "Tolerances of shapes",
     "A newly made point, sphere, ray, plane, box, line or prism treats two values as close exactly when they differ by at most 1e-6. "
     "After a tolerance is set, values are close exactly when they differ by at most its absolute value, and nothing else about the shape changes. "
     "A value that is not a number is close to nothing.",
     "all pairs of values including not-a-number and all tolerances, for each of the seven shapes",
     "the suite never calls the tolerance operations on most shapes", SHAPES, [("within_vicinity, set_vicinity", PNT)])
prop("C20", "Shapes keep the data they were made from",
     "The reported data of a shape are what it was made from: origin, origin and size, origin and direction scaled to length one, or the two ends; for a prism the base triangle and its right-handed unit normal times the height. "
     "The second base of a prism is the first one moved by that height vector. "
     "A coordinate list of the wrong length is refused and every shape reports its own kind.",
     "all coordinates, nonzero directions and nondegenerate triangles, and lengths 0, 1, n-1, n+1 and 2n of every coordinate list",
     "tests construct shapes from unit axes and read back only some of the data", SHAPES, [("init, get_shape_data, get_type", PRI)])
prop("C21", "The bound of a shape is its tight box",
     "The axis-aligned bound of every shape contains the whole shape and touches it on every side. "
     "An unlimited side (every side of a plane, the forward sides of a ray) is at infinity.",
     "all positions, sizes and directions of the seven shapes",
     "a bound that is too small makes queries miss contacts only for shapes the tests do not place; one that is too large shows nowhere", SHAPES + [BND],
     [("init of each shape, IShape::get_bound", PRI), ("IBound::get_bound_data", BND)])
prop("C22", "Overlap of bounds is interval overlap on every axis",
     "Two axis-aligned boxes overlap exactly when their closed intervals meet on all three axes, whichever of them is asked and also with sides at infinity. "
     "A box reports its lower corner followed by its upper corner, says that it is an axis-aligned box, and is unbounded by default.",
     "all pairs of boxes, each side finite or infinite", "tests try a few boxes that overlap or are apart along all axes at once", [BND],
     [("AxisAlignedBBox::intersect, get_bound_data", BND)])
prop("C23", "Union and centroid of bounds",
     "The union of a list of axis-aligned boxes is the smallest box that contains them all, replacing whatever the receiving box held, and the union of none is empty. "
     "The centroid of a box is the midpoint of its corners.",
     "all corner values, for lists of up to three boxes (four in the thorough tier)", "one list with nested boxes is tested", [BND],
     [("get_union, get_centroid", BND)])
prop("C24", "The longest axis of a box",
     "The longest axis reported for a box is one whose extent no other axis exceeds, and the length reported with it is that axis's extent.",
     "all boxes, ties and inverted boxes included", "tests use boxes with one clearly longest axis", [BND], [("get_longest_axis", BND)])
prop("C25", "Answer and location of an intersection agree",
     "For every supported pair of shapes, an intersection query gives a location exactly when it answers yes, including when the bounds of the shapes do not meet. "
     "The location of an intersection is always a number.",
     POSES + " of the supported pairs from either side, bounds meeting or apart on each axis",
     "tests look at the location only of the cases they expect to hit", SHAPES, [("IShape::get_intersect of each shape", RAYF)])
prop("C26", "Queries do not depend on which shape is asked",
     "For every supported pair of shapes other than two rays, asking either shape about the other always gives an answer and the same one. "
     "For shapes of different kind, and for two spheres, the location is the same as well.",
     POSES + " of the supported pairs", "tests ask mostly one of the two shapes", SHAPES, [("IShape::get_intersect of each shape", SPH)])
prop("C27", "Ray against sphere",
     "A ray meets a sphere exactly when it starts in the sphere or runs into it ahead of its origin, touching included. "
     "The location is the first crossing of the sphere's surface that is ahead of the ray's origin.",
     POSES + ", read as real numbers, asked from either side", POSES_WHY, [RAYF, SPH], [("Ray3::get_intersect, Sphere::get_intersect", RAYF)])
prop("C28", "Ray against plane",
     "A ray meets a plane exactly when it runs against the plane's normal into the plane, or starts in the plane and runs along it. "
     "The location is the crossing point, or the ray's origin when it runs along the plane.",
     POSES + ", read as real numbers, asked from either side", POSES_WHY, [RAYF, PLN], [("Ray3::get_intersect, Plane::get_intersect", RAYF)])
prop("C29", "Ray against ray",
     "Rays on crossing lines meet exactly when the crossing is ahead of both origins, at that crossing; rays on lines that do not cross, or that are parallel and apart, do not meet. "
     "Rays on one line meet at the later origin when they run the same way, and exactly when they face each other, at the asked-about ray's origin, when they run against each other.",
     "all positions and unit directions outside the tolerance bands (directions whose cross product has no component above 1e-4 but which are not parallel, lines closer than 1e-6)",
     POSES_WHY, [RAYF], [("Ray3::get_intersect", RAYF)])
prop("C30", "Ray against point",
     "A ray meets every point that lies on it, at that point, and never one that is off its line or behind its origin by more than 2e-6 in some coordinate. "
     "The location of an intersection is the point up to 2e-6 in each coordinate.",
     POSES + ", asked from either side", POSES_WHY, [RAYF, PNT], [("Ray3::get_intersect, Point3::get_intersect", RAYF)])
prop("C31", "Sphere against sphere",
     "Two spheres meet exactly when their centres are no further apart than the sum of the radii. "
     "The location divides the segment between the centres in the ratio of the radii.",
     POSES, POSES_WHY, [SPH], [("Sphere::get_intersect", SPH)])
prop("C32", "Sphere against point",
     "A point meets a sphere exactly when it is no further from the centre than the radius, and the location is the point.",
     POSES + ", asked from either side", POSES_WHY, [SPH, PNT], [("Sphere::get_intersect, Point3::get_intersect", SPH)])
prop("C33", "Sphere against plane",
     "A sphere meets a plane exactly when its centre is no further from the plane than the radius, on either side. "
     "The location is the foot of the perpendicular from the centre.",
     POSES + ", asked from either side", POSES_WHY, [SPH, PLN], [("Sphere::get_intersect, Plane::get_intersect", SPH)])
prop("C34", "Plane against point",
     "A point meets a plane exactly when its distance from the plane is at most the tolerance of 1e-6, and the location is the point.",
     POSES + ", asked from either side", POSES_WHY, [PLN, PNT], [("Plane::get_intersect, Point3::get_intersect", PLN)])
prop("C35", "Points against points and boxes",
     "Two points whose bounds overlap meet exactly when every coordinate agrees within 1e-6; a point always meets itself and never one further away, at the asked point. "
     "A point meets a box exactly when no coordinate is further from the box's centre than its half edge, and the location is the point.",
     POSES + ", asked from either side", POSES_WHY, [PNT, BOX], [("Point3::get_intersect, RecBox::get_intersect", PNT)])
prop("C36", "Prism against point",
     "A point meets a triangular prism exactly when it lies on the outer side of none of the five facets, and the location is the point.",
     "all prisms laid out by a base triangle and a height vector and all points, asked from either side", POSES_WHY, [PRI, PNT],
     [("TriPrism::get_intersect, Point3::get_intersect", PRI)])
prop("C37", "Prism against line segment",
     "A segment meets a triangular prism exactly when one of its ends lies in the prism or it runs into a facet at a point of the prism; a segment of length zero meets it exactly when the point lies in it. "
     "The location is an end inside the prism or such a crossing point.",
     "all prisms laid out by a base triangle and a height vector and all segments, asked from either side", POSES_WHY, [PRI, LIN],
     [("TriPrism::get_intersect, Line3::get_intersect", PRI)])
prop("C38", "The furthest point of a shape in a direction",
     "For a point, sphere, box and prism the support query gives a point of the shape that no other point of the shape exceeds along the direction; an empty direction gives none for the extended shapes. "
     "Rays and planes, which are unlimited, have no furthest point.",
     "all poses and all nonzero directions (and the zero direction)", "tests ask one or two axis directions", [PNT, SPH, BOX, PRI, RAYF, PLN],
     [("IShape::get_support of each shape", PRI)])
prop("C39", "Verdicts of the convex collision query",
     "Two spheres said to collide are no further apart than the sum of their radii, and two spheres said not to collide are at least that far apart. "
     "The answer is always given for spheres: apart only when a requested direction separates the shapes, collision only when requested support points enclose the origin of their difference; every other pair of shapes is refused.",
     "all positions and radii of two spheres for verdicts reached within three support points, all support points of one plane or of space for verdicts within six, and all 48 other pairs of shapes",
     "tests try a few sphere pairs along one axis", [GJK, SPH], [("query_intersect, support, contains_minkowski_origin", GJK)])
