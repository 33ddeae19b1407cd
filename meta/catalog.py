"""Property texts (source of properties.jsonl and of the MANIFEST entries)."""
N = "mmcore/geom/nurbs.pyx"
P = [
 dict(id="C01", title="A parameter is located in the knot interval that contains it",
  statement="For every valid knot vector (clamped or unclamped, any repeated knots) and every parameter, the span search terminates and returns the index of the non-empty knot interval containing the parameter: half-open intervals, the last one closed at the right end; a parameter outside the domain gives the first or last interval, and on a periodic knot vector the parameter is first wrapped into the domain. No element outside the knot vector is read.",
  q="every knot vector length, degree, knot values with any multiplicities, and every real parameter", tests="tests evaluate a few curves at sampled parameters; boundary knots, repeated knots, unclamped vectors and termination are not sampled",
  files=[N, "mmcore/geom/nurbs.pxd"], mech=[("binary search over knots", "find_span, find_span_inline"), ("multiplicity count", "find_multiplicity")],
  note="find_span and find_span_inline: loop-invariant proof with termination measure for every length, degree and parameter (periodic wrapping included); unrolled fixed sizes as fallback; find_multiplicity at fixed sizes. Real arithmetic instead of floats."),
 dict(id="C02", title="B-spline basis routines compute the Cox-de Boor functions",
  statement="On every knot interval, each basis-function routine returns exactly the values of the Cox-de Boor recursion: they are non-negative, sum to one, and at a knot belong to one interval only. The routines that return all lower degrees at once agree with the single-degree ones, and none changes its knot vector.",
  q="all knot values, multiplicities, spans and parameters, for each degree 0-5", tests="tests compare a few curves with stored numbers; the recursion's division cases and repeated knots are not sampled",
  files=[N, "mmcore/geom/nurbs.pxd", "mmcore/geom/curves/deboor.pyx", "mmcore/geom/curves/bspline_utils.py"],
  mech=[("triangular basis table", "basis_funs, all_basis_funs, ders_basis_funs"), ("recursive de Boor", "deboor.pyx deboor"), ("python basis functions", "bspline_utils.calc_basis_functions")],
  note="for each degree up to 5 the obligations cover every knot vector, span and parameter (a routine reads 2p+2 knots); the degree is the only bound. Real arithmetic instead of floats."),
 dict(id="C03", title="Curve evaluation is the weighted B-spline combination of the control points",
  statement="Evaluating a curve at any parameter of its domain returns the sum of basis function times weight times control point divided by the sum of basis function times weight, through every evaluation entry point, one at a time or in a batch. After control points, weights or knots are replaced, evaluation follows the new data, never a remembered result; clamped curves start and end at their first and last control points, and omitted knots are the uniform clamped ones.",
  over=["inputs", "histories"], q="all control points, positive weights, knots and parameters at degrees 1-4 with stated control point counts; every update followed by evaluation",
  tests="tests evaluate a handful of curves; weights other than one, repeated knots and evaluation after updates are not sampled",
  files=[N, "mmcore/geom/nurbs.pxd", "mmcore/geom/curves/deboor.pyx"], mech=[("evaluation with per-parameter cache", "NURBSCurve.evaluate, _evaluate_cached"), ("direct evaluation", "curve_point, NURBSCurve.cevaluate_ptr"), ("batch", "NURBSCurve.evaluate_multi, evaluate_nurbs_multi"), ("cache invalidation in setters", "control_points, weights, knots setters, set")],
  note="obligations hold for all real control points, weights, knots and parameters; degree and number of control points are fixed per task (bounded in size). Cache modelled as a memo of the evaluated object."),
 dict(id="C04", title="Inserting, refining or removing knots never changes the curve",
  statement="Inserting a knot any admissible number of times (also through multiply_knot), or refining a knot vector, adds exactly those knots and control points, keeps the parameter interval and leaves every point of the curve where it was, for plain and rational curves, also when the curve has been evaluated before; Greville abscissae follow the new knots. Removing an inserted knot gives back the original control points. The caller's arrays are not modified.",
  over=["inputs", "histories"], q="all control points, positive weights, knot values and parameters, every admissible insertion count and place; degrees 1-5 with stated sizes", tests="tests insert and refine one knot of one curve; rational curves, repeated knots, boundary spans and repeated insertion are not sampled",
  files=[N], mech=[("insertion", "knot_insertion, knot_insertion_kv, NURBSCurve.insert_knot, multiply_knot"), ("refinement", "knot_refinement"), ("removal", "knot_removal")],
  note="the new curve is proved equal to the old one on every knot span, for all reals; degree, sizes and multiplicities are fixed per task (bounded). Clamped knot vectors; find_multiplicity and uniqueSorted by contract."),
 dict(id="C12", title="Batch vector algebra is exact row by row and agrees with the scalar forms",
  statement="Dot products, norms, unit vectors, cross products, Gram-Schmidt steps, batch matrix products and support points of arrays of vectors give in every row the mathematical value of that row's operands alone, for any number of rows, and leave the operands unchanged. The scalar forms agree with them; projections and feet of perpendiculars are orthogonal, 2x2 solves and inverses satisfy their system or report singularity, and cylindrical and spherical coordinates are converted by their definitions.",
  q="all real vectors; any number of rows (widths 2-4)", tests="tests do not cover these helpers row by row; stale indices, uninitialised accumulators and singular cases show only for particular inputs",
  files=["mmcore/numeric/vectors.pyx"], mech=[("row loops", "dot_array_x_array, dot_vec_x_array, norm, unit, cross, gram_schmidt"), ("small systems", "solve2x2, cinvert_jacobian, decompose_vectors"), ("constructions", "closest_point_on_ray, closest_point_on_line, vector_projection"), ("coordinates", "spherical_to_cartesian, courtesan_to_cylindrical")],
  note="row loops proved for any number of rows by loop invariants about an arbitrary row (widths fixed 2-4); small systems and constructions for all reals; matrix products, support points and polygon orientation at fixed sizes. sin, cos, atan2 uninterpreted."),
 dict(id="C05", title="Pieces of a split or trimmed curve are the curve on their intervals",
  statement="Splitting a curve at an interior parameter (also at an existing knot), splitting it at several parameters, decomposing it at its knots, or trimming it to an interval (in either order of the ends) gives curves that are the original one restricted to the parts of its domain: same points and weights at every parameter, clamped at the cut ends, keeping the interior knots. Normalised pieces are the same with parameters mapped to 0..1. The original curve is unchanged.",
  q="all control points, positive weights, knot values and cut parameters at stated degrees and sizes", tests="tests split a few curves and look at end points; cuts at knots, rational curves, pieces' interior points and parameters are not compared",
  files=[N], mech=[("split by knot insertion", "split_curve, split_curve2"), ("several cuts", "split_curve_multiple, decompose_curve"), ("trim", "NURBSCurve.trim"), ("normalisation", "normalize_parameter_range, cnormalize_knots")],
  note="each piece is proved equal to the original curve on every knot span, for all reals; degree, sizes and multiplicities are fixed per task (bounded). find_multiplicity by contract."),
 dict(id="C06", title="Curve derivatives, tangent, normal, plane and curvature are exact",
  statement="At every parameter of the domain the derivatives of a curve, through each entry point and up to any order, are the derivatives of the weighted B-spline combination (zero above the degree of a non-rational curve); tangent, normal, curvature and moving plane follow from the first two of them by definition. The curve and the caller's arrays are unchanged and nothing is written outside the result.",
  q="all control points, positive weights, knots and parameters at degrees 1-4 with stated sizes and orders up to 3", tests="tests compare first derivatives of one or two curves with numbers; rational curves, knots, second derivatives and buffers are not covered",
  files=[N, "mmcore/geom/parametric.pyx", "mmcore/numeric/calgorithms.pyx"], mech=[("basis derivatives", "curve_derivs_alg1"), ("derivative control points", "curve_derivs_alg2, curve_deriv_cpts"), ("quotient rule", "rational_curve_derivs"), ("frames", "NURBSCurve.cplane, cnormal, ctangent, ccurvature")],
  note="proved against the derivative recurrence of the basis functions and the Leibniz rule for all reals; degree, sizes and order fixed per task (bounded). Square roots by their defining equation."),
 dict(id="C09", title="Copies and stored forms equal the original and are independent of it",
  statement="Copying a curve (copy, deepcopy, pickle), or writing it to bytes and reading it back, gives an equal curve: same points, weights, degree, knots, interval, periodicity and evaluations; copying a surface likewise. Later changes to either one, or to the arrays given to a constructor or setter, never affect the other. Equal geometry compares equal and different geometry unequal, and truncated or foreign bytes are refused with ValueError without reading outside them.",
  over=["inputs", "histories"], q="all control points, positive weights and knots at stated degrees and sizes; every place where the bytes can end", tests="tests copy one curve and compare a few numbers; aliasing, weights, periodic curves, stale caches and bad bytes are not sampled",
  files=[N], mech=[("copies", "NURBSCurve.ccopy, copy, __deepcopy__, __reduce__, NURBSSurface.ccopy"), ("bytes", "cserialize, cdeserialize"), ("equality", "geometry_hash, __eq__, __hash__")],
  note="bytes are modelled as typed cells at byte offsets: all bytes initialised, no access outside. All reals; degree and sizes fixed per task (bounded). hash and tobytes assumed injective."),
 dict(id="C10", title="A bounding box contains the whole curve or surface and is no larger than needed",
  statement="The bounding box of a curve or surface contains every point of it, for any positive weights, and each of its six faces touches a control point. Computing it changes neither the object nor anything outside the result.",
  q="any number of control points, all control points and positive weights", tests="tests look at one box; weights, negative coordinates and the order of the points are not sampled",
  files=[N], mech=[("running minimum and maximum", "aabb"), ("curve and surface boxes", "NURBSCurve.bbox, NURBSSurface.bbox, cbbox")],
  note="the loop of aabb is proved for any number of points (invariants about an arbitrary row and witnesses); the hull lemma for up to 16 points at a time; bbox methods at fixed sizes over the contract of aabb. Real arithmetic instead of floats."),
 dict(id="C11", title="Reversed curves run backwards; closed curves repeat with their period",
  statement="flip and reverse_curve give the same curve run backwards over the same interval (mirrored knots, reversed control points and weights); doing it twice gives the original data back. make_periodic gives a closed curve whose points and derivatives repeat with the period for any parameter, make_open restores the open curve, and is_periodic is true exactly when the first and last control points repeat.",
  over=["inputs", "histories"], q="all control points, positive weights, knots and parameters (any number of periods) at stated degrees and sizes", tests="tests reverse nothing and evaluate periodic curves inside one period only",
  files=[N, "mmcore/geom/nurbs.pxd"], mech=[("reversal", "reverse_curve, NURBSCurve.flip"), ("closing and opening", "make_periodic, make_open, is_periodic"), ("wrapping", "wrap_parameter in curve_point, curve_derivs_alg1, curve_derivs_alg2")],
  note="wrap_parameter proved for every knot vector and parameter (loop invariants and termination); the rest for all reals at fixed degrees and sizes (bounded)."),
 dict(id="C07", title="Surface evaluation and derivatives are the rational tensor product's",
  statement="At every parameter pair of the domain, far edges included, evaluating a surface returns the sum of basis(u) times basis(v) times weight times control point divided by the same sum of weights, through every evaluation entry point, and the surface derivative routines return the partial derivatives of that map and overwrite whatever the result held. Clamped surfaces meet their corner control points, omitted knots are the uniform clamped ones, and replaced control points, knots or a normalised knot vector take effect at once.",
  over=["inputs", "histories"], q="all control points, positive weights, knots and parameters at stated degrees and sizes, derivatives up to order 3", tests="tests evaluate one surface; unequal degrees, weights, repeated knots, far edges and mixed derivatives are not sampled",
  files=[N, "mmcore/geom/parametric.pyx"], mech=[("evaluation", "surface_point, NURBSSurface.cevaluate, ParametricSurface.evaluate_multi"), ("derivatives", "surface_derivatives, rat_surface_derivs"), ("derivative control points", "surface_deriv_cpts"), ("knots", "generate_knots_u, generate_knots_v, cnormalize_knots")],
  note="proved for all reals on every pair of knot spans; degrees, numbers of control points and order are fixed per task (bounded). Real arithmetic instead of floats."),
 dict(id="C08", title="Surface knot insertion changes no point; split pieces are the surface",
  statement="Inserting a knot into a surface in either direction adds exactly that knot and a row of control points and leaves every point of the surface where it was. Splitting a surface at a parameter in either direction, subdividing it into four, or decomposing it at its knots gives surfaces that are the original one restricted to their rectangles of its domain, with every parameter kept (or mapped to 0..1 when normalised); the original is unchanged by splitting.",
  q="all control points, positive weights, knot values and cut parameters at stated degrees and sizes", tests="tests split one surface and look at few points; unequal degrees, cuts at knots and the order of rows are not compared",
  files=[N], mech=[("insertion", "NURBSSurface.insert_knot_u, insert_knot_v"), ("splitting", "split_surface_u, split_surface_v, subdivide_surface"), ("decomposition", "decompose_surface")],
  note="the pieces are proved equal to the original on every cell of knots, for all reals; degrees, sizes and multiplicities fixed per task (bounded). find_multiplicity by contract."),
 dict(id="C15", title="Axis-aligned boxes behave as the sets of points they enclose",
  statement="The box of a collection of points contains all of them and each face touches one, whatever the dimension and the previous content of the result. Two boxes are reported as intersecting exactly when they share a point; the reported intersection is the box of the shared points (or none), membership of a point and overlap are decided by the closed box, and no argument is changed.",
  q="any number of points (dimensions 2 and 3); all real boxes", tests="tests check a few boxes; touching, nested and degenerate boxes, other dimensions and reused results are not sampled",
  files=["mmcore/numeric/_aabb.pyx", "mmcore/numeric/aabb.py"], mech=[("box of points", "aabb, caabb, caabb_segm3d"), ("intersection", "caabb_intersect, aabb_intersect_fast_3d, aabb_intersection"), ("membership", "point_in_aabb, aabb_overlap")],
  note="box of points proved by loop invariants for any number of points; the tests are proved equivalent to a shared point for all real boxes."),
 dict(id="C16", title="Ray and segment box tests report exactly the parameters inside the box",
  statement="For a ray or segment and an axis-aligned box, the reported parameter interval is exactly the set of parameters (non-negative for a ray, 0 to 1 for a segment) whose points lie in the closed box, parallel directions, starts inside the box and degenerate segments included; no hit means no such parameter. Clipping a segment returns the points at the two ends of that interval, or nothing.",
  q="all real boxes, rays and segments", tests="tests cast a few rays; grazing, parallel and backward rays, starts inside and zero directions are not sampled",
  files=["mmcore/numeric/_aabb.pyx"], mech=[("slab test", "ray_aabb_intersect, segment_aabb_intersect"), ("clip", "segment_aabb_clip")],
  note="proved by a loop invariant over the axes for all real boxes and directions (components zero or at least 1e-15). Real arithmetic instead of floats."),
 dict(id="C25", title="Implicit sphere, cylinder and tube are true signed distances",
  statement="The implicit value of a sphere or infinite cylinder is the signed distance to its surface (negative inside), and of a tube the distance to the middle of the wall minus half the thickness; the gradient is the unit vector away from the centre or axis. Bounds contain the (capped) solid and touch it, every setter leaves the state a fresh object would have, and the parametric cylinder's points lie at the radius from the axis at height v, whatever the direction of the axis.",
  over=["inputs", "histories"], q="all real centres, axes, radii, thicknesses and query points; every order of setters", tests="tests evaluate a few spheres and one cylinder; axis directions, stale state after setters and bounds are not compared",
  files=["mmcore/geom/primitives.pyx"], mech=[("signed distance", "Sphere.cimplicit, ImplicitCylinder.cimplicit, Tube.cimplicit"), ("gradients", "cgradient"), ("bounds", "_calculate_bounds, cylinder_aabb"), ("setters", "origin, radius, start, end"), ("parametric cylinder", "Cylinder.cevaluate")],
  note="proved for all reals, square roots by their defining equation, sin and cos uninterpreted with sin^2+cos^2=1; the tube's finite-difference gradient only by the concrete companion."),
 dict(id="C28", title="Ruled and bilinear surfaces are their defining maps with exact derivatives",
  statement="A ruled surface over two curves (on any parameter intervals) is at (u, v) the point at fraction v between the curves' points at corresponding parameters; a bilinear patch interpolates its four corners. All first and second derivatives of both are the derivatives of that map, one at a time or in a batch; normals are orthogonal to both tangents, and plane_at gives an orthonormal frame at the point.",
  q="all curves (known only by value and derivatives), intervals, corners and parameters", tests="tests evaluate a few ruled surfaces; curves not on 0..1, second derivatives and batches are not compared",
  files=["mmcore/geom/parametric.pyx"], mech=[("ruled surface", "Ruled.cevaluate, cderivative_u, csecond_derivative_uv"), ("bilinear patch", "BiLinear"), ("normal and frame", "ParametricSurface.cnormal, plane_at")],
  note="proved for all reals over uninterpreted curves (contract: value, first and second derivative), so independent of any curve type. Real arithmetic instead of floats."),
 dict(id="C17", title="Interval arithmetic contains the results for all members",
  statement="Sum, difference, product, quotient and integer powers of intervals (and of an interval and a number, in place or not) contain the result for every choice of members, and their ends are attained; a divisor around zero gives the whole line. Common part, hull, membership and subdivision are those of the sets of members, and a comparison is definite only when it holds for all members. Operands are unchanged.",
  q="all real intervals, members and numbers; exponents -3 to 5", tests="tests do not cover intervals", files=["mmcore/numeric/interval/_interval.py"],
  mech=[("arithmetic", "Interval.__add__, __sub__, __mul__, __truediv__, __pow__, __invert__"), ("sets", "__and__, __or__, __contains__, subdivide"), ("comparisons", "compare, __lt__, __le__, __gt__, __ge__")],
  note="proved for all reals; exponents and subdivision depth are enumerated. Outward rounding of floats is outside the claim."),
 dict(id="C18", title="Union-find joins exactly the elements that were united",
  statement="After any sequence of unions and finds, two elements have the same representative exactly when they are connected by unions; find terminates and returns a member of the element's set. Grouping tuples returns the connected components of tuples that share an entry, each tuple once.",
  over=["inputs", "histories"], q="any number of elements and any history", tests="tests do not cover union-find; path compression after several joins and ranks are not sampled", files=["mmcore/ds/union_find.py"],
  mech=[("find with path compression", "UnionFind.find"), ("union by rank", "UnionFind.union"), ("grouping", "group_tuples")],
  note="find and union proved for any number of elements against a representation invariant (ghost partition and height; the recursive call by contract, with termination); group_tuples over all equality patterns of three or four tuples (bounded)."),
 dict(id="C19", title="The circular doubly linked list behaves as a sequence",
  statement="After any sequence of appends, insertions, removals and replacements, following next from the head visits exactly the elements a plain list with the same history would hold, in its order; previous is always the inverse of next, the ring closes, and the length is the number of elements. Indexing accepts what a list accepts and raises otherwise; removing a missing element changes nothing; an empty list iterates over nothing.",
  over=["inputs", "histories"], q="every ring (any length by window abstraction) and every operation; whole histories in the companion", tests="tests append and iterate a little; removal of the only, first or missing element, negative indices and node-level operations are not sampled",
  files=["mmcore/ds/cdll/cdll.py", "mmcore/ds/cdll/node.py"], mech=[("insertion", "CDLL.append, append_node, insert"), ("removal", "CDLL.remove, remove_node"), ("replacement", "CDLL.replace_node"), ("access", "CDLL.get, __iter__")],
  note="each operation is proved to preserve the ring invariant and to have its sequence effect, on rings whose shape is enumerated; loops by invariant."),
 dict(id="C20", title="The AVL tree is an ordered map and stays balanced",
  statement="After any sequence of insertions, assignments and deletions the tree holds exactly the keys and data a sorted dictionary with the same history would hold; lookups find them and report missing keys; in-order traversal is ascending; stored heights are true and the heights of siblings differ by at most one.",
  over=["inputs", "histories"], q="any tree (subtrees abstracted by contract), any key", tests="tests do not cover the tree; deletions with two children, double rotations and reassigned keys are not sampled",
  files=["mmcore/ds/tree/avl.py"], mech=[("insertion and rotations", "AVL.insert, rebalance, rotate_left, rotate_right"), ("deletion", "AVL.delete"), ("access", "AVL.search, __getitem__, __setitem__, inorder_traverse")],
  note="insert, delete and rotations are proved for trees of any size: recursive calls by contract over abstract subtrees (key set, least and greatest key, height)."),
 dict(id="C21", title="R-tree search returns exactly the entries that meet the query box",
  statement="After any sequence of insertions, every search returns exactly the inserted entries whose boxes meet the query box, each once. Every node's box contains the boxes of its children, splitting an overfull node distributes its entries without loss over two nodes of allowed size, and all leaves stay at the same depth.",
  over=["inputs", "histories"], q="any boxes and any tree (subtrees abstracted by contract)", tests="tests do not cover the tree; splits above the leaves and queries after many insertions are not sampled",
  files=["mmcore/ds/tree/rtree.py"], mech=[("search", "RStarTree.search, _search_subtree"), ("insertion", "RStarTree.insert, _choose_leaf, _find_parent"), ("split", "RStarTree._split_node, _choose_split_axis"), ("boxes", "Box, Rectangle")],
  note="search proved for any tree by recursion contract; insertion, splitting and box maintenance proved per node with callees by contract, at stated fan-outs (bounded)."),
 dict(id="C22", title="The k-d tree holds exactly its points; nearest neighbours are exact",
  statement="After building from any points and any sequence of insertions and deletions the tree holds exactly the points a list with the same history would hold, every node separates its subtrees along its axis, and sizes are true. Nearest neighbour returns a stored point with no stored point closer, and k nearest neighbours the k closest in order of distance. Building leaves the caller's points as they were.",
  over=["inputs", "histories"], q="any tree (subtrees abstracted by contract), any points with shared coordinates, any query", tests="tests do not cover the tree; deletions, shared coordinates and k nearest are not sampled",
  files=["mmcore/ds/bkdtree.py"], mech=[("building and rebuilding", "_build_balanced, _rebalance_subtree"), ("insertion and deletion", "BalancedKDTree.insert, delete, _find_min"), ("queries", "nearest_neighbor, k_nearest_neighbors")],
  note="proved by recursion contracts over abstract subtrees (point multiset, bounds per axis, size) for any tree size, in dimensions two and three."),
 dict(id="C30", title="Line, root and closest-point searches stay in the domain and report true values",
  statement="Searches for a minimum or maximum over an interval stay inside it, end, report the function's value at the parameter they return, and for a unimodal function come within the tolerance of the optimum. Root searches (curve with axis, ray or implicit, roots of a coordinate) report only zeros inside the domain and cover all of it in pieces no longer than the step. The closest point on a curve is in its domain, with the true distance, no farther than either end.",
  q="any function or curve (known only by its values), interval and tolerance", tests="tests search a few functions; domains that are not multiples of the step, optima at the ends and empty results are not sampled",
  files=["mmcore/numeric/divide_and_conquer.py", "mmcore/numeric/closest_point.py", "mmcore/numeric/routines/__init__.py", "mmcore/numeric/intersection/ccx/ccx.py"],
  mech=[("minima and maxima", "iterative_divide_and_conquer_min, recursive_divide_and_conquer_min, divide_and_conquer_min_2d"), ("roots", "test_all_roots, curve_roots, curve_pix, curve_x_axis, curve_x_ray"), ("pieces of the domain", "divide_interval"), ("closest point", "closest_point_on_curve")],
  note="proved over an uninterpreted function by loop invariants and recursion contracts; bisection is a trusted contract. That every root is found is not claimed. Real arithmetic instead of floats."),
 dict(id="C24", title="Triangle and mesh hits are the true crossings",
  statement="A segment is reported to hit a triangle exactly when it crosses the triangle's plane transversally at a point of both (up to 1e-8 in the parameters), with that point; parallel and degenerate cases are no hit and leave the result alone. The array forms say so for each triangle, with 2 at a vertex, 3 on an edge and 1 inside. Queries of a mesh hierarchy find a hit whenever a triangle is hit, flat meshes included; a ray reports every triangle it hits once, with point and distance, nearest first.",
  q="all triangles and segments, any number of triangles, any hierarchy", tests="tests use one triangle soup; edges, vertices, flat meshes, several triangles per leaf and distances are not compared",
  files=["mmcore/numeric/algorithms/moller.pyx", "mmcore/geom/bvh/__init__.py"],
  mech=[("single test", "_intersect_triangle_segment, intersect_triangle_segment"), ("array forms", "intersect_triangles_segment, intersect_triangles_segment_parallel, intersect_triangles_segment_one, _classify_intersection"), ("mesh queries", "bvh_triangle_segment_intersection_one, mesh_bvh_segment_intersection_one, mesh_bvh_ray_intersection")],
  note="the single test proved for all reals with inputs written through the solution of the crossing equations; array forms by loop invariants; mesh queries by a worklist invariant over the contracts of box tests. Real arithmetic instead of floats."),
 dict(id="C29", title="Reported intersections lie on both objects, inside their domains",
  statement="Every intersection reported for two parametric curves, a curve and a surface, a curve and an implicit curve, or two implicit curves lies on both objects within the tolerance, with parameters inside the domains (or the bounds given). Subdivision searches all of the domains and drops no intersection it finds, curve-surface results are ordered along the curve without repeats, each pair of kinds goes to its solver with the tolerance passed, and nothing found is an empty result.",
  over=["inputs"], q="any curves, surfaces and implicits (known only by their values), domains and tolerances", tests="tests intersect a few fixed curves; tangent and missing intersections, given bounds, other domains and guesses that do not converge are not sampled",
  files=["mmcore/numeric/intersection/ccx/ccx.py", "mmcore/numeric/intersection/ccx/__init__.py", "mmcore/numeric/intersection/csx/__init__.py", "mmcore/geom/implicit/tree/tree2d.py"],
  mech=[("curve with curve", "curve_ppx, curve_iix, ccx"), ("curve with surface", "NURBSCurveSurfaceIntersector.intersect, curve_surface_intersection, curve_surface_ppi, csx"), ("refinement", "find_intersections_bvh, find_intersections_grid"), ("implicit curves", "implicit_find_features, build_node")],
  note="proved over uninterpreted objects by recursion contracts and loop invariants, the numerical minimisers and Newton by contract. That every intersection is found is not claimed. Real arithmetic instead of floats."),
 dict(id="C31", title="Box hierarchies find exactly the objects whose boxes are met",
  statement="A hierarchy built over any objects holds each in exactly one leaf, no leaf more than allowed, and every box contains the boxes below it. Queries with a box, point, segment, ray or second hierarchy report every object (pair) whose box is met once, and no other. Box operations (split, merge, expand, intersection, membership, corners, distance) are those of the sets of points, with derived fields up to date and operands unchanged.",
  q="any objects, trees and queries", tests="tests build a few trees; leaf sizes, touching and flat boxes, stale fields and duplicates are not sampled",
  files=["mmcore/geom/bvh/__init__.py"],
  mech=[("building", "build_bvh, split_objects, CompoundObject3D"), ("queries", "traverse_bvh, contains_point, traverse_bvh_point, intersect_bvh_objects, bvh_segment_intersection, bvh_ray_intersection"), ("boxes", "BoundingBox"), ("distance", "sd_aabb")],
  note="recursion by contract and worklist invariants about an arbitrary object: trees of any shape. build_bvh for any number of objects over the contract of the split, proved for 2 to 5. Real arithmetic instead of floats."),
 dict(id="C13", title="Plane intersections lie on the planes; frames and coordinates are true",
  statement="The line of two planes, and the point of three, are finite and on every plane involved whenever the normals are independent (zero components included), with the direction of the normals' cross product; batches and nested batches give the same per element. A ray meets a plane where the reported parameter says. Frames built from points, normals, axes or equations are on their plane and orthonormal; local coordinates, projection and distance are those of the frame and invert evaluation. Operands are unchanged.",
  q="all planes, rays and points; batches at sizes up to 3 (2 by 2 nested)", tests="tests intersect a few planes; normals with zero components, nested batches, rays behind the origin and oblique frames are not sampled",
  files=["mmcore/numeric/plane/cplane.pyx", "mmcore/numeric/plane/__init__.py"],
  mech=[("two and three planes", "plane_plane_intersect, plane_plane_intersection, planes_planes_intersect, plane_plane_normal_intersect, plane_plane_plane_intersection"), ("rays", "ray_plane_intersect, plane_ray_intersection"), ("frames", "plane_from_normal, plane_from_3pt, plane_from_eq, plane_eq_from_pts"), ("coordinates", "evaluate_plane, inverse_evaluate_plane, project_point_by_normal, signed distance")],
  note="proved for all reals; the elimination by an invariant per step over every pivot order; batches unrolled at up to 3 rows (bounded). Real arithmetic instead of floats."),
 dict(id="C27", title="Linear solves and Newton iterations return true solutions or say so",
  statement="A linear solve (row exchanges included) satisfies the system for every regular matrix and reports a singular one, an inverse multiplies to the identity, and neither changes the matrix where it promises not to. Gradients and second derivatives are the central differences at the point. A Newton iteration returns only a point reached by a true Newton step shorter than the tolerance or where the function is below it, reports singular systems and failure to converge, and leaves the starting point alone.",
  q="all matrices, right-hand sides, functions and starting points", tests="tests run Newton on a few functions; systems that need row exchanges and singular ones are not sampled",
  files=["mmcore/numeric/newton/cnewton.pyx"],
  mech=[("linear systems", "solve, lu_factorize, lu_solve, solve_linear_system, invert_matrix"), ("differences", "gradient, hessian"), ("iterations", "newtons_method, newton_method2")],
  note="elimination by an invariant per step with ghost left inverse or kernel vector, over every permutation at sizes 1 to 3 (sizes enumerated); iterations proved for any number of steps over uninterpreted functions. Real arithmetic instead of floats."),
 dict(id="C34", title="Knot, degree, join, ruling and interpolation operations keep the shape",
  statement="The span and multiplicity searches return the span holding the parameter and the number of equal knots. Inserting or refining knots, splitting and raising the degree leave the curve as it is, weights included, on the stated knots. Joining two touching curves gives one curve that runs through both in turn, and a ruled surface ends in both curves. An interpolating curve passes through its data points at parameters in proportion to the chords. The operands stay as they were.",
  q="all knots, points and weights; degrees up to 3", tests="no test of these functions beyond a few unweighted curves; weights, repeated knots, knots in the last span and other intervals are not sampled",
  files=["mmcore/geom/curves/knot.py", "mmcore/construction/ruled.py"],
  mech=[("searches", "find_span_linear, find_span_binsearch, find_knot_span, find_multiplicity"), ("refinement", "knot_insertion, knot_refinement1, knot_refinement2, insert_knot, nurbs_split"), ("degree", "degree_elevation_bez, degree_elevate_curve"), ("joining and ruling", "join_two_curves, merge_knot_vectors, make_curves_compatible, ruled"), ("interpolation", "interpolate_curve, compute_params_curve, compute_knot_vector, build_coefficient_matrix")],
  note="searches proved for every knot vector by loop invariants; the others at stated degrees and sizes for all real points, weights and knots (sizes enumerated). The solver of the interpolation's linear system is an assumed contract (scipy). Real arithmetic instead of floats."),
dict(id="C32", title="Derivative quotients, curvatures, classes and geodesics of surfaces are right",
  statement="The evaluator's first and second derivatives are the surface's (exact where difference quotients are), its normal is the unit vector along du x dv, and the array forms hold the scalar forms row by row. Fundamental forms, Gaussian, mean, principal and normal curvatures, principal directions and Euler's formula agree with the shape operator at every regular point, umbilical points and orthogonal parametrisations included. Points are classed by the signs of these. The arc length element, surface_distance and the geodesic equations follow the metric.",
  q="all surfaces, regular points, directions and step sizes", tests="no test of these modules; two of them could not be imported",
  files=["mmcore/geom/evaluator/surface_evaluator.pyx", "mmcore/geom/surfaces/fundamental_forms.py", "mmcore/geom/surfaces/geodesic.py"],
  mech=[("difference quotients", "c_derivative_u .. c_derivative_uv, c_derivatives, c_normal, c_second_derivatives, *_array"), ("curvatures", "first_fundamental_form .. principal_directions, euler_curvature"), ("classes", "classify_point, classify_point_dupin, classify_point_on_surface"), ("lengths and geodesics", "infinitesimal_arc_length, surface_distance, compute_christoffel_symbols, geodesic_equations")],
  note="difference quotients proved exact on polynomial surfaces with arbitrary coefficients (degree 2 for first, 3 or 4 for second derivatives) at every point; array forms by loop invariants for any number of rows; curvatures, directions and geodesic equations for all real derivatives. surface_distance is unrolled for stated numbers of steps. The ODE and minimising drivers (geodesic_path, line_of_curvature: scipy) are outside. Real arithmetic instead of floats."),
dict(id="C35", title="Implicit shapes combine as sets; their trees and circles are true",
  statement="The union, intersection and difference of implicit shapes in 2D and 3D, nested at will, are negative exactly inside the set operation and positive outside (a - b is a without b), and their bounds contain them. Gradients and tangents follow the values; calling a shape gives one value per point. The cells of quad and oct trees cover the bounds without overlap and each is full, empty or border by the signs of the shape at the corners of the finest grid. Circles give true distances, nearest points, common points and tangents.",
  q="all operands, points, depths and bounds", tests="no test of implicit shapes, trees or circles",
  files=["mmcore/geom/implicit/implicit.py", "mmcore/geom/implicit/tree/collapse2d.py", "mmcore/geom/implicit/tree/collapse3d.py", "mmcore/geom/implicit/tree/cbuild_tree3d.pyx", "mmcore/geom/implicit/tree/tree2d.py", "mmcore/geom/implicit/tree/tree3d.py", "mmcore/geom/circle.py"],
  mech=[("operations", "Union2D/3D, Intersection2D/3D, Sub2D/3D, Implicit2D/3D operators, op_*"), ("gradients", "Implicit2D.gradient, Implicit3D.gradient, normal_from_function2d/3d, tangent2d"), ("trees", "build_tree2d/3d, collapse2d/3d, ImplicitTree2D/3D"), ("circles", "Circle2D, circle_intersection2d, tangents_lines")],
  note="operands are arbitrary functions with arbitrary bounds, so any nesting follows by induction; trees by induction over the depth and the tree; gradients are exact for quadratic functions. Whether a border cell really meets the curve (sampling at corners) is not claimed. Marching and spline parametrisation of implicit curves are outside."),
dict(id="C26", title="Bernstein and monomial forms of a patch agree; the Gauss map is its normal",
  statement="Converting a Bezier patch to monomial coefficients and back never changes the surface: both forms, and the rational patch made from homogeneous coefficients, have the same point at every parameter. Monomial2D built from Bernstein coefficients or a Bezier surface evaluates to that surface, and the surfaces it returns evaluate to it. Products, partial derivatives and normals computed on coefficients equal those of the polynomials at every parameter; the Gauss map of a patch is the cross product of its derivatives. Inputs are unchanged and nothing is printed.",
  q="all control points, weights and parameters, at stated degrees", tests="no test of monomial forms or Gauss maps",
  files=["mmcore/numeric/monomial.py", "mmcore/numeric/gauss_map.py", "mmcore/numeric/binom.pyx"],
  mech=[("conversions", "bpmat, bezier_to_monomial, monomial_to_bezier, homogeneous_monomial_to_rational_bezier"), ("forms", "Monomial2D.from_bernstein_basis, from_nurbs, to_nurbs, evaluate, cross, monomial_normal"), ("Gauss map", "compute_partial_derivative, cross_product, compute_gauss_map"), ("binomials", "binomial_coefficient")],
  note="degrees are stated per task; values and parameters are not bounded. The weighted Gauss map (compute_gauss_mapw) and binomials beyond degree 30 are outside."),
dict(id="C36", title="Point iterations end at foot points or on the implicit curves and surfaces",
  statement="Point inversion on a curve or surface returns a parameter reached by true Newton steps from the guess that itself satisfies a stated criterion (step, distance, or every tangent orthogonal), unless the steps run out. Moving a point onto an implicit curve or surface, or onto two surfaces at once, ends with a true Newton step no longer than the tolerance; no convergence, parallel gradients included, raises or is flagged, never passed off as a point. Frames at the point are orthonormal. Marching and raster points are on the curves. Inputs are unchanged.",
  q="any curves, surfaces and functions (known only by their values), guesses, tolerances and numbers of steps", tests="no test of these iterations but through surface intersection; which iterate is returned, parallel gradients and flags are not looked at",
  files=["mmcore/numeric/algorithms/point_inversion.py", "mmcore/numeric/algorithms/implicit_point.py", "mmcore/numeric/marching.py"],
  mech=[("foot points", "point_inversion_curve, point_inversion_surface, points_inversion_surface"), ("implicit curves and surfaces", "curve_point, _curve_point2, surface_point, intersection_curve_point, surface_plane"), ("marching", "marching_implicit_curve_points, marching_intersection_curve_points, raster_algorithm_2d")],
  note="every iteration proved by loop invariants over uninterpreted curves, surfaces and functions; points_inversion_surface and marching are executed only (bounded, not counted as proved). One open finding: point_inversion_surface returns the iterate before the converged one. Termination is not claimed. Real arithmetic instead of floats."),
]
NA = []
