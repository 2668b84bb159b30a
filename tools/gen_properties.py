#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source of the property texts).
import json, os
S = "lib/nikfemm/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Dense vector kernels compute the element-wise result and nothing else",
 "For vectors of equal length, each element-wise operation of the algebra layer (sum, difference, product, quotient, scalar sum/difference/product/quotient, scaled addition, copy) leaves in the i-th entry of the output exactly the operation applied to the i-th entries of the inputs, for every i up to the vectors' length. The output keeps its length, inputs that are not the output keep their value, no entry outside the vectors is touched, and the result is the same when the output is one of the inputs.",
 ["inputs"], "every length (including 0 and lengths that are not a multiple of any block size), every real content, every aliasing of output and inputs",
 "The cv_tests cases use one vector of a fixed small length per kernel and one data set; aliasing of output and input (how the solvers call them) is never exercised.",
 [S+"algebra/math.cpp", S+"algebra/math.hpp"],
 [("element-wise loops", S+"algebra/math.cpp: mult/add/sub/div/addScaled/copy")], ["output vector after the call"])

prop("C02", "Reductions over vectors are exact sums over every entry",
 "The dot product of two equally long vectors is the sum over all entries of the products, the square sum is the dot product of a vector with itself, the norm is the non-negative root of the square sum, and the per-element magnitudes of a list of 2-D vectors are the Euclidean norms of those vectors in the same order. A vector (or sparse matrix, over its off-diagonal and diagonal values) is reported to contain a NaN exactly when one of its entries is NaN.",
 ["inputs"], "every length and content, position of a NaN included",
 "Tests compute one dot product and one square sum of a fixed vector; norm, element-wise norm and the NaN scans are never called by a test.",
 [S+"algebra/math.cpp"], [("std::inner_product / scanning loops", S+"algebra/math.cpp: dot, squareSum, norm, element_wise_norm, isnan")])

prop("C03", "Sparse matrix-vector products agree with the stored matrix",
 "For every well-formed compressed matrix of order n (rows in ascending order, every stored off-diagonal entry strictly above the diagonal and inside the matrix) and every vector x, the product called on the symmetric view is (D+U+U^T)x, on the lower-triangular view (D+U^T)x, and on the upper-triangular view (D+U)x, whatever the output vector contained before. Matrix and input vector are unchanged and only the n output entries are written.",
 ["inputs"], "every order, sparsity pattern (empty rows, dense rows), values and previous output content",
 "One 5x5 symmetric matrix is multiplied by one vector in the tests; the triangular views are never multiplied, and scatter order (rows are processed backwards) only matters for other patterns.",
 [S+"algebra/math.cpp", S+"algebra/csr.hpp"], [("row loops with scatter into the transposed positions", S+"algebra/math.cpp: mult(...MatCSR*...)")])

prop("C04", "Coordinate matrix storage: reads create zeros, writes touch one entry",
 "Accessing entry (i,j) with i<=j yields a reference to the one stored value for that pair: the value last written there, or zero if it was never accessed; distinct index pairs never share storage, and no other entry changes. An access below the diagonal is rejected with an exception and stores nothing.",
 ["inputs", "histories"], "every history of accesses with any 32-bit row and column indices",
 "Tests only build one small matrix with small indices and read it back after conversion; index pairs that differ only in the high or low half of the key, re-access, and the rejected half are not exercised.",
 [S+"algebra/coo.hpp"], [("64-bit key row<<32|col", S+"algebra/coo.hpp: MatCOOSymmetric::operator()")])

prop("C05", "Coordinate to compressed conversion loses nothing and is well formed",
 "Converting a coordinate matrix whose diagonal is fully present to compressed form (numeric or with expression entries) keeps the order and the number of off-diagonal entries, has monotone row offsets from 0 to that number, stores in each row exactly the entries of that row with their column and value (or expression) in ascending column order, and the diagonal separately. Looking up (i,j) or (j,i) then yields the original entry, and 0 for an entry that was never stored; copies of a compressed matrix are equal to the original.",
 ["inputs"], "every sparsity pattern and iteration order of the underlying hash map",
 "The tests convert one 5x5 matrix; row-offset accumulation, empty rows and hash-map iteration orders are not sampled.",
 [S+"algebra/csr.cpp", S+"algebra/csr.hpp", S+"algebra/non_linear.cpp"],
 [("sort by key, then one pass filling columns/values/diagonal and prefix-summing row counts", S+"algebra/csr.cpp: BaseCSR::BaseCSR(MatCOOSymmetric&)"), ("same for expressions", S+"algebra/non_linear.cpp: NonLinearMatCSRSymmetric ctor")])

prop("C06", "Imposing a fixed value eliminates that unknown exactly",
 "Imposing value v at node k replaces row and column k of the symmetric system by the identity row with right-hand side v and subtracts A[i][k]*v from every other right-hand side entry i; every other matrix entry and the matrix order are unchanged. Hence a vector solves the new system exactly when its k-th entry is v and it satisfies all the other original equations.",
 ["inputs"], "every symmetric system (numeric and expression-valued), node index, value, and iteration order of the hash map; also several impositions in sequence",
 "One test imposes values in one mesh and looks at a solved field; the elimination of the column, both halves of the stored triangle and interaction of several imposed nodes are not asserted entrywise.",
 [S+"algebra/system.hpp"], [("single pass over the stored upper triangle", S+"algebra/system.hpp: System::addDirichletBoundaryCondition")])

prop("C07", "Expression-valued matrix entries behave like the numbers they stand for",
 "For every permeability vector, evaluating an entry built by any sequence of assignment, addition, subtraction and scaling of numbers, permeability terms and other entries gives the same number as performing that sequence on the evaluated operands, where a term evaluates to its coefficient divided by the permeability of its element. Re-evaluating an expression matrix sets every diagonal and off-diagonal value to its expression's value at that permeability vector, without remembering earlier evaluations.",
 ["inputs", "histories"], "every sequence of operations, every permeability vector, repeated re-evaluation",
 "No test evaluates an expression; the non-linear solver path is only run end-to-end by an example that asserts nothing.",
 [S+"algebra/non_linear.hpp", S+"algebra/non_linear.cpp"], [("constant plus list of terms", S+"algebra/non_linear.hpp: NonLinearExpression operators"), ("evaluate", S+"algebra/non_linear.cpp")])

prop("C08", "A solver that stops early has really reached the requested residual",
 "Each of the four conjugate-gradient solvers, started from any initial guess on any symmetric system, returns either after using its whole iteration budget or with a solution x whose true residual b-Ax has a squared norm strictly below the square of the requested error. The matrix and the right-hand side are not modified and the solution vector keeps its length.",
 ["inputs"], "every symmetric matrix with non-zero diagonal, right-hand side, initial guess, error bound, iteration budget and relaxation factor (exact arithmetic)",
 "One 5x5 system is solved from zero with one solver; a residual recurrence that drifts from the true residual, or a wrong stopping test, still passes on well-conditioned samples.",
 [S+"algebra/solvers.cpp"], [("residual recurrence r -= alpha*A*p next to x += alpha*p", S+"algebra/solvers.cpp: conjugateGradientSolver, preconditionedJacobi..., preconditionedSSOR..., preconditionedIncompleteCholesky...")], ["x, b, A after return"])

prop("C09", "The SSOR preconditioner solves its defining triangular system",
 "For every symmetric matrix with diagonal D, strict upper part U and non-zero diagonal entries, and every relaxation factor w, applying the SSOR preconditioner to r yields the vector z with (D+wU^T) D^-1 (D+wU) z = w(2-w) r. The matrix and r are unchanged, whatever the output contained before.",
 ["inputs"], "every order n>=1, sparsity pattern, values, factor and input vector (exact arithmetic)",
 "The preconditioner is only exercised inside full solves, which converge (more slowly) even with a wrong preconditioner.",
 [S+"algebra/solvers.cpp"], [("forward and backward substitution on the stored upper triangle", S+"algebra/solvers.cpp: multSSORPreconditioner")])

prop("C10", "Conduction stiffness matrix is the exact linear-element one",
 "The system assembled for a conducting layer has, for every pair of mesh nodes i<=j, the entry sum over the triangles containing both of area * (grad phi_i . grad phi_j) * conductivity of the triangle's material * layer depth, whatever the orientation in which a triangle lists its vertices, and a zero right-hand side. Consequently each row of the full symmetric matrix sums to zero (a constant potential carries no current) and diagonal entries are positive for positive conductivity and depth.",
 ["inputs"], "every conforming triangle mesh with non-degenerate triangles whose vertices all belong to a triangle, every assignment of materials, every depth",
 "The one end-to-end test solves one square; an error in an off-diagonal weight, in the orientation branch, or in the material lookup is averaged away or not reached.",
 [S+"current_density/mesh.cpp", S+"mesh/mesh.hpp", S+"drawing/drawing.hpp"], [("per-vertex loop over adjacent elements", S+"current_density/mesh.cpp: CurrentDensityMesh::getFemSystem")])

prop("C11", "Magnetostatic system: reluctivity-weighted stiffness and current sources",
 "The magnetostatic system has, for every pair of nodes i<=j, an entry whose value at any permeability vector is the sum over the triangles containing both of area * (grad phi_i . grad phi_j) / mu(triangle), independent of vertex orientation, and, without permanent magnets, the right-hand side of node i is the sum over its triangles of current density * area / 3.",
 ["inputs"], "every conforming mesh with non-degenerate triangles, every material assignment without magnets, every permeability vector",
 "No unit test covers the magnetostatic module.",
 [S+"magnetostatic/mesh.cpp", S+"algebra/non_linear.hpp"], [("per-vertex loop over adjacent elements", S+"magnetostatic/mesh.cpp: MagnetostaticMesh::getFemSystem")])

prop("C12", "Layers are merged block-wise and joined only by their interconnections",
 "The multi-layer system is the block-diagonal arrangement, in layer order, of the single-layer systems, plus, for every interconnection of resistance R between its two nearest nodes, a conductance 1/R stamped as +1/R on both diagonals and -1/R on the coupling entry, stamps of several interconnections adding up. Thus interconnections keep every row sum unchanged and current out of one node enters the other.",
 ["inputs"], "any number of layers and interconnections, any order of their layers and nodes, parallel interconnections included",
 "No test builds a multi-layer system with an interconnection.",
 [S+"current_density/multilayer_simulation.cpp"], [("offset-shifted copy, then stamping", S+"current_density/multilayer_simulation.cpp: generateSystem")])

prop("C13", "A voltage source is imposed on the nearest node of its own layer",
 "Setting a voltage at a point imposes that value on a node of the addressed layer whose distance to the point is minimal among the layer's nodes, at that node's position in the global system (nodes of earlier layers counted first), and on no other node. A layer without nodes leaves the system unchanged.",
 ["inputs"], "any node positions (ties included), point, layer index, number of layers",
 "The test sets voltages at exact corners of one single-layer mesh.",
 [S+"current_density/simulation.cpp", S+"current_density/multilayer_simulation.cpp"], [("argmin loop plus layer offset", "setVoltage in both simulations")])

prop("C14", "Element gradient, curl and power density follow from the nodal field",
 "For every triangle, the computed gradient is the gradient of the affine function interpolating the three nodal values, the computed curl of a z-directed potential A is (dA/dy, -dA/dx) of the same interpolant, both independent of vertex order, and the power density of a triangle is its material's conductivity times the squared norm of the gradient taken from its own layer's slice of the solution.",
 ["inputs"], "every mesh with non-degenerate triangles, every nodal field, any number of layers",
 "No test reads a gradient, curl or power density.",
 [S+"mesh/mesh.hpp", S+"current_density/multilayer_simulation.cpp"], [("area-normalised edge formulas", S+"mesh/mesh.hpp: computeGrad, computeCurl"), ("offset slices", "computePowerDensity")])

prop("C15", "Permeability comes from the material law and relaxes towards it",
 "A material without a B-H curve has its constant permeability at every field; with a curve of at least two points, the permeability at a field is the slope dB/dH of a segment formed by two consecutive points of its own curve (the first segment at or below the first point, the last at or beyond the last point), and a one-point curve is rejected. An update step sets a linear element's permeability to its constant and a non-linear element's to the convex combination, with weight exp(-iteration/5), of the previous value (plus vacuum permeability times squared residual) and the curve's value at that element's field.",
 ["inputs"], "every curve, field magnitude (below, between, on and above curve points), iteration and residual",
 "No test calls the material law.",
 [S+"magnetostatic/properties.cpp", S+"magnetostatic/simulation.cpp"], [("lower_bound on the curve", S+"magnetostatic/properties.cpp: getMu"), ("relaxation", S+"magnetostatic/simulation.cpp: updateMu")])

prop("C16", "Point-in-polygon answers are exact, and polygon motion is rigid",
 "A point on an edge or vertex of a polygon is reported contained; any other point is reported contained exactly when a ray from it crosses the boundary an odd number of times, whatever the vertex order or starting vertex. The tolerance variant adds (or removes) exactly the points within the given distance of an edge, a polygon contains another when it contains all its vertices, and translation or rotation moves every vertex by the same rigid motion.",
 ["inputs"], "every polygon (non-convex, either orientation, with horizontal edges) and point (vertices, edges and points level with vertices included)",
 "No test calls the point-in-polygon test; degenerate rays need specific coordinates.",
 [S+"geometry/polygon.cpp"], [("crossing-number loop", S+"geometry/polygon.cpp: contains"), ("translate/rotate", S+"geometry/polygon.cpp")])

prop("C17", "Segment distance and intersection tests are geometrically exact",
 "The distance from a point to a segment is the minimum of the distances to the segment's points, for degenerate segments as well, and is symmetric in the segment's end points. Two segments that cross at a point interior to both are reported intersecting and two segments without a common point are reported not intersecting (segments that merely touch may be reported either way), whatever the order of the end points or of the segments; a point is in a segment's bounding box exactly when both coordinates lie between those of the end points.",
 ["inputs"], "all coordinates (exact arithmetic); for the intersection test, inputs whose orientation determinants and coordinate differences are zero or above the code's 1e-100 threshold",
 "No test calls the segment predicates.",
 [S+"geometry/segment.cpp"], [("clamped projection", S+"geometry/segment.cpp: pointSegmentDistance"), ("orientation signs", S+"geometry/segment.cpp: segmentsIntersect")])

prop("C18", "Circles pass through, enclose and sample the points they should",
 "The circle through three non-collinear points is equidistant from all three, the circle through two points has them as a diameter, and the enclosing circle of a non-empty point set contains every point of the set. Drawing a circle with n sides yields n points on the circle, equally spaced in angle and closing on the start.",
 ["inputs"], "all points (exact arithmetic), all n >= 1",
 "No test constructs a circle; the enclosing circle decides the simulated domain of every magnetostatic problem.",
 [S+"geometry/circle.hpp", S+"geometry/circle.cpp", S+"drawing/drawing.hpp"], [("closed-form circumcentre", S+"geometry/circle.hpp"), ("enclosing circle", S+"geometry/circle.cpp: getEnclosingCircle"), ("vertex loop", S+"drawing/drawing.hpp: drawCircle")])

prop("C19", "The drawing registers shapes, materials and regions consistently",
 "Registering a material returns an index at which exactly that material is stored; equal materials share one index, different ones never do, and earlier indices keep their meaning. Adding a segment reuses existing points that coincide with its ends, otherwise appends them, never duplicates a segment in either direction, always leaves segments that refer to existing points at the requested ends, and changes nothing else; a segment that crosses an older one it shares no end with is rejected. Rectangles and polygons are drawn as the closed loop of their sides and recorded with their corners; reading an unknown material index is rejected. Translating the drawing shifts every point, polygon vertex and region seed by the same vector.",
 ["inputs", "histories"], "every sequence of drawing operations",
 "Tests draw one rectangle; repeated materials, shared corners and duplicate segments are not asserted.",
 [S+"drawing/drawing.hpp"], [("linear search, append if absent", S+"drawing/drawing.hpp: getRegionId, getRegionPtrFromId, drawSegment, drawRegion, translate")],
 None, [("region_map", "index -> material", S+"drawing/drawing.hpp"), ("points/segments", "geometry handed to the mesher", S+"drawing/drawing.hpp")])

prop("C20", "Region integrals are area-weighted sums over the region's triangles",
 "For the innermost drawn polygon around a point, the area is the sum of the areas of exactly the triangles whose corners all lie in that polygon; the mass is density times layer depth times that area; the barycentre is the area-weighted mean of those triangles' barycentres; and the moment of inertia is density times depth times the sum of triangle area times squared distance of triangle barycentre to the axis. Points given and returned are in the coordinates the drawing was made in, also when the mesh was recentred. The innermost polygon is one that contains the point and contains no other polygon that also contains it; a point in no polygon is rejected.",
 ["inputs"], "every mesh, recentring and drawing, any vertex order of triangles and polygons",
 "No test computes a region integral.",
 [S+"mesh/mesh.hpp"], [("element loops", S+"mesh/mesh.hpp: computeAreaIntegral, computeMass, computeBarycenter, computeInertiaMoment, getInnermostPolygon")])

prop("C21", "The exterior domain is mapped by inversion and closed at infinity",
 "The exterior mapping moves every interior point p of the auxiliary disc of radius R to R^2/|p|^2 * p (points nearer the centre than R/100 are moved to distance 100R in the same direction) and leaves the points on the disc's boundary where they are. The boundary condition at infinity imposes zero at the three nodes farthest from the origin and at no other node.",
 ["inputs"], "every set of nodes without one at the exact centre, every radius",
 "No unit test covers the exterior domain.",
 [S+"mesh/mesh.hpp", S+"magnetostatic/mesh.cpp"], [("per-node transform", S+"mesh/mesh.hpp: kelvinTransformCentered"), ("top-three selection", S+"magnetostatic/mesh.cpp: addDirichletInfiniteBoundaryConditions")])

prop("C22", "2-D vector and mesh-element geometry obey their algebraic definitions",
 "Vector arithmetic, dot and cross products, norms, distances, normals, rotation, interpolation and midpoint return their textbook values; rotation preserves lengths and distances to its centre. Triangle areas computed from points or from a mesh element are non-negative, invariant under permutation of the vertices and half the absolute cross product of two edges, oriented areas change sign when two vertices are exchanged, and the element barycentre is the mean of its vertices.",
 ["inputs"], "all coordinates (exact arithmetic), all vertex orders",
 "No test uses the geometry classes directly.",
 [S+"geometry/vector.hpp", S+"mesh/mesh.hpp"], [("inline formulas", S+"geometry/vector.hpp, MeshData in "+S+"mesh/mesh.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
