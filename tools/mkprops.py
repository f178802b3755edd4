#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Vector algebra is the standard real vector algebra",
 "Vector sum, difference, scaling, component-wise absolute value, dot product, cross product, squared length and squared distance return the mathematically defined value for every pair of vectors. The in-place form of an operation leaves its receiver equal to what the value-returning form returns, and no operation changes a vector it was not asked to change.",
 ["inputs"], "all vectors with finite components and all finite scale factors",
 "No test in r3 checks any of these operations; callers sample a few axis-aligned vectors with zeros, where a wrong component or sign often cancels.",
 ["r3/vector.go", "r3/plane.go"],
 [("Add/Sub/Scaled/Dot/Cross/Norm2/SquaredDistance", "r3/vector.go"), ("in-place Add/Sub/Scale/Abs", "r3/vector.go"), ("calculateNormal, createVector, det2D", "r3/plane.go, r3/vector.go")])

prop("C02", "Lengths are non-negative and normalisation yields a unit vector",
 "The length of a vector and the distance between two vectors are the non-negative square root of the squared length or squared distance. Normalising a non-zero vector, in place or by value, yields a vector of length one that is a positive multiple of it; normalising the zero vector yields the zero vector.",
 ["inputs"], "all finite vectors, the zero vector included",
 "The only test that normalises uses one axis-aligned direction; the zero vector and general directions are never normalised.",
 ["r3/vector.go"],
 [("Norm, Magnitude, Distance", "r3/vector.go"), ("Normalize (method and function), IsUnit", "r3/vector.go")])

prop("C03", "Plane queries are geometrically correct",
 "The intersection of a line with a plane it is not parallel to lies on both the line and the plane, and the query refuses (panics) exactly when the line is parallel to the plane. The distance from a point to a plane built from a unit normal and an origin is the signed distance: the normal component of the point minus the origin.",
 ["inputs"], "all lines with a non-zero direction, all planes with a non-zero normal, all points",
 "One test with a hand-picked vertical line; it fails at this commit before reaching most of its assertions, and plane distance is untested.",
 ["r3/line.go", "r3/plane.go", "r3/vector.go"],
 [("Line.IntersectPlane", "r3/line.go"), ("newPlane", "r3/plane.go"), ("CalculateDistanceToPlane", "r3/vector.go")])

prop("C04", "Interpolation is the affine combination of its end points",
 "Interpolating between two vectors at parameter t returns exactly the affine combination with weights 1-t and t in every component (the first end point at 0, the second at 1), and the divisor form returns weight d on the receiver and 1-d on the other end point. Neither end point is modified.",
 ["inputs"], "all pairs of vectors and all parameters, inside or outside [0,1]",
 "Neither interpolation function is called by any test.",
 ["r3/vector.go"], [("Interpolate, GetInterpolationVector", "r3/vector.go")])

prop("C05", "Orientation and in-sphere predicates equal their determinants",
 "The orientation predicate equals the 3x3 determinant of the three edge vectors from its last argument, so it is zero exactly for coplanar arguments and changes sign when two arguments are swapped. The in-sphere predicate equals the lifted 4x4 determinant: it is zero when the query point coincides with one of the four sphere points, its sign flips when two sphere points are swapped, and the filtered variant either returns that same value or zero when the value is within its error bound.",
 ["inputs"], "all five-tuples of points",
 "predicates has no tests; the one caller prints a mesh without checking a single sign.",
 ["predicates/insphere.go", "predicates/orient3d.go", "predicates/util.go"],
 [("InSphereFast, inSphere", "predicates/insphere.go"), ("orient3dfast", "predicates/orient3d.go")])

prop("C06", "Bounding boxes contain every point and are tight",
 "For every non-empty list of points the computed extents contain every point, and each of the six bounds is attained by some point of the list. The list is not modified.",
 ["inputs"], "all finite lists of points with finite (non-NaN) float64 coordinates, any length and order",
 "Tests compute the extents of one small list and print or discard them.",
 ["meshing/helper.go", "triangulate3/englober.go", "triangulate3/gdel3d.go"],
 [("findExtremas", "meshing/helper.go"), ("computeBoundingBoxForVectors", "triangulate3/englober.go"), ("computeExtremitiesForAxeX", "triangulate3/gdel3d.go")])

prop("C07", "The initial tetrahedron encloses every input point",
 "For every non-empty list of points, the enclosing tetrahedron that a 3D tessellation starts from contains all of them. Building it keeps every input point, in order, directly after the four corner points, refers to the corners by their indices 0 to 3 with the four faces of the tetrahedron, and leaves the caller's own list untouched.",
 ["inputs"], "all finite non-empty point lists, including points below the origin and flat lists",
 "The meshing test prints points that are outside instead of failing, and the triangulate3 test file does not compile.",
 ["meshing/mesh.go", "meshing/helper.go", "triangulate3/englober.go"],
 [("englobe, computerInitialTetraPoints", "meshing/mesh.go, meshing/helper.go"), ("constructEnglobingTetra", "triangulate3/englober.go")])

prop("C08", "Tetrahedron membership accepts exactly the convex combinations",
 "The point-in-tetrahedron test accepts every convex combination of the four corners. For a non-degenerate tetrahedron it rejects every other point.",
 ["inputs"], "all four corners and all points",
 "Tests call it on a handful of points and ignore or print the result.",
 ["meshing/util.go", "triangulate3/util.go"],
 [("sameSide, vectorInTetrahedron", "meshing/util.go"), ("SameSide, VectorInTetrahedron", "triangulate3/util.go")])

prop("C09", "Extreme-point searches return a true extreme of the list",
 "The nearest-point search returns a member of the list and no member is closer to the query. The furthest-from-a-line search returns a member maximising the area spanned and the furthest-from-a-plane search a member maximising the absolute volume spanned, whenever some member spans a non-zero one; hence the seed tetrahedron of a list of points is made of list members.",
 ["inputs"], "all finite point lists, of any length and order, with ties and points on either side of the plane",
 "One test prints the nearest point of one list; the furthest searches are only reached from a test file that does not compile.",
 ["meshing/helper.go", "meshing/mesh.go", "triangulate3/gdel3d.go", "triangulate3/util.go"],
 [("getNearestPoint, getNearestPointToCentroid", "meshing/helper.go, meshing/mesh.go"), ("getFurthestFromTwoVectors, getFurthestFromthreeVectors, createInitialTetra", "triangulate3/gdel3d.go"), ("Get2Ddist, Get3Ddist, findCentroid", "triangulate3/util.go")])

prop("C10", "Tetrahedralisation output refers only to the caller's points",
 "For every list of points, the face list returned by the 3D tessellation has a length divisible by three and every entry is a valid index into the caller's list, so no corner of the enclosing tetrahedron leaks out and no index is out of range; the caller's list is left unchanged.",
 ["inputs"], "all finite point lists with at least one point, degenerate ones included",
 "The test runs one list of eight points and checks nothing about the result.",
 ["meshing/mesh.go"],
 [("bowyerWatson, connect, addTetra, addFace, isPartOfMesh", "meshing/mesh.go")])

prop("C11", "Primitive meshes index only existing vertices",
 "Every index in the mesh of a circle, ellipse, sphere or torus refers to an existing vertex and the number of indices is a multiple of three. The mesh has exactly the number of vertices its subdivision calls for, with one normal and one texture coordinate per vertex where these are produced.",
 ["inputs", "configurations"], "all subdivision counts (at least one sector, at least two stacks) whose vertex count fits 32 bits, all centres and radii",
 "The modeler tests build one mesh of each kind and write it to a file without looking at the indices.",
 ["shape/circle.go", "shape/ellipse.go", "shape/sphere.go", "shape/torus.go", "shape/shape.go"],
 [("generateIndices", "shape/*.go"), ("generateVertices", "shape/*.go")])

prop("C12", "Circle and ellipse vertices lie on the requested curve",
 "The first vertex of a circle or ellipse mesh is the requested centre and every other vertex lies on the circle of the requested radius, respectively the ellipse of the requested semi-axes, around that centre in the plane of constant z. Every triangle of the mesh joins the centre to two neighbouring rim vertices and occurs once in each winding, so that the mesh is visible from both sides.",
 ["inputs", "configurations"], "all centres, radii, semi-axes and sector counts",
 "Tests build one circle and one ellipse at the origin and check nothing.",
 ["shape/circle.go", "shape/ellipse.go", "shape/shape.go"],
 [("Circle/Ellipse.generateVertices, generateIndices", "shape/circle.go, shape/ellipse.go")])

prop("C13", "Sphere and torus vertices lie on the requested surface",
 "Every vertex of a sphere mesh is at the requested radius from the requested centre, and every vertex of a torus mesh is at tube radius from the requested torus' centre circle. Every vertex normal has unit length and points away from the centre, respectively from the tube's centre line, and every texture coordinate is the vertex' sector and stack as a fraction of the sector and stack counts, within [0,1].",
 ["inputs", "configurations"], "all centres, non-zero radii, tube radii and subdivision counts",
 "Tests build one sphere and one torus, both at the origin, and check nothing.",
 ["shape/sphere.go", "shape/torus.go", "shape/shape.go"],
 [("Sphere/Torus.generateVertices", "shape/sphere.go, shape/torus.go")])

prop("C14", "Export carries a mesh over to glTF without loss",
 "The exported model has one position per mesh vertex, in order, each component being the vertex component rounded to float32, and exactly the mesh's indices in order. The written document refers to these positions and indices, and has one colour per vertex; the mesh is not modified.",
 ["inputs"], "all meshes, any number of vertices and indices",
 "The modeler tests write files and never read them back; the glTF tests do not call the exporter at all.",
 ["glTF/export.go", "glTF/model.go"],
 [("transferModel", "glTF/model.go"), ("Export", "glTF/export.go")])

prop("C15", "Argument lists are split only at top-level commas, without loss",
 "Splitting the text after a definition's opening bracket yields one argument per top-level comma plus one, where commas inside nested brackets or quoted strings are not top-level; the arguments joined by commas give back the text up to the definition's closing bracket, up to surrounding white space. Splitting never crashes, whatever the text contains.",
 ["inputs"], "all argument texts: any nesting, quoted strings, non-ASCII characters, white space before the terminator, truncated text",
 "The lexer tests print the split of two files that contain neither quoted commas nor non-ASCII text; nothing is compared.",
 ["step/util.go", "step/lex.go"],
 [("getArguments", "step/util.go"), ("tokenize", "step/lex.go")])

prop("C16", "Nested lists are split element by element, without loss",
 "Splitting a bracketed list yields its elements in order: one per comma that is outside nested brackets and quoted strings plus one, which joined by commas give back the text between the outer brackets. A list of lists is split row by row, and in every row element by element; logical values are true exactly for .T..",
 ["inputs"], "all bracketed list texts of any nesting, length and content",
 "One test splits one literal and prints it.",
 ["step/util.go"],
 [("getArray, getMatrix, getLogical, stripWhiteSpaces", "step/util.go")])

prop("C17", "Lexing records every definition of a file under its identifier",
 "Lexing a STEP file yields a table with exactly one entry per distinct identifier defined in the file, under the identifier without surrounding white space, holding the entity type without white space and the split arguments of the last definition of that identifier. A definition may span any number of lines, and header lines, blank lines or an empty file never make lexing fail or add entries.",
 ["inputs"], "all files: any sequence of lines, with or without header, blank lines and continuation lines",
 "Two header-less files are lexed by tests and the result printed; the sample files with headers in testfiles/step are never lexed.",
 ["step/lex.go", "step/util.go"],
 [("Lex, add, tokenize", "step/lex.go"), ("getArguments, stripWhiteSpaces", "step/util.go")])

prop("C18", "Parsing follows references, handles each entity once, and ends",
 "Parsing a table dispatches every entity to the handler of its entity type and skips the types it does not know. A handler schedules exactly the entities its attributes refer to, every entity is handled at most once even when references are cyclic, the work list is empty when parsing returns, and a table whose entities carry the attributes their type requires never makes parsing crash.",
 ["inputs", "histories"], "all symbol tables whose definitions carry the attributes their entity type requires, cyclic references included",
 "Tests parse two files that contain only points and one spline surface, so no reference is ever followed.",
 ["step/parse.go", "step/bridge.go", "step/template.go"],
 [("runInferenceModel, Parse", "step/parse.go"), ("bridge", "step/bridge.go"), ("handlers", "step/template.go")],
 state=[("nextStates", "queue of scheduled handler/entity pairs", "step/parse.go Parser"), ("visited", "entities already handled", "step/parse.go Parser")])

prop("C19", "The knot span search finds the enclosing span and ends",
 "For every non-decreasing knot vector and every parameter between the first and last knot of the curve's domain, the span search ends and returns a span between the degree and the last control point whose knots enclose the parameter; at the end of the domain it returns the last span.",
 ["inputs"], "all non-decreasing knot vectors, degrees and control point counts of matching size, all parameters of the domain",
 "One test evaluates one parameter on one uniform knot vector.",
 ["nurbs/basis.go"], [("findSpan", "nurbs/basis.go")])

prop("C20", "B-spline basis values follow Cox-de Boor and sum to one",
 "The basis values returned for a parameter and its knot span are the degree-plus-one non-vanishing Cox-de Boor basis functions at that parameter. They are non-negative and sum to one.",
 ["inputs"], "all non-decreasing knot vectors, degrees, spans and parameters enclosed by the span",
 "The only test prints one curve point for degree 3 on a uniform knot vector.",
 ["nurbs/basis.go"], [("basisFuns", "nurbs/basis.go")])

prop("C21", "A curve point is the basis-weighted sum of its control points",
 "A curve point is the sum of the degree-plus-one control points that govern the parameter's span, weighted with the basis values of that span. It therefore lies within the bounds of those control points in every coordinate, and neither the knots nor the control points are modified.",
 ["inputs"], "all non-decreasing knot vectors whose last span of the domain is not empty, control points, degrees and parameters of the domain",
 "One test prints one curve point.",
 ["nurbs/curve.go", "nurbs/basis.go"], [("curvePoint", "nurbs/curve.go")])

prop("C22", "Basis derivatives start from the basis values themselves",
 "The table of basis derivatives has the basis functions themselves as its zeroth row, equal to the separately computed basis values at the same parameter, and one row per requested derivative order with one entry per basis function. The row of first derivatives sums to zero.",
 ["inputs"], "all non-decreasing knot vectors, degrees, spans, parameters enclosed by the span and derivative orders up to the degree",
 "The function is not called by any test.",
 ["nurbs/basis.go"], [("dersBasisFuns", "nurbs/basis.go")])

prop("C23", "Planar circle predicates are geometrically correct",
 "The circumcentre of three non-collinear points is equidistant from all three and the circumradius value is that squared distance, while collinear or coincident points report an infinite one. The in-circle test is true exactly when its point is strictly inside the circle through the other three taken in the orientation the triangulator uses, and is never true for one of the three points themselves; the orientation value is the signed double area.",
 ["inputs"], "all triples and quadruples of points in the plane",
 "triangulate2 has no tests.",
 ["triangulate2/util.go"], [("circumcenter, circumradius, inCircle, area", "triangulate2/util.go")])

prop("C24", "The convex hull is convex, drawn from the input, and non-destructive",
 "The hull returned for any list of points is made of points of the list, and turns the same way (or goes straight on) at every one of its corners along the lower and along the upper chain. The caller's list is left unchanged, in content and order.",
 ["inputs"], "all point lists, with duplicates, collinear points and any order",
 "triangulate2 has no tests.",
 ["triangulate2/hull.go"], [("ConvexHull, cross2D", "triangulate2/hull.go")])

prop("C25", "Triangulation tables are consistent",
 "In every triangulation that is built, each triangle uses three indices of input points, and opposite half-edges refer to each other and join the same two points. Adding a triangle, linking two edges and flipping an edge preserve this consistency, and a flip is made exactly when the opposite point is inside the circumcircle.",
 ["inputs", "histories"], "all triangulation states reachable by adding triangles, linking edges and legalising edges, over all point lists",
 "triangulate2 has no tests.",
 ["triangulate2/triangulator.go"], [("addTriangle, link, legalize", "triangulate2/triangulator.go"), ("triangulate", "triangulate2/triangulator.go")],
 state=[("halfedges", "twin of each half-edge, or -1", "triangulate2/triangulator.go triangulator"), ("triangles", "point index at each half-edge", "triangulate2/triangulator.go triangulator")])

prop("C26", "Validation accepts only consistent triangulations",
 "When validation of a triangulation reports no error, its half-edges are mutually linked and the areas of its hull, of the hull of its points and of its triangles agree within the documented tolerance, as do the two perimeters. The polygon area and perimeter are the signed shoelace area and the closed boundary length of the polygon, and the triangulation's area is the sum of its triangles' signed areas.",
 ["inputs"], "all triangulations and polygons, the empty one included",
 "triangulate2 has no tests.",
 ["triangulate2/triangulation.go", "triangulate2/util.go"], [("Validate, area", "triangulate2/triangulation.go"), ("polygonArea, polygonPerimeter", "triangulate2/util.go")])

prop("C27", "The advancing hull stays a circular doubly linked list",
 "Inserting a node after another one, or removing a node, keeps the advancing hull a circular doubly linked list: following next and then previous, or previous and then next, returns to the same node. An inserted node sits directly between its predecessor and the predecessor's old successor, removal joins the two neighbours, marks the node as removed and returns its predecessor, and no other node changes.",
 ["inputs", "histories"], "all lists and all sequences of insertions and removals",
 "triangulate2 has no tests.",
 ["triangulate2/node.go"], [("newNode, remove", "triangulate2/node.go")],
 state=[("prev/next", "ring of hull nodes", "triangulate2/node.go node")])

prop("C28", "Point ordering is a strict weak order and hull hashing stays in range",
 "The order in which points are processed (by distance to the centre, then x, then y) is irreflexive, asymmetric and transitive, and exchanging two positions exchanges exactly those two. The direction hash of any direction other than zero is at least 0 and less than 1, so that every hull bucket it selects exists.",
 ["inputs"], "all distances, points and directions",
 "triangulate2 has no tests.",
 ["triangulate2/triangulator.go", "triangulate2/util.go"], [("Len, Less, Swap, hashKey, hashEdge", "triangulate2/triangulator.go"), ("pseudoAngle", "triangulate2/util.go")])

prop("C29", "Point insertion duplicates each new face in both windings",
 "Doubling a face index list appends exactly the reversed list to it, keeping the original part. Inserting a point into a tetrahedron appends that point and leaves the faces of the four new tetrahedra, each in both windings, referring only to the five vertices.",
 ["inputs"], "all index lists, and all meshes of four vertices",
 "No test calls either operation.",
 ["meshing/util.go", "meshing/flip.go"], [("duplicateInReverse", "meshing/util.go"), ("flip14", "meshing/flip.go")])

prop("C30", "Face and tetrahedron keys identify exactly their vertices",
 "Two faces have the same key exactly when they have the same three vertices, in whatever order, and two tetrahedra have the same key exactly when they have the same four vertices in the same order. Two edges are equal exactly when their start and their end are.",
 ["inputs"], "all faces, tetrahedra and edges over non-negative vertex numbers",
 "No test compares keys.",
 ["meshing/mesh.go"], [("hash, tetraHash, isEqual", "meshing/mesh.go")])

prop("C31", "The triangulation of a planar point set is Delaunay and complete",
 "No input point lies strictly inside the circumcircle of any triangle of a completed planar triangulation, and its triangles exactly tile the convex hull of the points.",
 ["inputs"], "all planar point sets in general position",
 "triangulate2 has no tests.",
 ["triangulate2/triangulator.go"], [("triangulate", "triangulate2/triangulator.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
