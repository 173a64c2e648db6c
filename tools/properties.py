NOT_APPLICABLE = []

prop("C01", "Bezier curves and surfaces evaluate to their definition",
     "For every control net and every parameter in [0, 1], a Bezier curve or surface evaluates to the Bernstein combination of its control points (for weighted points: the combination of the homogeneous points, divided by its weight). It passes through its end (corner) control points, stays inside their box for positive weights, is reversed by reversing the control points, and is unchanged by scaling all weights together.",
     ["inputs"], "all degrees, control points, positive weights and parameters of [0, 1]",
     "One test compares four Bernstein values at one parameter; no test evaluates a curve or a surface.",
     ["src/basis.rs", "src/curve/bezier.rs", "src/surface/bezier.rs"],
     "Bernstein values by recurrence, then a weighted sum over the control net (rows = u, columns = v)",
     "property-based testing against a de Casteljau reference model",
     "Random control nets and parameters compared with de Casteljau; no exhaustiveness. Trusts f64 arithmetic with stated tolerances.")

prop("C02", "B-spline curves and surfaces evaluate to their definition",
     "For every knot vector (clamped or not, uniform or not, repeated interior knots), control net and parameter of the knot range, the basis functions are the Cox-de Boor functions, and a B-spline curve or surface, weighted or not, evaluates to the combination of its control points with them. The basis is non-negative and sums to 1 where it is complete, clamped curves start and end at their end control points, and a parameter that leaves the range by rounding still gives the end point.",
     ["inputs"], "all degrees 0..5, knot vectors, control nets, weights and parameters of the knot range",
     "One test evaluates a cubic Bezier knot vector at three parameters; no interior knots, no repeated knots, no unclamped ends, no surfaces.",
     ["src/knot.rs", "src/curve/bspline.rs", "src/surface/bspline.rs"],
     "knot span search plus the triangular basis recurrence with zero spans skipped",
     "property-based testing against a recursive Cox-de Boor reference model",
     "Random knot vectors, nets and parameters compared with the recursive definition; spans are zero or at least 5e-4 wide.")

prop("C03", "Derivatives and normals are those of the curve or surface",
     "The derivative of a Bezier or B-spline curve, and the derivatives by u and by v (also repeated and mixed) of a B-spline surface, evaluate everywhere to the true derivative. Surface normals are the unit vectors along the cross product of the u and v derivatives, one per parameter pair, in order.",
     ["inputs"], "all control nets, degrees, knot vectors and parameters at which the derivative exists",
     "No test computes a derivative or a normal.",
     ["src/curve/bezier.rs", "src/curve/bspline.rs", "src/surface/bspline.rs", "src/knot.rs"],
     "hodograph control points: differences of neighbours times the degree over the knot span, on the shortened knot vector",
     "property-based testing against differentiated basis functions",
     "Compared with analytically differentiated basis functions of the reference model; points where the derivative jumps and degenerate tangent planes are excluded.")

prop("C04", "Knot insertion, clamping and splitting never change the curve",
     "After any history of knot insertions, clamps and splits, a B-spline curve evaluates to the same point at every parameter as the original did, its knots stay sorted and match its control points in number, and inserting adds exactly the requested knot. The two pieces of a split cover exactly the two sub-ranges, are clamped at the cut, and meet there.",
     ["histories", "inputs"], "all operation sequences on all curves of degree 1..5, clamped or not",
     "No test inserts a knot, clamps or splits; one step in isolation would not show an error that a later step amplifies.",
     ["src/curve/bspline.rs", "src/knot.rs"],
     "Boehm knot insertion in place, repeated to full multiplicity for clamp and split",
     "stateful (model-based) property testing of operation histories",
     "Random histories of up to 8 operations, compared over every span with the original curve's definition after every step.")

prop("C05", "Bezier decomposition reproduces a B-spline curve span by span",
     "Decomposing a B-spline curve yields one Bezier curve of the same degree per non-empty knot span, in order, each equal to the curve over its span with the parameter scaled to [0, 1]; neighbouring pieces meet and the decomposed curve itself is unchanged.",
     ["inputs"], "all B-spline curves of degree 1..5, clamped or not, interior knots of multiplicity up to the degree",
     "No test decomposes a curve; SVG export depends on it.",
     ["src/curve/bspline.rs", "src/model.rs"],
     "clamp, then split at the distinct interior knots from the last to the first",
     "property-based testing against the reference evaluation",
     "Every piece compared with the curve at seven parameters; knots at least 5e-4 apart.")


prop("C06", "Projection onto lines, circles and polygonal curves is exact",
     "For every query point, the parameter that project returns on a line (direction of any length), a circle, a polyline or a degree-1 Bezier or B-spline curve is inside the curve's parameter range and names a point of the curve at the smallest possible distance from the query; projecting a point of the curve gives that point back.",
     ["inputs"], "all such curves in any position, all query points: on the curve, at vertices, beside segments, far away",
     "One test prints two circle parameters and asserts nothing; no test projects onto a line or a polyline.",
     ["src/curve/line.rs", "src/curve/circle.rs", "src/curve/polyline.rs", "src/curve/bspline.rs", "src/curve/bezier.rs", "src/utils.rs"],
     "closed forms: foot of the perpendicular, atan2 in the circle's frame, nearest segment of the chain",
     "property-based testing against closed-form nearest distances",
     "Random curves and queries compared with closed-form distances; circle frames are orthonormal as documented.")

prop("C07", "Projection onto free-form curves finds the nearest point",
     "For every Bezier or B-spline curve and query point, project returns a parameter inside the curve's range that is no farther from the query than any of the curve's uniform sample points (4 per degree or control point); on curves of bounded curvature with the query on or near the curve it is the nearest point of the whole curve.",
     ["inputs"], "all unweighted curves of degree 2 and more, all query points",
     "No test projects onto a curve; whether a Newton iteration runs away depends on the start value and the curve's shape.",
     ["src/utils.rs", "src/curve/bezier.rs", "src/curve/bspline.rs"],
     "nearest of the uniform samples, then a Newton iteration on the squared distance",
     "property-based testing against brute-force minimisation",
     "Global nearest is only claimed for bounded curvature and within 1e-6; wild curves are compared with the sample points.")

prop("C08", "Surface coordinates and points map back and forth",
     "Plane, cylinder and B-spline surface: the coordinates computed for a point of the surface evaluate back to that point (for planes and cylinders also for points off the surface: the foot along the normal), cylinder angles lie in [0, 2 pi), the cylinder's ring map and its inverse undo each other, and the B-spline inverse returns one in-range parameter pair per query, no farther than any uniform grid sample.",
     ["inputs"], "all positions and sizes, all points, batches of queries",
     "One test maps one half cylinder there and back; planes and B-spline surfaces are never inverted.",
     ["src/surface/plane.rs", "src/surface/cylinder.rs", "src/surface/bspline.rs", "src/utils.rs"],
     "dot products in the surface frame; central projection of the cylinder to an annulus; grid search and Newton iteration in two parameters",
     "property-based round-trip testing",
     "Random surfaces and points; B-spline round trips within 1e-6.")

prop("C09", "A polyline is parametrised by arc length",
     "For every chain of vertices, repeated ones included, a polyline evaluates at t to the point at t times its total length along the chain, from its first vertex at 0 to its last at 1, never panics or leaves the chain for parameters next to 1, and its nearest vertex is the nearest one.",
     ["inputs"], "all chains of 2..20 vertices, all parameters of [0, 1]",
     "No test evaluates a polyline; rounding of the accumulated length shows only for particular parameters.",
     ["src/curve/polyline.rs"],
     "walk over the precomputed segment lengths",
     "property-based testing against an independent walk along the chain",
     "Random chains and parameters; no exhaustiveness.")

prop("C10", "Adaptive sampling of a curve is ordered, complete and within tolerance",
     "Refining a curve's parameter range yields parameters that start and end exactly at the ends of the range, run strictly in the direction of the range (ascending or descending), include the places where the curve bends sharply, keep every interval within the requested division, and leave no point of the curve (circle, line, polyline, Bezier, B-spline, boxed) farther from the chords than the tolerance allows.",
     ["inputs"], "all curves, ranges (whole, partial, backwards), tolerances and divisions",
     "No test refines a range; a curve that escapes the tolerance between samples shows only for particular shapes.",
     ["src/curve.rs", "src/curve/circle.rs", "src/curve/polyline.rs", "src/curve/bspline.rs", "src/utils.rs"],
     "uniform division plus the curve's own breaks, then recursive bisection on chord distance with randomised test points",
     "property-based testing against densely measured chord distance",
     "Curves of bounded curvature per interval for the tolerance claim; the library's random test points are not controlled, the bound holds with a stated slack factor.")

prop("C11", "Edges and loops sample to the polygon their vertices and senses describe",
     "An edge given by a curve, two vertices on it and a sense gets the parameter range that runs from the first vertex to the second in that sense: equal vertices on a closed curve are the whole curve, otherwise the range runs through the seam where the sense demands it. An edge loop's polygon starts at its first edge's start, passes every corner in order, has no repeated consecutive points and does not repeat its first point at the end; a loop of no edges is an empty polygon.",
     ["inputs"], "all closed and open curves, vertex pairs, senses, and loops of any number of edges",
     "No test builds an edge or a loop; the cases at the seam of a closed curve are exactly the ones examples miss.",
     ["src/surface.rs", "src/utils.rs", "src/curve/circle.rs", "src/curve/polyline.rs", "src/curve/bspline.rs"],
     "projection of both vertices, fit of the range for closed curves, concatenation of sampled edges with duplicate removal",
     "property-based testing against a direct walk along the curve",
     "Random edges and loops; loop features are at least 0.05, far above the library's merge distance of 3e-4.")

prop("C12", "Structured surface patches are faithful grids",
     "Meshing a rectangular parameter patch of any surface gives exactly one vertex per grid parameter pair, in row order and on the surface, one unit normal per vertex (or none), two triangles per cell that share the cell's diagonal, all triangles wound the same way and, for ascending ranges, towards the normals, and indices in bounds; where the surface has no normal the triangles' own stand in for it; reversing the winding flips triangles and normals and is undone by reversing again; uniform division hits both ends of its range exactly.",
     ["inputs"], "all surfaces, parameter ranges and division numbers",
     "No test builds a patch mesh; one test checks a reshaped grid.",
     ["src/surface.rs", "src/mesh.rs", "src/utils.rs"],
     "uniform grid over the range, grid triangulation, normals filled in where undefined",
     "property-based testing against an index-arithmetic model of the grid",
     "Random surfaces, ranges and divisions up to 40 each way.")

prop("C13", "Circles, planes, cylinders and swept surfaces are what their parameters say",
     "For every position, axis, radius and parameter: circle and cylinder points lie at the radius from the axis in the frame's angle, plane points are origin plus coordinates along the axes, spin surfaces are their section rotated about the axis (right-handed) by the angle, sweep surfaces the section moved along the sweep, and umbrella surfaces the segment from the apex to the section; periods, distances and angles implied by that hold.",
     ["inputs"], "all frames, sections, radii and parameters",
     "One test evaluates one cylinder; no test evaluates circles, planes, spin, sweep or umbrella surfaces.",
     ["src/curve/circle.rs", "src/curve/line.rs", "src/surface/plane.rs", "src/surface/cylinder.rs", "src/surface/spin.rs", "src/surface/sweep.rs", "src/surface/umbrella.rs"],
     "closed-form evaluation in a local frame",
     "property-based testing against Rodrigues rotation and closed forms",
     "Random parameters compared within f64 tolerances; axes are unit vectors.")

prop("C14", "Boxing a curve or surface changes nothing",
     "A curve or surface behind Box<dyn Curve> / Box<dyn Surface> (also boxed twice) evaluates, projects, refines, divides, reports normals and breaks, and meshes (as a patch and trimmed) exactly as the concrete type does.",
     ["inputs"], "every curve and surface type, all parameters, ranges and loops",
     "No test uses boxed geometry; a forgotten forwarding silently falls back to the trait's default.",
     ["src/curve.rs", "src/surface.rs"],
     "trait implementations for boxes forward to the inner value",
     "differential property-based testing (boxed against concrete)",
     "All types and methods of the two traits; curve division draws random numbers and is compared by ends and corners only.")

prop("C15", "A planar face with one outline is triangulated exactly",
     "For every simple outline on a plane, convex or concave, straight or curved edges, any number of vertices and any start vertex, the face's mesh has only the outline's vertices, triangles wound counter-clockwise in the plane's axes, whose areas add up to the outline's area and which cover every inner point exactly once and no outer point. It terminates without panic on seams and degenerate outlines as well.",
     ["inputs"], "all simple outlines, in all positions, sizes and rotations",
     "Two tests triangulate three polygons and assert the triangle lists; ear clipping fails only on particular shapes.",
     ["src/surface/plane.rs", "src/utils/polygon.rs", "src/surface.rs"],
     "project to plane coordinates, fan for convex outlines, ear clipping for concave ones",
     "property-based testing with an exact-cover oracle (area, winding, point sampling)",
     "Random outlines up to 60 vertices; features above the absolute tolerances of 1e-7.")

prop("C16", "A planar face with holes is triangulated exactly",
     "For every simple outline with any number of disjoint holes in it, the mesh covers every point inside the outline and outside the holes exactly once, nothing else, with all triangles counter-clockwise and only the loops' own vertices, whatever the order of the holes and their start vertices.",
     ["inputs"], "all outlines with 1..8 holes of any shape and position",
     "One test triangulates one polygon with one hole; which vertex a hole is connected to depends on the shapes around it.",
     ["src/surface/plane.rs", "src/utils/polygon.rs"],
     "each hole is joined to a visible vertex by a bridge, then ear clipping",
     "property-based testing with an exact-cover oracle (area, winding, point sampling)",
     "Random outlines and holes, aligned coordinates included; loops keep a distance.")

prop("C17", "The advancing front meshes every region exactly and terminates",
     "For every region bounded by loops (outer one and holes), the advancing front terminates and its triangles keep all given vertices, stay in the region, are wound with the outline, fit together edge to edge with the outline as their only boundary, and cover the region exactly once, at every size and for every vertex spacing, seams included.",
     ["inputs"], "all regions with holes, edge lengths and sizes, seam loops",
     "One test meshes one polygon and asserts nothing; the choice of the next triangle depends on the whole front, so failures need particular shapes and orders.",
     ["src/utils/meshgen.rs", "src/utils/point.rs", "src/utils.rs"],
     "front of directed edges; each step closes with a front node in the way or adds a vertex on the bisector",
     "property-based testing with an exact-cover and manifold oracle; allocation budget as termination oracle",
     "Random regions; termination means within a fixed number of allocations (30x the largest seen).")

prop("C18", "A trimmed cylinder face covers exactly the part its loops enclose",
     "For every cylinder and every set of loops on it (a patch with holes, a band around the whole cylinder, circle-seam-circle-seam, arcs and lines), in either sense and any order, the mesh lies on the cylinder, has the sampled loops as its only boundary, and every ray from the axis through the enclosed part hits it once on the proper side, and none elsewhere.",
     ["inputs"], "all cylinders, loops, senses and seam positions",
     "One test maps one half cylinder to the ring plane and back; no test trims a cylinder.",
     ["src/surface/cylinder.rs", "src/utils/meshgen.rs", "src/surface.rs"],
     "central projection to a ring plane or unrolling, advancing front, projection back",
     "property-based testing with a ray-casting and manifold oracle",
     "Random faces; boundary points at most 0.15 radii apart.")

prop("C19", "A trimmed B-spline surface covers exactly the part its loops enclose",
     "For every open B-spline surface and set of loops on it (given by points or by the surface's own edge curves), in either sense and whatever the parameter ranges are, trimming terminates and the mesh lies on the surface, has the sampled loops as its only boundary, follows the loops' sense, and covers exactly the enclosed part.",
     ["inputs"], "all height-field B-spline surfaces of degree 1..3, loops with holes, senses",
     "No test trims a B-spline surface; noise of the projection decides which triangle is chosen next.",
     ["src/surface/bspline.rs", "src/utils/meshgen.rs", "src/surface.rs"],
     "loops projected to parameters, scaled by the surface's average speed, advancing front, evaluation",
     "property-based testing with an exact-cover and manifold oracle seen from above; allocation budget as termination oracle",
     "Random height fields; surfaces closed in a direction are not generated.")

prop("C20", "OBJ files hold exactly the meshes that were saved",
     "A mesh or model saved as OBJ reads back as the same triangles in the same order: every vertex and normal bit for bit, every corner with its own position and normal (indices counted over all faces of the model), normals only where a mesh has them, and outlines as closed lines, whatever the mesh and whatever the file held before.",
     ["inputs"], "all meshes and lists of meshes, with and without normals, any finite coordinates, any state of the file before",
     "No test writes a file; index offsets go wrong only for several faces of which some have normals.",
     ["src/mesh.rs", "src/model.rs", "src/surface.rs"],
     "vertex and normal counters carried from face to face",
     "property-based testing: round trip through an independent OBJ reader",
     "Random meshes and models; coordinates finite.")

prop("C21", "STL files hold exactly the triangles that were saved",
     "A model saved as STL is a well-formed binary STL file: 80 bytes of header, the number of triangles of all faces together, 50 bytes per triangle with the vertices of each triangle in order rounded to f32, whatever the model, the file's name (length, script) and what the file held before.",
     ["inputs"], "all models, file names and states of the file before",
     "No test writes a file; header length depends on the name, the count on all faces.",
     ["src/model.rs"],
     "fixed-size header, count written last by seeking back",
     "property-based testing: round trip through an independent STL reader",
     "Random models; coordinates within the range of f32.")

prop("C22", "SVG drawings show exactly the curves of the model",
     "Every curve of a model is one path of the SVG file which, put through the file's own page and transform, runs along the curve over its parameter range and nowhere else, to within the sampling tolerance and two decimals, for every kind of curve, range, direction and page size.",
     ["inputs"], "all chains of curve segments of every type, ranges in both directions, page sizes",
     "No test writes a drawing; shortcuts per curve type each have their own handling of ranges.",
     ["src/model.rs", "src/curve.rs"],
     "lines, polylines and cubic B-splines are drawn as such, others by their samples",
     "property-based testing: round trip through an independent SVG path reader, compared with the curves' definitions both ways",
     "Random chains of 1..3 segments; tolerance 0.012 plus the sampling tolerance.")

prop("C23", "Point files hold exactly the points, malformed files are errors",
     "Saved point clouds load back bit for bit; loading accepts blanks, tabs and commas, an identifier column, comments, blank lines, CRLF and a missing last newline, gives the points in order, and returns an error (never a panic, never invented points) for malformed numbers or text; points with normals and 2D points are saved one per line with all digits; scaling multiplies every coordinate.",
     ["inputs"], "all lists of points, all texts",
     "No test reads or writes a point file.",
     ["src/points.rs"],
     "line-wise text format",
     "property-based testing: round trip and grammar-based text generation, byte fuzzing",
     "Random points and texts.")

prop("C24", "Saving and loading never hide an I/O error",
     "When any write call fails, the disk fills up, writes are short or interrupted, saving returns Ok only if the file holds everything, and short or interrupted calls alone never make it fail; loading returns the points of the whole file or an error; nothing panics.",
     ["inputs", "fault_sequences"], "all savers and the loader, a fault at every write or read call",
     "Tests run without faults; buffered writers lose errors only when the last flush fails.",
     ["src/points.rs", "src/model.rs", "src/mesh.rs", "src/surface.rs"],
     "errors passed on from every write, buffers flushed before returning",
     "property-based testing with fault injection at every write, writev and read call",
     "Faults ENOSPC, EIO, EINTR, short transfers, full disk; no crashes of the machine.")

prop("C25", "Planar faces of a STEP file are read as the file says",
     "For every STEP file, each face on a plane becomes a face whose loops run along the file's edges (lines, circular arcs and circles, polylines, B-splines, whole or cut by the vertices) in the order and direction the file states by edge sense, oriented edges, bound orientation and the circle's placement (with directions of any length, not orthogonal or left out); the mesh is flat and its oriented area is what the loops enclose. Neither the numbering and order of the file's lines, nor other faces, nor surfaces the reader does not know matter.",
     ["inputs"], "all faces of lines, arcs, polylines and splines with holes, all combinations of senses and orientations, all ways to write them",
     "No test reads a STEP file; every one of five orientation flags matters only in combination with a curved or reversed edge.",
     ["src/model/step_reader.rs", "src/curve/circle.rs", "src/surface.rs", "src/face.rs"],
     "vertices projected to curve parameters, ranges refined by senses, orientation flags applied by swapping ranges",
     "property-based testing: STEP files written from generated faces, read back and compared with their definitions",
     "Random files of 1..3 faces; syntax within what the iso-10303 crate parses.")

prop("C26", "Composite curves of a STEP file are read as the file says",
     "For every STEP file, each composite curve becomes one curve, in the order of the file, with one segment per segment of the file; each segment runs along its trimmed line, circle, polyline or B-spline from the stated first to the stated last point, in the direction stated by the trimming's and the segment's sense, whether trimmed by parameter, by point or by both, or not trimmed at all.",
     ["inputs"], "all composite curves of lines, circles, polylines, splines; all trimmings and senses",
     "No test reads a STEP file.",
     ["src/model/step_reader.rs", "src/curve/circle.rs"],
     "trimmings turned into parameters of the library's own parametrisation, senses applied by swapping",
     "property-based testing: STEP files written from generated drawings, read back and compared with their definitions",
     "Random files of 1..3 curves with 1..5 segments; angles in radians.")

prop("C27", "Surfaces of a STEP file are read as the file says",
     "For every STEP file, a face on a plane, cylinder, Bezier surface, B-spline surface (with or without knots, with or without weights, as a simple or complex entity) or surface of revolution carries a surface whose points are those of the entity's definition at every parameter (unweighted and weighted control points in their rows, degrees, knots and multiplicities, placements and defaults); faces on B-spline surfaces bounded by edges on them are meshed exactly within their loops.",
     ["inputs"], "all surfaces the reader knows, all degrees 1..3, knots, weights, placements, sections of revolution",
     "No test reads a STEP file; an exchange of u and v or of weights shows only for unequal numbers of rows and columns.",
     ["src/model/step_reader.rs", "src/surface/bspline.rs", "src/surface/bezier.rs", "src/surface/spin.rs"],
     "entities converted one by one, grids flattened row by row, knots expanded",
     "property-based testing: STEP files written from generated surfaces, read back and compared with the definitions",
     "Random files of 1..4 faces; control points up to a few hundred per surface.")

prop("C28", "Solids of a STEP file become closed meshes of the right shape",
     "For every STEP file of a prism with straight and cylindrical walls and through holes (edges shared by two faces in opposite directions, walls in one or more pieces, loops along seams or in two circles), every face's loops run along its edges counter-clockwise seen from outside, the mesh of every face lies on its surface, faces outwards and has the face's area, and all faces together enclose the solid's volume.",
     ["inputs"], "all prisms of lines and arcs with cylindrical holes, all orientations and ways to write them",
     "No test reads a STEP file or meshes a whole solid.",
     ["src/model/step_reader.rs", "src/surface/cylinder.rs", "src/surface/plane.rs", "src/face.rs", "src/utils/meshgen.rs"],
     "reader and trimming together",
     "property-based testing: STEP files written from generated solids; areas, fluxes and volume compared with exact ones",
     "Random prisms of 4..7 walls with up to two holes; areas of curved walls to 4 %.")

prop("C29", "Knot vectors are sorted lists with exact bookkeeping",
     "However a knot vector is built, its contents, range, multiplicities, normalised form, shrunken form, sub-vectors, knot differences and spans are those of the plain sorted list; every value in the range is put into the non-empty span that contains it (the first or last span outside); adding knots keeps the list sorted and reports the position; uniform and Bezier knot vectors are what their degree and division say, and the basis functions are those of the Cox-de Boor recursion.",
     ["inputs", "histories"], "all knot vectors and sequences of added knots",
     "The tests look at two uniform vectors and three parameters.",
     ["src/knot.rs"],
     "searches from the back, counting of equal knots",
     "property-based testing against plain lists",
     "Random knot vectors of 2..8 distinct values with multiplicities up to 5.")

prop("C30", "Geometric helpers compute what they are named for",
     "Distances to segments, points in triangles, area and sense of polygons, convexity of corners (collinear and repeated vertices left out), the merging of an outline and its holes into one polygon by seams that cross nothing, nearest points of lists and grids (the first of several), least and greatest values, uniform division, clamping and ranges on closed curves agree with direct computation for every input.",
     ["inputs"], "all points, segments, triangles, polygons, regions with holes and ranges",
     "The tests print single values without checking them.",
     ["src/utils.rs", "src/utils/point.rs", "src/utils/polygon.rs"],
     "direct formulas with case distinctions at ends, ties and degenerate input",
     "property-based testing against direct computation",
     "Random inputs; nothing is asked within 1e-6 of a case distinction.")
