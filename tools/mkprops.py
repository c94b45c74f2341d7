#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays valid JSON)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

HE="src/halfedge/mesh/builder/halfedge.rs"; BU="src/halfedge/mesh/builder/builder.rs"; SE="src/halfedge/mesh/builder/semi.rs"
p("C01","Builder operations keep every mesh structurally consistent",
 "After every mesh-building operation used within its documented preconditions (adding vertices and edges, closing faces and holes, removing faces, inserting paths, loops and vertices into edges, subdividing), the mesh is a consistent half-edge structure: twins are mutual, next and previous are mutual inverses and meet at the same vertex, every edge of a cycle belongs to the same face or to no face, distinct faces own distinct cycles, and every vertex and face refers to an incident live edge. All edges leaving a vertex are reachable by walking around that vertex.",
 ["histories","inputs"],"every sequence of building operations on meshes of any genus, openness and size, with any admissible arguments",
 "The tests build a handful of fixed shapes and only call the checker on a few; most operations, and most orders of operations (dangling paths, several boundaries, removed and re-closed faces), are never built.",
 [HE,BU,SE,"src/mesh/mesh/builder.rs"],
 [("edge insertion splices next/prev",HE+" insert_edge/insert_edge_between/add_vertex_via_edge"),("face closing assigns the whole cycle",HE+" close_face; "+BU+" close_hole"),("face removal clears the cycle",BU+" remove_face"),("edge subdivision",BU+" insert_vertices_into_edge; "+SE+" subdivide_unsafe*")],
 state=[("edge links","next, prev, twin, origin and face of every half-edge","src/halfedge/edge/mod.rs"),("representatives","one incident edge per vertex and face","src/halfedge/vertex/mod.rs, src/halfedge/face/mod.rs")],
 observe=["public accessors of vertices, edges and faces after each operation returns"])
p("C02","Each building operation has exactly its documented effect and nothing else",
 "A building operation creates exactly the vertices, edges and faces it promises, connects them at exactly the requested place, returns the ids of exactly those elements in the documented order, and stores the given payloads (and curved flag) on them. Everything else keeps its id, payload, connectivity and face, so ids handed out earlier stay valid until the element itself is removed; removing a face returns its payload and only detaches its cycle.",
 ["histories","inputs"],"every operation with every admissible argument combination in every reachable mesh",
 "The tests check final counts of a few finished shapes; they never compare the mesh before and after one operation, so a wrong neighbour, a swapped return value or a stray write elsewhere goes unseen.",
 [HE,BU,SE,"src/mesh/mesh/builder.rs"],
 [("pairwise edge insertion",SE+" insert_edge_no_update_no_check"),("builder operations",HE+", "+BU)],
 observe=["return values and the full projected mesh state before and after each call"])
p("C03","Element storage hands out, reuses and forgets ids correctly",
 "The id-addressed element store behaves like a map from ids to live elements: an id is live exactly from insertion until deletion, reads return what was last stored there, a new element never receives the id of a live element, deleted slots are reused before the store grows, and iteration and length report exactly the live elements in id order.",
 ["histories"],"every interleaving of push, allocate-then-set, overwrite, delete and clear, of any length",
 "No test exercises the store directly; the shapes built in tests almost never delete anything.",
 ["src/util/deletable.rs"],
 [("free list","src/util/deletable.rs allocate/delete_internal"),("liveness","src/util/deletable.rs get/has/len/iter")],
 state=[("slots","stored elements, possibly deleted","src/util/deletable.rs"),("free list","ids available for reuse","src/util/deletable.rs")],
 observe=["public methods of the store"])
p("C04","Walks around vertices and faces visit every incident element exactly once",
 "For every vertex, iterating its outgoing edges, incoming edges, neighbours and faces yields every incident one exactly once (a face once for each of its corners at that vertex), and its degree equals the number of incident edges; for every face or edge cycle, iterating forwards or backwards yields every edge and corner vertex of that cycle exactly once in cyclic order, starting at the requested edge, and reports its length correctly. Iteration always terminates on a consistent mesh.",
 ["inputs","histories"],"all consistent meshes, including open ones, dangling edges, isolated vertices and several components, and every start element",
 "The tests look at one cube and one triangle; open meshes, dangling edges, isolated vertices and boundary cycles are not covered.",
 ["src/halfedge/vertex/iterator.rs","src/halfedge/edge/iterator.rs","src/halfedge/vertex/basics.rs","src/halfedge/edge/basics.rs","src/halfedge/face/mod.rs","src/mesh/face/basics.rs"],
 [("vertex wheel walk","src/halfedge/vertex/iterator.rs"),("face cycle walk","src/halfedge/edge/iterator.rs")],
 observe=["iterator outputs"])
p("C05","Connectivity queries agree with the mesh's graph",
 "The edge shared by two vertices, the face shared by vertices or edges, whether a vertex, edge or mesh lies on a boundary or is open, and the element counts are reported exactly as the mesh's connectivity defines them. The shortest path between two vertices starts and ends at them, uses only existing edges, is as short as any path, and is absent exactly when they are not connected.",
 ["inputs","histories"],"all pairs of vertices, edges and faces of all consistent meshes",
 "Tests query a cube and a triangle; disconnected, open or large-diameter meshes and ties are not explored.",
 ["src/mesh/mesh/basics.rs","src/mesh/mesh/topology.rs","src/mesh/mesh/halfedge.rs","src/mesh/edge/basics.rs","src/mesh/edge/halfedge.rs","src/halfedge/mesh/basics.rs","src/halfedge/vertex/basics.rs"],
 [("breadth first search","src/mesh/mesh/basics.rs shortest_path"),("edge and face lookup","src/mesh/mesh/topology.rs, src/halfedge/mesh/basics.rs"),("boundary tests","src/halfedge/vertex/basics.rs, src/mesh/edge/halfedge.rs")],
 observe=["query results"])
p("C06","The mesh checker accepts consistent meshes and rejects corrupted ones",
 "The built-in mesh check succeeds on every consistent mesh whose edges all border a face and whose faces have at least three corners, and fails on a mesh whose links were corrupted: a wrong next, previous, twin, origin or face reference, or a vertex or face that refers to an edge it does not own. It also fails on a mesh with an edge that borders no face on either side, or with a face of fewer than three corners.",
 ["inputs","fault_sequences"],"every consistent mesh, and every single-field corruption of it that breaks the structure",
 "Tests call the checker on good meshes only; nothing ever confirms that it would notice a defect.",
 ["src/halfedge/mesh/check.rs","src/mesh/mesh/check.rs"],
 [("per-invariant checks","src/halfedge/mesh/check.rs")],
 observe=["result of the check"])
p("C07","Flipping exchanges every edge with its twin and nothing else",
 "Flipping a mesh (or one edge of it) exchanges the indices of each flipped edge and its twin, as documented, and changes nothing else: every vertex keeps its position, payload and neighbours, every face keeps its cycle of corners and its orientation, the mesh stays consistent, every edge payload stays at its index, and flipping twice restores the original links. This holds for closed, open and dangling meshes alike.",
 ["inputs","histories"],"all consistent meshes and all of their edges, including isolated and dangling ones",
 "Two tests flip two small shapes and only run the checker afterwards; dangling ends, isolated edges and single-edge flips are not covered.",
 ["src/mesh/edge/halfedge.rs","src/mesh/mesh/halfedge.rs","src/halfedge/edge/halfedge.rs"],
 [("edge flip","src/halfedge/edge/halfedge.rs flip"),("mesh flip","src/mesh/mesh/halfedge.rs flip")],
 observe=["mesh projection before and after"])
p("C08","Lofting and extruding attach exactly the requested strip of faces",
 "Lofting, extruding a boundary or face, and filling a hole with an apex leave a consistent mesh in which exactly the requested boundary cycle is covered by a strip or fan of new faces of the documented shape (triangles or polygons, open or closed), built on exactly the supplied vertices in order. Everything not on that boundary is untouched and the returned edge is the documented one, on the new open boundary.",
 ["inputs","histories"],"all boundary cycles and face cycles of all lengths, all loft ratios the operation supports, open and closed strips, extra or missing supplied vertices",
 "The operations are only used by the primitive constructors with fixed arguments; the other ratios, open strips and non-primitive boundaries are never built.",
 ["src/operations/loft.rs","src/operations/extrude.rs"],
 [("triangle and polygon lofts","src/operations/loft.rs"),("extrusion","src/operations/extrude.rs")],
 observe=["mesh projection before and after, returned edges"])
p("C09","Subdivision splits every face consistently and keeps the shape",
 "Subdividing a triangle mesh yields a consistent mesh of only triangles whose vertex, edge and face counts are exactly those of the requested subdivision, in which the old vertices survive with the same ids and positions and neighbouring faces share the same new vertices on a common edge. New vertices lie where the interpolation puts them (edge midpoints, or on the sphere for spherical interpolation), and boundaries stay boundaries. A description of a subdivision reports the frequency and triangulation number it stands for.",
 ["inputs","configurations"],"all triangle meshes, open or closed, all supported frequencies, both interpolations",
 "No test runs a subdivision on anything but through one or two sphere constructors, and none checks the result's connectivity.",
 ["src/operations/subdivision.rs","src/mesh/vertex/interpolator.rs",SE],
 [("loop subdivision","src/operations/subdivision.rs"),("edge split and repair",SE+" subdivide_unsafe, subdivide_unsafe_try_fixup"),("interpolation","src/mesh/vertex/interpolator.rs")],
 observe=["mesh projection before and after"])
p("C10","Primitive constructors produce the solids they name",
 "Every primitive constructor, for every admissible parameter, yields a consistent mesh with exactly the vertex, edge and face counts, face sizes and vertex degrees of the named shape; solids are closed, connected spheres (Euler characteristic 2) and open shapes have exactly the promised boundary. Vertices lie where the parameters say (on the sphere, circle, or box with the given size, all edges equal for regular shapes) and all faces of a solid are oriented the same way, outwards. The generated outlines are what they are called: a zigzag is a simple counter-clockwise polygon that turns at every corner, a random star has its corners at even angles and at distances and in a number within the given ranges.",
 ["inputs","configurations"],"every constructor, all segment counts and sizes",
 "Tests build a cube, a triangle and a few others; about twenty constructors and all other parameters are never built.",
 ["src/primitives/polygon.rs","src/primitives/prismatoid.rs","src/primitives/sphere.rs","src/primitives/misc.rs","src/operations/extrude.rs"],
 [("polygon insertion","src/primitives/polygon.rs"),("prisms, antiprisms, pyramids, frusta","src/primitives/prismatoid.rs"),("spheres and platonic solids","src/primitives/sphere.rs")],
 observe=["constructed mesh"])
p("C11","Every triangulation algorithm tiles its polygon exactly",
 "For every simple polygon, every triangulation algorithm the library offers terminates and returns exactly n-2 triangles over the polygon's own vertices whose union is the polygon: each polygon edge belongs to exactly one triangle, all triangles have the polygon's orientation and positive area (unless corners are collinear), lie inside the polygon and do not overlap. Appending to a non-empty index buffer leaves the earlier triangles unchanged.",
 ["inputs","configurations"],"all simple polygons in general and axis-aligned position, convex, reflex, with shared coordinates, either vertex numbering offset and starting corner, every algorithm",
 "Tests try circles, a few hand-written shapes and random samples; case analyses such as split, merge and shared-coordinate events, or reflex quads, have cases that no test polygon reaches.",
 ["src/tesselate/mod.rs","src/tesselate/fixed_n.rs","src/tesselate/ear_clipping.rs","src/tesselate/convex.rs","src/tesselate/delaunay.rs","src/tesselate/min_weight_dynamic.rs","src/tesselate/sweep/sweep.rs","src/tesselate/sweep/status.rs","src/tesselate/sweep/interval.rs","src/tesselate/sweep/vertex_type.rs","src/tesselate/sweep/monotone/linear.rs","src/tesselate/sweep/monotone/dynamic.rs","src/tesselate/sweep/monotone/delaunay.rs"],
 [("algorithm selection and small cases","src/tesselate/mod.rs, src/tesselate/fixed_n.rs"),("ear clipping","src/tesselate/ear_clipping.rs"),("plane sweep","src/tesselate/sweep/"),("constrained Delaunay","src/tesselate/delaunay.rs")],
 observe=["triangle indices returned for polygons"])
p("C12","Minimum-weight triangulation is optimal",
 "For every simple polygon, the minimum-weight triangulation has total edge length no larger than any other triangulation of that polygon, and four-cornered faces are always split along their shortest valid diagonal.",
 ["inputs"],"all simple polygons and all their triangulations",
 "Optimality quantifies over all triangulations of an input; the tests never enumerate the alternatives and compare fixed expected indices on five quads only.",
 ["src/tesselate/min_weight_dynamic.rs","src/tesselate/fixed_n.rs"],
 [("dynamic programme","src/tesselate/min_weight_dynamic.rs"),("quad case","src/tesselate/fixed_n.rs min_weight_quad")],
 observe=["triangle indices and their exact edge lengths"])
p("C13","Delaunay triangulation is the constrained Delaunay triangulation",
 "For every simple polygon with at least five corners the Delaunay algorithm returns a triangulation in which no vertex of the polygon that is visible across an interior diagonal lies strictly inside the circumcircle of the adjacent triangle, i.e. every interior diagonal is locally Delaunay.",
 ["inputs"],"all simple polygons",
 "The tests only check the summed area of the result, which every triangulation satisfies.",
 ["src/tesselate/delaunay.rs"],
 [("constrained Delaunay construction and inside filter","src/tesselate/delaunay.rs")],
 observe=["triangle indices"])
p("C14","Whole-mesh triangulation covers every face once with valid exported indices",
 "Triangulating a mesh yields, for every face of n corners, exactly n-2 triangles over exactly that face's corners and none for anything else, and the exported indices refer to the exported vertex list so that each triangle has the positions of its face's corners. With flat normals every face gets its own copies of its corners, at the right positions and carrying that face's unit normal, which points to the side the face is oriented to.",
 ["inputs","histories"],"all meshes with planar faces, including meshes with deleted elements and several faces, every algorithm",
 "Tests triangulate single faces; meshes with deleted faces, mixed face sizes and the flat-normal export are not examined.",
 ["src/mesh/mesh/triangulate.rs","src/mesh/mesh/normals.rs","src/mesh/face/face3d.rs","src/mesh/mesh/basics.rs"],
 [("per-face triangulation","src/mesh/mesh/triangulate.rs"),("flat normal export","src/mesh/mesh/normals.rs"),("projection of a face to the plane","src/mesh/face/face3d.rs")],
 observe=["exported vertices and indices"])
p("C15","Converting a mesh preserves it",
 "Converting a mesh to another mesh type (from the plane into more dimensions, with or without flattening its curves) yields a consistent mesh that is isomorphic to the original with the same vertices, edges, faces, boundaries and orientation, with every payload carried over through the given mapping; isolated vertices and previously deleted elements do no harm.",
 ["inputs","histories"],"all consistent meshes, including ones with deleted faces and isolated vertices",
 "One test converts a single small curved mesh and checks counts.",
 [HE+"","src/extensions/nalgebra/mesh2d.rs","src/extensions/nalgebra/mesh_nd.rs"],
 [("import by id remapping",HE+" import_mesh")],
 observe=["projections of source and converted mesh"])
p("C16","Flattening curved edges follows the curves within tolerance",
 "Flattening replaces each edge on one of whose halves a curve is recorded by a chain of straight edges between the same end points whose inserted vertices lie on that curve in order, deviating from it by no more than the requested tolerance, while straight edges, faces and all other vertices keep their connectivity and the mesh stays consistent. Afterwards no edge is curved.",
 ["inputs"],"all meshes with straight, quadratic and cubic edges on one or both sides of faces, all tolerances",
 "One test flattens a single shape; edges at vertices of degree three or more and open chains are not covered.",
 ["src/mesh/edge/curved.rs","src/extensions/nalgebra/mesh2d.rs",BU],
 [("curve subdivision","src/mesh/edge/curved.rs, src/mesh/edge/payload.rs"),("vertex insertion",BU+" insert_vertices_into_edge")],
 observe=["mesh before and after"])
p("C17","The path builder draws exactly the commanded path",
 "Drawing with the path builder yields a mesh with one new vertex per newly commanded point and one edge per commanded segment, in command order and with the commanded curve on it; existing vertices and edges that are named are joined and not duplicated, the cursor is always the end of the last segment, closing returns to the start of the path and inserts the face it encloses on the documented side, and everything else is untouched. The mesh stays consistent after every command. Importing an SVG draws every visible path with one contour as a closed path of its own, with the straight, quadratic and cubic segments its absolute and relative commands describe, and leaves what was there before alone.",
 ["histories"],"every command sequence",
 "One unit test draws a single shape; combinations of moves, curves, reconnecting and closing are not explored.",
 ["src/mesh/mesh/path_builder.rs","src/extensions/svg/svg.rs"],
 [("cursor and edge insertion","src/mesh/mesh/path_builder.rs"),("SVG import","src/extensions/svg/svg.rs")],
 observe=["resulting mesh and cursor"])
p("C18","Isomorphism tests are sound and complete",
 "Two meshes are reported isomorphic exactly when a renaming of vertices, edges and faces preserves which vertices each edge joins and which edges bound each face (and payloads or positions, for the payload-aware variants); the trivial variants do so for the identity renaming. A mesh is isomorphic to itself and to every copy, the answer is symmetric, and any single changed connection, missing element or changed position makes the answer negative.",
 ["inputs"],"all pairs of meshes",
 "The tests compare one cube with itself and one altered cube.",
 ["src/mesh/mesh/iso.rs","src/halfedge/mesh/basics.rs","src/mesh/mesh/basics.rs"],
 [("trivial comparison","src/mesh/mesh/basics.rs, src/mesh/mesh/iso.rs"),("payload based search","src/mesh/mesh/iso.rs")],
 observe=["answers on mesh pairs"])
p("C19","Geometric transforms move exactly the vertices as the transform says",
 "Translating, rotating, scaling or applying a composed transform to a mesh or vertex moves every vertex position to exactly the image of its old position, carries the control points of curved edges along, applies only the linear part to direction vectors, and leaves connectivity and texture coordinates unchanged; the constructors of transforms (translation, scale, rotation by an angle, around an axis, or from one direction to another) build the maps they name, interpolation is linear in every component, two maps compare as equal up to a tolerance when no entry differs by more, composing transforms equals applying them one after the other, and the copying variants equal the in-place ones and leave the original unchanged.",
 ["inputs","histories"],"all meshes, all sequences of transforms",
 "Tests check one 2d affine map and one rotation.",
 ["src/mesh/mesh/transform.rs","src/math/transformable.rs","src/mesh/vertex/transform.rs","src/extensions/nalgebra/math/transform_n.rs","src/extensions/nalgebra/math/rotate.rs","src/extensions/nalgebra/default_vertex_payload.rs"],
 [("mesh transform","src/mesh/mesh/transform.rs, src/math/transformable.rs"),("affine maps","src/extensions/nalgebra/math/transform_n.rs")],
 observe=["vertex positions and normals"])
p("C20","Network matrices describe the mesh's graph",
 "The adjacency, degree and Laplacian matrices (plain and distance-weighted) computed for a mesh are indexed by its vertices in id order and equal the ones defined by its undirected edges: symmetric, an entry per edge, row sums equal to degrees, and Laplacian equal to degree minus adjacency.",
 ["inputs"],"all meshes, including isolated vertices and several components",
 "Tests check one small triangle fan.",
 ["src/mesh/mesh/netsci.rs"],
 [("matrix assembly","src/mesh/mesh/netsci.rs")],
 observe=["matrices"])
p("C21","Planar polygon and segment predicates are exact on exactly representable input",
 "For simple polygons and segments with exactly representable coordinates, signed area and orientation, convexity, centroid, point containment, triangle containment, diagonal validity (a diagonal through another corner is none), angle/orientation tests and segment intersection return the geometrically correct answer for every point not on a boundary; so do lengths, distances and products of vectors in the plane and in space, and the tests whether a face in space is planar, convex or intersects itself. Laying a planar face into the plane preserves its shape and orientation, and its normal is perpendicular to it and points to the side it is oriented to, and the centroid of a face, an edge or a mesh is the mean of its corners.",
 ["inputs"],"all simple polygons, points and segments on a grid",
 "Tests sample a couple of points in two polygons.",
 ["src/math/polygon.rs","src/math/line_segment.rs","src/math/vector2d.rs","src/math/scalar.rs","src/extensions/nalgebra/math/vec_n.rs"],
 [("polygon predicates","src/math/polygon.rs"),("segment intersection","src/math/line_segment.rs"),("planar vector predicates","src/math/vector2d.rs, src/extensions/nalgebra/math/vec_n.rs")],
 observe=["predicate results"])
p("C22","Smooth normals are unit averages of the incident faces' normals",
 "After generating smooth normals every vertex with faces carries a unit normal in the direction of the sum of the unit-orientation of its incident faces, positions and connectivity are unchanged, and recomputing gives the same result.",
 ["inputs"],"all meshes with non-degenerate faces",
 "No test inspects generated normals.",
 ["src/mesh/mesh/normals.rs","src/mesh/face/face3d.rs","src/mesh/vertex/halfedge.rs"],
 [("normal accumulation","src/mesh/mesh/normals.rs")],
 observe=["vertex normals"])
p("C23","Triangle index buffers append, remap, flip and measure correctly",
 "A triangle index buffer behaves as the sequence of triangles inserted into it: local inserts map to the polygon's vertex ids, appending never changes earlier triangles, renaming indices renames exactly the new part, flipping the diagonal of two adjacent triangles yields exactly the other diagonal of their quadrilateral, and total area, total edge length and the built-in verification report the buffer's own part only.",
 ["histories","inputs"],"every sequence of buffer operations, every start offset",
 "Tests use fresh buffers with offset zero only.",
 ["src/mesh/triangulation.rs","src/tesselate/mod.rs"],
 [("buffer operations","src/mesh/triangulation.rs")],
 observe=["indices and reported measures"])
p("C24","Sweep corner classification matches geometry",
 "In the plane-sweep triangulation every polygon corner is classified as start, end, split, merge or regular exactly as its neighbours' sweep order and its interior angle define it, for every counter-clockwise polygon; only where a neighbour is level with the corner, or the corner is straight, may it be left undecided, and differences within the given tolerance count as none.",
 ["inputs"],"all corners of all simple polygons without horizontally tied neighbours",
 "Six hand-picked corners are tested.",
 ["src/tesselate/sweep/vertex_type.rs"],
 [("classification","src/tesselate/sweep/vertex_type.rs")],
 observe=["class of each corner"])
p("C25","Sums, means and scalar helpers are exact up to rounding",
 "A sum or mean of numbers of any magnitudes has the value the exact sum has, up to rounding of the result (vectors: up to the rounding of the largest summands), however many summands cancel or are too small to be seen next to the others, and counts its summands; interpolation, clamping, order, comparison up to a tolerance, determinants, vector components, index conversion, constants and interpolation on the unit sphere give what their names say; so do products, lengths, directions, angles and comparisons of vectors of any dimension.",
 ["inputs"],"all sequences of numbers, all numbers and vectors",
 "No test looks at them directly.",
 ["src/math/scalar.rs","src/math/vector.rs","src/math/index_type.rs","src/math/quaternion.rs","src/extensions/nalgebra"],
 [("stable summation","src/math/scalar.rs"),("vectors","src/extensions/nalgebra/math/vec_n.rs")],
 observe=["results, scaled to integers"])
p("C26","Text is laid out as one face per contour, glyph after glyph",
 "Laying out a text adds, for every contour of every glyph with three or more corners, one connected cycle with one face whose corners and curves are exactly the contour's in the font's outline, scaled, and moved by the sum of the advances and kernings of the glyphs before it, at the same scale as the outlines; nothing else is added, whatever the outline format, the font's units, the size and the text.",
 ["inputs"],"all fonts and texts",
 "Tests lay out one letter of one font.",
 ["src/mesh/mesh/fonts.rs"],
 [("layout","src/mesh/mesh/fonts.rs")],
 observe=["faces, positions and curves of the resulting mesh"])
p("C27","The Bevy backend keeps all contracts and renders exactly the triangulated mesh",
 "With the types of the Bevy extension (single precision) meshes, primitives, lofts, subdivisions, curves, paths, text, triangulation, normals, maps and vectors keep the contracts of the other properties: chaining maps applies the left one first, adding a scale or a translation comes after everything before it, directions are not translated, payloads move with the mesh. Writing a mesh into a render mesh replaces all it showed before: it then has exactly a position and a normal per vertex of the triangulation and its indices, 32 bit wide or 16 bit for narrower ids; topology and usage stay. A 2d mesh made 3d, and a mesh taken over from the other backend, are the same mesh up to new ids, each vertex with all it carries.",
 ["inputs","histories"],"all meshes and maps the types can represent (no sheared Transform; no 4d rotations, which are not implemented)",
 "The Bevy types are only tested for one angle.",
 ["src/extensions/bevy/mesh3d.rs","src/extensions/bevy/mesh2d.rs","src/extensions/bevy/vertex_payload_2d.rs","src/extensions/bevy/vertex_payload_3d.rs","src/extensions/bevy/math"],
 [("export to the renderer","src/extensions/bevy/mesh3d.rs"),("maps and vectors","src/extensions/bevy/math")],
 observe=["attributes and indices of the render mesh, positions, normals, links"])
p("C28","The better sweeps are optimal, or Delaunay, on every monotone part",
 "For every simple polygon, both the one handed over directly and a convex face anywhere in space: the triangulation SweepDynamic makes has the least total edge length possible on every monotone part, and the one SweepDelaunay makes is locally Delaunay there. A line sweeping from the top cuts the polygon only at corners that are reflex (or straight) and whose two neighbours are not one above and one below; what lies between the cuts is triangulated with the least weight, and every inner edge without an end at such a corner satisfies the empty circle condition. Monotone polygons are therefore triangulated optimally, or Delaunay, as a whole.",
 ["inputs"],"all simple polygons with exactly representable coordinates; a face only where it is convex with more than four corners, as how it is turned before the sweep is not specified",
 "The unit tests compare total weights of a few polygons, with the linear sweep only.",
 ["src/tesselate/sweep/monotone/dynamic.rs","src/tesselate/sweep/monotone/delaunay.rs","src/tesselate/sweep/sweep.rs","src/tesselate/min_weight_dynamic.rs"],
 [("what SweepDynamic promises","src/tesselate/mod.rs"),("what SweepDelaunay promises","src/tesselate/mod.rs")],
 observe=["the triangles in the index buffer"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if s:
    for x in P: jsonschema.validate(x,s)
print(len(P))
