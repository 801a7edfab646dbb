"""Writes properties.jsonl (kept as a script so ids, titles and statements are edited in one place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S3 = "src/r3d.c"; S2 = "src/r2d.c"; SN = "src/rNd.c"

prop("C01", "Clipping a 3D polyhedron gives exactly its intersection with the half-spaces",
 "After clipping a polyhedron (convex or not, with holes or high-degree vertices) against any list of planes, its volume and polynomial moments equal those of the exact set intersection of the polyhedron with all half-spaces `n.x + d >= 0`. This includes planes that pass through vertices, edges or faces, repeated and redundant planes, planes that miss the body (nothing changes) and planes that remove everything (the result is empty). The result depends only on the set of half-spaces, not on their order, on how they are batched into calls, or on the scale of the plane normals.",
 ["inputs", "histories"], "every polyhedron the constructors accept x every finite sequence of clip calls with any plane lists, degenerate incidences included",
 "The tests clip random tetrahedra and a few fixed solids with planes in random (generic) position, about 100 samples each, and compare only totals; incidence patterns, batching and multi-step histories are not enumerated.",
 [S3, "src/r3d.h"], [("side classification, new vertices on cut edges, relinking around faces, compression", "r3d.c r3d_clip")],
 ["return value and vertex list after clipping", "moments from reduction"], [("vertex buffer", "vertices with three neighbours", "r3d_poly")])

prop("C02", "Clipping a 2D polygon gives exactly its intersection with the half-planes",
 "After clipping a polygon (convex or not, possibly with several loops) against any list of planes, its area and polynomial moments equal those of the exact set intersection with all half-planes `n.x + d >= 0`. This includes lines through vertices or along edges, repeated and redundant lines, lines that miss the polygon (nothing changes) and lines that remove everything (the result is empty). The result depends only on the set of half-planes, not on order, batching into calls or the scale of the normals.",
 ["inputs", "histories"], "every polygon x every finite sequence of clip calls with any plane lists",
 "The tests use random triangles and random lines; lines through vertices, nonconvex polygons cut into several pieces and multi-step histories are sampled rarely or not at all.",
 [S2, "src/r2d.h"], [("side classification, new vertices, relinking, compression", "r2d.c r2d_clip")],
 ["vertex list after clipping", "moments from reduction"])

prop("C03", "Splitting a list of polytopes partitions every one of them along the plane",
 "Splitting any list of polygons or polyhedra by a plane puts in entry i of the positive output exactly the part of input i with `n.x + d >= 0`, and in entry i of the negative output exactly the rest, so the moments of the two parts add up to those of the input and neither part has anything on the wrong side. An input that lies strictly on one side appears unchanged on that side and the other entry is empty; an empty input gives two empty outputs. Entries never influence each other, whatever their number and order.",
 ["inputs", "histories"], "all lists of polytopes (empty ones included), all planes, repeated splitting of fragments, in 2D and 3D",
 "The tests split lists of random simplices by generic planes and check only that the moments of the two parts sum up; they do not check which side is which, degenerate planes, empty entries or index correspondence (the 2D routine had its sides swapped while all tests passed).",
 [S3, S2], [("side marking, paired new vertices, relinking, distribution into the two outputs", "r3d.c r3d_split, r2d.c r2d_split")],
 ["both output arrays", "moments from reduction"])

prop("C04", "Computed moments equal the exact integrals of all monomials up to the order",
 "For every polytope and every requested order, reduction returns the exact integral of each monomial over the body (up to rounding), in the documented row-major order: 1, x, y, (z), x^2, xy and so on. The values are independent of the numbering of vertices, of the starting edges and of redundant or coincident vertices, behave as integrals under translation and scaling (also far from the origin in 3D), are zero for an empty body, and a lower order returns the same leading values. Shifting a moment list by a vector gives the moments of the body translated by that vector.",
 ["inputs"], "all 2D and 3D polytopes (nonconvex, multiply connected, degenerate vertices), all orders, all positions",
 "The tests compare with a tabulated integral for a random triangle/tetrahedron only, one order per test; other shapes, every monomial slot, relabellings and offsets are not covered.",
 [S3, S2], [("recursive moment pyramid over face fans", "r3d.c r3d_reduce"), ("moment shifting by a centre", "r3d.c r3d_shift_moments, r3d_poly_center"), ("2D reduction", "r2d.c r2d_reduce, r2d_shift_moments")],
 ["moment array"])

prop("C05", "Clipping and splitting keep the vertex links a valid polyhedral graph",
 "Whatever pattern of vertices falls inside, outside or exactly on the cutting planes, the result of clipping or splitting a valid polyhedron is again valid: neighbour links stay in range, are mutual and join distinct vertices, no two vertices share two edges, and faces are closed cycles; a polyhedron accepted by the validity test is still accepted after any clip or split. The kept part keeps its old vertices, edges and face order, every cut edge gets one new vertex on the kept side, and every remaining piece of a face is closed by one new edge along the cut. The same holds for polygons with two links per vertex.",
 ["inputs", "histories"], "every side pattern of every polyhedral graph, any sequence of clips and splits (2D and 3D)",
 "Tests run the validity check on results of generic cuts of tetrahedra; combinatorial patterns (several pieces, caps, vertices on the plane, nonconvex faces) are not enumerated.",
 [S3, S2], [("insertion and doubly linking of new vertices, compression and re-indexing", "r3d.c r3d_clip, r3d_split; r2d.c r2d_clip, r2d_split")],
 ["vertex list and links", "validity test result"])

prop("C06", "Result vertices lie in the body and in every half-space, and none is lost",
 "Every vertex of a clipped or split body lies in the closed original body and in all half-spaces it was cut with (up to rounding), and every extreme point of the exact result is among the vertices. Vertices that were strictly inside are kept with bit-identical coordinates, and new vertices lie on the cut edges.",
 ["inputs", "histories"], "all convex polytopes in 2D and 3D, all cut sequences",
 "Tests look only at integrated totals, which do not see misplaced vertices that cancel, spurious or missing vertices.",
 [S3, S2], [("linear interpolation of new vertices on cut edges", "wav() in r3d.c, r2d.c")], ["vertex positions after clip/split"])

prop("C07", "3D voxelization deposits in every cell exactly the part of the body inside it",
 "Voxelizing a polyhedron over any index box that contains it adds to each grid cell exactly the moments of the part of the polyhedron inside that cell, for every grid size (also odd sizes, single cells and thin boxes), anisotropic spacing, positive or negative index offsets, and for bodies whose vertices, edges or faces lie on cell boundaries. Cell values are accumulated onto what the grid held, cells are laid out row-major with the moments of a cell adjacent, the total is conserved, cells the body does not meet are unchanged, the input polyhedron is not modified and nothing outside the grid is written.",
 ["inputs"], "all polyhedra x all index boxes containing them x all spacings x all orders",
 "The test voxelizes one random tetrahedron and checks only the grand total, so swapped, shifted or merged cells and wrong accumulation pass.",
 ["src/v3d.c", "src/v3d.h", S3], [("explicit stack recursion over sub-boxes", "v3d.c r3d_voxelize"), ("coordinate split", "v3d.c r3d_split_coord")], ["destination grid", "input polyhedron"],
 [("stack", "sub-polyhedra with their index boxes still to be processed", "v3d.c r3d_voxelize")])

prop("C08", "2D rasterization deposits in every cell exactly the part of the polygon in it",
 "Rasterizing a polygon over any index box that contains it adds to each grid cell exactly the moments of the part of the polygon inside that cell, for every grid size (also odd sizes, single cells and thin boxes), anisotropic spacing, positive or negative index offsets, and for polygons whose vertices or edges lie on cell boundaries. Cell values are accumulated onto what the grid held, cells are laid out row-major with the moments of a cell adjacent, the total is conserved, cells the polygon does not meet are unchanged, the input polygon is not modified and nothing outside the grid is written.",
 ["inputs"], "all polygons x all index boxes containing them x all spacings x all orders",
 "The test rasterizes one random triangle and checks only the grand total.",
 ["src/v2d.c", "src/v2d.h", S2], [("explicit stack recursion over sub-boxes", "v2d.c r2d_rasterize"), ("coordinate split", "v2d.c r2d_split_coord")], ["destination grid", "input polygon"])

prop("C09", "Grid index boxes are minimal covers and clamping clips body and box together",
 "The index box computed for a nonempty polygon or polyhedron is the smallest box of grid cells that contains it, for any spacing and any sign of the coordinates. Clamping with a nonempty allowed range yields the intersection of the two boxes and clips the body to exactly the part inside that range; when the ranges do not overlap the body becomes empty and the box is empty. Voxelizing after clamping therefore deposits exactly the part of the body inside the range.",
 ["inputs"], "all bodies, spacings, index boxes and clamp ranges, 2D and 3D",
 "The tests call these helpers on one random body with a fixed clamp range and never inspect the boxes.",
 ["src/v2d.c", "src/v3d.c"], [("bounding box rounding", "r2d_get_ibox, r3d_get_ibox"), ("box intersection and face clipping", "r2d_clamp_ibox, r3d_clamp_ibox")], ["index boxes", "clamped body"])

prop("C10", "Constructors build exactly the described body and reject invalid descriptions",
 "A tetrahedron, box, polygon or polyhedron built from vertices (and faces listed in order) has exactly the described vertices and faces, a mutual and consistently oriented link structure that passes the validity test when the description is a convex body, and the signed volume and moments of the description. The result does not depend on how vertices are numbered, in which order faces are listed or at which vertex a face starts. A boundary description in which some vertex belongs to fewer than three faces or that has more vertices than the capacity is refused with a failure status.",
 ["inputs"], "all boundary descriptions with three faces at every vertex, all relabellings of vertices, faces and face starts; all boxes, tetrahedra and polygons",
 "Tests build one cube and one octahedron in a single fixed labelling.",
 [S3, S2], [("link orientation from face order", "r3d.c r3d_init_poly (simple case), r3d_init_tet, r3d_init_box; r2d.c r2d_init_box, r2d_init_poly")], ["vertex list, links, moments, return status"])

prop("C11", "Vertices with more than three faces are resolved without changing the body",
 "Building a polyhedron whose vertices meet four or more faces (pyramids, octahedra, nonconvex and non-simply-connected bodies such as a torus) yields a structure with three mutual links per vertex in which each such vertex is replaced by coincident copies, with the same volume, moments, faces and behaviour under clipping as the described body. This holds for every numbering of vertices and faces and for any mixture of vertex degrees.",
 ["inputs"], "all closed oriented boundary descriptions with vertex degrees >= 3, all relabellings",
 "Tests use one octahedron-like and one torus input in a fixed labelling and check volume conservation.",
 [S3], [("duplication, linking and pruning of degenerate vertices", "r3d.c r3d_init_poly (degenerate case)")], ["vertex list, links, moments after clip"])

prop("C12", "Boundary conversion lists every component and face once and loses nothing",
 "Converting a polyhedron to its boundary representation yields one entry per connected component, whose faces are closed, consistently oriented loops with each edge traversed once in each direction, and whose vertices are those of the component with consecutive coincident copies merged. The volume of the components adds up to the volume of the polyhedron, rebuilding a polyhedron from an entry gives the same body, the source is not modified, and all memory is released by the release call. An empty polyhedron has no components.",
 ["inputs", "histories"], "all polyhedra including results of any clip/split sequence, disconnected and degenerate ones, and the empty one",
 "Tests convert a handful of fixed intersections and compare volumes of a few; component enumeration, orientation and empty input are not covered (the empty input had undefined behaviour).",
 [S3], [("component and face walks with vertex merging", "r3d.c r3d_init_brep"), ("release", "r3d.c r3d_free_brep")], ["returned component array", "leak and address checking"])

prop("C13", "Exceeding vertex capacity is reported as failure and never corrupts memory",
 "For every configured vertex capacity, 3D clipping, splitting and construction either succeed with the exact result or return the failure status, and they never read or write outside the caller's objects. They succeed whenever all vertices needed during the operation fit the capacity, including exactly filling it, and fail whenever the result cannot fit. A failed construction leaves an empty polyhedron.",
 ["inputs", "configurations"], "all capacities, all polyhedra and cuts, in particular those that reach the capacity exactly or exceed it by one",
 "Tests are built with one large capacity that no test ever reaches.",
 [S3, "config/r3d-config.h.in"], [("capacity checks before each insertion", "r3d.c r3d_clip, r3d_split, r3d_init_poly")], ["return status", "address sanitizer", "result when successful"])

prop("C14", "Rigid, scaling, shear, affine and projective transforms act exactly on vertices",
 "Rotation, translation, scaling, shearing and general homogeneous matrix transforms of 2D, 3D and N-D bodies map every vertex by the documented formula for every axis choice and parameter, and leave the link structure untouched. Moments transform accordingly: volume is preserved by rotation, translation and shear and scales with the determinant otherwise, and a transform followed by its inverse restores the body.",
 ["inputs", "histories"], "all bodies, parameters, axes and compositions, in 2D, 3D and 4D",
 "Transforms are used as test set-up at most; 2D rotation and 4D affine transforms were wrong while all tests passed.",
 [S3, S2, SN], [("vertex-wise maps", "r2d_/r3d_/rNd_ rotate, translate, scale, shear, affine")], ["vertex positions and links after each transform"])

prop("C15", "Face planes computed from vertices describe exactly that body",
 "The planes computed for a tetrahedron (positively oriented), a 3D box, a 2D box and a convex counter-clockwise polygon have unit normals pointing inwards, so clipping any body by them gives exactly its intersection with that shape. For a general boundary description each plane has a unit normal following the right-hand rule of the listed vertex order and passes through all vertices of its face. The results hold for every position, size and orientation.",
 ["inputs"], "all tetrahedra, boxes, convex polygons and boundary descriptions",
 "Tests use the tetrahedron planes for random tetrahedra; the 2D box planes had wrong signs while all tests passed.",
 [S3, S2], [("cross products, normalisation, signed distance", "r3d_tet_faces_from_verts, r3d_box_faces_from_verts, r3d_poly_faces_from_verts, r2d_box_faces_from_verts, r2d_poly_faces_from_verts")], ["plane arrays", "clipping by them"])

prop("C16", "Orientation functions return the exact signed simplex volume",
 "The signed area, volume or N-volume of a simplex equals the determinant of its edge vectors divided by the factorial of the dimension, with the documented sign: positive when the constructor for that vertex order builds a body of positive volume. It changes sign under every odd permutation of the vertices, is unchanged under even ones and under translation, and is zero for degenerate simplices.",
 ["inputs"], "all vertex tuples and permutations in 2D, 3D and 4D",
 "Tests only use the function to order random vertices positively.",
 [S3, S2, SN], [("determinant expansion", "r2d_orient, r3d_orient, rNd_orient")], ["returned value"])

prop("C17", "The validity test accepts exactly the well-formed polyhedral graphs",
 "The validity test accepts a link table if and only if every link is a valid index of another vertex, no vertex lists a neighbour twice, links are mutual, and every connected component stays connected after removing any d-1 vertices (d = 3 or 4); for polygons it requires two distinct valid links per vertex, to other vertices, with every vertex linked twice. It gives this answer for every table up to the capacity, including corrupt ones, without reading or writing out of bounds and without modifying the body.",
 ["inputs"], "all link tables, valid or corrupted, up to the capacity, in 2D, 3D and 4D",
 "Tests only ever call it on valid bodies; rejection, near misses, negative indices and large bodies are untested (several were wrong).",
 [S3, S2, SN], [("consistency counts and masked flood fills", "r3d_is_good, r2d_is_good, rNd_is_good")], ["returned flag", "address sanitizer"])

prop("C18", "4D clipping keeps exactly the intersection volume and a valid structure",
 "Clipping a 4D simplex or box against any sequence of half-spaces gives a polytope whose volume equals that of the exact intersection, whose links are mutual, four per vertex, and pass the validity test, and whose vertices lie in all half-spaces. Planes that miss the body change nothing and planes that exclude it leave it empty.",
 ["inputs", "histories"], "all 4D simplices and boxes, all sequences of cuts",
 "Tests cut random simplices by random planes and compare the sum of two halves.",
 [SN, "src/rNd.h"], [("new vertices with face labels, walk around 3-cells to close faces", "rNd.c rNd_clip"), ("vertex-sum volume formula", "rNd.c rNd_reduce")], ["vertex list, links, volume"])

prop("C19", "4D voxelization, index boxes and clamping partition the body exactly",
 "Voxelizing a 4D body over an index box that contains it adds to each cell of a row-major grid exactly the volume of the part inside the cell, for all grid shapes, offsets and spacings, without touching the input or anything outside the grid. Index boxes are the smallest covering boxes and clamping in any subset of the dimensions, on either or both sides, intersects boxes and clips the body accordingly.",
 ["inputs"], "all 4D bodies x index boxes x spacings x clamp ranges",
 "The test voxelizes one random simplex and compares the total; clamping all eight sides overflowed a buffer unnoticed.",
 ["src/vNd.c", SN], [("stack recursion, strides", "vNd.c rNd_voxelize, rNd_split"), ("index boxes", "vNd.c rNd_get_ibox, rNd_clamp_ibox")], ["destination grid", "index boxes", "clamped body"])

prop("C20", "The deprecated library clips and voxelizes conservatively cell by cell",
 "In the deprecated library, clipping a body by planes gives the exact intersection, its moments equal the exact integrals, and voxelizing a tetrahedron (or rasterizing a quadrilateral) onto its grid deposits in every cell exactly the moments of the part inside it, within the requested window and for every supported order. The total is conserved when the window covers the body.",
 ["inputs"], "all tetrahedra/quadrilaterals, orders 0..2, windows and grid sizes",
 "The repository only compiles this library; nothing tests it.",
 ["deprecated/r3d.c", "deprecated/r2d.c"], [("clipping, moments, recursive grid descent", "deprecated r3d_clip*, r3d_reduce, r3d_voxelize_tet; r2d_clip*, r2d_reduce, r2d_rasterize_quad")], ["destination grids", "moments"])

prop("C21", "Results depend only on the arguments: no hidden state, aliasing or races",
 "Every operation's result is a function of its arguments alone: repeating a call, interleaving calls on unrelated bodies, or running them concurrently in several threads on different bodies gives bit-identical results. Queries (moments, centre, validity, index box, boundary conversion, voxelization) leave the body unchanged, plane lists are not modified, and no operation touches memory outside the objects it was given.",
 ["schedules", "histories"], "all interleavings of operations on unrelated bodies by one or more threads, all prior histories",
 "Tests are single-threaded and process bodies one after another, so scratch data shared between calls is never exposed.",
 ["src/r3d.c", "src/r2d.c", "src/rNd.c", "src/v2d.c", "src/v3d.c", "src/vNd.c"], [("all scratch data are automatic variables", "every routine")], ["results of interleaved and concurrent runs", "thread sanitizer"])

prop("C22", "Geometry results do not depend on build configuration",
 "Building with a different vertex capacity, without the recentring of bodies before integration, with assertions disabled, with optimisation, or in single precision changes no structural result, and changes numerical results only within the rounding of the chosen precision. Bodies that fit both capacities give identical vertex lists.",
 ["configurations", "inputs"], "all supported compile-time configurations x all operation sequences",
 "Tests run in exactly one configuration.",
 ["config/r3d-config.h.in", "CMakeLists.txt", S3, S2, SN], [("capacity, shift and precision switches", "r3d-config.h.in, SINGLE_PRECISION, SHIFT_POLY, NDEBUG")], ["replayed results per configuration"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
