R = " Trusts: TLC, the executor in harness/exec.c, the affine transport in vf/geom.py and a stated rounding allowance; bodies and planes are lattice ones (and their affine images), histories bounded."
TECH = {
"C01": ("TLA+ lattice model (PolyOps), TLC exhaustive + simulation, histories replayed into r3d_clip", "All shapes x all planes, all ordered plane pairs of a subset and simulated longer histories are checked in TLC and every emitted history is executed with all moments compared after each call." + R),
"C02": ("TLA+ lattice model (PolyOps, 2D), TLC exhaustive + simulation, histories replayed into r2d_clip", "As C01 for polygons with one or several loops." + R),
"C03": ("TLA+ lattice model (PolyOps, split lists), TLC, histories replayed into r2d_split/r3d_split", "Every split of lists of bodies (with empty entries) is checked entry by entry against the specified partition." + R),
"C06": ("TLA+ lattice model (PolyOps with exact point sets), TLC, histories replayed and vertices compared", "Vertices of every result are compared with the closure and extreme points that TLC computes for the exact result." + R),
"C04": ("TLA+ exact-integral model (Integrals), TLC, moments of every order replayed into r2d/r3d reduce and shift_moments", "Integrals of all monomials up to order 8 over lattice bodies are computed exactly by TLC and compared slot by slot under renumberings, link rotations, offsets and scales." + R),
"C05": ("TLA+ oriented-map model of one cut (Graph, Ring) with all side patterns, TLC, results replayed and compared up to isomorphism", "TLC proves the cut of a cubic polyhedral map valid for every side pattern of the listed maps; each pattern is run through r3d_clip/r3d_split/r2d_clip/r2d_split and the resulting link table compared as an oriented map." + R),
"C07": ("TLA+ grid model (Voxel over Lattice), TLC, deposits replayed into r3d_voxelize", "Per-cell moments of lattice bodies on grids that subdivide the lattice unevenly, with offsets, spacings, prefill and window slack, are computed exactly by TLC and compared cell by cell; writes outside are seen by ASAN." + R),
"C08": ("TLA+ grid model (Voxel over Lattice, 2D), TLC, deposits replayed into r2d_rasterize", "As C07 for polygons." + R),
"C09": ("TLA+ grid model (Voxel index boxes and clamping), TLC, replayed into get_ibox/clamp_ibox in 2D and 3D", "Smallest covering boxes and clamped boxes/bodies are computed by TLC for shapes, spacings, offsets and clamp ranges and compared exactly (boxes) and by moments (bodies)." + R),
"C10": ("TLA+ model of boundary descriptions growing by Euler operations (Maps) plus Simplex/Polygon/Boxes, TLC, replayed into the constructors", "Descriptions generated by contract/chord/cone/spoil steps from seed bodies are built under renumberings; faces, links, validity, moments and refusal are compared." + R),
"C11": ("TLA+ model of boundary descriptions with arbitrary vertex degrees (Maps, resolution and cut proved equivalent in TLC), replayed into r3d_init_poly and clip/split", "Faces of the built body and of its cuts are compared as cyclic vertex lists with those TLC computes from the description." + R),
"C12": ("TLA+ model of link tables with several components and coincident vertices (Brep) and of boundary descriptions (Maps), TLC, replayed into r3d_init_brep, r3d_free_brep and back through r3d_init_poly", "Components, vertices up to copies and cyclic faces are computed by TLC for generated link tables (also tables that fill the capacity exactly) and compared with the entries returned; the entries are fed back to the constructor and faces and moments compared; the source must be unchanged and nothing leaked." + R),
"C13": ("TLA+ model of bodies with links and exact rational positions in a bounded buffer (Solid) and of construction (MapsCap), TLC simulation, every call replayed in builds whose capacity is its need, one less and one more", "For each generated clip, split and construction TLC states the slots needed and the sizes of the results; the code is compiled with capacities at those boundaries (release and debug, under ASAN/UBSAN) and must succeed with exactly the specified links, fail, or (between the two) either." + R),
"C14": ("TLA+ model of transformation histories on exact rational coordinates (Transforms), TLC, replayed into rotate/translate/scale/shear/affine in 2D, 3D, 4D", "Every operation, axis pair and parameter of the model (also perspective matrices, singular and negative ones) is applied to boxes, simplices and link tables up to the capacity at several scales; all vertices are compared after each step, links bit by bit, volume by the tracked determinant, and the inverse history must restore the body." + R),
"C15": ("TLA+ intersection model (Faces over Lattice), simplices (Simplex) and planar outlines grown cell by cell (FacePlane), TLC, replayed into the *_faces_from_verts functions and clip", "Planes computed for convex shapes clip every body to the intersection TLC computes; planes are also judged directly (unit, inward, through all face vertices) for all generated tetrahedra, boxes, polygons and planar outlines up to hundreds of vertices." + R),
"C16": ("TLA+ determinant model (Simplex) with permutation and translation steps, TLC, replayed into orient functions", "Signed simplex volumes are integers in TLC; permutation sign rules are step properties; values are compared exactly in integer frames." + R),
"C17": ("TLA+ definition of well-formed tables (IsGood) with corrupting and validity-keeping steps, TLC exhaustive for small tables + simulation, every table replayed into r2d/r3d/rNd_is_good under ASAN", "TLC decides each table by the definition (range, distinctness, mutuality, connectivity after removing any d-1 vertices); all single corruptions of small tables, pairs for the smallest, and mixtures up to the capacity are replayed." + R),
"C18": ("TLA+ 4D lattice model (Poly4), TLC, histories replayed into rNd_clip/rNd_reduce/rNd_is_good", "Volumes of 4D alcove bodies under sequences of half-spaces are compared after each call together with link structure and validity." + R),
"C19": ("TLA+ 4D grid model (Voxel4), TLC, replayed into rNd_voxelize/get_ibox/clamp_ibox", "Per-cell volumes, index boxes and clamped boxes are computed by TLC and compared." + R),
"C22": ("The TLA+ behaviours of PolyOps, Integrals, Voxel, Solid, Maps and Poly4 replayed into every build configuration (capacities, recentring on/off in 2D and 3D, NDEBUG, -O3, clang, single precision) and vertex lists compared bit by bit across capacities", "The only configuration-dependent state of the specification is the capacity (Solid); every other behaviour must be reproduced by each configuration, structurally exactly and numerically within its own precision; calls at the capacity are replayed with and without assertions." + R),
"C21": ("TLA+ (Interleave.tla) checked with TLC: every interleaving of overlapping calls by several users, with a shared-scratch control that must fail; simulated schedules of all public operations replayed alone, interleaved, after other history, with other contents of fresh memory, under address/memory sanitizers and in threads (thread sanitizer), answers compared bit by bit through the specification's terms", "Bodies are represented by the term of calls that made them; equal terms must answer equally whoever asks and whenever (invariants OwnCallsOnly, Functional, QueriesPure, OthersUntouched). The replay keys every real answer and vertex list by the specification's term and compares all occurrences across runs, schedules and threads." + R),
"C20": ("TLA+ model of depositing four half-spaces on a window of cells by classifying corners of boxes (Window), with scan, halving and free order of boxes, TLC; replayed into the deprecated library's voxelizers (both algorithms), clippers, reducers and plane constructors", "TLC proves every strategy deposits exactly the body's part in each cell (invariants Exact, Tiling, every order of boxes for small windows); the real grids are compared cell by cell and moment by moment, clipping and reducing also directly, under ASAN/UBSAN." + R),
}
