#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line). Kept as a script only for readability."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=', '.join(files)) for m in mech])))

p("C01", "2D clipping yields exactly the intersection with all given half-planes",
  "Clipping a polygon (convex, nonconvex, with holes or several pieces) against any list of half-planes leaves exactly the part of it on the non-negative side of every plane, up to round-off, in whatever order the planes come, in one call or many, including planes through vertices or along edges. A polygon strictly outside some plane becomes empty and one entirely inside is left as the same region.",
  ["inputs", "histories"],
  "every polygon, every list of half-planes, every way of distributing the list over successive calls, including all degenerate incidences",
  "The tests clip random shapes against random planes, where no vertex ever lies on a plane, and compare only summed areas to 1e-4; the degenerate incidences, nonconvex re-entries and plane orders are combinatorially many.",
  ["src/r2d.c", "src/r2d.h"],
  ["r2d_clip: signed distances, edge insertion, neighbour search around the loop, compression and re-indexing"])
p("C02", "3D clipping yields exactly the intersection with all given half-spaces",
  "Clipping a polyhedron (convex, nonconvex, with through-holes, cavities or several pieces) against any list of planes leaves exactly the part of it on the non-negative side of every plane, up to round-off, in whatever order the planes come, in one call or many, including planes through vertices, along edges or in faces, and reports success. A polyhedron strictly outside some plane becomes empty, one entirely inside is left as the same region, and clipping an empty one succeeds and leaves it empty.",
  ["inputs", "histories"],
  "every polyhedron, every list of planes, every distribution of the list over successive calls, including all degenerate incidences",
  "The tests use random planes in general position and compare only a sum of volumes to 1e-4; coincidences of planes with vertices, edges and faces, and re-clipping of already degenerate results, are never sampled.",
  ["src/r3d.c", "src/r3d.h"],
  ["r3d_clip: signed distances, edge insertion, face walk linking new vertices, compression and re-indexing"])
p("C03", "2D split partitions every polygon into its two sides of the line",
  "Splitting an array of polygons by a line produces, for every element, the part on the positive side in the positive output and the part on the negative side in the negative output, so the two cover the input region exactly once. If an element lies wholly on one side the other output is empty (merely touching counts as being on the positive side), empty elements give two empty outputs, elements never influence one another, and repeated splitting keeps conserving area and moments.",
  ["inputs", "histories"],
  "every array of polygons (including empty ones), every line, every tree of successive splits",
  "The tests only compare the sum of the two sides with the total for random triangles, which cannot tell the sides apart, and never touch degenerate incidences.",
  ["src/r2d.c", "src/r2d.h"],
  ["r2d_split: side classification, vertex duplication on cut edges, relinking, copy-out into the two buffers"])
p("C04", "3D split partitions every polyhedron into its two sides of the plane",
  "Splitting an array of polyhedra by a plane produces, for every element, the part on the positive side in the positive output and the part on the negative side in the negative output, so the two cover the input region exactly once, and reports success. If an element lies wholly on one side the other output is empty (merely touching counts as being on the positive side), empty elements give two empty outputs, elements never influence one another, and repeated splitting keeps conserving volume and moments.",
  ["inputs", "histories"],
  "every array of polyhedra (including empty ones), every plane, every tree of successive splits",
  "The tests only check the sum over both sides on random tetrahedra and planes; side assignment, degenerate incidences, nonconvex inputs and empty elements are not sampled.",
  ["src/r3d.c", "src/r3d.h"],
  ["r3d_split: side classification, vertex duplication on cut edges, face walk, copy-out into the two buffers"])
p("C05", "Every history of clips and splits leaves well-formed shapes and terminates",
  "After any sequence of initialisations, clips and splits in 2D or 3D, each resulting shape has a vertex count within capacity, neighbour links that are in range, mutual and consistently oriented so that every face or loop closes, finite coordinates, and vertices lying within the surviving region. Results in general position pass the library's own validity test, and no operation loops forever.",
  ["inputs", "histories"],
  "every reachable shape under every bounded sequence of clip and split operations, general and degenerate",
  "Validity is an invariant over all reachable states; the tests look at a few random states and never at degenerate ones, where dangling or self-linked vertices or endless walks would appear.",
  ["src/r2d.c", "src/r3d.c"],
  ["pnbrs neighbour links maintained by r2d_clip, r2d_split, r3d_clip, r3d_split", "r2d_is_good, r3d_is_good"])
p("C06", "2D moments equal the exact polynomial integrals for every order",
  "For any polygon (convex or not, multiple pieces, any position, size or orientation) and any order, the reported moments equal the integrals of all monomials up to that order over the polygon, in the documented row-major order, with clockwise loops counting negatively. Empty polygons give all zeros, exactly the documented number of entries is written, and low moments do not depend on the requested order; shifting moments by a vector gives the moments of the region translated by it, and the reported center is the mean of the vertices.",
  ["inputs"],
  "every polygon, every polynomial order",
  "The tests compare moments only with other moments from the same routine or a few boxes, so consistent errors in a coefficient, in an order or in the ordering go unseen.",
  ["src/r2d.c", "src/r2d.h"],
  ["r2d_reduce (Koehl recursion)", "r2d_shift_moments", "r2d_poly_center"])
p("C07", "3D moments equal the exact polynomial integrals for every order",
  "For any polyhedron (convex or not, with holes, cavities or multiple pieces, any position, size or orientation) and any order, the reported moments equal the integrals of all monomials up to that order over the polyhedron, in the documented row-major order. Empty polyhedra give all zeros, exactly the documented number of entries is written, and low moments do not depend on the requested order; shifting moments by a vector gives the moments of the region translated by it, and the reported center is the mean of the vertices.",
  ["inputs"],
  "every polyhedron, every polynomial order",
  "The tests check random tetrahedra pieces against each other at order 2 and axis-aligned boxes at order 20; coefficient, ordering, face-fan and shift errors on general faces are not sampled.",
  ["src/r3d.c", "src/r3d.h"],
  ["r3d_reduce (Koehl recursion over face fans)", "r3d_shift_moments", "r3d_poly_center"])
p("C08", "2D rasterization puts the exact moments of polygon-cell overlap in each cell",
  "For any polygon and grid spacing, after rasterizing over the polygon's index box (clamped or not) or a larger range each cell of the destination has increased by exactly the moments, up to the requested order, of the polygon's intersection with that cell, for positive and negative cell indices and anisotropic spacing. The total over cells equals the polygon's own moments, nothing outside the destination patch is written, and the polygon is not altered.",
  ["inputs"],
  "every polygon, cell spacing, index box, polynomial order and initial grid contents",
  "The tests compare only the total over all cells for one grid, so mass placed in wrong cells, row/column mix-ups or overwritten contributions remain invisible.",
  ["src/v2d.c", "src/v2d.h"],
  ["r2d_rasterize: explicit stack of (poly, index box) bisected by r2d_split_coord"])
p("C09", "3D voxelization puts the exact moments of polyhedron-cell overlap in each cell",
  "For any polyhedron and grid spacing, after voxelizing over the polyhedron's index box (clamped or not) or a larger range each cell of the destination has increased by exactly the moments, up to the requested order, of the polyhedron's intersection with that cell, for positive and negative cell indices and anisotropic spacing. The total over cells equals the polyhedron's own moments, nothing outside the destination patch is written, and the polyhedron is not altered.",
  ["inputs"],
  "every polyhedron, cell spacing, index box, polynomial order and initial grid contents",
  "The tests compare only the total over all cells for one cubic grid and random tetrahedra.",
  ["src/v3d.c", "src/v3d.h"],
  ["r3d_voxelize: explicit stack of (poly, index box) bisected by r3d_split_coord"])
p("C10", "Index boxes are minimal and clamping restricts shape and box consistently",
  "In 2D and 3D, the index box computed for a non-empty shape is the smallest range of grid cells, for the given spacing on each axis, that contains it. Clamping to a user range leaves exactly the part of the shape inside that range together with the intersection of the two ranges, and leaves an empty shape and an empty range when they do not overlap.",
  ["inputs"],
  "every shape, every spacing, every clamp range, for both signs of the indices and every way the ranges can overlap",
  "The tests take one random shape and one clamp; the sign, rounding and touching cases on each axis and side multiply.",
  ["src/v2d.c", "src/v3d.c"],
  ["r2d_get_ibox, r3d_get_ibox", "r2d_clamp_ibox, r3d_clamp_ibox"])
p("C11", "Initialised shapes represent exactly the described region",
  "Initialising a polygon from a vertex loop or a box, or a polyhedron from a tetrahedron, a box or any closed oriented boundary description (vertices of any valence, nonconvex faces, holes, several pieces, any labelling, face order or face starting vertex), gives a well-formed shape whose moments equal those of the described region and which has no leftovers of earlier contents. A boundary description with a vertex on fewer than three faces is refused with failure status and an empty result.",
  ["inputs"],
  "every admissible boundary description, under every relabelling of vertices, permutation of faces and rotation of face loops",
  "The tests use a handful of fixed solids in one labelling; the duplication and linking of high-valence vertices depends on face order and labelling.",
  ["src/r2d.c", "src/r3d.c"],
  ["r3d_init_poly: simple path and degenerate-duplicate path", "r3d_init_tet, r3d_init_box, r2d_init_poly, r2d_init_box"])
p("C12", "Conversion to a boundary representation describes the same solid",
  "Converting any polyhedron, before or after clips in general position, to boundary representations yields one per connected component, together listing every distinct vertex once and every face once as a counterclockwise loop of valid indices, so that each edge is used once in each direction and the enclosed moments equal the polyhedron's. Initialising polyhedra from these representations gives the same solid back, the polyhedron is not altered, and releasing the representations frees all their memory.",
  ["inputs", "histories"],
  "every polyhedron reachable by initialisation and clipping in general position, with any number of components",
  "The tests run the conversion and print it; nothing compares the output with the solid.",
  ["src/r3d.c", "src/r3d.h"],
  ["r3d_init_brep: coincident-vertex map, face walk, component walk", "r3d_free_brep"])
p("C13", "The validity test accepts well-formed shapes and rejects malformed ones safely",
  "The validity tests accept every well-formed polygon, every well-formed polyhedron or 4D polytope (any number of pieces) and the empty shape, and reject any in which a link is out of range (either sign), points back to its own vertex, is duplicated, or makes some vertex be pointed to too often or too seldom, and in 3D and 4D any whose graph falls apart on removing two (three in 4D) vertices of a piece. They never read or write outside the shape or their own buffers, whatever the links contain and however full the shape is.",
  ["inputs"],
  "every well-formed shape and every corruption of its link table",
  "The tests only ever present valid shapes, so a validity test that always said yes would pass.",
  ["src/r2d.c", "src/r3d.c", "src/rNd.c"],
  ["r2d_is_good, r3d_is_good, rNd_is_good"])
p("C14", "Face planes derived from vertices are the true faces",
  "The planes computed for the faces of a box, a tetrahedron, a polygon or a general polyhedron have unit normals and pass through the corresponding face, one per face. For boxes, counterclockwise polygons and positively oriented tetrahedra the normals point inward, so clipping a larger shape by those planes yields exactly that box, convex polygon or tetrahedron; for a polyhedron given by its boundary the normal of each planar face, convex or not, points to the side from which its loop runs counterclockwise.",
  ["inputs"],
  "every box, tetrahedron, polygon and polyhedral boundary with planar faces",
  "The tests use the planes of random tetrahedra only; sign or offset errors for boxes away from the origin and for nonconvex faces do not show.",
  ["src/r2d.c", "src/r3d.c"],
  ["r2d_box_faces_from_verts, r2d_poly_faces_from_verts", "r3d_tet_faces_from_verts, r3d_box_faces_from_verts, r3d_poly_faces_from_verts"])
p("C15", "Orientation functions return the signed simplex measure",
  "For any three points in 2D, four in 3D or five in 4D, the orientation function returns the signed area, volume or 4-volume of the simplex: its magnitude is the measure, it is zero exactly for dependent points up to round-off, it flips sign under every odd permutation of the points and keeps it under every even one. In 2D and 3D the sign is positive exactly when the simplex initialised from those points in that order has positive zeroth moment; in 4D it is that of the determinant of the edge vectors from the first point to the others.",
  ["inputs"],
  "every point tuple and every permutation of it",
  "The tests only compare a few absolute values; permutation signs on all tuples are not sampled.",
  ["src/r2d.c", "src/r3d.c", "src/rNd.c"],
  ["r2d_orient, r3d_orient, rNd_orient"])
p("C16", "Transforms move every vertex by the stated map and nothing else",
  "Translating, scaling, shearing, rotating (by any angle, about any axis or in any coordinate plane) and applying any homogeneous matrix (including perspective rows) maps every vertex of a 2D, 3D or 4D shape by exactly that map, leaves connectivity and vertex count unchanged, and therefore composes, inverts and changes moments accordingly.",
  ["inputs", "histories"],
  "every shape, every transform parameter, every composition of transforms",
  "Most transforms are not called by any test, and those that are feed into sums insensitive to the map.",
  ["src/r2d.c", "src/r3d.c", "src/rNd.c"],
  ["r2d_/r3d_/rNd_ rotate, translate, scale, shear, affine"])
p("C17", "4D clipping yields exactly the intersection with all given half-spaces",
  "Clipping a 4D simplex or box against any list of hyperplanes in general position, in one call or many and in any order, leaves a well-formed polytope that is exactly the part on the non-negative side of every hyperplane; a polytope strictly outside a hyperplane becomes empty, and one entirely inside is unchanged.",
  ["inputs", "histories"],
  "every simplex and box, every sequence of hyperplanes in general position with the current polytope",
  "The single test clips one simplex through its centroid and compares the two halves' volume sum.",
  ["src/rNd.c", "src/rNd.h"],
  ["rNd_clip: edge insertion, walk around 3-cells closing new 2-faces, compression"])
p("C18", "4D voxelization and index boxes are exact per cell",
  "For 4D polytopes in general position with the grid, the index box is minimal, clamping (on any number of sides at once) leaves exactly the part inside the clamp range (an empty polytope and an empty range when the ranges do not overlap), and voxelizing adds to each cell of the row-major patch exactly the volume of the polytope in that cell, writing nothing outside the patch and not altering the polytope.",
  ["inputs"],
  "every simplex or box in general position with the grid, every spacing, every clamp range and grid shape",
  "The single test compares the total volume for one random simplex.",
  ["src/vNd.c", "src/vNd.h"],
  ["rNd_voxelize, rNd_split, rNd_get_ibox, rNd_clamp_ibox"])
p("C19", "4D simplices and boxes are initialised well-formed with exact volume",
  "Initialising a 4D simplex from any five affinely independent points in any order, or a box from any bounds, gives a well-formed polytope whose positions are the given ones, whose two-dimensional faces are labelled consistently, and whose reported zeroth moment is its volume wherever it is placed; after clips of shapes not far from the origin for their size it is the volume of what remains, however many vertices that has; an empty polytope reports zero.",
  ["inputs"],
  "every simplex under every vertex order, every box and every clipped result",
  "The single test uses one random simplex.",
  ["src/rNd.c", "src/rNd.h"],
  ["rNd_init_simplex, rNd_init_box, rNd_reduce"])
p("C20", "Running out of vertex capacity never corrupts memory and is reported",
  "Whenever an initialisation, clip, split or voxelization in 2D, 3D or 4D would need more vertices than a shape can hold, the operation does not write or read outside the objects it was given and reports failure; whenever the result and intermediate vertices fit, it succeeds with the exact result, also with the buffer filled to the last slot.",
  ["inputs", "histories"],
  "every capacity setting, every shape and operation sequence around the capacity limit",
  "The tests stay far below the limit of hundreds of vertices, so the boundary and the overrun are never executed.",
  ["src/r2d.c", "src/r3d.c", "src/rNd.c", "src/v2d.c", "src/v3d.c"],
  ["capacity guards before every vertex insertion; status return codes"])
p("C21", "Concurrent calls on separate objects behave as if run alone",
  "Any calls into the library (the current or the deprecated one, flat or USE_TREE) that work on separate objects may run at the same time in different threads, and each produces bit for bit the result it produces alone, under every interleaving.",
  ["schedules"],
  "every interleaving of any two library calls on disjoint objects",
  "The tests are single-threaded; hidden static scratch buffers or caches would need a particular interleaving to corrupt a result.",
  ["src/r2d.c", "src/r3d.c", "src/rNd.c", "src/v2d.c", "src/v3d.c", "src/vNd.c", "deprecated/r2d.c", "deprecated/r3d.c"],
  ["absence of shared mutable state in every entry point"])
p("C22", "Results depend only on the arguments, never on earlier calls or stale memory",
  "In the current and in the deprecated library (flat or USE_TREE), each operation's result is a function of the meaningful contents of its arguments: repeating it after any sequence of other calls, with different garbage in unused buffer slots, output objects or uninitialised stack memory, gives bit-identical results. Inputs that are only read, such as plane lists, vertex and face arrays, matrices, bounds, clamp ranges and shapes given to integration, validity tests, index boxes, conversion and voxelization, are left untouched.",
  ["inputs", "histories"],
  "every operation after every bounded history of earlier operations and every stale memory pattern",
  "Dependence on history or on garbage is invisible in a fresh process with zeroed memory, which is all the tests run in.",
  ["src/r2d.c", "src/r3d.c", "src/rNd.c", "src/v2d.c", "src/v3d.c", "src/vNd.c", "deprecated/r2d.c", "deprecated/r3d.c"],
  ["local scratch arrays initialised on every call; no static state"])
p("C23", "All build configurations give the same answers",
  "For every supported configuration (any vertex capacity large enough for the shapes involved, moment shifting on or off, single or double precision, assertions or diagnostics on or off, optimisation level) the same sequence of initialisations, clips, splits, reductions and voxelizations gives the same results up to the precision in use. With shifting on, moments of a small shape far from the origin keep their relative accuracy for the zeroth moment.",
  ["inputs", "configurations"],
  "every build configuration and every bounded operation sequence",
  "The tests are built in one configuration only.",
  ["src/r2d.c", "src/r3d.c", "config/r3d-config.h.in"],
  ["SHIFT_POLY, SINGLE_PRECISION, R3D_MAX_VERTS, NDEBUG conditionals"])
p("C24", "The legacy 3D code clips and voxelizes exactly",
  "In the deprecated 3D library, in the flat and in the USE_TREE build, clipping a tetrahedron or box against any one to four planes terminates, and integrating then yields the moments up to the requested order (0 to 2) of exactly the intersection; voxelizing a tetrahedron onto a grid gives every cell exactly the moments up to the requested order of its overlap with the tetrahedron; and the tetrahedron's faces and signed volume derived from its vertices are the true ones.",
  ["inputs"],
  "every tetrahedron, plane list, grid size and polynomial order",
  "No test in the repository executes the deprecated library at all.",
  ["deprecated/r3d.c", "deprecated/r3d.h"],
  ["deprecated r3d_clip, r3d_reduce, r3d_voxelize_tet, r3du_* helpers"])
p("C25", "The legacy 2D code clips and rasterizes exactly",
  "In the deprecated 2D library, in the flat and in the USE_TREE build, clipping a convex polygon against any one to four lines terminates, and integrating then yields the moments up to the requested order (0 to 2) of exactly the intersection; rasterizing a triangle or convex quadrilateral onto a grid gives every cell exactly the moments up to the requested order of its overlap; and the faces derived from the vertices are the true ones.",
  ["inputs"],
  "every convex polygon, line list, grid size and polynomial order",
  "No test in the repository executes the deprecated library at all.",
  ["deprecated/r2d.c", "deprecated/r2d.h"],
  ["deprecated r2d_clip, r2d_reduce, r2d_rasterize_quad, r2du_* helpers"])
p("C26", "The N-dimensional code is right in every dimension it is compiled for",
  "Compiled for another dimension of three or more (the dimension is a compile-time constant), the N-dimensional library keeps its guarantees: simplices in any vertex order and boxes are initialised well-formed with consistently labelled faces, the validity test accepts them and rejects link tables that are out of range, irregular or fall apart on removing fewer vertices than the dimension, clipping against any list of hyperplanes in general position leaves exactly the intersection, integrating gives its volume, orientation is the signed simplex volume, transforms apply the stated map to every coordinate, index boxes are minimal, clamping (on any number of sides at once) and voxelizing onto a grid are exact per cell, and listings show all coordinates and neighbours.",
  ["inputs", "histories", "configurations"],
  "every dimension, shape, vertex order, hyperplane sequence and grid",
  "The tests are compiled for four dimensions only, where an index, bound or factor that happens to equal four goes unnoticed.",
  ["src/rNd.c", "src/rNd.h", "src/vNd.c"],
  ["RND_DIM loops in rNd_clip, rNd_reduce, rNd_translate, rNd_scale, rNd_shear, rNd_rotate, rNd_affine, rNd_print, rNd_init_simplex, rNd_init_box, rNd_det, rNd_orient, rNd_is_good, rNd_get_ibox, rNd_clamp_ibox, rNd_voxelize"])
p("C27", "Printed listings show the whole shape as it is",
  "Printing a polygon, polyhedron or 4D polytope writes, for every vertex in order, one line with its index, its coordinates to at least six significant digits and the indices of all its neighbours, and nothing for an empty shape. Printing boundary representations writes the number of components and, for each, its vertices with coordinates and its faces with their vertex indices, all in order. Whatever the number of vertices, components or faces and the size of the numbers, nothing is left out and the printed object is not altered.",
  ["inputs"],
  "every shape, boundary representation, coordinate magnitude and vertex count",
  "No test looks at printed output, and a listing that drops or mixes up entries only for large shapes, several components or unusual coordinates misleads whoever debugs with it.",
  ["src/r2d.c", "src/r3d.c", "src/rNd.c"],
  ["r2d_print, r3d_print, rNd_print, r3d_print_brep"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
