#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so it is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

H = "include/um2/"
p("C01", "Growable arrays behave as a plain sequence of values",
  "After any sequence of operations a growable array holds exactly the elements, in order, that the same operations give on an ordinary sequence, whatever the element type and whether or not a reallocation, a move, a self-assignment or an argument that refers into the array itself was involved. Every element is constructed and destroyed exactly once, and no operation touches memory outside the array.",
  ["histories", "inputs"], "All finite histories of construct, copy, move, assign, push, emplace, resize, reserve, clear, pop, compare over trivial, owning and nested element types, including aliasing arguments and empty arrays.",
  "Tests push a handful of ints/doubles into one array and look at the end state; they never use an owning element type across a reallocation, an aliasing argument, or count constructions and destructions.",
  [H+"stdlib/vector.hpp", H+"stdlib/memory/construct_at.hpp", H+"stdlib/algorithm/copy.hpp"],
  [("append / grow", H+"stdlib/vector.hpp"), ("copy and move assignment", H+"stdlib/vector.hpp")],
  ["size, capacity, element values after every operation", "constructor/destructor counts", "ASan/UBSan reports"],
  [("begin/end/cap pointers", "extent of the owned buffer", H+"stdlib/vector.hpp")])
p("C02", "Strings and string views agree with ordinary string semantics",
  "After any sequence of operations a string holds exactly the characters, and is terminated exactly where, an ordinary string would, independent of whether it is short or long enough to need the heap. Queries on strings and on non-owning views (comparison, search, prefix/suffix, slicing, tokenising) give the answer defined for ordinary strings, never reading outside the characters they were given.",
  ["histories", "inputs"], "All histories of construction, assignment, append, slicing, moving and comparison over contents of any byte values and lengths, in particular around the inline-storage limit.",
  "Tests use a few ASCII literals on either side of the inline limit; transitions short->long->short, self-append, non-ASCII ordering and unterminated views are not reached.",
  [H+"stdlib/string.hpp", H+"stdlib/string_view.hpp", H+"stdlib/cstring/memcmp.hpp", H+"stdlib/cstring/strlen.hpp"],
  [("short/long representation switch", H+"stdlib/string.hpp"), ("append", H+"stdlib/string.hpp"), ("find/compare family", H+"stdlib/string_view.hpp")],
  ["content, size and terminator after every operation", "ASan redzones around view buffers"])
p("C03", "Sorting and permutation utilities compute true sorted permutations",
  "The sorting utilities return the input values, each exactly as often as they occurred, in non-decreasing order, and a sorting permutation is a bijection which, applied to the data (or inverted and applied again), gives the sorted data (or the original). Selection, search and range utilities (minimum, maximum, sortedness, equality, lexicographic order, copy, fill, iota) agree with their mathematical definition for every range, including empty ranges and ranges of equal values.",
  ["inputs"], "All finite ranges, including empty, single, duplicate-heavy, already sorted and reversed ones, over integers, floats and owning types.",
  "Tests check a few hand-written ranges of 3-10 values; duplicates, cycles of all shapes and owning element types are not covered.",
  [H+"common/branchless_sort.hpp", H+"common/insertion_sort.hpp", H+"common/permutation.hpp", H+"stdlib/algorithm/is_sorted.hpp", H+"stdlib/algorithm/max_element.hpp", H+"stdlib/algorithm/lexicographical_compare.hpp", H+"stdlib/algorithm/copy.hpp"],
  [("small sorting networks", H+"common/branchless_sort.hpp"), ("cycle-following permutation application", H+"common/permutation.hpp")],
  ["output ranges"])
p("C04", "Z-order codes are lossless, order-preserving and build-independent",
  "Encoding integer coordinates to a Z-order code and decoding returns the same coordinates for every representable coordinate, the code is the bit interleaving of the coordinates, and hardware-accelerated and portable builds give identical codes. Sorting points by Z-order returns a permutation of the points whose codes, relative to the scale the caller supplied, are non-decreasing.",
  ["inputs", "configurations"], "All coordinates in 2D and 3D for 32- and 64-bit codes (boundaries exhaustively), all point sets in the unit box or with a supplied scale, in builds with and without the bit-manipulation instructions.",
  "Tests are compiled in one configuration only and check small coordinates; the portable path is never executed by them.",
  [H+"math/morton.hpp", H+"geometry/morton_sort_points.hpp"],
  [("bit deposit/extract and its emulation", H+"math/morton.hpp"), ("sort by code", H+"geometry/morton_sort_points.hpp")],
  ["codes from both builds, compared offline"])
p("C05", "Polynomial solvers return exactly the real roots",
  "For every quadratic and cubic with well-separated real roots the solver returns each real root to working precision, in ascending order, followed by the documented out-of-range marker for each non-real one. Degenerate leading coefficients reduce to the lower-degree equation, and the solver always terminates.",
  ["inputs"], "All coefficient tuples over many magnitudes: constructed from chosen roots, with zero leading/trailing coefficients, double and triple roots, and random.",
  "Tests contain about ten equations with small integer coefficients.",
  [H+"math/quadratic_equation.hpp", H+"math/cubic_equation.hpp"],
  [("compensated discriminant", H+"math/quadratic_equation.hpp"), ("Newton iteration and deflation", H+"math/cubic_equation.hpp")],
  ["returned roots against extended-precision evaluation"])
p("C06", "Vector and matrix arithmetic matches linear algebra",
  "Fixed-size vectors and matrices and run-time sized dense matrices give the results of linear algebra: element-wise arithmetic, dot/cross/norm, products, transposed access, determinants, inverses, linear solves and eigenvalues agree with an independent computation to rounding error for every size and content, and operations documented as producing a result do not depend on what the output held before. Arguments taken by value or const reference are never modified.",
  ["inputs", "configurations"], "All sizes (including non-square and size one), real and complex elements, well-conditioned contents, previously used output objects, in builds with vector extensions / an external linear-algebra library switched on and off.",
  "Tests use one or two hand-written 2x2/3x3 examples per operation and a single build configuration; non-square fixed-size products and reused outputs are not exercised.",
  [H+"math/vec.hpp", H+"math/mat.hpp", H+"math/matrix.hpp", "src/math/matrix.cpp"],
  [("SIMD and scalar vector storage", H+"math/vec.hpp"), ("matrix product", H+"math/mat.hpp"), ("dense products, solve, eigenvalues", "src/math/matrix.cpp")],
  ["results against a naive long-double reference"])
p("C07", "Summary statistics are accurate for every sample",
  "Sum, mean, median, variance and standard deviation of any non-empty (for the latter two: at least two element) sample equal their mathematical definition to within the error bound of a numerically stable algorithm, regardless of sample size, offset or order. The sample is not modified.",
  ["inputs"], "All samples of any length from 1 to several thousand (so that blocked summation is crossed at every remainder) with large common offsets and mixed magnitudes.",
  "Tests use two samples of at most ten small integers, so neither blocked summation nor cancellation is reached.",
  [H+"math/stats.hpp"],
  [("pairwise summation", H+"math/stats.hpp"), ("single-pass variance", H+"math/stats.hpp")],
  ["results against exact rational/long-double reference"])
p("C08", "Bounding boxes contain exactly what they bound and clip rays correctly",
  "The box of a set of points or boxes is the smallest axis-aligned box containing all of them, membership and overlap tests agree with coordinate comparison, and the entry/exit distances reported for a ray delimit exactly the part of the ray inside the box, with a miss reported if and only if the ray misses the box. The bounding box reported for any straight or curved edge or face contains every point of it, and touches it on all sides.",
  ["inputs"], "All boxes (including degenerate ones), rays with any direction including axis-parallel, and edges/faces with arbitrary shape in 2D and 3D.",
  "Tests use unit boxes and a few rays/edges; axis-parallel rays off centre and curved edges bulging past their end points in both axes are not reached.",
  [H+"geometry/axis_aligned_box.hpp", H+"geometry/polytope.hpp", H+"geometry/quadratic_segment.hpp", H+"geometry/line_segment.hpp", H+"geometry/polygon.hpp"],
  [("slab clipping", H+"geometry/axis_aligned_box.hpp"), ("extrema of a parabola", H+"geometry/quadratic_segment.hpp")],
  ["box corners against dense sampling and exact extrema"])
p("C09", "Edge geometry is consistent with the edge's own parametrisation",
  "For every straight or curved edge: the interpolated point, tangent, length, closest point, distance, left-of test, bulge direction, area between the edge and its chord, and canonical placement all agree with what dense sampling of the edge's parametrisation gives. Reversing, translating or rotating the edge changes these quantities only as geometry demands.",
  ["inputs"], "All line segments and parabolic edges with distinct end points, including exactly straight, nearly straight, strongly bulging and asymmetric ones, in 2D and 3D, at several scales and positions.",
  "Tests use about six symmetric example edges with known values.",
  [H+"geometry/line_segment.hpp", H+"geometry/quadratic_segment.hpp"],
  [("arc length closed form", H+"geometry/quadratic_segment.hpp"), ("closest point by cubic", H+"geometry/quadratic_segment.hpp"), ("left-of by canonical rotation", H+"geometry/quadratic_segment.hpp")],
  ["queries against adaptive sampling"])
p("C10", "Face measures agree with the face's boundary and orientation",
  "For every valid face, its area, centroid, perimeter, mean chord length and orientation flag agree with an independent integration over its boundary; reversing the face's orientation keeps the same set of points and edges, negates orientation and leaves all unsigned measures unchanged, and doing so twice restores the face. Interpolated points and tangents agree with the corner/edge interpolation of the face.",
  ["inputs"], "All triangles, convex quadrilaterals and their curved counterparts (moderate bulges) at any position, scale and rotation, both orientations.",
  "Tests use unit-sized faces at the origin; orientation reversal is tested on straight-edged faces only and not as an involution preserving the point set.",
  [H+"geometry/triangle.hpp", H+"geometry/quadrilateral.hpp", H+"geometry/quadratic_triangle.hpp", H+"geometry/quadratic_quadrilateral.hpp", H+"geometry/polygon.hpp"],
  [("shoelace / edge-segment area", H+"geometry/polygon.hpp"), ("flip", H+"geometry/quadratic_quadrilateral.hpp"), ("mean chord length", H+"geometry/polygon.hpp")],
  ["measures against boundary quadrature"])
p("C11", "Ray and edge intersections are complete, correct and ordered",
  "A ray-edge or ray-face query returns exactly the crossings of the ray's line with that edge or boundary: each reported distance gives a point on both, no transversal crossing is missed or invented, the count equals the number of values written, and distances documented as ordered come out in ascending order. Edge-edge queries likewise report exactly the common points.",
  ["inputs"], "All rays (any origin, any unit direction, hitting, missing, axis-parallel) against all straight and curved edges and faces; tangential contacts within tolerance are exempt.",
  "Tests shoot a few horizontal/vertical rays at unit shapes; curved edges crossed twice from the far end or by oblique rays are not covered.",
  [H+"geometry/line_segment.hpp", H+"geometry/quadratic_segment.hpp", H+"geometry/polygon.hpp"],
  [("solve along the ray normal", H+"geometry/quadratic_segment.hpp"), ("per-edge collection", H+"geometry/polygon.hpp")],
  ["distances against sign-change counting on a fine sampling"])
p("C12", "Point-in-face tests agree with the shape and tile neighbouring faces",
  "A point clearly inside a face is reported as contained and a point clearly outside is not, for straight and curved faces alike. In a mesh, every point away from edges lies in exactly one face, and the face-location query returns that face (or the documented not-found value outside the mesh).",
  ["inputs"], "All valid convex straight faces and moderately curved faces, all points further than a small tolerance from the boundary, and all conforming meshes built from them.",
  "Tests check two or three hand-picked points per shape.",
  [H+"geometry/triangle.hpp", H+"geometry/quadrilateral.hpp", H+"geometry/quadratic_triangle.hpp", H+"geometry/quadratic_quadrilateral.hpp", H+"geometry/polygon.hpp", H+"mesh/face_vertex_mesh.hpp"],
  [("left-of every edge", H+"geometry/polygon.hpp"), ("face search", H+"mesh/face_vertex_mesh.hpp")],
  ["containment against a winding-number reference"])
p("C13", "Modular rays are cyclic, equally spaced and cover the whole box",
  "For every box, azimuthal angle and requested spacing, all generated rays start on the box boundary and point into it, share one direction close to the requested one, are spaced no wider than requested, and adjacent copies of the box line up so that every exit point is another ray's entry point after translation by the box size or reflection. The rays' total track area covers the box area.",
  ["inputs", "configurations"], "All boxes (any position and aspect ratio), angles in (0, pi) excluding the axes, spacings from coarse to fine, in single and double precision.",
  "Tests check three angles and spacings on one box against fixed values.",
  [H+"geometry/modular_rays.hpp"],
  [("ray count and spacing rounding", H+"geometry/modular_rays.hpp"), ("ray origin selection", H+"geometry/modular_rays.hpp")],
  ["origins, directions, exit points"])
p("C14", "Grid queries locate every point and cell consistently",
  "For every regular or rectilinear grid, cell boxes tile the grid's box without gaps or overlaps, a point strictly inside a cell is located in that cell, points outside are reported as outside, flat and multi-dimensional indices are mutually consistent, and the cells reported as meeting a query box are exactly the ones overlapping it. A grid built from boxes or from a picture of cell ids (first row on top) reproduces those boxes and ids at their places, and partitions return the child stored for that cell.",
  ["inputs"], "All 1D-3D grids (any origin, size, cell counts, non-uniform divisions), all points and boxes, all consistent box sets and id pictures.",
  "Tests use 1x1 to 4x4 unit grids at the origin and a few query points.",
  [H+"mesh/regular_grid.hpp", H+"mesh/rectilinear_grid.hpp", H+"mesh/regular_partition.hpp", H+"mesh/rectilinear_partition.hpp", H+"common/string_to_lattice.hpp"],
  [("index from coordinate", H+"mesh/regular_grid.hpp"), ("division search", H+"mesh/rectilinear_grid.hpp"), ("row reversal", H+"mesh/rectilinear_grid.hpp")],
  ["boxes, indices, children against an explicit cell list"])
p("C15", "Unstructured meshes with element sets keep their content under editing",
  "After any sequence of adding vertices, elements and named element sets, translating, sorting, merging and extracting subsets, a mesh reports exactly the vertices, elements, sets and per-element data that sequence defines, and comparison reports equality exactly for meshes with equal content (coordinates up to the geometric tolerance). Rejected additions (duplicate names, empty sets, mismatched data) report failure and leave the mesh as it was.",
  ["histories", "inputs"], "All editing histories over mixed element types, overlapping and nested sets with and without data, including empty meshes, merging a mesh with itself, and extraction of every set.",
  "Tests build one four-element mesh and edit it once.",
  [H+"mesh/polytope_soup.hpp", "src/mesh/polytope_soup.cpp", H+"mesh/element_types.hpp"],
  [("offset/connectivity bookkeeping", "src/mesh/polytope_soup.cpp"), ("merge with id renumbering", "src/mesh/polytope_soup.cpp"), ("subset extraction with vertex renumbering", "src/mesh/polytope_soup.cpp")],
  ["all accessors after every operation against a map-based model"],
  [("element offsets and connectivity", "prefix-sum layout of elements", "src/mesh/polytope_soup.cpp")])
p("C16", "Writing a mesh and reading it back loses nothing",
  "A mesh written in the native format and read back is equal to the original: exactly the same vertex coordinates (an out-of-plane coordinate below the geometric tolerance everywhere may be dropped), same elements, same element sets with the same members and data. The text part of the file names the data sets it refers to so that every size stated there equals the size stored.",
  ["inputs", "configurations"], "All meshes the library accepts, single and mixed element types, with any number of (overlapping, sparse, data-carrying) element sets, in any target directory.",
  "Tests round-trip four fixed meshes with one or two sets without data.",
  ["src/mesh/polytope_soup.cpp"],
  [("hierarchical-data-file and xml writer", "src/mesh/polytope_soup.cpp"), ("xml/hierarchical-data-file reader", "src/mesh/polytope_soup.cpp")],
  ["content before and after", "independent parse of the written xml"])
p("C17", "Importing a text mesh reproduces exactly what the file states",
  "Importing a mesh file in either supported text format yields the nodes, elements (type and node numbering) and element sets or cell data that the file states, whatever the line layout, number formatting, or ordering of sections the format allows. A file that cannot be opened or is of an unknown kind is reported as an error and leaves the mesh unchanged.",
  ["inputs"], "All well-formed files of the supported subset of the two text formats (nodes and elements numbered from one in file order, cells of 3, 4, 6 or 8 nodes): any counts, number formats, list lengths and line breaks.",
  "Tests import five fixed example files written by one tool.",
  ["src/mesh/polytope_soup.cpp"],
  [("line parser of the first format", "src/mesh/polytope_soup.cpp"), ("section parser of the second format", "src/mesh/polytope_soup.cpp")],
  ["imported content against the generator's model"])
p("C18", "Mesh conversion and renumbering preserve geometry and connectivity",
  "Converting between the general mesh and the face-vertex mesh, and renumbering vertices or faces along a space-filling curve, keeps every face's shape, the total area and each face's attached identity up to the stated renumbering, for meshes at any position. After connectivity is requested, each vertex lists exactly the faces that use it, each once.",
  ["inputs", "histories"], "All conforming meshes of each of the four face types, at any offset from the origin and any ordering of vertices and faces, under any sequence of conversions and renumberings.",
  "Tests use two-face meshes touching the origin.",
  [H+"mesh/face_vertex_mesh.hpp", "src/mesh/face_vertex_mesh.cpp", H+"geometry/morton_sort_points.hpp"],
  [("Z-order renumbering with inverse permutation", "src/mesh/face_vertex_mesh.cpp"), ("vertex-to-face lists", "src/mesh/face_vertex_mesh.cpp"), ("conversion", "src/mesh/face_vertex_mesh.cpp")],
  ["faces as geometric objects before and after", "vertex-face lists"])
p("C19", "Tracing a ray through a mesh accounts for its whole path",
  "The crossings reported for a ray through a conforming mesh, sorted along the ray, form a chain of segments that covers exactly the part of the ray inside the mesh, once, and each segment is attributed to a face that contains its midpoint. Per-face crossings and the mesh-wide query agree.",
  ["inputs"], "All conforming meshes of each face type and all rays in general position, including meshes far from the origin, sliver faces and rays nearly parallel to edges.",
  "Tests shoot two rays through a two-face mesh.",
  [H+"mesh/face_vertex_mesh.hpp", "src/mesh/face_vertex_mesh.cpp", H+"geometry/polygon.hpp"],
  [("per-face intersection", "src/mesh/face_vertex_mesh.cpp"), ("sorting of crossings", "src/mesh/face_vertex_mesh.cpp")],
  ["segments against point location at their midpoints"])
p("C20", "Mesh validation flags every defect and accepts every sound mesh",
  "Validation accepts every sound mesh (one piece without holes) unchanged, turns clockwise faces around, and reports an error for a mesh with a repeated face, a hole, a boundary that touches itself, separate parts, or neighbouring faces that do not share their edge's nodes. A curved face whose own edges cross is repaired, moving mid-edge nodes only and leaving the mesh's bounding box alone, when letting the straighter of the two edges follow the bend of the other undoes the crossing, and is repaired likewise or reported otherwise. Validation always terminates.",
  ["inputs", "fault_sequences"], "All sound meshes and all meshes obtained by injecting one or more defects (clockwise faces, removed or repeated faces, unshared nodes, separate parts, strongly bent edges).",
  "Tests never call validation on a defective mesh.",
  ["src/mesh/face_vertex_mesh.cpp", H+"mesh/face_vertex_mesh.hpp"],
  [("orientation repair", "src/mesh/face_vertex_mesh.cpp"), ("edge use counting", "src/mesh/face_vertex_mesh.cpp")],
  ["diagnostics emitted and mesh content after validation"])
p("C21", "Material compositions conserve mass and atom ratios",
  "However a material's composition is specified (number densities, weight fractions, atom fractions, oxide fuel enrichment), the resulting number densities reproduce the stated density and ratios using the nuclides' atomic masses, independent of the order in which nuclides are added. Chemical identifiers map to the same nuclide however they are written, and invalid compositions are reported.",
  ["inputs", "histories"], "All sets of nuclides with positive fractions in any order, densities and enrichments; all textual isotope names.",
  "Tests check one fuel composition against tabulated values.",
  [H+"physics/material.hpp", "src/physics/material.cpp", H+"physics/nuclide.hpp", "src/physics/nuclide.cpp"],
  [("density to number density", "src/physics/material.cpp"), ("identifier parsing", "src/physics/nuclide.cpp")],
  ["number densities against independent mass balance"])
p("C22", "Cross sections mix, interpolate and collapse physically",
  "A material's macroscopic cross sections are the number-density-weighted sums of its nuclides' data interpolated to its temperature, continuous and monotone between tabulated temperatures and clamped outside them, and are marked as fissile if and only if fission data is non-zero. Collapsing to one group gives the arithmetic mean over the groups, with the total scattering equal to the mean over the source groups of all scattering out of them.",
  ["inputs"], "All numbers of groups and temperatures, all non-negative data, all compositions and temperatures.",
  "Tests use a single hand-written seven-group set; interpolation and mixing need a data library that the tests do not have in this build.",
  [H+"physics/cross_section.hpp", "src/physics/cross_section.cpp", "src/physics/nuclide.cpp", "src/physics/material.cpp"],
  [("interpolation in temperature", "src/physics/nuclide.cpp"), ("mixing", "src/physics/material.cpp"), ("collapse", "src/physics/cross_section.cpp")],
  ["cross sections against an independent evaluation of the same data"])
p("C23", "Reading a nuclear data library reproduces the file",
  "Reading a data library yields the group structure, spectrum, and for every nuclide the identity, mass, temperatures and cross sections that the file states, whatever the number of groups, nuclides and temperatures and whether scattering rows are full or banded. Looking up a nuclide returns that nuclide's data, and a file that is not a library is reported.",
  ["inputs"], "All well-formed libraries of the supported version: any group, nuclide and temperature counts, banded scattering rows, fissile and non-fissile nuclides.",
  "No data library is available to the tests in this build, so the reader is never executed.",
  ["src/physics/cross_section_library.cpp", H+"physics/cross_section_library.hpp"],
  [("section parsers", "src/physics/cross_section_library.cpp")],
  ["parsed library against the generator's model"])
p("C24", "Generated pin meshes conserve areas and tile the cell",
  "For every admissible pin geometry and resolution the generated mesh fills the cell exactly, has the promised number and order of faces, consists of consistently oriented faces that meet edge to edge without overlap, and the rings of a radial region have equal areas that add up to the region's exact area. Inadmissible geometry is rejected without adding anything.",
  ["inputs"], "All pitches, increasing radii that fit, ring counts per region, azimuthal counts and both mesh orders; rectangular cells with any subdivision.",
  "Tests check face counts and areas for one fuel pin.",
  ["src/mpact/model.cpp", H+"mpact/model.hpp"],
  [("equal-area ring radii", "src/mpact/model.cpp"), ("vertex/face numbering of rings", "src/mpact/model.cpp")],
  ["areas, connectivity and orientation of the mesh"])
p("C25", "Hierarchical core models place every cell where the layout says",
  "In a model assembled from nested layouts (top row first), every cell instance in the flattened mesh lies at the position given by summing the offsets of its containers, has the mesh and materials of the cell the layouts name, and is a member of exactly the sets of the containers it belongs to. Inconsistent layouts (unknown ids, mismatched sizes) are rejected and leave the model unchanged.",
  ["inputs", "histories"], "All nested layouts of cells, modules, lattices, assemblies with several axial slices, with repeated and unused parts, in any mix of straight and curved cell meshes.",
  "Tests build one small core and compare counts.",
  ["src/mpact/model.cpp", H+"mpact/model.hpp", H+"mesh/rectilinear_partition.hpp"],
  [("layout validation", "src/mpact/model.cpp"), ("flattening to a general mesh", "src/mpact/model.cpp")],
  ["elements and sets of the flattened mesh against an explicit enumeration"])
p("C26", "Writing a core model and reading it back gives the same model",
  "A core model written to disk and read back has the same hierarchy, placements, axial positions, cell meshes and materials per face as the original. The companion summary files state the same totals as the model.",
  ["inputs", "configurations"], "All models in which every part is placed somewhere and material names contain no commas, in particular with several assemblies, lattices and axial slices, repeated parts, and mixed mesh types.",
  "Tests read back one model in which lattice and assembly numbers coincide.",
  ["src/mpact/model.cpp"],
  [("tree of grids writer", "src/mpact/model.cpp"), ("tree of grids reader", "src/mpact/model.cpp"), ("summary writers", "src/mpact/model.cpp")],
  ["model queries before and after", "independent parse of summary files"])
p("C27", "Cell homogenisation and material volumes are area-weighted",
  "Cell-averaged cross sections equal the area-weighted average over the cell's faces of their materials' cross sections, and the volume reported for each material of a model is the sum, over all placed cells, of the areas of the faces carrying that material times the height of their axial slice.",
  ["inputs"], "All cells with any meshes and material assignments, all models built from them.",
  "Tests check a single pin cell with two materials.",
  ["src/mpact/model.cpp", "src/physics/cross_section.cpp"],
  [("area-weighted accumulation", "src/mpact/model.cpp")],
  ["averages and volume files against independent face loop"])
p("C28", "Imported cell meshes carry the file's geometry and materials",
  "Importing cell meshes from a mesh file fills each declared cell with exactly the faces the file assigns to it, moved so that the cell's corner is the origin, with for each face the material whose set it belongs to, independent of the order of sets, elements and materials in the file. A file that lacks a declared cell, in which a cell has another size than declared, or in which a face has no known material is reported.",
  ["inputs", "fault_sequences"], "All mesh files with any number of cells and materials in any order, all four face types, and files with a missing or ill-sized cell, an unknown material or a face without material.",
  "Tests import one file written by the same tool chain in canonical order.",
  ["src/mpact/model.cpp", "src/mesh/polytope_soup.cpp", "src/mesh/face_vertex_mesh.cpp"],
  [("set matching by name", "src/mpact/model.cpp"), ("subset and shift", "src/mpact/model.cpp")],
  ["cell meshes and material ids against the generator's model"])
p("C29", "Power post-processing conserves power and separates regions",
  "Every face with positive power belongs to exactly one region, two powered faces share a region if and only if they are connected through powered faces that share vertices, each region's power is the sum of power density times area of its faces, and its reported centre is their area-weighted centroid. Source extraction gives for every face the group sums of flux times the scattering and times the fission production of its material. A file without any positive power is reported and gives no regions.",
  ["inputs"], "All meshes of any face type, element order and power/flux distribution, including no power, one big region, many islands and islands touching at a corner.",
  "There is no test for power or source extraction.",
  ["src/mpact/powers.cpp", "src/mpact/source.cpp"],
  [("flood fill over neighbours", "src/mpact/powers.cpp"), ("group sums", "src/mpact/source.cpp")],
  ["regions against a union-find reference"])
p("C30", "The C interface returns the same answers as the C++ interface",
  "Every query available through the C interface gives, for every loaded model and valid index, exactly the value the corresponding C++ query gives, arrays it hands out have the advertised length and are owned by the caller. In builds with run-time checks, a request for an index that does not exist is reported.",
  ["inputs", "histories"], "All models that can be loaded (several assemblies, lattices, axial slices, mesh types), all indices, query points and rays, any order of calls, repeated load and deletion.",
  "Tests call each function once on one model with hard-coded expectations.",
  ["src/um2c.cpp", "include/um2c.h"],
  [("wrappers", "src/um2c.cpp"), ("unique height tables", "src/um2c.cpp")],
  ["C results against C++ results on the same model", "ASan leak checking"])
p("C31", "Logging filters by level and never corrupts or loses a message",
  "A message is emitted exactly once, on its own line, if and only if its level is at or above the active threshold, and carries exactly the text of its parts in order, up to a fixed maximum length beyond which it is cut. Logging terminates the program if and only if an error is emitted while exit-on-error is on, and no message, however long, damages memory or stops the program.",
  ["inputs", "histories"], "All sequences of messages with parts of any type, length and number at every level, under every threshold and option combination.",
  "Tests log a handful of short messages and check only that they compile and the flags are set.",
  [H+"common/logger.hpp", "src/common/logger.cpp", H+"common/settings.hpp", "src/common/settings.cpp"],
  [("bounded message buffer", "src/common/logger.cpp"), ("level gates", H+"common/logger.hpp")],
  ["captured output against the model"])
p("C32", "Geometry-kernel operations keep region labels consistent",
  "After fragmenting, intersecting or cutting labelled regions, each resulting piece carries exactly the labels of the regions it came from (shapes that are kept keep theirs), and where a material priority is given each piece has at most one material, the one of highest priority covering it; a rejected request changes nothing. Saving a labelled model and opening it again restores all labels and colours. Pins, lattices of pins and coarse grids laid over plane or solid geometry give every point the material of the innermost ring or solid there (the fill elsewhere) and the label of its grid cell, and each cell is fully covered.",
  ["inputs", "histories"], "All arrangements of overlapping, nested, touching and disjoint regions with any labels and priorities.",
  "Tests use one or two overlapping squares per operation.",
  ["src/gmsh/model.cpp", "src/gmsh/io.cpp", H+"gmsh/model.hpp", H+"gmsh/io.hpp"],
  [("label transfer through the fragment map", "src/gmsh/model.cpp"), ("material priority", "src/gmsh/model.cpp"), ("label side file", "src/gmsh/io.cpp")],
  ["labels per piece against point membership of the original shapes"])
p("C33", "Read-only queries are safe and deterministic across threads",
  "Any number of threads may run read-only queries (location, tracing, areas, chord lengths, layout, cross sections, averaging, flattening, subsets) on the same model, mesh, grid, material or data library at the same time, and each gets exactly the result a single thread would get, also when it is the first use of the object. Threads may likewise build, change and query objects of their own at the same time without affecting each other. No such use races with another.",
  ["schedules"], "All interleavings of concurrent read-only queries on shared objects and of any use of separate objects.",
  "No test runs more than one thread.",
  [H+"mesh/face_vertex_mesh.hpp", "src/mesh/face_vertex_mesh.cpp", "src/mesh/polytope_soup.cpp", "src/mpact/model.cpp", "src/physics/material.cpp", "src/physics/cross_section.cpp", H+"mesh/rectilinear_grid.hpp", H+"geometry/polygon.hpp"],
  [("const accessors without hidden state", "src/mesh/face_vertex_mesh.cpp"), ("no shared scratch storage", "src/mpact/model.cpp")],
  ["ThreadSanitizer reports", "results per thread against single-threaded run"])
p("C34", "Text conversions of numbers and ids are exact",
  "Parsing a number from text gives the value the standard conversion gives and consumes exactly the characters of the number; converting integers and ids to text and back is exact; incrementing the trailing zero-padded number in a label gives the label of the next number for every value that fits. Parsing a rectangular text picture of ids gives the same rows and columns, ignoring only whitespace layout.",
  ["inputs"], "All numbers (integers and floating point in any notation), all zero-padded labels, all rectangular id pictures with arbitrary spacing.",
  "Tests parse a few literals and increment a few labels.",
  [H+"common/strto.hpp", H+"common/string_to_lattice.hpp", H+"mpact/model.hpp", H+"stdlib/string.hpp"],
  [("digit carry", H+"mpact/model.hpp"), ("lattice tokeniser", H+"common/string_to_lattice.hpp")],
  ["values and positions against the C library"])
p("C35", "Meshing a plane geometry and loading it into a core model is faithful",
  "Meshing a labelled plane geometry gives only elements of the requested kind, whatever was meshed before in the session; the written mesh loads into the core model so that every coarse cell is covered exactly once and has, at every point away from curved boundaries, the material of the geometry. Elements have the requested size: one size everywhere, or per material the length for the requested ratio of mean free path to chord, growing linearly beyond a threshold with the distance to fuel or into an absorber. Size requests with unknown, missing or incomplete materials, a ratio that is not positive, or no fuel or absorber where one is needed are refused with an error.",
  ["inputs", "histories"], "All lattices of pins and coarse grids, all element kinds and orders of requests in a session, all cross sections, ratios, thresholds and growth factors.",
  "Tests mesh one or two fixed shapes and only count elements.",
  ["src/gmsh/mesh.cpp", H+"gmsh/mesh.hpp", "src/gmsh/model.cpp", "src/gmsh/io.cpp", "src/mpact/model.cpp", "src/mesh/polytope_soup.cpp"],
  [("meshing options that outlive a call", "src/gmsh/mesh.cpp"), ("size field per material", "src/gmsh/mesh.cpp"), ("label export and import", "src/mpact/model.cpp")],
  ["kinds and sizes of elements in the mesher", "area and material of loaded cells against the analytic geometry"])
p("C36", "Validation reports exactly the physical data that is unsound",
  "Validating cross sections, a nuclide or a material reports an error for every inconsistency (wrong number of values, fission without being marked fissile, a missing name or composition, non-positive id, mass, temperature or density, unsorted temperatures, data per atom where data per volume is needed) and a warning for negative or unmarked fission values per volume, in whichever group, temperature or nuclide the fault is. Sound data is not reported. Validation changes nothing and reads nothing outside the data, and a core model validates a material when it is added unless told not to.",
  ["inputs"], "All numbers of groups, temperatures and nuclides, every kind of fault at every place.",
  "Tests only validate sound data.",
  ["src/physics/cross_section.cpp", "src/physics/nuclide.cpp", "src/physics/material.cpp", "src/mpact/model.cpp"],
  [("validation of cross sections", "src/physics/cross_section.cpp"), ("validation of nuclides", "src/physics/nuclide.cpp"), ("validation of materials", "src/physics/material.cpp")],
  ["messages per injected fault", "contents before and after"])
p("C37", "Unsupported files and unusable requests are refused with an error",
  "Reading a mesh, model, data library or solid file that is absent, cut off, of an unsupported format, version, element or data type, or whose parts are missing or disagree in number or size ends with an error message, as does a request that cannot be met: conversion of meshes of other or several kinds, powers or sources of unsuitable meshes, parts that do not exist, pins with unusable radii or materials, ragged or unknown layouts, unsuitable sets of solids, an empty core. With the default settings the program stops there; nothing is accepted silently and no memory outside the data is touched. The same file or request without the fault is accepted without an error.",
  ["inputs"], "All kinds of faults in all supported kinds of files and requests.",
  "Tests only read sound files and make sound requests.",
  ["src/mesh/polytope_soup.cpp", "src/mpact/model.cpp", "src/physics/cross_section_library.cpp", "src/gmsh/model.cpp", "src/gmsh/io.cpp", "src/gmsh/mesh.cpp", "src/mpact/powers.cpp", "src/mpact/source.cpp", "src/mesh/face_vertex_mesh.cpp"],
  [("mesh readers", "src/mesh/polytope_soup.cpp"), ("model reader", "src/mpact/model.cpp"), ("library reader", "src/physics/cross_section_library.cpp"), ("solid modelling", "src/gmsh/model.cpp")],
  ["messages and end of a separate process per injected fault", "memory accesses"])
p("C38", "Elementary functions, pairs and colours match their definitions",
  "Roots, powers, exponentials, logarithms, trigonometric, hyperbolic and rounding functions, absolute value, sign transfer, fused multiplication and the mathematical constants agree with their mathematical definitions in both precisions over the whole range of arguments, and single precision results are those of the single precision function. Pairs compare in lexicographic order and keep their members, swapping exchanges values and arrays, and byte comparison, string length and address range tests agree with their definitions. Colours given by components, by fraction or by name have the components asked for, and comparing colours follows their components.",
  ["inputs"], "All arguments of both precisions; all byte sequences, pairs and colours.",
  "Tests call each function at one or two points and name a single colour.",
  ["include/um2/stdlib/math/roots.hpp", "include/um2/stdlib/math/trigonometric_functions.hpp", "include/um2/stdlib/math/rounding_functions.hpp", "include/um2/stdlib/math/logarithms.hpp", "include/um2/stdlib/math/exponential_functions.hpp", "include/um2/stdlib/utility/pair.hpp", "include/um2/stdlib/cstring/memcmp.hpp", "include/um2/stdlib/numbers.hpp", "include/um2/common/color.hpp"],
  [("elementary functions", "include/um2/stdlib/math/roots.hpp"), ("pairs", "include/um2/stdlib/utility/pair.hpp"), ("colours", "include/um2/common/color.hpp")],
  ["returned values"])
p("C39", "Starting and stopping the library is repeatable and restores defaults",
  "Starting the library, through the C++ or the C interface, makes the mesher available and resets the message settings to their defaults; starting it again while it is running keeps the solids created so far. Stopping it releases the mesher, and stopping without a start is harmless. Every sequence of starts and stops, also through mixed interfaces, leaves the library in the state that its last step describes.",
  ["histories"], "All sequences of starts, stops, changed settings and created solids.",
  "Tests start and stop the library once per program.",
  ["src/um2.cpp", "src/um2c.cpp", "src/common/logger.cpp"],
  [("start and stop", "src/um2.cpp"), ("C interface", "src/um2c.cpp"), ("message settings", "src/common/logger.cpp")],
  ["state of the mesher and settings after every step", "memory accesses"])
p("C40", "Mesher functions offered by the library do exactly what the mesher's do",
  "Calling one of the mesher's functions through the library performs exactly that function of the mesher, once, with the caller's arguments in the same places. Arguments that are left out have the values the mesher documents for them. Every result the mesher gives, returned or written to the caller's variables, reaches the caller unchanged and in its own place.",
  ["inputs"], "All functions of the mesher that the library defines, all argument values and numbers of omitted arguments.",
  "Tests use a handful of the functions, through their effect on simple models, where exchanged or lost arguments often change nothing.",
  ["src/gmsh/base_gmsh_api.cpp", "include/um2/gmsh/base_gmsh_api.hpp"],
  [("mesher interface", "src/gmsh/base_gmsh_api.cpp"), ("default arguments", "include/um2/gmsh/base_gmsh_api.hpp")],
  ["calls, arguments and results recorded by stand-ins for the mesher"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P))
