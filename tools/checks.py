"""What each property's check runs: harness, library sources, configuration, case counts."""
CHECKS = {}
def check(pid, runs, rule, must_observe=(), assumptions=()):
    CHECKS[pid] = {"runs": runs, "rule": rule, "must_observe": list(must_observe),
                   "assumptions": list(assumptions)}

check("C01", [
    {"name": "histories", "harness": "h_vector", "cases": (120000, 2000000), "leaks": True},
    {"name": "histories-noassert", "harness": "h_vector", "cases": (40000, 400000), "leaks": True,
     "variant": {"config": {"UM2_ENABLE_ASSERTS": 0}}},
], "random histories of 5-45 operations on three arrays of 7 element types, compared with std::vector after every operation; non-trivial: a reallocation or an aliasing argument occurred",
   ["histories with reallocation", "histories with aliasing argument"])
NOASSERT = {"config": {"UM2_ENABLE_ASSERTS": 0}}

check("C02", [
    {"name": "strings", "harness": "h_string", "cases": (60000, 1200000), "leaks": True},
    {"name": "strings-noassert", "harness": "h_string", "cases": (20000, 300000), "leaks": True, "variant": NOASSERT},
], "random histories of 4-40 string operations against std::string after every operation, and every view query over exactly sized heap buffers against std::string_view; non-trivial: the history crossed the inline-storage limit, or the view had several tokens",
   ["histories crossing the inline limit", "tokens", "op append_self"],
   ["multi-character find_first_of searches for the whole pattern (the library documents no set semantics)"])

check("C03", [
    {"name": "ranges", "harness": "h_algo", "cases": (60000, 1200000), "leaks": True},
], "random ranges (0-60 values, 7 element types, duplicate-heavy/sorted/reversed shapes) against std:: algorithms, plus every weak ordering of 3 and 4 values; non-trivial: two or more values",
   ["exhaustive networks", "ranges with two or more values", "empty or single ranges"])

check("C04", [
    {"name": "bmi2", "harness": "h_morton", "cases": (3000, 60000)},
    {"name": "portable", "harness": "h_morton", "cases": (3000, 60000), "variant": {"config": {"UM2_ENABLE_BMI2": 0}}},
], "codes of exhaustive 16-bit and random 64-bit coordinates and of floats in [0,1] compared bit by bit with a reference in builds with and without BMI2; point sets sorted; non-trivial: a point set of three or more points",
   ["integer codes", "float codes", "point sets sorted"])

check("C34", [
    {"name": "text", "harness": "h_text", "cases": (20000, 400000)},
], "numbers in many notations against the C library, every five-digit id, labels around carries, random rectangular lattices with random layout; non-trivial: a distinct lattice text",
   ["numbers parsed", "ids formatted", "labels incremented", "lattices parsed"])

check("C05", [
    {"name": "roots", "harness": "h_poly", "cases": (40000, 800000)},
], "quadratics and cubics built from chosen roots (two/three real, one real, none, double, triple, zero, degenerate leading coefficients) and random ones, in float and double, against extended-precision roots within a condition-number tolerance; non-trivial: a distinct equation with all roots compared",
   ["quadratics with two roots", "quadratics without real roots", "cubics with three roots", "cubics with one root", "cubics with multiple roots"],
   ["roots closer than the rounding of the coefficients can resolve are exempt"])

check("C07", [
    {"name": "samples", "harness": "h_stats", "cases": (4000, 60000)},
], "samples of every length 1-1100 and random lengths up to 9000, offsets up to 1e7, float and double, against compensated extended-precision definitions; non-trivial: every sample",
   ["samples crossing a summation block", "variances"])

check("C06", [
    {"name": "blas", "harness": "h_linalg", "cases": (20000, 400000)},
    {"name": "portable", "harness": "h_linalg", "cases": (10000, 200000),
     "variant": {"config": {"UM2_USE_BLAS_LAPACK": 0, "UM2_ENABLE_SIMD_VEC": 0}}},
], "random vectors (D 1-4), small matrices of many shapes and dense matrices (1-9 rows/columns, float/double/complex) in builds with and without vector extensions and BLAS/LAPACK, against extended-precision references; non-trivial: a dense case",
   ["vectors", "small matrices", "inverses", "linear systems", "eigenvalue sets", "non-square products"])

check("C08", [
    {"name": "boxes", "harness": "h_box", "cases": (40000, 800000)},
    {"name": "boxes-scalar", "harness": "h_box", "cases": (10000, 200000),
     "variant": {"config": {"UM2_ENABLE_SIMD_VEC": 0}}},
], "random point sets (generic and on a small integer lattice), boxes, rays (aimed, random, axis-parallel with either sign of zero) in 1-3 dimensions, float and double, and parabolic edges/faces of every family, against coordinate comparison and exact extrema; non-trivial: a ray that hits, or an edge",
   ["rays hitting", "rays missing", "disjoint box pairs", "edges bulging past their end points", "faces curved_quad", "faces curved_triangle"])

check("C09", [
    {"name": "edges", "harness": "h_edge", "cases": (100000, 3000000)},
], "parabolic edges of seven families (straight, off-centre, nearly straight, symmetric, moderate, strong, overhanging) and segments at random position/rotation/scale in float and double, each queried at random points near/far/between edge and chord, against extended-precision sampling; non-trivial: a distinct edge",
   ["curved edges", "points between edge and chord", "points sided by the chord", "straight segments", "distances"])

check("C10", [
    {"name": "faces", "harness": "h_face", "cases": (150000, 3000000)},
], "random triangles, convex quadrilaterals (incl. rectangles and one flat corner) and their curved counterparts at random position/rotation/scale, both orientations, any starting corner, float and double, against extended-precision boundary integration; non-trivial: a distinct face",
   ["measured triangle", "measured quad", "measured curved_triangle", "measured curved_quad", "curved_quad cw"],
   ["area, centroid and mean chord length are only demanded of counter-clockwise faces"])

check("C11", [
    {"name": "crossings", "harness": "h_isect", "cases": (40000, 1000000)},
], "rays (aimed, from inside, axis-parallel, pointing away) against straight/curved edges of every family and the four face types in float and double, and pairs of edges with and without a shared vertex, against extended-precision roots; crossings too close to tangential or to an end point are skipped; non-trivial: a ray or pair with at least one crossing",
   ["curved_edge hit 2 times", "curved_edge hit 1 times", "curved_edge hit 0 times", "segment hit 1 times", "rays from inside a face", "rays from outside a face",
    "edge pairs with 0 common points", "edge pairs with 1 common points", "edge pairs with 2 common points", "edge pairs meeting at a vertex"],
   ["edge pairs with more than two common points are outside the documented result range and are not judged"])

check("C12", [
    {"name": "contain", "harness": "h_contain", "cases": (12000, 300000)},
], "faces of the four types (float and double) taken from random conforming meshes, queried at points inside, outside, near edges and vertices, on chord lines and between an edge and its chord, against the winding number of the boundary; whole-mesh location against the single face that winds around the point; points on an edge are only required to be handled; non-trivial: a judged face/point pair",
   ["triangle inside", "quad outside", "curved_triangle inside", "curved_quad inside", "curved_quad outside", "mesh points inside", "mesh points outside", "points on the boundary (only safety)"],
   ["curved faces bend moderately: at each corner the tangents and chords of both edges form a convex corner"])

check("C13", [
    {"name": "modular", "harness": "h_modray", "cases": (200000, 4000000)},
], "random boxes (any position, aspect ratio up to 500), angles (quadrature-like, near an axis, random, both quadrants) and spacings (coarser than the box down to 1/300 of it), float and double; every ray of every set is followed to its exit in extended precision; non-trivial: a set of more than two rays",
   ["first quadrant", "second quadrant", "more than two rays", "coarsest possible"])

check("C14", [
    {"name": "grids", "harness": "h_grid", "cases": (200000, 4000000)},
], "random 1-3 dimensional regular grids (also built from a box), rectilinear grids from shuffled noisy box sets, and id pictures; all cells enumerated, query points and boxes inside, outside, on and close to divisions and very far away; non-trivial: a distinct grid",
   ["points inside", "points outside", "points on a division", "ranges overlapping", "ranges missing", "regular grids from a box", "rectilinear grids from boxes", "id pictures"],
   ["a cell that only touches the query box may or may not be reported"])

check("C15", [
    {"name": "histories", "harness": "h_soup", "cases": (60000, 1500000), "leaks": True},
], "random editing histories (3-60 operations over three meshes: vertices, elements of up to seven types, named sets with and without data, rejected sets, translate, sort, merge incl. with itself and with empty meshes, subset, compare with a copy and with a copy differing in one thing) against a plain model; non-trivial: a history with a merge and a subset extraction",
   ["merges", "merges with itself", "merges of an empty mesh", "subsets", "subsets meeting several sets", "rejected sets",
    "differences of kind 0", "differences of kind 2", "differences of kind 4", "differences of kind 5", "differences of kind 6"],
   ["sets are sorted by name before merging, as the merge requires", "a set that exists in both merged meshes carries data in both or in neither"])

check("C16", [
    {"name": "roundtrip", "harness": "h_xdmf", "cases": (12000, 250000)},
], "random meshes (1-800 vertices, planar or not, extreme coordinates; one or several element types; 0-6 overlapping, sparse or data-carrying sets) written to absolute and relative paths in several directories, often over an existing file; both files read independently (xml and HDF5) and by the library; files of other integer/real widths read too; non-trivial: a round trip of a mesh with two or more sets",
   ["planar meshes", "3d meshes", "mixed meshes", "meshes of type 5", "meshes of type 9", "meshes of type 22", "meshes of type 23", "sets with data", "sparse sets", "relative paths", "files with other widths", "meshes placed at an origin"],
   ["meshes have at least one element; a mesh of one element type uses a type the format names (not single vertices or two-node lines)",
    "an out-of-plane coordinate below the geometric tolerance everywhere is dropped by design"])

check("C17", [
    {"name": "import", "harness": "h_import", "cases": (30000, 600000), "leaks": True},
    {"name": "import-noassert", "harness": "h_import", "cases": (10000, 200000), "variant": NOASSERT},
], "text files of both formats generated from a model: 1-400 nodes in nine number notations, 1-4 element blocks or mixed cells, 0-5 sets or arrays, varying blanks, indentation, comments between and inside sections, values per line, optional trailing commas, blank lines and headings; unreadable and unknown files; non-trivial: a distinct file with at least one set or array",
   ["inp files", "vtk files", "rejected files", "comments inside sections", "lists without final comma", "several points per line", "several arrays under one heading", "no blank lines", "very long lines", "files without final newline"],
   ["nodes and elements of the first format are numbered 1, 2, 3, ... in file order, keywords are spelt as mesh generators spell them, and sets are listed in ascending order",
    "cells have 3, 4, 6 or 8 nodes (the type is implied by the number of nodes)"])

check("C18", [
    {"name": "convert", "harness": "h_convert", "cases": (40000, 1000000), "leaks": True},
], "random conforming meshes of the four face types (1-288 faces, at offsets up to 1000 sizes, rotated, shuffled numbering) put through histories of 1-6 renumberings, list requests and conversions (also lifted and warped out of plane); the multiset of faces and vertices is compared exactly after each step, lists against a recount, order against a Z curve over the mesh box; non-trivial: a distinct history on more than two faces",
   ["meshes of 3-node faces", "meshes of 4-node faces", "meshes of 6-node faces", "meshes of 8-node faces", "vertex renumberings", "face renumberings", "vertex-face lists", "lists kept through a renumbering", "projected meshes", "lifted meshes"])

check("C19", [
    {"name": "trace", "harness": "h_trace", "cases": (20000, 800000), "leaks": True},
], "random conforming meshes of the four face types (1-200 faces, offsets up to 1000 sizes), six rays each (aimed, axis-parallel, from inside, pointing away, nearly along an edge), with crossings, sorted chain, lengths and midpoints compared to extended-precision crossings and winding numbers; synthetic chains with rounding-level overlaps sorted; rays within rounding of a vertex or tangency are skipped; non-trivial: a ray with three or more segments",
   ["rays traced", "rays missing the mesh", "rays starting inside", "rays nearly along an edge", "segments located", "chains sorted", "faces crossed more than twice",
    "meshes of 3-node faces", "meshes of 4-node faces", "meshes of 6-node faces", "meshes of 8-node faces"],
   ["the place in the sorted order is not judged for a face that holds the ray's origin and is entered again (sorting expects an even number of crossings)"])

check("C20", [
    {"name": "validate", "harness": "h_validate", "cases": (12000, 200000)},
], "random conforming meshes of the four face types with nothing wrong or with injected defects (faces removed, repeated, given unshared nodes, patches cut out, second pieces, clockwise faces), verdict from directed edge counts and boundary loops; meshes with strongly bent edges, whose crossings before and after are found by dense sampling; non-trivial: a defective or partly clockwise mesh",
   ["sound meshes", "meshes with overlap", "meshes with boundary touches itself", "meshes with several boundaries", "meshes with clockwise faces", "bent meshes without crossings", "crossings reported", "crossings repaired"],
   ["edges with more than two common points are outside the documented range"])

check("C21", [
    {"name": "material", "harness": "h_material", "cases": (60000, 1500000), "leaks": True},
], "every element symbol with random mass numbers in both spellings; materials of 1-12 nuclides from the documented list given by number density, weight or atom fraction, in several orders; oxide fuel over enrichment 0-0.98 and gadolinia 0-1; eleven kinds of invalid composition; compared with an extended-precision mass balance over reference masses; non-trivial: a distinct material of two or more nuclides",
   ["identifiers", "unknown identifiers", "weight-fraction materials", "atom-fraction materials", "number-density materials", "oxide fuels", "oxide fuels without enrichment", "oxide fuels with gadolinia", "invalid compositions"],
   ["reference masses agree with the library's to 1e-5", "weight and atom fractions are positive; uranium enrichment leaves a non-negative remainder of U-238"])

check("C22", [
    {"name": "xsec", "harness": "h_xsec", "cases": (30000, 600000), "leaks": True},
], "nuclides with 1-7 temperatures (some fissile at some temperatures only) interpolated below, at, between and above them; libraries of 1-8 nuclides mixed; random and benchmark data collapsed; 1-60 groups; all against extended precision evaluation; non-trivial: a mixture of two or more nuclides or a collapse of two or more groups",
   ["temperatures inside the table", "temperatures outside the table", "tabulated temperatures", "fissile mixtures", "mixtures without fission", "collapsed cross sections", "benchmark materials"],
   ["total scattering equals the sum of the scattering matrix column; at an exactly tabulated temperature the fissile flag may come from either neighbouring table"])

check("C23", [
    {"name": "library", "harness": "h_xslib", "cases": (6000, 120000), "leaks": True},
    {"name": "library-noassert", "harness": "h_xslib", "cases": (2000, 40000), "variant": NOASSERT},
], "library files generated from a model: 1-260 groups, 1-7 nuclides, 1-6 temperatures, full, banded and absorption-only rows, several number notations and field widths, values per line, trailing blanks, lines of several thousand characters, unused sections; files that are not libraries; every number compared exactly; non-trivial: a distinct file",
   ["libraries", "libraries with banded scattering", "libraries with absorption-only rows", "libraries with trailing blanks", "libraries with very long lines", "fissile nuclides", "rejected files"],
   ["sections come in the documented order and the file is complete; temperatures of a nuclide fit on one line"])

check("C24", [
    {"name": "pins", "harness": "h_pin", "cases": (3000, 60000), "leaks": True},
    {"name": "pins-noassert", "harness": "h_pin", "cases": (1000, 20000), "variant": NOASSERT},
], "pins of 1-6 regions with 1-6 rings each, 8-256 azimuthal divisions, straight and curved edges, pitches over three decades and radii up to the largest that fits; rectangles of up to 40 x 40 faces; fifteen kinds of inadmissible input; area per ring, region and material, edge-to-edge conformity, orientation, boundary cover and point cover against extended precision; non-trivial: a distinct pin or subdivided rectangle",
   ["straight pin meshes", "curved pin meshes", "pin cells", "rectangular meshes", "pins that do not fit", "rejected pins", "points located"],
   ["an outermost ring whose straight or curved approximation of equal area leaves the cell does not fit"])

check("C25", [
    {"name": "core", "harness": "h_core", "cases": (5000, 120000), "leaks": True},
    {"name": "core-noassert", "harness": "h_core", "cases": (1500, 30000), "variant": NOASSERT},
], "cores of up to 3 x 3 assemblies, 4 axial slices, 3 x 3 modules per lattice and 3 x 3 cells per module, with repeated, renumbered and unplaced parts, meshes of all four face types, pins, rectangles and meshes shared by several cells; every element of the flattened mesh is attributed to a placed cell and compared with its face, materials and container sets; about thirty kinds of inconsistent layout; regular grids; reuse after clearing; non-trivial: a model with several parts at every level",
   ["models", "models with several parts at every level", "flattened elements", "rejected cell", "rejected module", "rejected lattice", "rejected assembly", "rejected core", "regular grids", "cleared models"],
   ["cells are much larger than the library's distance tolerance"])

check("C26", [
    {"name": "modelio", "harness": "h_modelio", "cases": (600, 12000), "leaks": True},
], "models as for nested layouts (all parts placed, ids in any order), written with and without cross section and Knudsen data, read back and compared part by part, axial planes exactly; the read model written and read again; volume, cross section and input summaries parsed independently; non-trivial: a model with several lattices or assemblies",
   ["models", "models whose lattice and assembly numbers differ", "volume summaries", "cross section summaries", "input summaries", "models written again", "models with unplaced parts"],
   ["material names contain no commas and do not start with a blank; every part of the model is placed (see the known finding otherwise)"])

check("C27", [
    {"name": "homogenisation", "harness": "h_homog", "cases": (6000, 150000), "leaks": True},
], "cells with up to 100 faces of all four types, pins and rectangles, 1-120 materials and 1-40 groups, random and striped assignments: every averaged quantity against an extended-precision area-weighted sum; material volumes of whole models with axial slices; non-trivial: a cell with several materials",
   ["averaged cells", "averaged cells with several materials", "volume summaries"],
   ["all materials have the same number of groups"])

check("C28", [
    {"name": "import", "harness": "h_ccimport", "cases": (8000, 150000), "leaks": True},
    {"name": "import-noassert", "harness": "h_ccimport", "cases": (2500, 50000), "variant": NOASSERT},
], "1-120 declared cells of equal or different sizes or a regular grid, filled from mesh files of two formats with the four face types, 1-7 materials, vertices, elements and sets in any order, cells anywhere in the plane, unrelated sets, repeated imports; files with a missing cell, a cell of another size, an unknown material or a face without material; non-trivial: an import of several cells and materials",
   ["imported cells", "inp files", "xdmf files", "regular grids", "cells of type 0", "cells of type 1", "cells of type 2", "cells of type 3", "cells imported again",
    "files with missing cell", "files with cell of another size", "files with unknown material", "files with face without material"],
   ["a face belongs to one cell and one material; sets are listed in ascending order; sizes differ by at least a percent when they differ"])

check("C29", [
    {"name": "powers", "harness": "h_powers", "cases": (8000, 200000), "leaks": True},
    {"name": "powers-noassert", "harness": "h_powers", "cases": (1500, 40000), "variant": NOASSERT},
], "output files of two formats with 1-160 faces of the four types in one to four pieces, conforming or with unshared and slightly moved vertices, power everywhere, in rings, stripes, blobs, sparse or nowhere; regions from a union-find over vertices, powers and centres in extended precision; sources of 1-120 groups and 1-6 materials; cases with vertices between 2e-6 and 1e-3 apart are skipped; non-trivial: a file with a region of several faces",
   ["files", "vtk files", "xdmf files", "several regions", "many regions", "meshes with gaps", "files without power", "source extractions",
    "meshes of 3-node faces", "meshes of 4-node faces", "meshes of 6-node faces", "meshes of 8-node faces"],
   ["all faces of a file have one type and every face has a value"])

check("C30", [
    {"name": "capi", "harness": "h_capi", "cases": (800, 16000), "leaks": True},
    {"name": "capi-noassert", "harness": "h_capi", "cases": (200, 4000), "variant": NOASSERT},
], "random models (up to 2 x 2 assemblies, 4 axial slices, all mesh types) written once and loaded through both interfaces, one or two at a time; sixty random queries each over every function, into exactly sized buffers, compared with the C++ answer bit by bit and with the model's description; requests for cells, modules, lattices, assemblies, positions and faces that do not exist; leak checking; non-trivial: a model with several lattices and cells",
   ["models", "layout queries", "cell queries", "rays with hits", "face data arrays", "height tables", "height tables with several heights", "assembly heights", "invalid requests", "models deleted while others are used"],
   ["invalid requests are judged in builds with run-time checks; height tables are judged when distinct heights differ by more than 1e-3"])

check("C31", [
    {"name": "logger", "harness": "h_logger", "cases": (60000, 1500000), "leaks": True},
    {"name": "logger-noassert", "harness": "h_logger", "cases": (30000, 600000), "variant": NOASSERT},
], "sequences of 1-8 messages of 29 shapes (up to twenty parts of every loggable type, extreme numbers, texts of 0-20000 characters with format and escape characters) at random levels, thresholds, colours, timestamps (elapsed times up to 100 hours), through functions and macros; both output streams compared line by line; messages in a child process that must or must not end it; non-trivial: a sequence with two or more emitted messages",
   ["emitted messages", "suppressed messages", "messages longer than the limit", "terminating errors", "messages that must not terminate"],
   ["texts contain no line breaks or NUL characters; at least 200 characters of a longer message are kept"])

check("C32", [
    {"name": "gmsh", "harness": "h_gmsh", "cases": (1500, 30000)},
], "1-6 overlapping, nested, touching or apart rectangles, disks, boxes, cylinders and spheres with 0-3 labels each through the three combining operations with all settings for kept shapes and material priorities, invalid requests, labelled curves and points, saving and opening (with and without the extra file), colours, single pins, pin lattices up to 4 x 4 and coarse grids over plane and solid geometry; labels of random points and points sampled in every resulting piece against membership in the original shapes, measures against closed forms or the sum of the pieces; points within 1e-3 of a boundary are skipped; non-trivial: an arrangement with several shapes and labels",
   ["coloured pieces", "cut operations", "fragment operations", "intersect operations", "labelled curves", "labelled points", "labels extended",
    "measures of labels", "operations on areas", "operations on volumes", "overlaid grids", "overlaid solids", "pin lattices", "points", "points in grids",
    "points in lattices", "points in models with kept shapes", "points in overlaps", "points in solids", "rejected operations", "saved and opened models",
    "single pins"],
   ["arrangements the geometry kernel itself gives up on are skipped", "label names contain no quotes"])

check("C35", [
    {"name": "workflow", "harness": "h_workflow", "cases": (400, 5000)},
], "pin lattices up to 3 x 3 with 0-3 rings under a coarse grid of their own pitch or of up to 4 x 4 cells, filled with a material, meshed one to three times in a session with straight and curved triangles, with one size or sizes from mean free paths, written, and loaded into a core model with materials in random order: kinds of elements, areas, one face and its material at 25 random points per cell; rows of 1-4 rectangles with sizes from mean free paths with and without growth away from fuel and into absorbers: average element size per region against the prescribed size; requests that must be refused; points closer to a circle than the chord error are skipped; non-trivial: every completed mesh",
   ["points", "cells", "meshes of triangles", "meshes of curved triangles", "meshes after another mesh", "sizes from mean free paths", "refused sizes",
    "regions with prescribed size", "regions sized by their distance to fuel", "absorbers sized by their depth", "uniform sizes after prescribed ones"],
   ["the installed mesher fails on every quadrilateral mesh, so only triangles are requested", "material names contain no blanks", "curved faces the mesher leaves tangled are not judged"])

check("C36", [
    {"name": "validation", "harness": "h_valid", "cases": (12000, 240000)},
], "cross sections of 1-12 groups per atom or per volume, nuclides with 1-6 temperatures and materials with 1-8 nuclides, each validated sound and with one of 32 kinds of fault at a random place, alone and inside the enclosing object; non-trivial: a distinct fault",
   ["sound data", "errors expected", "warnings expected", "cross sections", "nuclides", "materials"],
   ["values that are not numbers are not judged; negative values per atom are accepted, as data libraries contain them"])

check("C37", [
    {"name": "refusals", "harness": "h_refuse", "cases": (4000, 60000), "variant": NOASSERT},
], "mesh files, text meshes, data libraries, model files, conversions, model requests and solid modeller requests, each sound (must be accepted) or with one of about 130 kinds of fault at a random place (must be refused), in a separate process with the default settings; non-trivial: a distinct fault",
   ["refused: mesh file", "refused: text mesh", "refused: data library", "refused: conversion", "refused: model file", "refused: model request",
    "accepted: mesh file", "accepted: text mesh", "accepted: data library", "accepted: conversion", "accepted: model file", "refused: modeller request", "accepted: modeller request"],
   ["only faults of structure, kind, count and size are injected; a wrong number inside sound data is not a fault the reader could see; a missing data file may also be refused by an exception"])

check("C38", [
    {"name": "elementary", "harness": "h_elem", "cases": (40000, 1500000)},
], "numbers of both precisions over their whole range, including zeros, infinities and neighbours of integers and multiples of a quarter turn; random pairs, byte sequences and colours; non-trivial: a distinct finite argument",
   ["functions", "pairs", "bytes", "colours"],
   ["functions may be off by four units in the last place; sine and cosine of huge arguments are only checked to lie on the unit circle"])

check("C39", [
    {"name": "lifecycle", "harness": "h_life", "cases": (400, 8000)},
], "histories of 1-8 starts and stops through the C and C++ interfaces, changed settings and created solids, each in a separate unprivileged process; non-trivial: a distinct history",
   ["histories"],
   ["output goes to a file, never to a terminal"])

check("C40", [
    {"name": "forward", "harness": "h_gmshfwd", "cases": (3490, 349000)},
], "each of the 349 wrapped functions of the mesher is called with random arguments of its types and with every number of trailing arguments left out, the mesher being replaced by recording stand-ins that answer with random results; non-trivial: a distinct pair of arguments and results",
   ["calls", "defaults", "results"],
   ["the mesher's own header says which values omitted arguments have; functions of the mesher that the library does not offer are not called"])

check("C33", [
    {"name": "threads-tsan", "harness": "h_threads", "cases": (150, 9000), "variant": {"san": "tsan"}},
    {"name": "threads", "harness": "h_threads", "cases": (300, 15000)},
], "2-6 threads start together and run 8-24 queries each, in the same or different orders, on shared models, meshes of all four types, grids, materials, a data library and a flattened mesh, and build, edit and query objects of their own; results compared bit by bit with a later single-threaded run on separately built objects, so that nothing is warmed up before the threads use it; non-trivial: every group of threads",
   ["concurrent results", "groups of threads"],
   ["messages are switched off; files are not read or written by several threads at once; interleavings are those the scheduler happens to produce"])
