"""Assembles DESIGN.md from tools/design_head.md, the check table, known_findings.txt,
the notes below, tools/design_tail.md and the seeded changes' meta files."""
import glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS

# id: (oracle, why it reaches what unit tests cannot, approximate quick / thorough seconds on 8 cores)
NOTES = {
"C01": ("`std::vector` replayed operation by operation; live-object counting element types (construct/destroy balance, self-pointer check for moved objects); ASan/LSan.",
        "Unit tests call each member once on a fresh array of two or three element types. Aliasing arguments, reallocation in mid-history, self assignment and non-trivial element types only meet in long histories.", "10/100"),
"C02": ("`std::string`/`std::string_view` after every operation, including the terminator; views lie in heap buffers of exactly their size, so that one character too many is an ASan report.",
        "The switch between inline and heap storage and bytes above 0x7f are not exercised by tests with a handful of literals.", "8/80"),
"C03": ("`std::sort`, `std::stable_sort`, `std::min_element`, ... on the same range; sorting networks enumerated over every weak ordering.",
        "Duplicates, empty ranges and overlapping copies are decided over all orderings rather than one example.", "8/60"),
"C04": ("A bit-by-bit interleaving loop; the same in a build without BMI2.",
        "Hardware and portable code are never compared by the tests, which see only the configured one.", "10/60"),
"C05": ("Roots chosen first, equation derived in long double, roots polished in long double; tolerance from the root's condition number.",
        "Tests use a few equations; cancellation, multiple roots and vanishing leading coefficients need families.", "4/40"),
"C06": ("Naive long double linear algebra; residuals for solves and eigenvalues; inputs compared before and after; outputs pre-filled with noise.",
        "Build variants without BLAS and without vector extensions run the same cases; tests run in one configuration and with square shapes.", "15/120"),
"C07": ("Compensated long double summation, definitions of mean/median/variance; bound of pairwise summation.",
        "Errors appear only past the block size of the summation and with large offsets.", "4/30"),
"C08": ("Coordinate comparison; slab clipping in long double; exact extrema of each quadratic.",
        "Axis-parallel rays with either sign of zero and edges whose extremum lies outside the vertex hull are corner cases of a continuous family.", "15/120"),
"C09": ("Dense sampling and polished minimisation along the parametrisation in long double; Gauss-Legendre lengths and areas.",
        "Seven families include nearly straight and off-centre edges, where closed forms divide by small numbers.", "5/100"),
"C10": ("Green's theorem over the exact quadratic boundary in long double.",
        "Random start corner, orientation, scale and offset; tests check one reference face per type.", "3/40"),
"C11": ("Roots of the ray/edge polynomial and resultant-free subdivision for edge pairs in long double, with a three-valued verdict near tangencies and end points.",
        "A missed or invented crossing occurs in a small part of a continuous space.", "15/300"),
"C12": ("Winding number of the finely subdivided boundary; in a mesh, the single face that winds around the point.",
        "Points between an edge and its chord and on the chord's line are not in the tests.", "12/160"),
"C13": ("Every ray of every set followed to its exit in long double, exits matched with entries of the translated/reflected copy, track area summed.",
        "The tests check the spacing of a few angles on one box at the origin.", "5/30"),
"C14": ("Enumeration of all cells and comparison of coordinates, three-valued on divisions.",
        "Very far query boxes, division points, shuffled noisy box sets and uneven pictures are generated.", "5/30"),
"C15": ("A plain model (vectors of points, element tuples, map from name to members and data) that executes the same history.",
        "Merging, extraction and sorting interact: tests use one mesh and one operation each.", "5/50"),
"C16": ("The model, an independent XML/HDF5 reader (sizes, names, values), and the library's own reader.",
        "Extreme coordinates, sparse sets, overwriting older files, relative paths, foreign widths.", "12/120"),
"C17": ("The model from which the text was written.",
        "Tests import files of one generator's layout. The freedom of the formats (line breaks, comments, notation, order) is generated.", "12/95"),
"C18": ("Exact multiset of faces by vertex coordinates; recount of vertex-face lists; reference Z-order over the mesh box.",
        "Meshes away from the origin, shuffled numbering and several operations in a row.", "10/120"),
"C19": ("Long double crossings with every edge, winding numbers of the midpoints, sum of lengths.",
        "Curved faces crossed more than twice, rays starting inside, rounding-level overlaps.", "15/290"),
"C20": ("Directed edge counts, boundary loops and connected components of the generated mesh; crossings by dense sampling before and after; the documented repair is simulated, and where it clearly removes the only crossing the mesh must be accepted.",
        "Defects are injected in arbitrary sound meshes; tests have one hand-made mesh per defect.", "15/210"),
"C21": ("Mass balance in long double over a table of reference masses.",
        "Order independence and the corners of the enrichment range are families.", "3/10"),
"C22": ("Direct evaluation of the definitions in long double.",
        "Tests use the bundled benchmark data only.", "4/20"),
"C23": ("The model from which the library file was written; comparison is exact.",
        "Number of groups, banded rows and line lengths other than those of the one shipped file.", "12/120"),
"C24": ("Closed-form ring areas; edge pairing, orientation, boundary cover and winding numbers of the produced mesh.",
        "Tests check vertices of a few pins; conformity and equal areas hold over a family of radii, rings and divisions.", "15/275"),
"C25": ("Each element of the flattened mesh attributed to a placed cell by the generator's description and compared with its face, materials and sets.",
        "Several parts on every level with renumbering and repeated placement at once.", "18/300"),
"C26": ("Part-by-part comparison of original and re-read model; independent parse of the summaries.",
        "Lattice and assembly numbering, planes with more digits than printed, unused materials.", "26/300"),
"C27": ("Area-weighted long double sums, areas from boundary integration.",
        "Many materials and groups per cell; independent area computation.", "15/250"),
"C28": ("The description from which the file was written.",
        "Order of sets, elements and materials and position of cells are random; faulty files are derived.", "40/600"),
"C29": ("Union-find over shared vertices, long double sums.",
        "Region growing over arbitrary shapes, with gaps and moved vertices.", "27/600"),
"C30": ("The C++ answer, bit by bit, and the description of the model; exactly sized heap buffers under ASan; LSan for ownership.",
        "Tests call each C function once on one model.", "54/600"),
"C31": ("Expected lines assembled independently; both streams captured through pipes; child processes for termination.",
        "Lengths around and beyond the limit, all part types and all settings.", "21/300"),
"C32": ("Membership of points in the generated primitive shapes decides the labels; closed-form measures.",
        "Overlap topologies, kept shapes and priorities are combined at random; tests have fixed arrangements.", "10/165"),
"C33": ("ThreadSanitizer for races; comparison with a single-threaded run on separately built objects.",
        "No unit test uses threads.", "27/500"),
"C34": ("`strtod`/`strtol`, the generator's lattice, arithmetic on the label's number.",
        "All ids and carries rather than examples.", "5/60"),
"C35": ("Point location in the written mesh against the geometry description; average element size per region against the documented formula.",
        "Covers sequences of meshes within a session and the whole chain from geometry to model.", "40/800"),
"C36": ("The fault each case injects decides which message level is due; a textual dump before and after shows changes; AddressSanitizer sees reads outside malformed data.",
        "Every fault at every place instead of sound data only.", "5/60"),
"C37": ("A sound file or request must pass without an error; the same with one injected fault, run in a forked process under the default settings, must print an error and must not be reported by a sanitizer (assertions compiled out, as in a release build).",
        "The refusing branches of the readers are not reached by any test, and reading past a short array needs the sanitizer to be seen.", "20/360"),
"C38": ("Values computed in extended precision with the C library, lexicographic order of tuples, `memcmp` and `strlen` on heap blocks of exact size, and a table of the named colours; a few units in the last place are allowed.",
        "One or two points per function are tested; exchanged functions often agree there (both roots of 1 are 1).", "2/30"),
"C39": ("A model of the documented state (running or not, settings, solids) is advanced with each step and compared with what the library and the mesher report; each history runs in a forked, unprivileged process under AddressSanitizer.",
        "Repetition, mixed interfaces and stops without a start need a process each.", "5/60"),
"C40": ("The harness defines the mesher's functions itself as recording stand-ins (the executable's definitions take precedence over the shared library's): each notes its name and inputs and answers with random outputs. Name, number of calls, inputs, outputs and returned value are compared with the caller's side for every number of omitted arguments; expected defaults come from the mesher's header. The stand-ins are written by `tools/gen_gmshfwd.py` from both headers.",
        "349 functions forward up to 15 arguments of equal types; tests touch a few of them and with values for which an exchange is invisible.", "1/13"),
}

def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    known, fixed = {}, {}
    for line in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m: known.setdefault(m[1], []).append((m[2], m[3]))
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
        if m: fixed.setdefault(m[1], []).append((m[2], m[3]))
    out = [open(os.path.join(ROOT, "tools/design_head.md")).read().rstrip(), "",
           "## The properties", "",
           "Cost is wall time on 8 idle cores once the library is compiled (quick / thorough, seconds).",
           "Every bound below is a sampling bound: a check explores, it does not prove.", ""]
    for p in props:
        i = p["id"]
        c = CHECKS[i]
        oracle, why, cost = NOTES[i]
        q, t = cost.split("/")
        out += ["### %s %s" % (i, p["title"]), ""]
        runs = []
        for r in c["runs"]:
            runs.append("`%s` %s (%d / %d cases)" % (r["harness"], r["name"], r["cases"][0], r["cases"][1]))
        out += ["- **Generated and monitored:** %s." % c["rule"],
                "- **Oracle:** %s" % oracle,
                "- **Bounds and cost:** %s; about %s s / %s s." % (", ".join(runs), q, t),
                "- **Beyond the tests:** %s" % why]
        if c["assumptions"]: out += ["- **Assumptions:** %s." % "; ".join(c["assumptions"])]
        for h, w in fixed.get(i, []): out += ["- **Fixed defect** (%s): %s." % (h, w)]
        for k, w in known.get(i, []): out += ["- **Known finding** (`%s`): %s." % (k, w)]
        out += [""]
    out += [open(os.path.join(ROOT, "tools/design_tail.md")).read().rstrip(), "",
            "## Seeded changes", "",
            "Written from the property text and the code; each compiles, passes the 166 stable tests and is",
            "shown by its `demo.sh`. The last column is the check that reported it.", "",
            "| id | property | needs | breaks | reported by |", "|---|---|---|---|---|"]
    caught = json.load(open(os.path.join(ROOT, "tools/seeded_results.json")))
    for m in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
        s = os.path.basename(os.path.dirname(m))
        j = json.load(open(m))
        out += ["| %s | %s | %s | %s | %s |" % (s, j["property"], j["needs"], j["what_it_breaks"], caught.get(s, "not yet run"))]
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
main()
