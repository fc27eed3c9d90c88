#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept in one place so that they stay in step)."""
import json, os
H = "src/include/"
V = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(pid, title, statement, over, text, why, files, mech, tech, note="", state=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=["public API calls and their results", "process exit status and diagnostics", "sanitizer reports"], hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), tech, note))


def C(n):
    return H + "containers/%s.h" % n


prop("C01", "Sequence containers behave exactly like ordinary sequences",
     "For every history of operations, a vector or list of any element type holds exactly the elements an ideal sequence would hold after the same operations (insertion and removal at any position and at both ends, replacement, clearing; for lists also reversing, and sorting and merging two lists, which keep equal elements in their order), in the same order, and every query (size, emptiness, element access, comparison, iteration, conversion to the standard container) answers as the ideal sequence would. Copies and assigned values are independent of their source, including self-assignment and values taken from the container itself. No history of valid operations reads or writes outside live objects, leaks an element, or destroys one twice.",
     ["histories", "inputs"], "all finite histories of valid operations over several interacting containers, all element types with value semantics",
     "The tests run a handful of fixed short histories on ints; they do not reach long mixed histories, aliasing, self-assignment or element lifetime accounting.",
     [C("Vector"), C("List")], [("Vector forwards to std::vector with bounds checks", C("Vector")), ("List forwards to std::list with positional insertion/removal", C("List"))],
     "runtime monitoring: online model comparison under ASan/UBSan/memcheck")
prop("C02", "Maps, multimaps, sets and multisets behave like their mathematical model",
     "For every history of operations, an ordered map, multimap, set or multiset holds exactly the associations or elements its mathematical model holds, with the right multiplicities, and every lookup, count, membership test, removal, comparison and iteration agrees with the model; iteration is in ascending key order. Copies are independent of their source. No valid history causes a memory error or a leak.",
     ["histories", "inputs"], "all finite histories of valid operations over several interacting containers",
     "The tests sample a few insertions and lookups; duplicates, removal of absent keys, mixed operand aliasing and long histories are not explored.",
     [C("Map"), C("MultiMap"), C("Set"), C("MultiSet")], [("wrappers over std::map/multimap/set/multiset", C("Map")), ("element-wise forwarding", C("Set"))],
     "runtime monitoring: online model comparison under ASan/UBSan/memcheck")
prop("C03", "Queues are FIFO and stacks are LIFO, with nothing lost or duplicated",
     "Over every history, values leave a queue in exactly the order they entered and leave a stack in exactly the reverse order, each accepted value leaving exactly once. Size, emptiness and the front/back/top observations always agree with that order, also across copying, assignment, clearing and container-wide equality tests.",
     ["histories"], "all finite histories of enqueue/dequeue/push/pop/clear/copy, of any length",
     "Order and exactly-once over arbitrary long histories with growth and shrinkage phases cannot be settled by the few fixed sequences tested.",
     [C("Queue"), C("Stack")], [("wrappers over std::deque/std::stack", C("Queue"))],
     "runtime monitoring: event-log conservation and order checker under sanitizers")
prop("C04", "Invalid use is rejected with a diagnostic and a failure exit; valid use never is",
     "Every call the documentation makes invalid - an index outside a container, reading or removing from an empty container, fetching a missing key, a zero denominator, an inverted or empty random range, or an out-of-range distribution or combinatorial parameter - ends the process with a non-zero exit status and a diagnostic on the error stream before anything undefined happens. Calls with arguments on the valid side of each boundary are never rejected.",
     ["inputs"], "all invalid and all boundary-valid arguments of all checked operations",
     "A test process that exits cannot assert; the suite does not observe rejections at all, so a dropped or off-by-one guard passes it.",
     [H + "utils/error.h", C("Vector"), C("List"), C("Queue"), C("Stack"), C("Map"), "src/random", H + "math_utils/Fraction.h", H + "math_utils/math_functions.h"],
     [("error(): print and exit(EXIT_FAILURE)", H + "utils/error.h"), ("range checks", C("Vector")), ("parameter checks in init()", "src/random")],
     "runtime monitoring: hooked exit() plus forked real exits, diagnostics captured", "exit() of the library is intercepted by a force-included macro; each kind is also run once in a forked child with the real exit().")
prop("C05", "A vector written to a stream reads back equal; malformed text is rejected",
     "For every vector of integers of any width, characters, floating-point numbers, or nested vectors of them, writing it to a text stream and reading it back gives an equal vector (floating-point elements to the significant digits the stream prints, six by default; in whatever number base and precision is set on the stream), replacing whatever the target held, however the text is re-spaced between tokens and whatever other text follows it. Text that is not a well-formed vector is rejected with a diagnostic and failure exit; reading always terminates and never causes a memory error.",
     ["inputs"], "all vectors of supported element types and all texts",
     "The tests read and write a few literal vectors; malformed and hostile texts are not tried.",
     [C("Vector")], [("operator<< / operator>>", C("Vector"))], "runtime monitoring: round-trip oracle and hostile text under sanitizers")
J = ["src/json/Json.cpp", "src/json/json_functions.cpp", H + "json/Json.h", H + "json/json_functions.h"]
prop("C06", "Every JSON value survives being dumped to text and loaded back",
     "For every JSON value that can be built through the API - any nesting, any string bytes, any keys, integers, finite floats, booleans, null - its text form, at any indentation, is a JSON text that denotes exactly that value (quotes, backslashes and the control characters that have a short escape are escaped; other bytes are written as they are), and loading that text gives an equal value. Dumping does not change the value.",
     ["inputs"], "all JSON values constructible through the API (nesting up to the stack)",
     "The tests check a few literal texts; escapes in keys and strings, control characters, extreme numbers and deep nesting are not covered.",
     J, [("dump()", "src/json/Json.cpp"), ("loadJSON()", "src/json/Json.cpp"), ("jsonEscape()", "src/json/json_functions.cpp")],
     "runtime monitoring: round-trip oracle with an independent JSON reader under sanitizers")
prop("C07", "Every valid JSON document loads to the value it denotes",
     "Loading any well-formed JSON document (integers within int range, floats within double range) gives the value the document denotes: the same structure, keys, array order, booleans, nulls and numbers, and strings whose escapes are understood, whatever whitespace, escape spelling and number spelling the document uses. Four-digit unicode escapes are kept as the text they are written with. When a key is repeated in an object the last value counts.",
     ["inputs"], "all well-formed JSON documents with integers in int range",
     "The parser is driven by a handful of literals; spelling variety (exponents, whitespace, escapes, empty containers, nesting) is an infinite input space.",
     J, [("recursive-descent loader", "src/json/Json.cpp")], "runtime monitoring: differential check against an independent JSON reader under sanitizers",
     "four-digit unicode escapes are kept in escaped form by the library and compared in that form.")
prop("C08", "Loading any text terminates safely, and text that is not JSON is rejected",
     "For every byte string (nesting depth up to 1000), loading it as JSON terminates without any memory error or undefined behaviour, and either yields a value or ends with a diagnostic and failure exit. Truncated documents and text with mismatched brackets, unterminated strings, keys that are not strings, missing separators, unknown words, broken unicode escapes, numbers with misplaced signs, two points, no digits or an incomplete exponent, or anything after the value are rejected; valid documents are never rejected, and near-JSON spellings (leading zeros, a point without digits on one side, unknown escapes) may be accepted.",
     ["inputs"], "all byte strings with nesting at most 1000",
     "Tests feed only valid documents.", J, [("error() on unexpected characters", "src/json/Json.cpp")],
     "runtime monitoring: hostile inputs and coverage-guided fuzzing under ASan/UBSan with hang watchdog")
prop("C09", "JSON values have value semantics and containers of them behave like models",
     "Over every history of construction, copying, moving, assignment (also of a part of a value to the whole and of a value to itself), appending, indexing, key access and change of kind, each JSON value equals its model after every step, and changing one value never changes an unrelated copy. Typed access returns the stored value, iteration visits each element or key exactly once, and reading a missing element through a read-only value is rejected.",
     ["histories"], "all finite histories over several interacting JSON values",
     "Aliasing and ownership histories (self/sub-object assignment, kind change with live references) are not sampled by the tests.",
     J, [("copy/move constructors, operator=, clear()", "src/json/Json.cpp"), ("operator[], at, append, ranges", H + "json/Json.h")],
     "runtime monitoring: online model comparison under ASan/UBSan/memcheck")
prop("C10", "Base64 round-trips every byte string and matches RFC 4648",
     "For every byte string, including zero and high bytes and every length, the base64 encoding is the RFC 4648 encoding with padding and decoding it returns the original bytes exactly. A requested output length pads the encoding with '=' to exactly that length; a length the encoding does not fit in gives an empty result. Decoding arbitrary text never causes a memory error.",
     ["inputs"], "all byte strings and lengths",
     "A few ASCII literals are tested; zero bytes, high bytes and all residues of length are not.", ["src/base64/base64_functions.cpp", H + "base64/base64_functions.h"],
     [("base64Encode/base64Decode", "src/base64/base64_functions.cpp")], "runtime monitoring: reference comparison under ASan/UBSan")
prop("C11", "URL encoding round-trips and emits only URL-safe characters",
     "For every byte string, URL encoding keeps letters, digits and the unreserved marks, writes every other byte as a percent sign and two uppercase hexadecimal digits, and decoding returns the original bytes. Decoding accepts any spelling (either case of hex digits, any byte escaped or literal, a plus sign for a space), and truncated or malformed escapes never cause a memory error.",
     ["inputs"], "all byte strings", "A few literals are tested.", ["src/network/network_functions.cpp", H + "network/network_functions.h"],
     [("urlEncode/urlDecode", "src/network/network_functions.cpp")], "runtime monitoring: reference comparison under ASan/UBSan")
prop("C12", "Substring search and edit distance are exact",
     "Substring search returns the smallest index at or after the requested start where the pattern occurs, or -1 when there is none, for every text, pattern and start. Edit distance returns the minimal number of single-character insertions, deletions and substitutions, symmetric in its arguments.",
     ["inputs"], "all texts, patterns, start positions and string pairs", "The tests use a few literals; self-similar patterns that exercise the failure function are not.",
     ["src/algorithm/kmp.cpp", "src/algorithm/edit_distance.cpp", H + "algorithm/algorithm_functions.h"], [("kmpSearch failure table", "src/algorithm/kmp.cpp"), ("editDistance dynamic programme", "src/algorithm/edit_distance.cpp")],
     "runtime monitoring: naive reference comparison under ASan/UBSan")
prop("C13", "Zip, map and filter combine containers element by element, in order",
     "Zipping any number of containers yields, in order, exactly the groups of corresponding elements, ending with the shortest container. Mapping applies the function to every element exactly once, in order, and returns the results in that order; filtering returns exactly the elements for which the predicate holds, in order, evaluating it once per element. The containers themselves are left as the functions leave their elements.",
     ["inputs"], "all container types, lengths and contents, and all functions including stateful ones",
     "Tests cover one or two container combinations.", [H + "algorithm/Zip.h", H + "algorithm/Map.h", H + "algorithm/Filter.h"],
     [("zip iterator", H + "algorithm/Zip.h"), ("mapAll", H + "algorithm/Map.h"), ("filterContainer", H + "algorithm/Filter.h")],
     "runtime monitoring: recording functions and reference comparison under sanitizers")
prop("C14", "Big integer arithmetic is exact within the chosen digit capacity",
     "For all operands and results that fit the digit capacity, addition, subtraction, multiplication, negation, absolute value, increment, decrement, their compound and mixed forms with machine integers, and all comparisons give the exact mathematical result. The text of a value is its canonical decimal form (no leading zeros, no negative zero), and conversion from text and from any 64-bit integer is exact. Operands other than the assigned one never change, also when an operand is the target itself.",
     ["inputs", "histories"], "all histories of operations whose exact results fit the capacity, at every capacity",
     "The tests compute a few sums and products; carries and borrows across all positions, sign combinations and full capacity are not reached.",
     [H + "math_utils/BigNum.h"], [("digit arrays with carry/borrow", H + "math_utils/BigNum.h")], "runtime monitoring: shadow arithmetic under ASan/UBSan")
prop("C15", "Fraction arithmetic is exact, always reduced, with positive denominator",
     "For all fractions and integers whose exact result has numerator and denominator within int, addition, subtraction, multiplication, division (integer on either side, compound and aliased forms) and comparison give the exact rational result. Every fraction is in lowest terms with a positive denominator and prints canonically. Zero denominators and division by zero are rejected with a diagnostic and failure exit.",
     ["inputs", "histories"], "all operand values and histories whose exact results fit", "Tests use small literals; sign, order and overflow combinations are unreached.",
     [H + "math_utils/Fraction.h"], [("normalisation by gcd and sign", H + "math_utils/Fraction.h")], "runtime monitoring: 128-bit shadow arithmetic under ASan/UBSan")
prop("C16", "Matrix arithmetic and elimination match the mathematical definition",
     "For all shapes and element types, matrix sums, differences and products (plain, compound and aliased), powers, identity matrices, comparison, element and row access and text equal the mathematical result, and copies and assigned matrices are independent of their source. Gaussian elimination yields a row-echelon matrix with the same row space. Operations on mismatched shapes end the process with a diagnostic instead of touching memory out of bounds.",
     ["inputs", "histories"], "all shapes, element types (integers, doubles, fractions) and operation histories without overflow",
     "Tests use two or three fixed matrices; non-square shapes, zero pivots, aliasing and shape errors are not reached.",
     [H + "math_utils/Matrix.h"], [("element-wise loops, binary power, elimination", H + "math_utils/Matrix.h")], "runtime monitoring: reference comparison and forked rejections under ASan/UBSan/memcheck")
prop("C17", "Integer functions are exact whenever the result fits the type",
     "Greatest common divisor and least common multiple return the exact value (up to sign when an argument is negative) for all signs and mixed integer types; powers (also over other multiplicative types), factorial, permutation and combination numbers return the exact value for all arguments whose result fits the type. None of them overflows or misbehaves internally when the final result fits, and invalid arguments are rejected.",
     ["inputs"], "all argument values (no type minimum for gcd/lcm) whose results fit", "A few small values are tested; intermediate overflow near the type limits is not.",
     [H + "math_utils/math_functions.h"], [("gcd/lcm/pow/factorial/permutation/binomial templates", H + "math_utils/math_functions.h")], "runtime monitoring: 128-bit reference comparison under UBSan")
prop("C18", "Sum, mean, variance and deviation are accurate for all data sets",
     "For every data set of any numeric element type, given as an array, a prefix of an array or a container, the sum, mean, population variance and standard deviation, and (for at least two elements) sample variance and standard deviation equal the exact values within floating-point rounding. The sum of an empty data set and every quantity of a negative size is zero, with no memory access; the data itself is left unchanged.",
     ["inputs"], "all data sets of any size and numeric type", "A few small arrays are tested; overflow, cancellation and size edge cases are not.",
     ["src/math_utils", H + "math_utils/math_functions.h"], [("mean/variance/stddev overloads", H + "math_utils/math_functions.h")], "runtime monitoring: extended-precision reference comparison under ASan/UBSan", "integer sums that overflow the result type are excluded; tolerance is the standard rounding bound.")
prop("C19", "Points, lines and circles compute the geometric quantities they name",
     "For all coordinates of moderate magnitude and any dimension, point and vector arithmetic (sums, differences, scaling, compound forms), dot product, plane cross product, length, normalisation, lexicographic order, equality within 1e-6 per coordinate and text, the length of a line's direction, the intersection of two lines, the distance from a point to a line and to a segment, and a circle's area, perimeter (with pi to seven decimals) and points at an angle equal the geometric definition within rounding, for every relative position (before, on and beyond a segment, axis-parallel, coincident). Operators leave their operands unchanged.",
     ["inputs"], "all configurations with coordinates zero or of magnitude 1e-9 to 1e6, in 1 to 5 dimensions", "Tests check a few configurations in the plane.",
     ["src/geometry", H + "geometry/Point.h", H + "geometry/Line.h", H + "geometry/Circle.h"], [("Point operators", H + "geometry/Point.h"), ("Line methods", "src/geometry/Line.cpp"), ("Circle methods", H + "geometry/Circle.h")],
     "runtime monitoring: extended-precision reference comparison under ASan/UBSan", "equality of points uses the library's documented tolerance.")
prop("C20", "A segment tree answers range queries exactly as a plain array would",
     "After every history of range additions and range multiplications over an array of any length, the sum, minimum and maximum of every range equal those computed on a plain array after the same updates. No history causes a memory error, leak or overflow the plain computation would not have.",
     ["histories", "inputs"], "all array lengths, histories of updates and query ranges", "Lazy propagation bugs need particular overlaps of updates and queries; the tests use one short sequence.",
     [H + "graph/SegmentTree.h"], [("lazy tags pushed down before descent", H + "graph/SegmentTree.h")], "runtime monitoring: online model comparison under ASan/UBSan")
prop("C21", "The binary search tree is an ordered multiset of the caller's nodes",
     "After every history of insertions, erasures and re-insertions, the tree contains exactly the inserted and not erased nodes; find returns a node of the requested rank when and only when one is present, the predecessor and successor of a node are its neighbours in rank order (none at the ends), and walking by them visits every node exactly once; queries never change the contents. Nodes stay owned by the caller, keep their values, and an erased node can be inserted again.",
     ["histories"], "all histories of insertions and removals with any ranks including duplicates", "Removal of inner nodes in arbitrary shapes, duplicates and re-insertion are not sampled by the tests.",
     ["src/graph/BST.cpp", H + "graph/BST.h"], [("insert/erase/find/pre/suf", "src/graph/BST.cpp")], "runtime monitoring: online model comparison and structural walks under ASan/UBSan")
prop("C22", "Tree ancestor, lowest-common-ancestor and distance queries are exact",
     "For every rooted tree built node by node and every pair of nodes, the lowest common ancestor, the distance, the k-th ancestor of a node, heights, fathers, sons and degrees equal those computed from the parent relation, and nodes keep their ids and values. Queries never change the tree and never cause a memory error.",
     ["inputs", "histories"], "all tree shapes (chains to stars) and node pairs", "One small tree is tested; long chains and unbalanced shapes that exercise binary lifting are not.",
     ["src/graph/Tree.cpp", H + "graph/Tree.h"], [("binary-lifting ancestor table", "src/graph/Tree.cpp")], "runtime monitoring: reference comparison under ASan/UBSan/memcheck")
prop("C23", "Graph vertices and edges keep consistent adjacency, ids and ownership",
     "Over every history of adding vertices and edges (parallel edges and self-loops included), each vertex lists exactly its edges, each edge joins exactly the two vertices and carries the value it was given, and ids of live vertices and edges are unique. Destroying all vertices, in any order, frees every edge exactly once.",
     ["histories"], "all histories of graph construction and all destruction orders", "Ownership across destruction orders is not tested.",
     ["src/graph/Vertex.cpp", "src/graph/Edge.cpp", H + "graph/Vertex.h", H + "graph/Edge.h"], [("Vertex::addEdge, destructor", "src/graph/Vertex.cpp"), ("id counters", "src/graph/Edge.cpp")], "runtime monitoring: online model comparison and lifetime audit under ASan/UBSan/memcheck",
     "copying a vertex that has edges is a recorded known finding.")
prop("C24", "A trie is an exact set of words with ordered, complete iteration",
     "After every history of insertions and removals, a trie reports as present exactly the words inserted and not removed (prefixes and extensions of present words are not present unless inserted themselves; inserting a present word or removing an absent one changes nothing), and its size agrees. Iteration visits every word exactly once in the order of the alphabet's character codes. Tries with different alphabets, and copies of a trie, do not influence each other.",
     ["histories", "configurations"], "all histories, all alphabets (ranges of characters), several tries at once", "Prefix-sharing words, removal and several alphabets in one process are not covered by tests.",
     ["src/string_utils/Trie.cpp", H + "string_utils/Trie.h"], [("child tables and word marks", "src/string_utils/Trie.cpp")], "runtime monitoring: online model comparison under ASan/UBSan/memcheck")
prop("C25", "Converting text to numbers returns the number written, or zero",
     "For every number of every supported type, converting its text (with signs, leading zeros, surrounding blanks or following words, for integers also other characters right behind the digits) gives that number, whichever string form it is given in and even if the source string is gone by then. Text that does not start with a number gives zero, never an uninitialised value.",
     ["inputs"], "all values of all supported types and all texts", "A few literals are tested; lifetime and no-value texts are not.",
     [H + "string_utils/StringCast.h"], [("stringCast conversion object", H + "string_utils/StringCast.h")], "runtime monitoring: round-trip oracle under ASan/UBSan/memcheck")
R = ["src/random", H + "random"]
prop("C26", "Random values stay in their documented range and reach all of it",
     "Every random integer lies in [min, max) for every valid pair of bounds including the full int range, every random real lies in [min, max), and every sample of a distribution lies in that distribution's support (and is exact for degenerate parameters). Every value of a small integer range occurs over repeated draws, booleans take both values, and samplers report the parameters they were built with.",
     ["inputs", "histories"], "all bounds, parameters, seeds and draw sequences", "Tests draw from a few ranges; extreme widths and one-ulp ranges are not tried.",
     R, [("Random::nextInt/nextDouble", "src/random/Random.cpp"), ("distribution next()", "src/random")], "runtime monitoring: range and coverage monitors on every draw under ASan/UBSan", "coverage of small ranges has false-alarm probability below 1e-15 per case.")
prop("C27", "Random sequences are reproducible from the seed and nothing else",
     "Two generators with the same seed return identical sequences for the same calls, re-seeding restarts the sequence, and a copied generator continues identically and independently, whatever other generators, samplers or global random functions do in between. Different seeds give different sequences. A sampler draws from exactly the generator it was given or last switched to, so sampled sequences are reproducible too.",
     ["histories", "inputs"], "all seeds, call sequences and interleavings with unrelated random activity", "Tests compare one short sequence.",
     R, [("mt19937_64 seeding", "src/random/Random.cpp"), ("generator pointer and ownership", H + "random/Distribution.h")], "runtime monitoring: recorded-trace replay comparison under ASan/UBSan", "a normal sampler that is switched while it holds its second value of a pair is excluded.")
prop("C28", "Samples follow the documented probability law and are independent",
     "For every valid parameter set, the values drawn from each distribution follow the documented probability mass or density function over the whole support including its tails, and generator integers, reals and booleans are uniform. Consecutive values are independent.",
     ["inputs", "configurations"], "all distributions, parameter sets and seeds", "Tests compare a mean with a loose tolerance for one parameter set.",
     R, [("inverse-table, inversion, polar and acceptance-rejection samplers", "src/random")], "runtime monitoring: statistical trace monitor (DKW and Bernstein bounds, two-stage)", "statistical: an alarm needs two independent samples beyond bounds of level 1e-3 and 1e-10.")
prop("C29", "Independent objects can be used concurrently from different threads",
     "When different threads use different objects of the library (containers, JSON values, numbers, matrices, trees, tries, generators, samplers) or call its pure functions, every result is what single-threaded use would give and no data race occurs. (The id counters of graph vertices and edges, the global random functions and rejection diagnostics are outside this guarantee.)",
     ["schedules"], "all schedules of threads that use disjoint objects", "No test uses threads.",
     ["src", "src/include"], [("absence of hidden shared mutable state", "src")], "runtime monitoring: ThreadSanitizer with per-thread model oracles")
prop("C30", "A failed allocation or element copy leaks and corrupts nothing",
     "When memory runs out or an element's own copy fails with an exception in the middle of an operation (on containers, JSON values, matrices, segment trees, tries, vertices, samplers, text and iteration functions), the exception reaches the caller, nothing is leaked or destroyed twice, and every object the operation does not modify keeps its value. The object being modified may hold any valid value, can be destroyed or assigned, and containers and JSON values can be used on.",
     ["inputs", "fault_sequences"], "all operations and all points of failure inside them", "No test makes an allocation or a copy fail.",
     ["src", "src/include"], [("ownership in containers, JSON, matrix, vertex", "src")], "runtime monitoring: injected allocation and copy failures under ASan/UBSan with lifetime and leak monitors", "Only the basic guarantee; a Trie or tree whose modification failed is only destroyed or assigned.")
prop("C31", "Several threads can read one unmodified object at the same time",
     "When several threads only read the same object (containers, JSON values, numbers, matrices, points, built trees, tries), every answer is the one a single reader would get, no data race occurs and the object is unchanged afterwards. (Reading is any query, comparison, iteration, text form, or use as the source of a copy or an operand; segment-tree queries and search-tree neighbour queries reorganise their tree and are outside.)",
     ["schedules"], "all schedules of threads that only read a shared object", "No test uses threads.",
     ["src", "src/include"], [("reading operations do not write", "src")], "runtime monitoring: ThreadSanitizer on shared objects, answers compared with an unshared twin")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, tech, note in P:
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s quick" % p["id"], thorough_cmd="python3 run.py %s thorough" % p["id"], technique=tech, level="exploration",
                           level_note=("Held on the executions observed (counts in the evidence file); not a proof. " + note).strip()))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[], notes="No hooks in /repo: monitored builds force-include rt/vf_hook.h. DESIGN.md describes the monitors; known_findings.txt the findings."), f, indent=1)
        f.write("\n")


main()
