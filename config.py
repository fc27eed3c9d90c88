def P(libs, quick, thorough, fq, ft, rule, **kw):
    d = dict(libs=libs, cases=dict(quick=quick, thorough=thorough), fuzz=dict(quick=fq, thorough=ft),
             valgrind=dict(quick=320, thorough=4000), rule=rule)
    d.update(kw)
    return d


PROPS = {
 "C01": P([], 40000, 800000, 20000, 400000, "A case is a history of up to 600 operations over three Vectors or Lists of up to 70000 (once 300000) elements (int, string or lifetime-tracked elements); non-trivial when it has more than two operations; distinct by operation/size sequence.", fuzz_len=4096),
 "C02": P([], 40000, 800000, 20000, 400000, "A case is a history of up to 600 operations over three Maps, Sets, MultiSets or MultiMaps of up to 40000 entries; non-trivial when it has more than two operations; distinct by operation/size sequence.", fuzz_len=4096),
 "C03": P([], 40000, 800000, 20000, 400000, "A case is a phased history of up to 6000 operations over three Queues or Stacks followed by a full drain; non-trivial when it has more than two operations; distinct by operation/size sequence.", fuzz_len=4096),
}
MT_IDS = ["C%02d" % i for i in range(1, 29) if i not in (4, 8, 23)]
PROPS["C04"] = P(["random", "math_utils"], 60000, 1000000, 20000, 400000, "A case is one invalid call (88 kinds; out-of-range index, empty container, missing key, zero denominator, invalid parameter) whose rejection is observed, or a block of boundary-valid calls; distinct by kind and argument.", fuzz_len=512)
PROPS["C05"] = P([], 60000, 1000000, 20000, 400000, "A case writes a Vector (8 element types, nested up to 3 levels, up to 12000 elements) and reads it back, reads a re-spaced text, or feeds a damaged or arbitrary text; non-trivial when the Vector is non-empty or the text is malformed; distinct by text.", fuzz_len=512)
PROPS["C06"] = P(["json"], 60000, 1500000, 20000, 400000, "A case is a JSON value (up to 300 nodes, occasionally 66000; depth up to 150, any string bytes, built through varied API routes) dumped, read by an independent reader and loaded back; non-trivial when it is a container or string; distinct by text; once: all two-byte strings and keys, powers of two and ten with neighbours.", fuzz_len=1024)
PROPS["C07"] = P(["json"], 60000, 1500000, 20000, 400000, "A case is a JSON document: a generated value spelled with random whitespace, escapes and number forms, or a mutated document that an independent reader still accepts; distinct by text; once: every unicode escape, every escape next to every byte, every decimal exponent.", fuzz_len=1024)
PROPS["C08"] = P(["json"], 60000, 1500000, 10000, 600000, "A case is a hostile text: mutated documents, every prefix of a document, token or character soup, arbitrary bytes, deep nesting, scalar edge cases; distinct by text; once: every text of one or two bytes, every byte in each place of short documents.", fuzz_len=1024)
PROPS["C09"] = P(["json"], 40000, 800000, 20000, 300000, "A case is a history of up to 60 operations (copy, move, self and sub-object assignment, append, index, type change) over three JSON values compared with a model after every step; non-trivial when it has more than two operations; distinct by operation sequence.", fuzz_len=1024)
PROPS["C10"] = P(["base64"], 60000, 1500000, 20000, 400000, "A case is a byte string (up to 140000 bytes, zero bytes and high bytes included) encoded, compared with an RFC 4648 reference, decoded with and without padding, and encoded to a requested length; plus arbitrary text decoded; non-trivial when non-empty; distinct by bytes and length.", fuzz_len=512)
PROPS["C11"] = P(["network"], 100000, 2000000, 20000, 400000, "A case is a byte string (up to 140000 bytes) encoded and decoded, a well-formed spelling decoded, and a malformed text decoded; distinct by texts.", fuzz_len=512)
PROPS["C12"] = P(["algorithm"], 100000, 2000000, 20000, 400000, "A case is a search (text, pattern, start; self-similar, Fibonacci, random, near-miss patterns; every occurrence enumerated) or an edit distance in both directions, against naive references; distinct by strings.", fuzz_len=512)
PROPS["C13"] = P([], 60000, 1000000, 15000, 300000, "A case is one zip of 1-5 containers or one mapAll/filterContainer workload with recording functions over 8 container types; non-trivial with more than one container/element; distinct by contents.", fuzz_len=512)
PROPS["C14"] = P([], 36000, 1500000, 15000, 300000, "A case is a history of up to 30 BigNum operations (arithmetic, mixed with 64-bit integers, aliased compound forms, increments, negation, comparison, text) at capacity 5, 22, 60 or 300 digits against an independent reference; operations whose result exceeds the capacity are skipped; non-trivial with more than one operation; distinct by operations and results.", fuzz_len=1024)
PROPS["C15"] = P([], 60000, 1500000, 20000, 400000, "A case is a history of up to 60 Fraction operations (arithmetic, mixed with int on either side, compound and aliased forms, construction, comparison, text, zero denominators) against exact 128-bit arithmetic; results that do not fit int are skipped; non-trivial with more than one operation; distinct by operations and results.", fuzz_len=1024)
PROPS["C16"] = P([], 50000, 1200000, 15000, 300000, "A case is a history of up to 25 Matrix operations (int, long long, double, Fraction elements) compared with a plain 2-D reference after every step, an elimination checked for echelon form and equal row space, or a shape mismatch in a child process; distinct by operations and results.", fuzz_len=1024)
PROPS["C17"] = P(["math_utils"], 200000, 4000000, 30000, 600000, "A case is one gcd/lcm pair (9 type combinations), power, residue or affine power, factorial/permutation/binomial triple or invalid argument, compared with 128-bit arithmetic; results that do not fit the type are skipped; distinct by function and arguments.", fuzz_len=128)
PROPS["C18"] = P(["math_utils"], 60000, 1500000, 15000, 300000, "A case is a data set (up to 70000 values, 7 element types, offsets, alternating and constant data) whose sum, mean, variance and deviation over arrays, prefixes and containers are compared with extended precision within the rounding bound; distinct by values.", fuzz_len=512)
PROPS["C19"] = P(["geometry"], 200000, 4000000, 20000, 400000, "A case is a pair of points (1, 2, 3 or 5 coordinates) through every operator, a line/segment/point configuration (before, on, beyond the segment; axis-parallel), or a circle, compared with extended precision within the rounding bound; distinct by coordinates.", fuzz_len=256)
PROPS["C20"] = P([], 60000, 1500000, 20000, 400000, "A case is an array of 1-5000 (occasionally 70000) elements (int, long long, double) and a history of up to 60 range updates and queries compared with a plain array, then every point and the whole range queried; non-trivial with more than one element and at least one update; distinct by operation sequence.", fuzz_len=1024)
PROPS["C21"] = P(["graph"], 60000, 1500000, 20000, 400000, "A case is a history of up to 600 insertions, removals, re-insertions, searches and neighbour queries on up to 9000 nodes (few distinct ranks, wide ranks, extreme ranks) with full threading walks, then removal of everything; non-trivial with more than one update; distinct by operation sequence.", fuzz_len=1024)
PROPS["C22"] = P(["graph"], 60000, 1500000, 20000, 400000, "A case is a rooted tree of up to 70000 nodes (chains, binary, random, two long arms, mixtures) with node data, and all pairs (small trees) or 60 random pairs queried for LCA, distance and ancestors against a parent array; non-trivial with more than two nodes; distinct by shape.", fuzz_len=1024)
PROPS["C23"] = P(["graph"], 60000, 1500000, 20000, 400000, "A case is a graph of up to 10 vertices built by up to 3000 operations (parallel edges and self-loops included), audited against a model and destroyed in random vertex order, or a set of free-standing edges; non-trivial with more than one edge; distinct by operation sequence.", fuzz_len=1024)
PROPS["C24"] = P(["string_utils"], 40000, 1000000, 15000, 300000, "A case is a history of up to 2500 insertions, removals, lookups, copies and full iterations over one to three tries with six different alphabets, words sharing prefixes and suffixes, compared with an ordered set; non-trivial with more than one update; distinct by operations and words.", fuzz_len=1024)
PROPS["C25"] = P([], 200000, 4000000, 20000, 400000, "A case is a value of one of ten types rendered as text (signs, leading zeros, surrounding blanks, trailing words, source string destroyed early) and converted four ways, or a text that denotes no number; distinct by text.", fuzz_len=64)
PROPS["C26"] = P(["random", "math_utils"], 40000, 1000000, 8000, 200000, "A case draws from generator functions over wide, tiny, one-ulp and empty-width ranges and from samplers of all twelve distributions (own or shared generator, generator exchanged in between), checking every value against the documented range or support, in part with the first raw engine outputs replaced by a script of extreme values; distinct by ranges and parameters.", fuzz_len=256, include=["scripted_engine.h"])
PROPS["C27"] = P(["random", "math_utils"], 40000, 1000000, 8000, 200000, "A case records a sequence of draws (raw calls, several samplers interleaved on one generator, a switched generator, a copied generator) and replays it with the same seed while unrelated generators and samplers are active, or compares two different seeds; distinct by seed, mode and parameters.", fuzz_len=1024)
PROPS["C28"] = P(["random", "math_utils"], 1600, 24000, 0, 0, "A case draws 500-100000 values (400000 thorough) of one distribution with one parameter set and compares them with the exact cumulative distribution: whole distribution, probability cells into the tails, serial pairs; or streams up to 2.5 million values (8 million thorough) and counts the far tails down to 1e-6; distinct by parameters and sample size.", fuzz_len=64, valgrind=dict(quick=0, thorough=0))
PROPS["C29"] = P([], 0, 0, 0, 0, "A case is one single-object history of another property's monitor, run in one of eight threads at the same time as other threads run histories on their own objects (same component in all threads, then random mixes), under the race detector; distinct by decision stream.", kind="mt", rounds=dict(quick=1200, thorough=6000), repeats=dict(quick=2, thorough=12))
PROPS["C30"] = P(["json", "algorithm", "base64", "graph", "network", "string_utils", "math_utils", "random"], 60000, 1500000, 15000, 300000, "A case is a history of up to 25 operations on two or three objects of one component (8 container types with elements whose copy can fail, JSON values, matrices, segment trees, tries, vertices, text functions), each operation with the k-th allocation or element copy failing (k up to 63); non-trivial when a failure was injected; distinct by operations, failure points and outcomes.", fuzz_len=512, valgrind=dict(quick=0, thorough=0))
PROPS["C31"] = P(["json", "algorithm", "base64", "graph", "network", "string_utils", "math_utils", "geometry"], 16000, 200000, 0, 0, "A case is one object (8 container types, JSON, matrix, numbers, tree, trie, point, text) that 2-4 threads question at the same time in different orders, under the race detector; every answer is compared with that of an identical unshared object, and again after the threads ended; distinct by object and question order.", kind="shared", workers=8)
