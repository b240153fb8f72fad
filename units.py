"""Which harness units decide which property, with which build flavour and bounds."""

_COMMON = ["-std=c++17", "-march=native", "-w", "-g1"]
FLAVORS = {
    # memory and undefined-behaviour errors are reported as failures of the exact case
    "asan": dict(flags=_COMMON + ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=nonnull-attribute,vptr"]),
    "plain": dict(flags=_COMMON + ["-O2"]),
    # every memory access reports to the scheduler of lib/mcsched.cpp (the tsan runtime is not linked)
    "mc": dict(flags=_COMMON + ["-O1", "-fsanitize=thread"], two_step=True, objs=[("mcsched.cpp", "mcsched.o", ["-std=c++17", "-O2", "-g1"])],
               extra=["mcsched.o"], libs=["-ltbb", "-lpthread", "-ldl"]),
}


def U(name, src, **k):
    d = dict(name=name, src=src)
    d.update(k)
    return d


def PARTS(src, n, **k):
    """One unit per system of a harness, so that they compile in parallel."""
    b = src.split(".")[0]
    extra = k.pop("flags", [])
    return [U("%s_%d" % (b, i), src, flags=["-DPART=%d" % i] + extra, **k) for i in range(1, n + 1)]


_SEQ_ASSUME = [
    "the single-threaded C++ implementation is deterministic: a case is its seed, its operations and its failing fault point",
    "values outside the alphabet and sequences longer than the bound are not covered",
]

CHECKS = {}

_MC_ASSUME = [
    "sequentially consistent interleavings at the granularity of single memory accesses: weaker memory orders are not explored (a missing acquire/release is only seen through the happens-before race detection on user data)",
    "schedules with more preemptions than the bound, more threads or longer programs are not covered",
]

CHECKS["C05"] = dict(
    level="model_checking",
    technique="stateless model checking of the real locks: exhaustive preemption-bounded exploration of thread interleavings",
    bounds="2 threads x 1-2 operations with 4-8 preemptions, 3 threads with 3 preemptions; every combination of the lock operations listed in checks/C05.cpp",
    units=[U("C05", "C05.cpp", flavor="mc")],
    assumptions=_MC_ASSUME,
)

_TABLE = "every access of the real table code to shared memory is a scheduling point; client programs over two tables in the table configurations of the harness, see checks/%s.cpp"

CHECKS["C01"] = dict(
    level="model_checking",
    technique="stateless model checking of the real table: exhaustive preemption-bounded exploration with state fingerprints, linearizability oracle",
    bounds=_TABLE % "C01" + "; 2 threads x 1-2 calls with 2-3 preemptions (thorough 4), 3 threads x 1 call with 1-2",
    units=[U("C01", "C01.cpp", flavor="mc")],
    assumptions=_MC_ASSUME,
)
CHECKS["C02"] = dict(
    level="model_checking",
    technique="stateless model checking of the real table: exhaustive preemption-bounded exploration, vector-clock race detection on the elements",
    bounds=_TABLE % "C02" + "; 2 threads with 3 preemptions (thorough 4), 3 threads with 1 (thorough 2)",
    units=[U("C02", "C02.cpp", flavor="mc")],
    assumptions=_MC_ASSUME,
)
CHECKS["C03"] = dict(
    level="model_checking",
    technique="stateless model checking of the real table: exhaustive preemption-bounded exploration with a fair scheduler, deadlock/livelock and held-lock detection",
    bounds=_TABLE % "C03" + "; 2 threads with 2-3 preemptions (thorough 3-4), 3 threads with 1-2",
    units=[U("C03", "C03.cpp", flavor="mc")],
    assumptions=_MC_ASSUME,
)
CHECKS["C04"] = dict(
    level="model_checking",
    technique="stateless model checking of the real table: exhaustive preemption-bounded exploration, per key oracle for whole-table operations",
    bounds=_TABLE % "C04" + "; 2 threads with 2 preemptions (thorough 3), 3 threads with 1 (thorough 2)",
    units=[U("C04", "C04.cpp", flavor="mc")],
    assumptions=_MC_ASSUME,
)
CHECKS["C06"] = dict(
    level="fault_enumeration",
    technique="exhaustive fault enumeration on the real table: every allocation, element construction and functor call of every operation fails once, under every bounded interleaving",
    rule="a case is (table seed, client program, index of the failing fault point, schedule); non-trivial when the execution completed with the fault",
    bounds=_TABLE % "C06" + "; one thread: every fault point; two threads: every fault point x 1 preemption (thorough 2)",
    units=[U("C06", "C06.cpp", flavor="mc")],
    assumptions=_MC_ASSUME,
)
CHECKS["C07"] = dict(
    level="model_checking",
    technique="exhaustive bounded exploration of operation sequences on the real concurrent_set/concurrent_map, used from one thread, against std::map",
    bounds="25 layout seeds (bucket full, chain nodes full, cleared, emptied, shrunk, packed, one bucket per shard) with 6 hash functions x every operation of the full alphabet (insertions, visits, erasures, predicates, rehash/reserve/load factor, merge, swap, copies, comparisons, constructors) after none or one of a subset (two configurations: after every operation; thorough: every pair, and triples beginning with the subset); no/low/medium/high concurrency, spin and shared locks, transparent and plain functors, tracked, relocatable, move only and throwing-move elements",
    units=PARTS("C07.cpp", 7, flags=["-fno-sanitize=null"]),
    assumptions=_SEQ_ASSUME,
)
CHECKS["C08"] = dict(
    level="model_checking",
    technique="exhaustive bounded exploration of operation sequences on the real devector against a vector model",
    bounds="16 layout seeds x every sequence of the full alphabet up to length 2 (thorough: 3 with a DEEP prefix), 4 element types, all relative positions",
    units=PARTS("C08.cpp", 4),
    assumptions=_SEQ_ASSUME,
)
CHECKS["C09"] = dict(
    level="model_checking",
    technique="exhaustive bounded exploration of operation sequences on the real tiered_vector against a vector model",
    bounds="19 layout seeds x every sequence of the full alphabet up to length 2 (thorough: 3 with a DEEP prefix), 4 element/bucket configurations, plus the default configuration to length 1 (thorough 2), all relative positions",
    units=PARTS("C09.cpp", 5),
    assumptions=_SEQ_ASSUME,
)
CHECKS["C16"] = dict(
    level="fault_enumeration",
    technique="exhaustive fault enumeration: every allocation and element operation of every call fails once",
    rule="a case is (seed layout, operation prefix, operation, index of the failing fault point, follow-up operation); non-trivial when the fault fired",
    bounds="every fault point of every operation from every seed (thorough: after every DEEP prefix operation as well), followed by every follow-up operation",
    units=PARTS("C16d.cpp", 3) + PARTS("C16t.cpp", 3),
    assumptions=_SEQ_ASSUME,
)
CHECKS["C10"] = dict(
    level="model_checking",
    technique="exhaustive bounded exploration of operation sequences on the real sequence against a list model holding iterators and addresses",
    bounds="23 layout seeds of chunks of 4 x every sequence of the full alphabet up to length 2 (thorough 3), plus 9 layouts of chunks of 64 to length 1 (thorough 2), all relative positions",
    units=PARTS("C10.cpp", 6),
    assumptions=_SEQ_ASSUME,
)
CHECKS["C12"] = dict(
    level="model_checking",
    technique="exhaustive bounded exploration of operation sequences on the real ordered_set/ordered_map against a keyed list model holding iterators and addresses",
    bounds="21 layout seeds (5 hash functions) and 16 seeds of colliding keys (linear probing, tombstones) x every operation of the full alphabet after none or one of a subset (thorough: every pair, and triples beginning with the subset); keys and mapped types tracked, relocatable, move only",
    units=PARTS("C12.cpp", 5),
    assumptions=_SEQ_ASSUME,
)
_RX = dict(
    level="model_checking",
    assumptions=_SEQ_ASSUME,
)
CHECKS["C13"] = dict(
    _RX,
    technique="exhaustive bounded exploration of operation sequences on the real radix_set/radix_map against std::map, plus exhaustive insertion orders of tricky keys for every kind of key",
    bounds="17 seeds (15 of strings) around the leaf capacity, level merging, vector nodes and collapsed directories x every operation of the full alphabet after none or one of a subset (thorough: every pair), lookups of the whole key universe after each; tracked, owning and move only values; 22 key types x every ordered pair (and triple, thorough: all) of tricky keys, and sets of 256-1500 keys in 6 insertion orders x 3 sizes x 4-6 erasure orders",
    units=PARTS("C13.cpp", 4) + PARTS("C13k.cpp", 9, flavor="plain", flags=["-O1", "-D_GLIBCXX_ASSERTIONS"]) + [dict(u, name=u["name"] + "_san", thorough_only=True, flavor="asan") for u in PARTS("C13k.cpp", 9)],
)
CHECKS["C14"] = dict(
    _RX,
    technique="exhaustive bounded exploration of operation sequences on the real radix_hash_set/radix_hash_map against a keyed model",
    bounds="19 seeds with 6 hash functions (spread, constant, four values, high byte only, identity, low byte only) x every operation of the full alphabet after none or one of a subset (thorough: every pair), lookups of the whole key universe after each; tracked, owning, move only, transparent functors, ordered vector nodes",
    units=PARTS("C14.cpp", 4),
)
CHECKS["C15"] = dict(
    level="model_checking",
    technique="exhaustive bounded exploration of operation sequences on the real tiny_string against std::basic_string, with every failing allocation; exhaustive enumeration of string pairs and positions for the const functions",
    bounds="15 layouts (in place, at the boundary, heap, heap with little content, exact and roomy capacity) x every operation of the full alphabet (every argument form, position, length that fits exactly or just not, part of the string itself) after none or, for tiny_string<char,0>, one of a subset (thorough: every pair), char/wchar_t/char16_t, static sizes 0/20/40; find family: all strings of 2 letters to length 8 x needles to length 4 x positions, near matches of length up to 23; comparisons: all first differences to 19 characters with extreme characters; streams, concatenation, views",
    units=PARTS("C15.cpp", 5) + PARTS("C15q.cpp", 4),
    assumptions=_SEQ_ASSUME + ["positions past the end are only given to the functions that define them (find family, at, substr, copy); patterns given to count() and to the pattern form of replace() are not empty; iterators into the string itself other than pointers are not given as arguments"],
)
CHECKS["C18"] = dict(
    level="fault_enumeration",
    technique="exhaustive fault enumeration: every allocation, element operation, comparison and predicate call of every operation fails once",
    rule="a case is (seed layout, operation, index of the failing fault point, follow-up operation); non-trivial when the fault fired",
    bounds="every fault point of every operation from every seed layout, followed by every follow-up operation; 4 container/element configurations (thorough: the full operation alphabet with all argument positions)",
    units=PARTS("C18f.cpp", 4) + [dict(u, name=u["name"] + "full", thorough_only=True) for u in PARTS("C18f.cpp", 4, flags=["-DFULL"])],
    assumptions=_SEQ_ASSUME,
)
CHECKS["C20"] = dict(
    level="model_checking",
    technique="exhaustive bounded enumeration of input ranges, buffers, iterator kinds and failing fault points on the real algorithms, exact stable-order oracle",
    bounds="every sequence over 4 letters to length 8 and 2 letters to length 17 (thorough 24, 3^16); every concatenation of up to 5 (6) runs from a run alphabet; every single displacement; every assignment of patterns to 2-5 blocks of 128; families of 8192-24700 elements; every fault point for 6 patterns x 6 (12) lengths; 10 element/iterator kinds, 0..full and predefined buffers",
    units=PARTS("C20.cpp", 3, flags=["-DNDEBUG"]),
    rule="a case is a block of input ranges of one element/iterator kind and one buffer size",
    assumptions=["ranges outside the enumerated families (longer than the bound and not of those shapes) are not covered"],
)
CHECKS["C21"] = dict(
    level="model_checking",
    technique="exhaustive bounded enumeration of sorted ranges, buffers and iterator kinds on the real algorithms, exact stable-order oracle",
    bounds="every pair of sorted ranges over 4 letters to length 5 (7), 3 letters to length 8 (12); unbalanced and arithmetic families to 200 elements; every list of up to 5 ranges over 3 letters, up to 14 (17) ranges of 1-2 elements, with empty ranges; unique: every sequence 4^6, 3^8 (4^7, 3^10) with 4 hash functions; reverse_descending: every non-increasing sequence 4 letters to length 10 (14)",
    units=PARTS("C21.cpp", 5),
    rule="a case is a block of input ranges of one element/iterator kind and one buffer size",
    assumptions=["ranges outside the enumerated families (longer than the bound and not of those shapes) are not covered"],
)
CHECKS["C17"] = dict(
    level="fault_enumeration",
    technique="exhaustive fault enumeration: every allocation, element operation, hash, equality and predicate call of every operation fails once",
    rule="a case is (seed layout, operation prefix, operation, index of the failing fault point, follow-up operation); non-trivial when the fault fired",
    bounds="every fault point of every operation from every seed (thorough: after every DEEP prefix operation as well), followed by every follow-up operation; with colliding keys only the first 120 comparisons of an operation are fault points",
    units=PARTS("C17s.cpp", 3) + PARTS("C17o.cpp", 4),
    assumptions=_SEQ_ASSUME,
)
CHECKS["C11"] = dict(
    level="model_checking",
    technique="exhaustive bounded exploration of operation sequences on the real flat containers against a sorted list model, and exhaustive comparison of all lookups with std::set/map/multiset/multimap",
    bounds="17 (multi: 22) seeds around the bucket boundaries x every pair of operations of the full alphabet beginning with a subset (thorough: every pair), 6 container/key/comparator configurations; all lookups in every size 0..160 (thorough 700) x 8 construction orders; every subset of 12 strings x 3 orders x 6 lookup types for std::string and tstring keys, unique and multi",
    units=[U("C11_default", "C11.cpp", flags=["-DPART=8", "-DFL_DEFAULT_BUCKETS"])] + PARTS("C11.cpp", 13)[::-1],
    assumptions=_SEQ_ASSUME,
)

CHECKS["C25"] = dict(
    level="model_checking",
    technique="exhaustive bounded exploration of operation sequences and single faults on the real any variants against a model of (type, value), and exhaustive enumeration of value pairs and (value, target type) pairs against a model of numbers and texts",
    bounds="two objects of 14 kinds of held types and empty: every pair of kinds as a seed x every pair of operations beginning with the subset (thorough: every pair), with and without one failing allocation, copy or move; any, r_any, a 32 byte buffer, nh_any, r_nh_any; comparison and hash of all pairs of about 230 values of 26 types, both as any and as plain values; every conversion of all these values and of texts to 18 arithmetic and 6 string types, void*, user types",
    units=PARTS("C25.cpp", 8) + [U("C25_9", "C25.cpp", flags=["-DPART=9"], thorough_only=True)],
    assumptions=_SEQ_ASSUME,
)
CHECKS["C26"] = dict(
    level="model_checking",
    technique="exhaustive bounded enumeration of keys, representations, alignments and surrounding bytes on the real hash functions, equality oracle and independent reference implementations",
    bounds="every byte string length 0..260 (thorough 0..600) x the patterns of the harness x 17 placements x surrounding bytes, every string of 1 and 2 bytes; every string representation and character type; all values of 8 and 16 bit types, boundary values of wider ones, every pair of a domain for tuples/pairs/pointers/optional wrappers; heterogeneous lookups of every container for every pair of representations",
    units=[U("C26", "C26.cpp", flags=["-fno-sanitize=null"])],
    rule="a case is one hash function, key kind or container",
    assumptions=["keys outside the enumerated families are not covered"],
)
CHECKS["C27"] = dict(
    level="model_checking",
    technique="exhaustive bounded enumeration of words on the real bit operations (compiler builtin and portable variants), bit by bit oracle",
    bounds="all 8 and 16 bit words, all 16 bit patterns at every position of 32 bit words (thorough: every 32 bit word) and every 8th position of 64 bit words (thorough: every position), all 64 bit words of one or two runs of ones (quick: a subset of the pairs) or with at most 3 set or cleared bits, multiples of powers of 10 and powers of 2 within 3; products of pairs of runs; 25 offsets of unaligned accesses",
    units=[U("C27", "C27.cpp"), U("C27_generic", "C27.cpp", flags=["-march=x86-64"])],
    rule="a case is one operation on one family of words",
    assumptions=["words outside the enumerated families are not covered"],
)
CHECKS["C28"] = dict(
    level="model_checking",
    technique="exhaustive bounded exploration of operation sequences on the real tagged_pointer against a (pointer, tag) pair",
    bounds="every tag kind and alignment of the harness x every pointer of a boundary set x every tag x every sequence of 3 (thorough 4) operations",
    units=[U("C28", "C28.cpp")],
    rule="a case is one tagged_pointer configuration and one initial value",
    assumptions=["operation sequences longer than the bound are not covered"],
)
CHECKS["C22"] = dict(
    level="model_checking",
    technique="exhaustive bounded enumeration of values, bases, formats, buffer lengths, texts and stream histories on the real conversion functions, independent specification as oracle",
    bounds="11 integer types x bases 2..36: all 8 bit values, all 16 bit values (quick: bases 10 and 16), values around powers of the base and of 2 x widths 0..255 x prefix x case x every buffer length; every text of up to 4 (thorough 5) characters over 23 letters (wide types: 3, 4 over 25) in 6 bases; long digit strings around the limits of every type; streams with buffers of 1, 2, 3 and 32: every text of up to 5 (6) characters over 6 letters, every history of up to 5 (6) getc/back/read/seek operations",
    units=PARTS("C22.cpp", 3),
    rule="a case is a type and base, or a block of texts with a common beginning",
    assumptions=["texts and values outside the enumerated families are not covered"],
)
CHECKS["C24"] = dict(
    level="model_checking",
    technique="exhaustive bounded enumeration of arguments, options, layouts, delivery methods, compositions and histories of formatting objects on the real format module, independent specification as oracle",
    bounds="8 integer types x 9 values x 5 bases x prefix x case, 11 exactly representable float and double values x 6 formats x 4 precisions x 2 decimal characters, texts of 0..6 characters from 5 kinds of source, streamable (also through fmt itself) and specialised types, each with 3 alignments x every width around its length x 3 fill characters; every pair of 7 and triple of 4 kinds of items listed, joined and laid out; nested layouts of two levels x every width 1..9; containers and lists of 0..4 elements x 3 separators; every history of 3 (thorough 4) of 17 operations on a list and on a join; every delivery method, bounded buffers of every length up to 8 and around the text length; split by 9 kinds of matches x 4 skip policies and replace on every text of up to 5 (thorough 7) characters over 4 letters",
    units=PARTS("C24.cpp", 8),
    rule="a case is a type and option set, a pair or triple of items, a history prefix, or a separator",
    assumptions=["floating point values other than the exactly printable ones of the harness belong to C23", "zero with a hexadecimal prefix, views of destroyed strings and replace() of an empty pattern are not covered"],
)
CHECKS["C19"] = dict(
    level="model_checking",
    technique="exhaustive bounded enumeration of copy, move, swap and assignment between every pair of operand states on the real containers, with stateful functors and allocators, followed by the use of both operands",
    bounds="20 containers and strings x 14 operations (copy, move and their allocator-extended constructors, copy and move assignment also from a moved-from container, swap, std::swap, self copy, self move, self swap) x every pair of 9 states x 4 pairs of allocators (equal, unequal, with a distinct allocator for copies) x 5 (thorough: 8) combinations of propagation traits x 2 pairs of functors",
    units=PARTS("C19.cpp", 9, flags=["-fno-sanitize=null"]) + [dict(u, name=u["name"] + "full", thorough_only=True) for u in PARTS("C19.cpp", 9, flags=["-fno-sanitize=null", "-DFULL"])],
    rule="a case is a container, an operation, two operand states, two allocators, the propagation traits and two functors",
    assumptions=["elements whose operations throw belong to C06 and C16-C18; fancy pointers are not covered; the state of a moved-from container is only required to be valid"],
)
NOT_APPLICABLE = {
    "C23": "no check was built: the documentation allows last digit differences from the correctly rounded value, which leaves no exact oracle for an exhaustive enumeration of floating point texts; exactly printable values are covered by C24, integers by C22",
}
