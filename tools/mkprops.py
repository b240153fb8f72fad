#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that anchors stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
CH = "seq/internal/concurrent_hash_table.hpp"; CM = "seq/concurrent_map.hpp"; LK = "seq/lock.hpp"

prop("C01", "Concurrent map and set: point operations are linearizable",
 "Every insert, emplace, try_emplace, insert_or_assign, insert-or-visit, erase, erase_if(key), visit, find, count and contains call on a concurrent_map/concurrent_set shared by several threads takes effect atomically at one instant between its call and its return. In particular no inserted element is lost or duplicated, an erased element stays erased, and the return values of all calls together with the final content are explained by one sequential order of the calls, including while the table grows or is rehashed by one of them.",
 ["schedules","histories"], "all thread interleavings, all short per-thread call sequences over colliding and non-colliding keys, from tables that are empty, cleared, one element below growth, holding full buckets, overflow chains or a pending rehash, for both lock kinds and several sharding degrees",
 "The suite runs a few free-running thread loops and checks totals; which interleavings happen is left to the OS scheduler, and windows of a few instructions (rehash hand-over, chain extension, lock hand-off) are practically never hit.",
 [CM, CH, LK], [("per-bucket lock array and retry when the bucket vector changed", CH+" get_node / lock / get_node_global_lock"), ("rehash holding every bucket lock until the swap", CH+" rehash_internal"), ("rehash on insert", CH+" rehash_on_next_target")],
 ["return values of the public operations", "final content through visit_all/size"])
prop("C02", "Concurrent map: a functor has exclusive access to the element it visits",
 "While a functor passed to a non-const visit, insert_or_visit, emplace_or_visit, erase_if or visit_all of a concurrent_map is running on an element, no other operation in any thread reads, modifies, moves or destroys that element; functors of const/cvisit operations may only overlap with other read-only functors. Everything written to an element by one functor is visible to every functor that later visits the element (happens-before), with no data race.",
 ["schedules"], "all interleavings of 2-3 threads visiting, modifying, erasing and relocating (rehash) the same element, for the spinlock and the shared lock variants",
 "Tests use counters updated from free-running threads; a missing or too weak lock shows only in a window of a few instructions, and missing ordering does not show at all on x86.",
 [CM, CH, LK], [("bucket lock held while the functor runs", CH+" visit / insert / erase_if"), ("shared lock for const access", CH+" lock_shared"), ("acquire/release orders in locks", LK)],
 ["entry/exit of user functors", "accesses to element values"])
prop("C03", "Concurrent map: every operation completes",
 "Every call on a concurrent_map/concurrent_set returns, whatever the other threads do: no combination of concurrent inserts, erases, visits, clears, rehashes, swaps, merges and copies leaves a thread blocked or spinning forever, and no lock remains held after the calls have returned.",
 ["schedules","histories"], "all interleavings of 2-3 threads calling any pair/triple of operations, including ones that race with clear(), a growing insert, or opposite-order binary operations (a.swap(b) with b.swap(a))",
 "A test that hangs needs the exact interleaving; the suite never runs clear/swap/merge against inserting threads.",
 [CM, CH, LK], [("spin loops waiting for the new bucket array", CH+" get_node / get_node_global_lock"), ("lock release after rehash", CH+" rehash_internal"), ("std::lock on table locks", CH+" operator= / swap / merge")],
 ["termination of public calls", "a following exclusive operation succeeds"])
prop("C04", "Concurrent map: whole-table operations keep every untouched element",
 "Running clear, rehash, reserve, swap, merge, copy, assignment, erase_if or visit_all concurrently with point operations on other elements never loses, duplicates or resurrects an element: an element present for the whole duration of visit_all/cvisit_all/erase_if is visited exactly once, an element that no operation removes is still there afterwards, and size() agrees with the content once the threads are quiet.",
 ["schedules","histories"], "all interleavings of one whole-table operation with 1-2 threads doing point operations, from single-bucket, multi-bucket and overflow-chain states",
 "The suite runs whole-table operations only from a single thread.",
 [CM, CH], [("visit_all over locked buckets", CH+" visit_all"), ("clear/rehash taking all bucket locks", CH+" clear / rehash_internal"), ("merge/swap/assignment", CM)],
 ["functor invocations", "final content and size()"])
prop("C05", "Spin locks give mutual exclusion, sharing, correct try-lock and progress",
 "spinlock and shared_spinner: at any time at most one thread is between a successful exclusive lock/try_lock and its unlock and then nobody is between a shared lock and its unlock; shared holders may coexist (as many as the lock word can count); a failed try changes nothing; what a holder wrote before unlocking is visible to the next holder; and with all holders releasing, every pending lock and timed lock call eventually returns (timed ones possibly with false after their timeout), a later try_lock on the free lock succeeding.",
 ["schedules"], "all interleavings of 2-3 threads each running 1-3 lock/unlock/try/timed/shared operations, with every outcome of the clock",
 "Locks are only exercised indirectly, on one architecture, with schedules chosen by the OS.",
 [LK], [("spinlock", LK+" class spinlock"), ("shared_spinner", LK+" class shared_spinner"), ("shared_guard / lock_shared adaptors", LK)],
 ["critical-section occupancy", "return of try functions"])
prop("C06", "Concurrent map: a failing allocation or functor leaves the table consistent",
 "If an allocation, an element constructor or a visiting functor or predicate throws inside any concurrent_map/concurrent_set operation, the exception reaches the caller, no lock stays held, no element is leaked or destroyed twice, elements other than those the operation was to add or remove keep their values, and every later operation from any thread works normally. An insert that throws inserts nothing.",
 ["fault_sequences","schedules"], "every single throw point (each allocation, each element construction, each functor call) of every operation from every seed state, then use of the table by the same and by concurrent threads",
 "No test injects a failure into the concurrent map.",
 [CM, CH], [("catch blocks of rehash/insert", CH+" rehash_internal / insert / erase_full_bucket"), ("RAII bucket locks", CH)],
 ["exception", "subsequent operations", "allocation accounting"])
prop("C07", "Concurrent map and set used from one thread behave like the standard ones",
 "For every sequence of calls made by one thread, every concurrent_map/concurrent_set configuration (no/low/medium/high concurrency, shared locks) returns the same results and holds the same key/value pairs as std::unordered_map/unordered_set executing the corresponding calls, whatever hash function (including constant and weak ones) is used; the visitor stop/continue, equality, copy, move, swap, merge, erase_if, rehash and reserve operations included.",
 ["histories","inputs","configurations"], "all call sequences of bounded length from seed states straddling each bucket-full, chain, growth and shrink boundary, with good, weak and constant hashes, trivially copyable and owning element types",
 "Tests insert long random lists through one code path; combinations of chain creation/removal, rehash and erase at exact boundaries and with poor hashes are not reached.",
 [CM, CH], [("swiss-table buckets with chained nodes", CH+" ConcurrentDenseNode / find / insert_no_check / erase"), ("growth policy", CH+" rehash_on_next_target")],
 ["return values, visited elements, size"])
prop("C08", "devector holds exactly the sequence its history defines",
 "After any sequence of push/pop/emplace/insert/erase/resize (both ends), assign, reserve, shrink, copy, move and swap calls, a devector holds exactly the elements, in order, that std::vector/std::deque would hold after the same calls, whichever growth strategy is used and even when an argument refers to an element of the container itself. Every element is constructed and destroyed exactly once, and all memory is returned.",
 ["histories","inputs","configurations"], "all call sequences of bounded length from every (front slack, size, back slack) layout up to a bound, for trivially copyable, relocatable owning and self-referencing element types, both growth flags",
 "Tests compare a handful of long histories; which slack layout an operation meets is incidental.",
 ["seq/devector.hpp"], [("front/back slack and recentering", "seq/devector.hpp grow_back / grow_front"), ("middle insertion/erasure by moving the shorter side", "seq/devector.hpp emplace / erase / insert")],
 ["element sequence, size, constructor/destructor counts"])
prop("C09", "tiered_vector holds exactly the sequence its history defines",
 "After any sequence of calls, a tiered_vector holds exactly the elements, in order, that std::deque would hold after the same calls, and operator[], at, front, back, for_each, iterator arithmetic, comparison and distance all agree with that order at every position including end(). Every element is constructed and destroyed exactly once, and all memory is returned.",
 ["histories","inputs","configurations"], "all call sequences of bounded length from layouts covering every bucket size class, bucket count and circular-buffer rotation around the boundaries, for trivial, relocatable owning and non-relocatable element types",
 "Tests use few long random histories; bucket splits/merges at exact sizes and each rotation of the circular buffers are reached by chance.",
 ["seq/tiered_vector.hpp"], [("circular buffers with amortized shifting", "seq/tiered_vector.hpp CircularBuffer / BucketManager::insert, erase"), ("bucket size change on growth/shrink", "seq/tiered_vector.hpp check_bucket_size")],
 ["element sequence, iterators, size, constructor/destructor counts"])
prop("C10", "sequence holds exactly its elements and keeps iterators valid",
 "After any sequence of calls, a sequence holds exactly the elements that std::list would hold after the same calls, in the same order (insert() may choose any free place), and forward, backward, jump and distance iterator operations agree with it. Iterators and references to elements stay valid and keep designating the same element across every insertion and across erasure of other elements; sort() orders stably and shrink_to_fit() keeps the order.",
 ["histories","inputs","configurations"], "all call sequences of bounded length from layouts covering empty, partial, full and holed chunks at both ends, for several chunk capacities and element types",
 "The sequence test aborts at baseline; beyond that, hole patterns inside 64-slot chunks are combinatorial and tests meet few of them.",
 ["seq/sequence.hpp"], [("occupancy bitmap and free-chunk list", "seq/sequence.hpp emplace_anywhere / erase"), ("chunk compaction", "seq/sequence.hpp Data::shrink_to_fit")],
 ["element sequence, held iterators, size, constructor/destructor counts"])
prop("C11", "flat sets and maps behave like the standard ordered containers",
 "For every call sequence, flat_set, flat_map, flat_multiset and flat_multimap hold and return exactly what std::set, std::map, std::multiset and std::multimap do: sorted order, uniqueness, insertion position among equivalent elements for the multi variants, results of find/count/contains/lower_bound/upper_bound/equal_range/erase, hinted and range insertion, merge and comparison. Position based access (pos, iterator_at) gives the i-th element in order. The order among equivalent elements is that of insertion, except where the documentation leaves it open: range insertion when the Stable parameter is false, and hinted insertion in a multi variant; an element already in a unique container is never replaced by an equivalent one of an inserted range.",
 ["histories","inputs","configurations"], "all call sequences of bounded length over small key domains from states around the bucket boundaries of the underlying container, for integers, strings and owning types, all range categories, with valid and misleading hints",
 "Tests use long random key lists and mostly one call path; duplicates, misleading hints, absent keys and range insertions of every iterator category at bucket boundaries are not enumerated.",
 ["seq/flat_map.hpp","seq/internal/binary_search.hpp","seq/tiered_vector.hpp"], [("two-level binary search over bucket back values", "seq/flat_map.hpp tvector_lower_bound"), ("range insertion by append, sort, merge, unique", "seq/flat_map.hpp flat_tree::insert / assign")],
 ["content order, return values"])
prop("C12", "ordered hash containers keep unique keys and insertion order",
 "For every call sequence and every hash function, ordered_set and ordered_map hold exactly the elements of std::unordered_set/map executing the same calls, iterate in insertion order (push_back/push_front at the ends, erase keeping the order of the others, sort() ordering them), and find exactly the keys they hold. Iterators and references to elements stay valid across insertions, rehashes and erasure of others, and after modifying the exposed sequence rehash() restores all of this, keeping the first of duplicated keys.",
 ["histories","inputs","configurations"], "all call sequences of bounded length with good, clustered and constant hashes (so that probe chains wrap, reach their maximum length and switch probing mode), from states around growth points",
 "Tests use a good hash and long random lists; robin-hood wrap-around, maximum probe distance and tombstones need adversarial hashes.",
 ["seq/ordered_map.hpp","seq/sequence.hpp"], [("robin-hood probing over tagged sequence positions, linear mode beyond a distance", "seq/ordered_map.hpp insert_slow / insert_linear / erase_hash"), ("rehash removing duplicates", "seq/ordered_map.hpp rehash_remove_duplicates")],
 ["iteration order, find/count results, held iterators"])
prop("C13", "radix sets and maps behave like the standard ordered containers",
 "For every call sequence, radix_set and radix_map hold and return exactly what std::set and std::map with the natural order of the key do (integers of all widths and signs, floating point numbers other than NaN, pointers, strings of all character types and lengths, tuples): iteration in both directions, find, lower_bound, upper_bound, insertion, hinted and range insertion, erasure. Prefix lookups return exactly the keys starting with the prefix, in order.",
 ["histories","inputs","configurations"], "all call sequences of bounded length from trees whose leaves are one element below/above their capacity and whose keys share prefixes of every length, over key sets exhaustive for narrow integers and short strings",
 "Tests use random keys whose leading bits are nearly uniform; deep shared prefixes, keys that are prefixes of each other, leaf overflow at exact sizes and collapse after erasure are not reached.",
 ["seq/radix_map.hpp","seq/internal/radix_tree.hpp"], [("variable arity radix tree with prefix compression", "seq/internal/radix_tree.hpp merge_dir / check_prefix_create_intermediate"), ("order preserving key transformation", "seq/internal/radix_tree.hpp RadixHasher"), ("rebalancing on erase", "seq/internal/radix_tree.hpp rebalance / remove_directory")],
 ["iteration order, lookup results"])
prop("C14", "radix hash sets and maps behave like the standard unordered containers",
 "For every call sequence and every hash function (including constant and low-entropy ones), radix_hash_set and radix_hash_map hold the same elements and return the same results as std::unordered_set and std::unordered_map, iteration visits every element exactly once, and reserve/shrink_to_fit never change the content.",
 ["histories","inputs","configurations"], "all call sequences of bounded length from states around leaf capacity and directory merging, with good, clustered and constant hashes, trivial and owning elements",
 "Tests use a good hash; full hash collisions (vector leaves) and directory merges need adversarial hashes.",
 ["seq/radix_hash_map.hpp","seq/internal/radix_tree.hpp"], [("leaf with tiny hashes, SIMD search", "seq/internal/radix_tree.hpp LeafNode / find_value"), ("vector leaf on hash exhaustion", "seq/internal/radix_tree.hpp insert_in_vector / VectorNode")],
 ["content, lookup results"])
prop("C15", "tiny_string and tstring_view behave like std::string and std::string_view",
 "For every call sequence, a tiny_string of any static capacity and character type holds the same characters, is null terminated, and returns the same results as std::basic_string (find family, compare and relational operators against every string type, substr, replace, insert, erase, resize, append, assign, iteration, hashing equality, stream output), including when an argument is part of the string itself and across the in-place/heap transition; an operation whose allocation fails leaves the string unchanged. tstring_view gives the same results as std::string_view.",
 ["histories","inputs","configurations"], "all call sequences of bounded length from strings of every length around each in-place capacity and growth point, all argument lengths and positions around the boundaries, embedded null characters included",
 "Tests exercise some lengths and never the full grid of (state, position, length, argument kind).",
 ["seq/tiny_string.hpp"], [("in-place/heap representation without length byte", "seq/tiny_string.hpp string_internal"), ("hand written find/compare/replace", "seq/tiny_string.hpp")],
 ["characters, size, return values"])
prop("C16", "devector and tiered_vector survive any failing allocation or element copy",
 "If an allocation or an element's constructor or assignment throws during any devector or tiered_vector operation, the exception reaches the caller, no element or memory is leaked or destroyed twice, and the container can still be read, modified, cleared and destroyed, holding only valid elements; push_back, push_front, emplace_back and emplace_front that throw leave the content unchanged when elements can be moved or relocated without throwing (for tiered_vector: with a fixed bucket size, as documented). A constructor that throws leaks nothing.",
 ["fault_sequences","histories"], "every throw point (each allocation, construction, assignment) of every operation from every seed layout, for nothrow-movable, throwing-move and relocatable element types",
 "No test of the suite injects failures at every point of an operation.",
 ["seq/devector.hpp","seq/tiered_vector.hpp"], [("catch blocks", "seq/devector.hpp / seq/tiered_vector.hpp BucketManager, make_manager")],
 ["content after the throw, allocation and lifetime accounting"])
prop("C17", "sequence and ordered hash containers survive any failing allocation or copy",
 "If an allocation, an element operation, a hash or an equality throws during any sequence, ordered_set or ordered_map operation, the exception reaches the caller, nothing is leaked or destroyed twice, and the container can still be read, modified (after rehash() where documented), cleared and destroyed; a single-element insertion that throws leaves the content unchanged.",
 ["fault_sequences","histories"], "every throw point of every operation from every seed state",
 "No test injects failures at every point of an operation.",
 ["seq/sequence.hpp","seq/ordered_map.hpp"], [("catch blocks", "seq/sequence.hpp emplace_back_new_chunk, resize, import, shrink_to_fit; seq/ordered_map.hpp rehash")],
 ["content after the throw, allocation and lifetime accounting"])
prop("C18", "flat containers survive any failing allocation, copy or functor call",
 "If an allocation or an element operation throws during any flat_set/map/multiset/multimap operation, the exception reaches the caller, nothing is leaked or destroyed twice, the container remains ordered/consistent (every element it iterates over can be found) and can be modified, cleared and destroyed. Element operations are construction, copy, copy assignment and the comparison and predicate calls (move operations do not throw).",
 ["fault_sequences","histories"], "every throw point of every operation from every seed state",
 "No test injects failures at every point of an operation.",
 ["seq/flat_map.hpp","seq/internal/binary_search.hpp","seq/tiered_vector.hpp"], [("sorted insertion and erasure", "seq/flat_map.hpp flat_tree"), ("bucket management", "seq/tiered_vector.hpp")],
 ["content after the throw, allocation and lifetime accounting"])
prop("C19", "Copy, move and swap transfer values, functors, allocators and ownership exactly",
 "For every container and string of the library: copy construction/assignment gives an equal independent container and leaves the source unchanged; move and swap transfer the exact content and leave the source valid and reusable; self-assignment and self-swap change nothing; stateful hash, equality and comparison functors travel with the elements they organise; allocators propagate on copy and move assignment and on swap exactly as their traits say, whether they compare equal or not (a swap of containers whose unequal allocators do not propagate is undefined, as in the standard), and every block is freed through an allocator equal to the one that allocated it. This holds between every pair of states (empty, never used, cleared, small, large) of the two operands.",
 ["histories","configurations"], "all pairs of operand states x copy/move/swap/extended constructors/assignment x allocator traits combinations, followed by use of both operands",
 "Tests copy or move one state with std::allocator and stateless functors.",
 ["seq/devector.hpp","seq/tiered_vector.hpp","seq/sequence.hpp","seq/flat_map.hpp","seq/ordered_map.hpp","seq/radix_map.hpp","seq/radix_hash_map.hpp","seq/tiny_string.hpp","seq/concurrent_map.hpp","seq/utils.hpp"], [("allocator helpers", "seq/utils.hpp copy_allocator / assign_allocator / swap_allocator"), ("special members", "every container header")],
 ["contents, functor state, allocator identity, allocation accounting"])
prop("C20", "net_sort sorts stably for every input, buffer and iterator kind",
 "net_sort and net_sort_size leave the range a sorted permutation of its input in which equivalent elements keep their relative order, for every input length and order, every comparison predicate that is a strict weak order, random access and bidirectional iterators, copyable or move-only elements, and every buffer size from none to full. The predicate is never applied outside the range or to a moved-from element, and every element is moved, never lost or duplicated. If the predicate or a move throws, or a buffer cannot be allocated, the exception reaches the caller and no element is leaked, duplicated or destroyed twice.",
 ["inputs","configurations"], "all inputs over a 3-letter alphabet and all permutations up to a bounded length, all run-structured inputs (sorted/reversed/rotated blocks) at every length across the block-size boundaries, x buffer sizes x iterator kinds x element types",
 "Tests sort random arrays; run detection, ping-pong merge sizes and buffer-starved merges depend on exact lengths and shapes.",
 ["seq/algorithm.hpp"], [("bottom-up merge sort over 8-element networks", "seq/algorithm.hpp net_sort"), ("bufferless merging", "seq/algorithm.hpp inplace_merge")],
 ["resulting range with element identities"])
prop("C21", "merge, inplace_merge, unique and reverse_descending do exactly what they say",
 "merge and inplace_merge of sorted ranges produce the stable sorted merge (first range first among equivalents) for every buffer size and for lists of consecutive sorted ranges; unique keeps exactly the first occurrence of each distinct value, in order; reverse_descending turns a non-increasing range into a non-decreasing one keeping the order of equivalents.",
 ["inputs","configurations"], "all pairs of sorted ranges up to a bounded length over a small alphabet, unbalanced and block-structured pairs at larger lengths, every buffer size, iterator kinds",
 "Tests use a few random ranges and one buffer size.",
 ["seq/algorithm.hpp"], [("unbalanced and bidirectional merges", "seq/algorithm.hpp merge"), ("rotation based in-place merge", "seq/algorithm.hpp inplace_merge"), ("hash based duplicate removal", "seq/algorithm.hpp unique")],
 ["resulting range with element identities"])
prop("C22", "Integer text conversion is exact in both directions",
 "to_chars writes exactly the digits std::to_chars would for every integer type, value and base 2..36 (with the documented prefix, width and case options added), never writing outside the given buffer and reporting value_too_large exactly when it does not fit; from_chars accepts exactly the documented texts (blanks, sign, 0x prefix in base 16, digits of the base), returns the exact value (modulo the range of the type), consumes exactly the pattern, and otherwise reports invalid_argument at the first character with a null value; reading back what was written gives the value. The same holds for every character type, and reading integers, words and lines from buffer_input_stream, std_input_stream and file_input_stream, whatever their buffer size, delivers exactly the characters of the text at each position.",
 ["inputs","configurations","histories"], "all values of 8 and 16 bit types, all values around powers of the base and type limits for 32/64 bits, all bases, all buffer lengths; all strings up to a bounded length over an alphabet of digits, signs, prefixes, blanks and terminators; all histories of stream operations to a bounded length",
 "Tests convert random values with default options and ample buffers.",
 ["seq/charconv.hpp"], [("write_integer / read_integral", "seq/charconv.hpp"), ("buffered input streams", "seq/charconv.hpp std_input_stream / file_input_stream")],
 ["characters, returned pointer and error code"])
prop("C23", "Floating point text conversion parses, prints and round-trips correctly",
 "from_chars on floating point text consumes exactly the longest documented number pattern and returns a value within the documented rounding of the correctly rounded one, infinities and signed zeros for overflow and underflow, and an error without touching the value on anything else; to_chars prints values in fixed, scientific and general format as printf does for precisions below 12, never writing outside the buffer and reporting too small buffers; both treat nan, inf and a custom decimal character consistently, and stream reading agrees with from_chars.",
 ["inputs","configurations"], "all strings up to a bounded length over an alphabet of digits, sign, dot, exponent and letters; all (short mantissa, exponent) values; all formats and precisions below 12; every buffer length",
 "Tests use random doubles in mid ranges and one buffer size.",
 ["seq/charconv.hpp"], [("read_double / write_double", "seq/charconv.hpp")],
 ["characters, returned pointer, error code, value"])
prop("C24", "Formatted output is exactly the arguments laid out as requested",
 "Formatting any argument list gives the concatenation of the individually formatted arguments, each printed with its own numeric options and then padded or truncated to its requested width and alignment with its fill character, independently of how it is delivered (stream, string conversion, append, buffer, bounded buffer, iterator) and of earlier formattings with the same object. Positional arguments, slots, null/none placeholders, join and nested formats replace exactly the designated arguments; a bounded buffer receives a prefix, never more than its size, and the reported length is the untruncated one. split() yields the parts between the matches, in order, without those its skip policy designates, joining the parts of a split gives the text back, and replace() substitutes every match.",
 ["inputs","configurations","histories"], "all combinations of argument type, width around the text length, alignment, fill, base/format/precision options, delivery method, buffer length and small compositions",
 "Tests check a list of examples.",
 ["seq/format.hpp","seq/charconv.hpp"], [("width and alignment", "seq/format.hpp width_format / base_ostream_format"), ("argument tuples and slots", "seq/format.hpp multi_ostream_format")],
 ["produced characters and lengths"])
prop("C25", "any holds, copies, compares, hashes and converts its value faithfully",
 "For every history of construction, assignment, emplace, reset, copy, move and swap, a seq::any (all variants) holds exactly the value last given, destroys each held object exactly once, and casting returns that value or the documented conversion of it, failing with std::bad_cast otherwise without side effects. Comparisons between any objects and against plain values are consistent with the held values, form a strict weak ordering over mixed arithmetic and string contents (two const char* are compared as pointers, as documented), and equal values hash equally.",
 ["histories","inputs"], "all histories of bounded length over held types (small, large, throwing, non relocatable, strings, numbers, pointers), all pairs of held type/target type conversions, all pairs and triples of values for comparison and hashing",
 "Tests check examples of each feature; the full type x type matrix and failure paths are not covered.",
 ["seq/any.hpp"], [("small buffer storage and type table", "seq/any.hpp hold_any"), ("conversion and comparison registries", "seq/any.hpp")],
 ["cast results, comparison and hash results, lifetime accounting"])
prop("C26", "Equal keys hash equally and hashes depend only on the value",
 "seq::hasher gives equal results for keys that compare equal, whatever their representation: every string type and view with the same characters, every length and alignment, pairs and tuples of equal components, enumerations, pointers and smart pointers to the same object, and repeated or incremental evaluation; hashing never reads outside the key, and lookups with a heterogeneous key find the same element as lookups with the stored key type.",
 ["inputs","configurations"], "all string lengths across every block boundary of the hash with every alignment and surrounding bytes, all representations; all values of narrow types; component-wise for aggregates",
 "Tests hash few strings, always at the same alignment.",
 ["seq/hash.hpp","seq/internal/hash_impl.hpp","seq/internal/hash_utils.hpp","seq/tiny_string.hpp"], [("komihash / murmur / fnv implementations", "seq/internal/hash_impl.hpp"), ("hasher specialisations", "seq/hash.hpp")],
 ["hash values, heterogeneous lookup results"])
prop("C27", "Bit operations return what their definitions say for every word",
 "Population counts, lowest/highest set bit scans, n-th set bit, byte swaps, digit counts, 128-bit multiplication and unaligned reads/writes return exactly the mathematically defined result for every word value for which they are defined, at run time and compile time.",
 ["inputs"], "all 16-bit words at every position inside 32/64-bit words, all words with at most 3 set or cleared bits, all values around powers of 10",
 "Tests only use them indirectly.",
 ["seq/bits.hpp"], [("portable and builtin implementations", "seq/bits.hpp")],
 ["returned values"])
prop("C28", "tagged_pointer stores its pointer and its tag independently",
 "For every alignment, setting, changing or reading the tag of a tagged_pointer never changes its pointer and vice versa; the full range of tags allowed by the alignment is stored exactly; comparison, conversion and hashing of the word are consistent with the stored pair.",
 ["inputs","histories"], "all tags x a set of boundary addresses x all operation sequences of bounded length, for every supported tag width",
 "There is no dedicated test.",
 ["seq/tagged_pointer.hpp"], [("mask arithmetic", "seq/tagged_pointer.hpp")],
 ["ptr(), tag(), full()"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
