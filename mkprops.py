#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": ["include/gtl/" + f for f in files],
              "mechanism": [{"name": n, "where": w} for n, w in mech], "state": state or [], "observe_at": observe, "hook_needed": None}})

prop("P01", "Flat and node hash maps/sets behave as exact maps/sets for every history",
 "For every sequence of operations, a flat or node hash map (set) holds exactly the key/value pairs (keys) that the same sequence leaves in a mathematical map (set): every lookup, every returned bool, count, iterator and node handle, size() and a full iteration (each element exactly once) agree with it. This holds for every key type, hash quality (including constant and clustered hashes), equivalence relation, table size, growth, shrink and erase pattern, allocator, and for the SSE2, SSSE3 and portable builds.",
 ["histories", "inputs", "configurations"], "all operation histories, keys, hash functions, element types and build configurations",
 "The tests run a few fixed histories with good hashes; probe-sequence, tombstone, wrap-around and clone-byte faults need particular collisions, load and erase/insert orders.",
 ["phmap.hpp", "gtl_base.hpp", "phmap_utils.hpp"],
 [("open addressing with control bytes", "phmap.hpp: raw_hash_set, Group, probe_seq, find_first_non_full"), ("erase leaves tombstones only when a probe may have passed", "phmap.hpp: erase_meta_only"), ("in-place cleanup of tombstones and rehash", "phmap.hpp: drop_deletes_without_resize, resize")],
 ["public API of gtl::flat_hash_map, flat_hash_set, node_hash_map, node_hash_set"])
prop("P02", "Hash container iterators, references and pointers stay valid as documented",
 "An element of a node hash container keeps its address until it is erased, whatever else happens (insertions, rehash, swap, move construction, extract and re-insert of its node). An element of a flat hash container keeps its address across lookups, erasure of other elements, insertion of keys already present, assignments to mapped values, swap and move construction, and, after reserve(n) and as long as nothing is erased, across insertions up to n elements. Erasing while iterating visits every element exactly once and the returned iterator is the next element.",
 ["histories", "inputs"], "all histories in which an element survives an operation that must not invalidate it",
 "The tests check a handful of addresses after a handful of operations; a needless rehash or move shows only in particular states (exactly full tables, tombstones, reserved sizes).",
 ["phmap.hpp"],
 [("node slots hold pointers", "phmap.hpp: node_hash_policy"), ("growth accounting", "phmap.hpp: growth_left, reserve, rehash_and_grow_if_necessary"), ("erase never moves elements", "phmap.hpp: erase, erase_meta_only")],
 ["addresses of elements and iterators before and after each operation"])
prop("P03", "Hash tables stay bounded: lookups end, memory follows size, cost stays constant",
 "Whatever the history (endless insert/erase churn, rehash(0), reserve, shrinking, colliding hashes), every operation terminates, the number of elements never exceeds the maximum load of the capacity, and the capacity never exceeds a constant multiple of the largest size or reservation reached. With a well distributed hash, lookups compare only a small constant number of keys on average, and an insertion rehashes a constant amortized number of elements; rehash(0) shrinks the table to what its elements need.",
 ["histories", "inputs", "configurations"], "all histories, including arbitrarily long steady-state churn",
 "The tests stop after small fixed sizes; a leak of tombstones or a full table only shows after long churn, or at sizes exactly at the load limit.",
 ["phmap.hpp", "phmap_utils.hpp"],
 [("load limit 7/8 and capacity 2^k-1", "phmap.hpp: CapacityToGrowth, GrowthToLowerboundCapacity, NormalizeCapacity"), ("7 hash bits per control byte filter comparisons", "phmap.hpp: H1, H2"), ("tombstone reclamation", "phmap.hpp: rehash_and_grow_if_necessary")],
 ["capacity(), size(), load_factor(), calls of the hash and equality functions, watchdog"])
prop("P04", "Hash containers construct, destroy and free every element and block exactly once",
 "In every history each element is constructed once and destroyed once, is never read when not alive or after being moved from, is never relocated bitwise unless its type allows it, and is suitably aligned. All memory is obtained from and returned to an allocator equal to the one that provided it, with the same size, following the allocator's propagation rules on copy, move and swap; when the containers are gone nothing is left, and no access outside the allocated blocks ever happens; a request for more elements than can exist is refused without harm.",
 ["histories", "configurations"], "all histories, element types, allocators and their propagation traits",
 "The tests do not run under sanitizers and use few non-trivial element types or stateful allocators.",
 ["phmap.hpp", "gtl_base.hpp"],
 [("slot transfer, construct, destroy", "phmap.hpp: PolicyTraits, map_slot_policy in gtl_base.hpp"), ("allocator propagation", "phmap.hpp: raw_hash_set::operator=, move_assign, swap"), ("single allocation layout", "gtl_base.hpp: Layout; phmap.hpp: MakeLayout, initialize_slots, destroy_slots")],
 ["self-checking element type, recording allocator, AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer"])
prop("P05", "An exception leaves a hash container valid, and inserts all-or-nothing",
 "If constructing, copying or assigning an element, hashing or comparing the key given by the user, or allocating memory throws at any point of an operation, the container (flat, node or parallel) stays valid and usable, its size equals the number of its elements, no other element is lost or changed, and nothing leaks. An insertion of one element that throws leaves the container exactly as it was; a copy construction or copy assignment that throws leaves the source unchanged, and for the plain (not parallel) containers the destination, too.",
 ["fault_sequences", "histories"], "all positions of a throw within all operations, in all reachable states",
 "No existing test throws from element constructors, hash, equality or allocators of the hash containers.",
 ["phmap.hpp"],
 [("element is constructed before the slot is published", "phmap.hpp: emplace_at, lazy_emplace_at, set_ctrl"), ("copy-and-swap assignment", "phmap.hpp: operator="), ("allocation precedes state change", "phmap.hpp: initialize_slots, resize")],
 ["container contents, live element count and allocations after each injected fault"])
prop("P06", "Heterogeneous lookups and precomputed hashes give the same result as plain ones",
 "With transparent hash and equality, every operation given an equivalent key of another type (for example a string view or literal instead of a string) has the same effect and result as with the stored key type. Every operation taking a precomputed hash behaves as the one computing the hash itself, when given the container's hash of that key.",
 ["inputs", "histories"], "all keys, all operations having such an overload, all container kinds",
 "The tests try one or two literals; each overload is separate code.",
 ["phmap.hpp", "gtl_base.hpp"],
 [("transparent key_arg", "gtl_base.hpp: KeyArg; phmap.hpp: StringHashEq"), ("with_hash overloads", "phmap.hpp: emplace_with_hash, find(key, hash), try_emplace_with_hash, lazy_emplace_with_hash")],
 ["public API, compared with the plain overload on a model"])
prop("P07", "Equal keys hash equally, and the supplied hashes distribute keys",
 "For every supported key type (integers, enums, floating point including both zeros, pointers, strings and views, pairs, tuples, user types built with the hash combiner) equal keys have equal hashes, in every representation in which they can be looked up. The library hashes spread sequential, strided (small or power-of-two strides), pointer-like, pair and tuple keys so that tables and submaps stay balanced; the hash of a composite depends on every component and on their order.",
 ["inputs"], "all values of the supported key types",
 "The tests compare a few constants; an inconsistency concerns particular values such as negative zero.",
 ["phmap_utils.hpp", "phmap.hpp", "gtl_base.hpp"],
 [("Hash specialisations and mixing", "phmap_utils.hpp: Hash, phmap_mix, Combiner, HashState"), ("submap selection", "phmap.hpp: parallel_hash_set::subidx"), ("string hash/eq", "phmap.hpp: StringHashEq, HashEq")],
 ["values of gtl::Hash, container lookups, submap sizes"])
prop("P08", "Concurrent operations of parallel hash containers are linearizable per key",
 "When a parallel hash container has a real mutex type (exclusive or shared), concurrent calls of its locked operations (insert, emplace, try_emplace, insert_or_assign, lazy emplace, find-with-callback, modify, erase, conditional erase, contains, count) on a key from any number of threads return results that some sequential order of those calls, consistent with real time, would return. Rehashing, growth and other keys in the same submap do not disturb this.",
 ["schedules", "histories"], "all interleavings of all concurrent histories",
 "The tests run one schedule per test and look only at final totals.",
 ["phmap.hpp"],
 [("one mutex per submap", "phmap.hpp: parallel_hash_set::Inner, LockableImpl, UniqueLock/SharedLock"), ("upgrade and re-find", "phmap.hpp: erase_if_impl, switch_to_unique"), ("find-or-insert under one lock", "phmap.hpp: find_or_prepare_insert_with_hash")],
 ["recorded call/return events with values unique per write"])
prop("P09", "Locked operations of parallel containers are free of races and deadlocks",
 "Any mix of concurrently called locked operations on parallel hash containers with a real mutex (including whole-container ones: clear, reserve, rehash, iteration with callbacks, submap access, swap, merge, comparison, dump and load) has no data race and always makes progress, also when two threads name the same containers in opposite order or the same container twice. Concurrent const access to any container of the library, without writers, has no data race.",
 ["schedules"], "all interleavings of all mixes of locked operations",
 "Nothing is run under a race detector, and a deadlock needs a particular interleaving.",
 ["phmap.hpp", "btree.hpp", "vector.hpp", "bit_vector.hpp"],
 [("submap locks", "phmap.hpp: UniqueLock, SharedLock, ReadWriteLock"), ("two-container locking", "phmap.hpp: WriteLocks/ReadLocks, swap, merge, operator==")],
 ["ThreadSanitizer, watchdog"])
prop("P10", "Callbacks of parallel containers run once, under the lock, with exclusion",
 "A callback given to a parallel hash container is called exactly when documented (once if the key is present, or absent, never otherwise; once per element for whole-container callbacks) on the real element, while the submap's lock is held, and no two writing callbacks, nor a writing and a reading callback, for one submap ever overlap. Read-modify-write through callbacks therefore loses no update, each key is constructed by exactly one of the racing threads, and exactly one of the racing erasers succeeds.",
 ["schedules", "histories"], "all interleavings of callback operations",
 "The tests count final totals under one lucky schedule.",
 ["phmap.hpp"],
 [("callback APIs", "phmap.hpp: if_contains, modify_if, erase_if, try_emplace_l, lazy_emplace_l, for_each, for_each_m, with_submap"), ("lock modes", "phmap.hpp: LockableImpl")],
 ["monitor inside the callbacks and in an instrumented mutex"])
prop("P11", "A parallel container used by one thread behaves as one exact map or set",
 "For every history, number of submaps, mutex type and hash, a parallel hash container holds and returns exactly what a mathematical map (set) would; every element lives in exactly one submap, the one its hash designates; size() and capacity-related calls, iteration, callbacks over all elements or submaps, merge, swap, copy, move and comparison agree with the union of the submaps.",
 ["histories", "inputs", "configurations"], "all histories, submap counts, mutex types and hashes",
 "The tests reuse a few fixed histories with one submap count and a good hash.",
 ["phmap.hpp"],
 [("partition by hash", "phmap.hpp: parallel_hash_set::subidx, sets_"), ("iterator over submaps", "phmap.hpp: parallel_hash_set::iterator, skip_empty")],
 ["public API compared with a model"])
prop("P12", "Dumping a hash container and loading it back restores it exactly",
 "For every flat hash container of trivially copyable elements (plain or parallel) in every state, including empty, with erased slots or after growth, dumping to an archive and loading into any container of the same type, whatever it held before, yields a container equal to the original that behaves correctly under all further operations, and leaves the original unchanged. Archives in the library's earlier format load, too, and cereal archives restore a container likewise; an archive of a container with another number of submaps is refused. Several dumps in one archive load back in order, and the loading container keeps its hash and equality functions and its allocator; a load that runs out of memory leaves a valid container. An incomplete dump (archive full, file not writable) and the load of an archive that ends early or of a file that is missing are reported, and such a load leaves a valid container.",
 ["histories", "inputs", "configurations"], "all states of the dumped and of the loading container",
 "The tests dump two or three small containers into fresh ones.",
 ["phmap_dump.hpp", "phmap.hpp"],
 [("raw dump of control bytes and slots", "phmap_dump.hpp: raw_hash_set::phmap_dump, phmap_load"), ("archives", "phmap_dump.hpp: BinaryOutputArchive, BinaryInputArchive")],
 ["contents and later behaviour of the loaded container"])
prop("P13", "B-tree containers behave as the ordered standard containers for every history",
 "For every sequence of operations a b-tree map, set, multimap or multiset has the contents, order (equivalent elements in insertion order where the standard says so), lookup and bound results, returned iterators and node handles, size and comparison results of the corresponding standard ordered container. This holds for every comparator (less, greater, three-way, transparent, stateful), element size, hint, range, arguments that refer to the container's own elements, and for forward and backward iteration.",
 ["histories", "inputs", "configurations"], "all operation histories, comparators and element types",
 "The tests run fixed patterns (forward, reverse, random); rebalancing and merging faults need particular node fills.",
 ["btree.hpp"],
 [("split, merge, rebalance", "btree.hpp: btree_node, rebalance_or_split, try_merge_or_rebalance"), ("search and bounds", "btree.hpp: internal_locate, internal_lower_bound"), ("hinted insertion and range erase", "btree.hpp: insert_hint_unique, erase(begin,end)")],
 ["public API compared with std::set/map/multiset/multimap"])
prop("P14", "B-tree containers keep lifetime, memory, balance and documented stability",
 "In every history of a b-tree container each element is constructed and destroyed exactly once and never used when not alive, all memory goes back to an equal allocator with its size, and no access outside its nodes happens. The tree stays ordered and balanced: comparisons per lookup stay logarithmic, and memory per element stays bounded after any erase pattern; iterators not invalidated by the documentation stay usable (after swap, lookups, and moves).",
 ["histories", "configurations"], "all histories, element types and allocators",
 "The tests do not run under sanitizers and do not measure balance after adversarial erase patterns.",
 ["btree.hpp"],
 [("node construction and destruction", "btree.hpp: btree_node::init_*, value_destroy, transfer"), ("root growth and shrink", "btree.hpp: try_shrink, internal_clear"), ("min fill", "btree.hpp: try_merge_or_rebalance")],
 ["self-checking elements, recording allocator, sanitizers, verify(), comparison counts, bytes"])
prop("P15", "vector behaves as std::vector for every history",
 "For every sequence of operations (insertion of one, n, a range, moves, arguments that refer into the vector itself, single-pass input iterators, erase, resize, assign, swap, shrink, sizes beyond max_size()) a gtl vector has the contents, size, returned iterators and comparison results of std::vector, and its capacity never falls below its size or below what was reserved, nothing is reallocated while the capacity suffices, and appending takes amortised constant time. Random access, iteration and at() agree.",
 ["histories", "inputs", "configurations"], "all operation histories and element types",
 "The tests sample few positions, sizes and no aliasing beyond a few cases; faults need exact fills of the capacity.",
 ["vector.hpp"],
 [("relocation and gap insertion", "vector.hpp: do_real_insert, make_window, undo_window, relocate_move"), ("aliasing", "vector.hpp: dataIsInternal"), ("growth", "vector.hpp: computePushBackCapacity")],
 ["public API compared with std::vector"])
prop("P16", "vector keeps element lifetime, memory and exception guarantees",
 "In every history of a vector each element is constructed and destroyed exactly once, relocated only as its type allows, at an address aligned for its type, and all memory is returned to an equal allocator with its size. If an element operation or an allocation throws, nothing leaks, the vector stays valid, and push_back, emplace_back and reserve leave it unchanged.",
 ["fault_sequences", "histories"], "all positions of a throw within all operations, all histories",
 "The tests inject few faults and do not run under sanitizers.",
 ["vector.hpp"],
 [("rollback guards", "vector.hpp: undo_window, M_destroy, scoped rollback in relocate/copy"), ("relocatability traits", "vector.hpp: usingStdAllocator, relocate_move")],
 ["self-checking elements, recording allocator, sanitizers, contents after each injected fault"])
prop("P17", "bit_vector and its views behave as arrays of bits for every range and history",
 "For every bit_vector of every length and every history, each bit, count, any/every/none, find first/next, comparison, shift, and/or/xor/difference/complement, resize, string and number conversion equals that of a plain array of booleans, and bits beyond the end never influence a result. Every operation on a view over any subrange, aligned or not, affects and reads exactly the bits of that range, also when source and target views lie in the same bit_vector.",
 ["inputs", "histories"], "all lengths, alignments, ranges, bit patterns and operation orders",
 "The tests use a few lengths and ranges; the faults depend on alignment to the 64-bit blocks.",
 ["bit_vector.hpp", "bits.hpp"],
 [("block-wise visitors with partial first and last block", "bit_vector.hpp: storage::visit, oor_bits"), ("views", "bit_vector.hpp: view")],
 ["public API compared with std::vector<bool>"])
prop("P18", "LRU caches return only the latest value and evict exactly the least recent",
 "A cache lookup returns the value most recently inserted for that key or nothing, never another value, and an inserted or just read key is present right afterwards. A single-shard cache never holds more than its capacity (unless that is lowered later) and evicts exactly the least recently used key; a sharded or multithreaded cache never exceeds its total capacity and, under any concurrent use, stays consistent and returns only values inserted for that key. Copying a cache yields an independent cache, moving it keeps its entries. If copying a key or value throws, the cache stays consistent, and an insertion that throws changes neither its keys nor their order.",
 ["histories", "schedules"], "all access histories, capacities and interleavings",
 "The existing tests are single threaded fixed sequences; recency faults need particular access orders.",
 ["lru_cache.hpp", "phmap.hpp"],
 [("list plus map per shard", "lru_cache.hpp: lru_cache_impl::get, insert"), ("eviction under the submap lock", "phmap.hpp: lazy_emplace_l with aux container")],
 ["public API compared with a model LRU, recorded concurrent values, sanitizers"])
prop("P19", "Memoized functions return what the function returns, computed once",
 "Calling a memoized function with any arguments returns exactly the value of the underlying function for these arguments, also when these are passed by reference, from any number of threads, also when the function is recursive (single threaded forms, and multithreaded ones declared recursive), and if the function (or copying a key or result) throws the exception propagates and the cached results stay as they were. The unbounded caches call the function once per distinct argument list (for the non-recursive multithreaded form, even when called concurrently); bounded ones never hold more than their limit and recompute only what was evicted.",
 ["inputs", "schedules", "histories"], "all argument sequences and interleavings",
 "There is no test of memoization beyond examples.",
 ["memoize.hpp", "phmap.hpp"],
 [("lookup or compute under the submap lock", "memoize.hpp: mt_memoize::operator()"), ("bounded cache", "memoize.hpp: mt_memoize_lru")],
 ["calls of the underlying function and returned values"])
prop("P20", "intrusive_ptr destroys its object exactly once, when the last owner is gone",
 "For every history of construction, copy, move, (converting) assignment, self-assignment, swap, reset, detach and destruction, the reference count equals the number of owners (plus detached or adopted references), the object is alive while it is owned, and it is destroyed exactly once when the last owner goes. With the thread-safe counter this also holds, without data races, when copies are made and dropped concurrently; comparison, ordering, hashing and casts agree with the raw pointers.",
 ["histories", "schedules"], "all histories of owners and all interleavings",
 "There is no test of intrusive_ptr.",
 ["intrusive.hpp"],
 [("add_ref and release", "intrusive.hpp: intrusive_ptr_add_ref, intrusive_ptr_release"), ("counters", "intrusive.hpp: thread_unsafe_counter, thread_safe_counter"), ("copy-and-swap", "intrusive.hpp: intrusive_ptr::operator=")],
 ["use_count(), constructions and destructions of the object, sanitizers"])
prop("P21", "Structure-of-arrays rows stay together through insertion, resize and sorting",
 "In a soa container every row consists of the values inserted together, after any history of insert, element assignment through row views, resize, clear and sorting by any column and comparator. Sorting by a column yields a stable, ordered permutation of the rows.",
 ["histories", "inputs"], "all contents, columns, comparators and histories",
 "There is no test of soa beyond an example; the in-place permutation depends on the cycle structure of the order.",
 ["soa.hpp", "bit_vector.hpp"],
 [("cycle-following reorder", "soa.hpp: reorder"), ("stable sort of row indices", "soa.hpp: sort_by_field")],
 ["rows compared with a vector of tuples"])
prop("P22", "Scope guards, value setters and search helpers do exactly what they promise",
 "A scope guard runs its action exactly once at scope exit, also when an exception unwinds, and never when dismissed or disabled; a scoped value is set for the scope and then restored exactly; change and replace report and return the old value truthfully; timestamps order events by time of touch; stopwatches report the time elapsed, in their unit. The binary search helper returns, for every monotone predicate and range, the two adjacent values between which the predicate changes; concatenation, slicing and mapping of vectors give the exact sequences.",
 ["inputs", "histories"], "all values, nesting and exits (normal or by exception)",
 "There are no tests of these headers.",
 ["utils.hpp", "adv_utils.hpp", "vec_utils.hpp", "stopwatch.hpp"],
 [("RAII objects", "utils.hpp: scoped_guard, scoped_set_unset, scoped_set_value"), ("binary search", "adv_utils.hpp: binary_search, middle"), ("vector helpers", "vec_utils.hpp: cat, slice, map")],
 ["recorded calls and values compared with a model"])
prop("P23", "Copies are independent and equal, moves and swaps transfer contents exactly",
 "For every container of the library (hash, parallel hash, b-tree, vector, bit vector) in every state, a copy equals its source and is independent of it, a move or swap transfers exactly the contents (with hash, comparison functors and allocator following the standard rules) and leaves the source empty or exchanged and fully usable; self-assignment and self-swap change nothing. Two containers compare equal exactly when they hold the same elements, whatever their capacity and history, and ordering comparisons are lexicographic.",
 ["histories", "configurations"], "all states of both operands, functor states and allocators",
 "The tests copy, move and compare a few small containers in fresh states.",
 ["phmap.hpp", "btree.hpp", "vector.hpp", "bit_vector.hpp"],
 [("copy, move, swap, comparison operators", "phmap.hpp: raw_hash_set, parallel_hash_set; btree.hpp: btree; vector.hpp: vector; bit_vector.hpp: vec")],
 ["public API compared with models, recording allocator, sanitizers"])
prop("P24", "An exception leaves a b-tree container valid, and inserts all-or-nothing",
 "If copying an element, comparing keys or allocating memory throws at any point of an operation on a b-tree map, set, multimap or multiset, the container stays valid, ordered and usable, its size equals the number of its elements, no element is lost or changed, and nothing leaks. An insertion of one element that throws (plain, with a hint, emplace, try_emplace, operator[], or of a node handle, which then keeps its element) leaves the container exactly as it was; a copy that throws leaves the source unchanged. Lookups, erase and extract whose comparison throws change nothing.",
 ["fault_sequences", "histories"], "all positions of a throw within all operations, in all reachable tree shapes",
 "No existing test throws from elements, comparators or allocators of the b-tree containers.",
 ["btree.hpp"],
 [("value is constructed before the tree changes", "btree.hpp: internal_emplace"), ("all nodes are allocated before the tree changes", "btree.hpp: rebalance_or_split"), ("first root", "btree.hpp: insert_unique, insert_multi")],
 ["contents, verify(), live element count and allocations after each injected fault"])
prop("P25", "Bit, byte-order and memory helper functions are exact for every input",
 "For every input, the counts of leading and trailing zeros (also the portable versions), byte swaps, host, network, little- and big-endian conversions and the 64x64 bit product return exactly what their definition says; unaligned loads and stores work at every address and touch no other byte. The memory figures (physical, system, used, this process) agree with those of the operating system, for every size.",
 ["inputs"], "all values and addresses, all sizes of the process",
 "There are no tests of these headers.",
 ["bits.hpp", "meminfo.hpp"],
 [("bit counts", "bits.hpp: CountLeadingZeros64, CountTrailingZerosNonZero64 and the like"), ("byte order", "bits.hpp: gbswap_64, ghtonll, little_endian, big_endian"), ("memory figures", "meminfo.hpp: GetProcessMemoryUsed, GetSystemMemory")],
 ["results compared with bit-by-bit and byte-by-byte definitions, and with the figures of the operating system"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
print(len(P))
