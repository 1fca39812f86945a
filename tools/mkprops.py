import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="include/parlay/"
p("C01","Parallel loops and forks run every index and branch exactly once",
 "parallel_for(start, end, f) calls f(i) exactly once for every start <= i < end and for no other i, blocked_for covers [start, end) with consecutive blocks that overlap nowhere, and par_do runs each of its branches exactly once. All calls have returned when the construct returns. This holds for every range, granularity, function cost, number of workers and nesting (within the scheduler's fixed limit of pending jobs per worker, which it enforces by aborting).",
 ["inputs","configurations","schedules"],"all start, end, granularity, block size and conservative flags; all timings reported by the clock during granularity estimation; all numbers of workers",
 "The split points depend on measured execution time and on the worker count; tests run a few ranges with default granularity on one machine.",
 [I+"parallel.h",I+"scheduler.h",I+"internal/work_stealing_job.h"],
 [("parallel_for / blocked_for / par_do_if / par_do3",I+"parallel.h"),("fork_join_scheduler::pardo, parfor, parfor_, get_granularity",I+"scheduler.h")],
 ["the multiset of indices passed to f"])
p("C02","Work-stealing deque hands out each job exactly once",
 "Every job pushed on a worker's deque is returned exactly once, by one pop of its owner or by one steal, and no pop or steal returns a job that was never pushed or was already taken. The owner sees its own jobs newest first and thieves see them oldest first.",
 ["schedules","histories"],"all interleavings of one owner's push/pop with any number of concurrent steals; all histories",
 "The failing interleavings are a few instructions wide and involve the last remaining element and the tag of the top index; tests only observe whole programs finishing.",
 [I+"internal/work_stealing_deque.h"],[("Deque::push_bottom, pop_bottom, pop_top",I+"internal/work_stealing_deque.h")],
 ["jobs returned by pop_bottom and pop_top"],[("age","top index plus ABA tag",I+"internal/work_stealing_deque.h"),("bot","one past the newest job",I+"internal/work_stealing_deque.h")])
p("C03","A sequence behaves like a list under every operation",
 "After any history of operations on a sequence (construction, assignment, push, emplace, insert, erase, append, resize, reserve, clear, pop, swap, comparison, element access), its size and its elements in order are exactly those of a mathematical list on which the same operations were performed, returned iterators point where the list operation says, and no operation touches another sequence. This includes single-element arguments that refer to an element of the same sequence, empty ranges, and every crossing between inline and heap storage.",
 ["histories","inputs"],"all operation histories, sizes, element values and element types (trivial, non-trivial, over-sized), with and without inline storage",
 "Tests run each operation once or twice at a few sizes on non-aliased arguments; transitions between inline and heap storage with a particular size, capacity and argument position are unbounded.",
 [I+"sequence.h",I+"internal/sequence_base.h"],[("sequence::insert_n/append_n/erase/resize/assign",I+"sequence.h"),("storage_impl: inline/heap representation, ensure_capacity, set_size",I+"internal/sequence_base.h")],
 ["size(), operator[], begin()/end(), ==, <"],[("flag/size/capacity/buffer","representation of the sequence",I+"internal/sequence_base.h")])
p("C04","Every element constructed is destroyed exactly once",
 "Containers and algorithms never read, assign to or destroy an object before it is constructed or after it is destroyed, never construct over a live object, and destroy each object they constructed exactly once, so nothing is leaked or destroyed twice. Objects owned by the caller are left alive (possibly moved from, where the operation is documented to move).",
 ["inputs","histories"],"all element types with non-trivial copy, move and destruction; all sizes and operation histories",
 "Tests use a self-checking type in some algorithms at one size; the code switches between relocation, uninitialized assignment and copies depending on type traits, sizes and parities.",
 [I+"sequence.h",I+"internal/sequence_base.h",I+"relocation.h",I+"utilities.h",I+"internal/uninitialized_sequence.h",I+"internal/merge.h",I+"internal/quicksort.h",I+"internal/sample_sort.h",I+"internal/transpose.h"],
 [("assign_uninitialized / uninitialized_relocate / assign_dispatch",I+"utilities.h"),("copy_or_move/destroy tails in insert, erase, resize",I+"sequence.h")],
 ["constructions, assignments and destructions per address"])
p("C05","Reduce and scan compute the ordered monoid fold",
 "For any associative operation f with identity e (not necessarily commutative) reduce returns e f a0 f a1 ... in order, exclusive scan returns all proper prefix folds together with the total, and inclusive scan returns all non-empty prefix folds; the in-place forms leave the same values in the input. The result does not depend on the length, the block size, the number of workers or the schedule.",
 ["inputs","schedules","configurations"],"all lengths (including 0 and block boundaries), all monoids, all inputs",
 "Tests use a handful of lengths, mostly with commutative integer addition, so an element used twice, skipped at a block boundary or combined out of order can pass.",
 [I+"internal/sequence_ops.h",I+"primitives.h",I+"monoid.h"],[("reduce, reduce_serial, scan_, scan_serial, scan_inplace",I+"internal/sequence_ops.h")],["returned value, returned sequence, in-place range"])
p("C06","Pack and filter keep exactly the selected elements, in order",
 "pack, pack_index, filter, remove, remove_if, unique and their into-forms return exactly the elements (or indices) that are selected, each once and in their original order, with the right count, and leave the input unchanged. (The into-forms construct into uninitialised output.)",
 ["inputs","configurations"],"all lengths, flag vectors, predicates and element values",
 "Offsets come from a scan over per-block counts; tests use few lengths and regular flag patterns.",
 [I+"internal/sequence_ops.h",I+"primitives.h"],[("pack_serial, pack, pack_index, filter, filter_into, pack_out",I+"internal/sequence_ops.h"),("unique, remove, remove_if",I+"primitives.h")],["returned sequence and count"])
p("C07","Searches return the first match of the sequential definition",
 "find, find_if, find_if_not, find_first_of, find_end, adjacent_find, mismatch, search, equal, lexicographical_compare, all_of, any_of, none_of, count and count_if return exactly what the sequential definition over the range gives, for every predicate including asymmetric ones, every position of the match and every length including empty and shorter-than-pattern ranges, and never apply the predicate outside the range.",
 ["inputs","schedules"],"all lengths, predicates and match positions; all schedules of the parallel blocks",
 "The search probes doubling blocks in parallel and keeps a minimum; a wrong block bound shows only for a match at a block boundary, and tests use few positions, symmetric predicates and non-empty ranges.",
 [I+"primitives.h",I+"internal/sequence_ops.h"],[("find_if_index and the functions built on it",I+"primitives.h")],["returned iterator/index/boolean"])
p("C08","Merging and binary search agree with the sorted order",
 "binary_search returns the first position whose element is not less than the key; merge of two sorted ranges returns the stable merge: sorted, containing every input element exactly once, with elements of the first range before equivalent elements of the second and the order inside each range preserved.",
 ["inputs"],"all sorted inputs, lengths, duplicates, split positions and strict weak orders",
 "Sequential and parallel cases are chosen by size and split positions depend on data; stability around the split of equal elements is not reached by random tests.",
 [I+"internal/binary_search.h",I+"internal/merge.h",I+"primitives.h"],[("binary_search, linear_search, general_search",I+"internal/binary_search.h"),("seq_merge, merge_into, merge",I+"internal/merge.h")],["returned index / output range"])
p("C09","Comparison sorts return a sorted permutation, stable when promised",
 "sort, stable_sort and their in-place forms produce a permutation of the input ordered by the given strict weak order, the stable forms keep the input order of equivalent elements, and the out-of-place forms leave the input unchanged. remove_duplicates_ordered keeps one representative of each class in sorted order.",
 ["inputs","configurations"],"all lengths, inputs, duplicate patterns and strict weak orders; all element types",
 "Different algorithms are used by size, type and duplicate density (insertion, quick, bucket, merge, sample sort); failing inputs need specific sizes or pivot patterns.",
 [I+"internal/quicksort.h",I+"internal/merge_sort.h",I+"internal/bucket_sort.h",I+"internal/sample_sort.h",I+"internal/transpose.h",I+"internal/heap_tree.h",I+"primitives.h"],
 [("insertion_sort, split3, quicksort_serial, merge_sort_, base_sort, sample_sort_, merge_seq",I+"internal/")],["output range"])
p("C10","Integer and counting sorts are stable and report exact bucket offsets",
 "integer_sort, stable_integer_sort, counting_sort and their by-key and in-place forms return the stable reordering of the input by key for every unsigned key type and every key value up to the type's maximum; where offsets or counts are returned, bucket k occupies exactly [offset k, offset k+1).",
 ["inputs","configurations"],"all lengths, key types and widths, numbers of buckets and key distributions",
 "The number of passes and the split into blocks depend on length and key bits; tests use small keys and few lengths.",
 [I+"internal/integer_sort.h",I+"internal/counting_sort.h",I+"internal/transpose.h",I+"primitives.h"],[("seq_count, seq_write, count_sort_, count_sort, seq_radix_sort, integer_sort_r",I+"internal/")],["output range, offsets"])
p("C11","Grouping, histogram and duplicate removal account for every element once",
 "group_by_key, group_by_key_ordered, group_by_index, reduce_by_key, reduce_by_index, histogram_by_key, histogram_by_index, remove_duplicates and remove_duplicate_integers attribute every input element to the group of its key exactly once, list each distinct key exactly once (or every index in range), and combine the values of a key with the given monoid.",
 ["inputs","configurations"],"all lengths, key distributions (including one heavy key), key types and bucket counts",
 "Strategies switch on length, number of buckets and sampled heavy keys; tests use a few distributions.",
 [I+"internal/group_by.h",I+"internal/collect_reduce.h"],[("collect_reduce_few/seq_/collect_reduce, get_bucket, group_by_*",I+"internal/")],["returned keys, groups and sums"])
p("C12","Delayed sequences have the elements of their eager equivalents",
 "For every composition of delayed operations (tabulate, iota, map, zip, enumerate, scan, filter, filter_op, flatten, views), the size, the elements in order, and every terminal result (to_sequence, reduce, for_each, iteration from any block) equal those of the same composition computed eagerly on lists, also after the delayed sequence has been copied or moved (lvalue inputs must outlive it, temporaries are owned by it).",
 ["programs","inputs"],"all compositions, all lengths including empty inner ranges and block boundaries",
 "Block starts are computed by searching prefix sums; tests use few lengths and rarely compose more than two operations with empty or boundary-aligned inner ranges.",
 [I+"delayed.h",I+"delayed_sequence.h",I+"internal/delayed/",I+"internal/block_delayed.h",I+"internal/stream_delayed.h"],[("begin_block/end_block/num_blocks",I+"internal/delayed/common.h"),("iterators and block initialisation of flatten, filter, scan, zip, map",I+"internal/delayed/")],["elements seen through iteration and terminals"])
p("C13","Number formatting and parsing are inverse",
 "Converting an integer of any supported width to characters yields its exact decimal representation, and parsing a decimal text yields the number it denotes, so parse(format(x)) = x for every value including the extreme ones; formatting a floating-point number and parsing it back gives a value equal up to the printed precision.",
 ["inputs"],"all values of all supported integer types, all digit strings, signs and leading zeros; floating-point texts in range",
 "Tests format and parse a few dozen constants; failures sit at digit-count boundaries and the extreme values.",
 [I+"io.h"],[("chars_to_int, chars_to_int_t, chars_to_float, to_chars",I+"io.h")],["character sequences and parsed values"])
p("C14","Allocations are aligned, large enough and never overlap",
 "Every block handed out by the allocators has at least the requested size and alignment and overlaps no other live block, what is written to it stays there until it is freed, freeing returns the same block to the pool it came from, and the reported number of blocks (bytes) in use returns to its earlier value when everything allocated in between has been freed.",
 ["histories","inputs"],"all sizes, alignments and histories of allocate/free across threads",
 "Size classes, header offsets and list hand-over (at list length and twice list length) have boundaries that tests never enumerate.",
 [I+"alloc.h",I+"internal/pool_allocator.h",I+"internal/block_allocator.h"],[("p_malloc/p_free header arithmetic",I+"alloc.h"),("size class choice",I+"internal/pool_allocator.h"),("local list / mid pointer",I+"internal/block_allocator.h")],["addresses returned, header, usage statistics"])
p("C15","Built-in monoids satisfy the monoid laws",
 "For every built-in monoid (plus, multiplies, bit and logical operations, minimum, maximum, minmax, and monoids made by the factory functions) and every value of every arithmetic type it is instantiated with, the identity is neutral on both sides and, for integral types, the operation is associative and is the named operation.",
 ["inputs"],"all triples of values of every integral instantiation; all values (including infinities) for floating-point identities",
 "Tests check a few values per type.",
 [I+"monoid.h"],[("plus, multiplies, maximum, minimum, minmax, logical_*, bitwise_*, maxm, minm, addm, xorm, minmaxm",I+"monoid.h")],["operator() and identity"])
p("C16","Random shuffles are permutations and reproducible",
 "random_shuffle and random_permutation return a permutation of the input (of 0..n-1) for every length and generator state, the same generator state gives the same result regardless of the number of workers, and forked generators are deterministic functions of the seed and the index.",
 ["inputs","configurations","schedules"],"all lengths, seeds and worker counts",
 "Tests check few lengths and one worker configuration.",
 [I+"random.h"],[("knuth_shuffle, random_shuffle_, random_generator::operator[]",I+"random.h")],["returned sequence"])
p("C17","The concurrent hash table behaves as a set",
 "After any set of concurrent insertions, and after any set of concurrent deletions, the table contains exactly the keys inserted and not deleted, each once (keeping the entry chosen by the table's priority rule), find reports membership and the stored entry correctly, and entries and count agree with the contents, whatever the collision pattern.",
 ["histories","schedules","inputs"],"all histories of phase-concurrent operations, all hash functions and collision patterns including wrap-around clusters",
 "Deletion must refill holes in probe clusters; only specific collision layouts, wrap-around and races reach those paths.",
 [I+"hash_table.h"],[("insert, deleteVal, find, findReplacement/shift logic",I+"hash_table.h")],["find, entries, count"])
p("C18","Thread-specific storage keeps one private element per thread",
 "Distinct live threads have distinct identifiers and distinct elements, each thread always gets its own element, every element is initialised exactly once by the constructor function for its identifier, and iteration visits every initialised element exactly once.",
 ["schedules","histories"],"all numbers of threads (past every growth boundary), all thread creation and exit histories",
 "Tests create few threads; identifiers beyond the first chunk and reuse after exit are barely reached.",
 [I+"thread_specific.h",I+"worker_specific.h",I+"internal/thread_id_pool.h"],[("chunk index arithmetic, ensure_chunk_exists, iterator",I+"thread_specific.h"),("ThreadIdPool acquire/release",I+"internal/thread_id_pool.h")],["get(), for_each, iteration"])
p("C19","Relocation moves each object to its place exactly once",
 "Relocating one object or a range gives the destination the value of the source and ends the lifetime of the source, for every type, length and alignment, whether it is done byte-wise or by move and destroy; nothing outside the destination range changes.",
 ["inputs"],"all lengths, element sizes and types",
 "Byte-wise relocation is done in blocks whose number depends on element size; tests use a few small types and lengths.",
 [I+"relocation.h",I+"type_traits.h"],[("uninitialized_relocate, uninitialized_relocate_n",I+"relocation.h")],["destination contents, lifetime events"])
p("C20","Tokenising and splitting partition the text",
 "tokens and map_tokens return exactly the maximal runs of non-separator characters in order; split_at and map_split_at return the consecutive pieces ending at each flagged position plus the remainder, so concatenating the pieces gives back the input.",
 ["inputs"],"all texts and separator predicates, including leading, trailing, repeated and absent separators, all lengths",
 "Small and large inputs use different algorithms; tests use a few texts.",
 [I+"primitives.h"],[("map_tokens_small, map_tokens, tokens, map_split_at, split_at",I+"primitives.h")],["returned pieces"])
p("C21","Element-wise constructors produce exactly the specified elements",
 "tabulate, map, iota, copy, reverse, rotate, append, flatten, zip, enumerate and to_sequence return a range of exactly the specified length whose i-th element is the specified function of the input (rotations by at most the length), and evaluate the given function exactly once per element where they build a sequence.",
 ["inputs","configurations"],"all lengths, functions, rotations and nestings with empty inner ranges",
 "Tests use few lengths; block boundaries, rotation by extreme amounts and empty pieces are unbounded families.",
 [I+"primitives.h",I+"internal/sequence_ops.h",I+"sequence.h",I+"slice.h",I+"range.h"],[("tabulate, map, flatten, append, rotate, reverse",I+"primitives.h")],["returned sequence"])
p("C22","Order statistics agree with the sorted order",
 "min_element, max_element and minmax_element return an extreme element (the first among equivalent ones), kth_smallest returns an element with the k-th rank, rank returns each element's position in the stable sorted order, and is_sorted, is_sorted_until and is_partitioned answer according to their definitions.",
 ["inputs"],"all lengths, orders, duplicate patterns and ranks",
 "Duplicates, boundary ranks and block boundaries are barely sampled; the parallel selection path needs large inputs with many equal keys.",
 [I+"primitives.h"],[("min_element, minmax_element, kth_smallest, kth_smallest_copy, rank, is_sorted*",I+"primitives.h")],["returned iterators, values and booleans"])
p("C23","Atomic accumulate helpers lose no concurrent update",
 "When any number of threads apply write_min, write_max or write_add to one location, the final value is the minimum, maximum or sum of the initial value and all arguments, and write_min and write_max report success only when they changed the value. The prioritised cell updates used by the library never overwrite a better value by a worse one.",
 ["schedules","histories"],"all interleavings of any number of calls",
 "A lost update needs a particular interleaving between a load and the compare-and-swap, which tests rarely produce.",
 [I+"utilities.h",I+"primitives.h"],[("write_add, write_min, write_max (compare-and-swap loops)",I+"utilities.h")],["final value and return values"])
p("C24","Files written are read back unchanged",
 "A character sequence written to a file and read back through the file functions or a file mapping is the same sequence, for every length including zero and for every byte value.",
 ["inputs"],"all byte sequences and lengths",
 "Tests read and write a couple of small files.",
 [I+"io.h",I+"internal/posix/file_map_impl_posix.h"],[("chars_to_file, chars_from_file, file_map",I+"io.h")],["bytes read back"])
p("C25","The scheduler never deadlocks and never loses a wake-up",
 "Every fork-join computation started on a scheduler finishes, whatever the interleaving of spawning, stealing, sleeping and waking workers, and shutting a scheduler down always terminates.",
 ["schedules"],"all interleavings of all workers",
 "A lost wake-up needs one precise interleaving of the sleep counter and a push; tests observe a few seconds of schedules.",
 [I+"scheduler.h",I+"internal/atomic_wait.h"],[("wait_for_work, wake_up_a_worker, shutdown",I+"scheduler.h")],["termination"])
p("C26","The lock-free stack of free blocks loses and duplicates nothing",
 "Under any interleaving of concurrent push and pop, each pushed value is popped at most once, nothing is popped that was not pushed, and no node is freed while another thread still reads it.",
 ["schedules","histories"],"all interleavings of push, pop and reclamation",
 "ABA and use-after-free need a thread to be delayed between reading the head and the compare-and-swap.",
 [I+"internal/concurrency/hazptr_stack.h",I+"internal/concurrency/acquire_retire.h"],[("push, pop, hazard pointer announcement and scan",I+"internal/concurrency/")],["values popped"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
