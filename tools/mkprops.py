#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the single source of the property list).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
I = "include/cpp-sort/"

prop("C01", "Every comparison sorter leaves a sorted permutation of its input",
 "Calling any comparison sorter of the library on a range [first, last), with any weak-order comparison and any projection, leaves the range holding exactly the elements it held before, ordered so that no element compares less than one placed before it. This holds for every length from 0 up, every arrangement of values (any duplicates, runs, or adversarial shape), every element type (arithmetic or class type) and every iterator category the sorter accepts.",
 ["inputs", "configurations"],
 "all inputs (lengths and arrangements of equivalence classes) x all sorters x all accepted iterator categories x comparison/projection combinations",
 "The tests run about a dozen distributions at a handful of sizes per sorter; algorithms switch strategy on size thresholds, run lengths, buffer exhaustion, bad pivots and duplicate density, and no finite sample of arrangements settles all of those paths.",
 [I+"sorters/", I+"detail/"],
 [("sorting algorithms", I+"detail/{pdqsort,timsort,wiki_sort,grail_sort,smoothsort,poplar_sort,spinsort,vergesort,...}.h"), ("sorter objects", I+"sorters/*.h"), ("size/category dispatch", I+"detail/merge_sort.h, detail/quicksort.h, detail/quick_merge_sort.h, detail/inplace_merge.h")],
 ["return of a sorter call: content of the range"])

prop("C02", "Sorters that advertise stability keep equivalent elements in order",
 "Whenever is_always_stable says a sorter is stable, is_stable says a sorter is stable for a given kind of call, or the documentation lists the sorter as stable, the call leaves equivalent elements in their original relative order, for every input. Wrapping any sorter in stable_adapter (or make_stable, or stable_t) always yields such a stable sorter.",
 ["inputs", "configurations"],
 "all inputs x all sorters and adapters whose stability trait is true for the call, plus stable_adapter/make_stable/stable_t around every sorter",
 "Stability tests use one or two distributions of a few hundred elements and few key values; a reversed tie-break in one merge direction, in one run-length branch or with an exhausted buffer only shows with duplicates placed at exactly that spot.",
 [I+"sorter_traits.h", I+"adapters/stable_adapter.h", I+"stable_sort.h", I+"sorters/", I+"detail/"],
 [("stability traits", I+"sorter_traits.h, detail/raw_checkers.h"), ("stable_adapter / make_stable", I+"adapters/stable_adapter.h, detail/stable_adapter_*.h"), ("stable merging", I+"detail/{inplace_merge,buffered_inplace_merge,symmerge,recmerge_*}.h")],
 ["return of a sorter call: order of the original positions among equivalent elements", "value of the is_stable / is_always_stable traits"])

prop("C03", "Wrapping a sorter in adapters never changes what a sort call means",
 "A sorter built from any combination of the library's adapters (counting, drop_merge, hybrid, indirect, out_of_place, schwartz, self_sort, small_array, split, stable, verge) around sorters still leaves a sorted permutation, is stable when its trait says so, and can be used with the iterator categories it declares. hybrid_adapter hands the call to the wrapped sorter that the documentation designates for that iterator category and argument list, small_array_adapter uses its fixed-size sorter for exactly the sizes it covers and the fallback for all others, and self_sort_adapter calls the collection's own sort method when it has a suitable one.",
 ["configurations", "inputs", "programs"],
 "all nestings of adapters over sorters x iterator categories x call forms x inputs",
 "The tests instantiate a fixed list of one-level wrappings on one distribution; compositions, dispatch priorities among several candidates and boundary sizes are combinatorial.",
 [I+"adapters/", I+"detail/stable_adapter_hybrid_adapter.h", I+"detail/stable_adapter_self_sort_adapter.h", I+"detail/checkers.h", I+"utility/adapter_storage.h", I+"detail/drop_merge_sort.h", I+"detail/split_sort.h", I+"detail/vergesort.h"],
 [("hybrid dispatch", I+"adapters/hybrid_adapter.h"), ("small array dispatch", I+"adapters/small_array_adapter.h"), ("self sort", I+"adapters/self_sort_adapter.h"), ("adaptive wrappers", I+"adapters/{drop_merge,split,verge}_adapter.h")],
 ["which wrapped sorter is invoked, with which arguments", "content of the range on return", "iterator_category and stability traits"])

prop("C04", "A throwing comparison, projection or move never leaks or corrupts objects",
 "If a user-provided comparison, projection or element move throws at any point during a sort or a presortedness measure, that same exception reaches the caller, every temporary object and block of memory the library created has been destroyed and released exactly once, and every element position of the collection still holds a live (possibly moved-from) object. With indirect_adapter the collection is still in its original state if the exception comes while comparing or projecting.",
 ["fault_sequences", "inputs"],
 "every point (k-th comparison, projection, move construction or move assignment) at which a call can throw x sorters and adapters x inputs",
 "The existing tests make a call throw at one place; each sorter has many points where elements live in buffers, trees or temporaries, and only throwing at each of them shows whether unwinding is right there.",
 [I+"detail/memory.h", I+"detail/immovable_vector.h", I+"detail/scope_exit.h", I+"detail/indiesort.h", I+"adapters/indirect_adapter.h", I+"detail/fixed_size_list.h", I+"detail/binary_tree.h", I+"utility/buffer.h"],
 [("owning temporaries", I+"detail/memory.h, detail/immovable_vector.h, detail/fixed_size_list.h, detail/binary_tree.h"), ("indirect sort commit", I+"adapters/indirect_adapter.h, detail/scope_exit.h")],
 ["construction/destruction/move events of elements", "allocation/deallocation events", "exception caught at the call site"],
 [("custody", "for each object: raw, alive with a value, moved-from, destroyed", "element type instrumented by the harness")])

prop("C05", "Failed heap allocations are survived as documented",
 "Sorters and adapters documented as never throwing std::bad_alloc, and all presortedness measures that need no memory or documented fallbacks, still produce the right result when any subset of heap allocations fails; every other sorter either sorts correctly or throws std::bad_alloc, with nothing leaked and no element object destroyed twice. Sorters documented with O(1) extra memory never allocate from the heap.",
 ["fault_sequences", "inputs"],
 "every pattern of failing allocations (k-th only, all from k-th on, above a size) x sorters/probes x inputs",
 "The memory exhaustion tests fail every allocation at once for one input; partial failure (a smaller buffer, the second allocation) selects different merge strategies that are otherwise never run.",
 [I+"detail/memory.h", I+"detail/merge_sort.h", I+"detail/inplace_merge.h", I+"detail/buffered_inplace_merge.h", I+"detail/recmerge_forward.h", I+"detail/recmerge_bidirectional.h", I+"detail/stable_partition.h", I+"detail/rotate.h", I+"detail/split_sort.h", I+"probes/dis.h", I+"probes/osc.h"],
 [("temporary_buffer with shrinking", I+"detail/memory.h"), ("memory adaptive merging", I+"detail/inplace_merge.h, detail/recmerge_*.h, detail/symmerge.h")],
 ["operator new/delete calls and their outcomes", "content of the range on return", "exception caught at the call site"])

prop("C06", "Comparison counts stay within the documented complexity on every input",
 "For every comparison sorter whose documented worst case is O(n log n), the number of comparisons stays below a fixed small multiple of n log2 n on every input, including inputs built by an adversary that answers comparisons to hurt the algorithm; sorters documented with an O(n) best case that take advantage of existing order (all but the quicksorts) spend O(n) comparisons on already sorted collections, and quadratic sorters never exceed about n*n comparisons.",
 ["inputs"],
 "all inputs, including adaptively chosen adversarial ones, at all sizes x sorters",
 "No existing test counts comparisons on hard inputs: losing a fallback, a depth limit or a balance rule keeps all results correct and only makes some rare inputs quadratic.",
 [I+"detail/pdqsort.h", I+"detail/quicksort.h", I+"detail/introselect.h", I+"detail/smoothsort.h", I+"detail/timsort.h", I+"detail/quick_merge_sort.h", I+"detail/splaysort.h", I+"detail/melsort.h", I+"detail/vergesort.h", I+"detail/merge_insertion_sort.h"],
 [("bad pivot fallbacks", I+"detail/pdqsort.h, detail/introselect.h, detail/adaptive_quickselect.h"), ("run stack invariants", I+"detail/timsort.h, sorters/adaptive_shivers_sorter.h")],
 ["number of comparison calls during a sorter call"])

prop("C07", "Fixed-size sorters and comparator networks sort every input at documented cost",
 "Every fixed-size sorter of size N sorts every arrangement of N elements (stably where its trait says so); the low-comparisons and low-moves sorters use exactly the total number of comparisons, respectively moves, documented for all permutations of N. Every network sorter sorts through a fixed sequence of compare-exchanges independent of the data, whose number is the documented one and which is exactly the sequence returned by its index_pairs function, usable through swap_index_pairs.",
 ["inputs", "configurations"],
 "all N (0..13 low comparisons, any N low moves, 0..64 networks, merge-exchange and odd-even networks) x all N! arrangements / all 2^N 0-1 inputs",
 "A test can run all permutations only up to about N=10 and never both executed and advertised index pairs; a wrong comparator in a 40-input network fails on a tiny fraction of the inputs.",
 [I+"fixed/", I+"detail/low_comparisons/", I+"detail/low_moves/", I+"detail/sorting_network/", I+"utility/sorting_networks.h", I+"fixed_sorters.h"],
 [("networks", I+"detail/sorting_network/sort*.h"), ("generated networks", I+"fixed/merge_exchange_network_sorter.h, fixed/odd_even_merge_network_sorter.h"), ("small sorts", I+"detail/low_comparisons/, detail/low_moves/")],
 ["sequence of compare-exchanges executed", "index_pairs() result", "comparison and move counts", "content of the range on return"])

prop("C08", "Presortedness measures equal their mathematical definitions",
 "Each probe (block, dis/par, enc, exc, ham, inv, max, mono, osc, rem, runs, sus) returns, for every collection, comparison and projection, the value given by its documented definition, whatever the iterator category, and leaves the collection untouched. Its max_for_size(n) is an upper bound of the probe over all collections of n elements and is reached by some of them.",
 ["inputs", "configurations"],
 "all collections (arrangements with duplicates) of every length x iterator categories x comparisons/projections x probes",
 "The tests check two or three fixed sequences per probe; agreement with a definition quantified over all pairs of elements needs every arrangement, in particular those with duplicates and boundary lengths.",
 [I+"probes/", I+"detail/count_inversions.h", I+"detail/longest_non_descending_subsequence.h", I+"detail/is_p_sorted.h", I+"detail/equal_range.h"],
 [("probe algorithms", I+"probes/*.h"), ("max_for_size", I+"probes/*.h")],
 ["value returned by a probe", "content of the collection after the call"])

prop("C09", "Comparators implement the documented orders on all values",
 "total_less/greater, weak_less/greater and partial_less/greater implement, for floating point (NaN, infinities, signed zeros) and integer types, the total, weak and partial orders they document; natural_less orders strings by runs of digits as numbers, and case_insensitive_less by lower-cased characters. Each is a strict order on every pair and triple of values (irreflexive, transitive, with transitive equivalence for the weak and total ones), and flip, not_fn and projection_compare are exactly the argument-swapped, negated and projected versions of the function they wrap.",
 ["inputs"],
 "all pairs and triples of values of the supported types, including special values and strings of every shape",
 "Order axioms quantify over triples; tests sort a few sample arrays.",
 [I+"comparators/", I+"detail/floating_point_weight.h", I+"detail/three_way_compare.h", I+"refined.h"],
 [("float orders", I+"comparators/{total,weak,partial}_{less,greater}.h, detail/floating_point_weight.h"), ("string orders", I+"comparators/natural_less.h, comparators/case_insensitive_less.h"), ("comparator adapters", I+"comparators/{flip,not_fn,projection_compare}.h")],
 ["result of comparator calls, direct and refined"])

prop("C10", "Index and iterator sorting and permutation application are mutually exact",
 "sorted_indices (resp. sorted_iterators) returns a permutation of the positions (resp. iterators) of the collection that puts it in sorted order, stable when the wrapped sorter is, without modifying the collection. apply_permutation given such indices puts every element at its place for every permutation of every length, and applying the result of sorted_indices sorts the collection.",
 ["inputs"],
 "all permutations and all arrangements of every length x sorters x range/iterator forms",
 "Tests use one shuffled sequence; cycle handling is about every cycle structure.",
 [I+"utility/sorted_indices.h", I+"utility/sorted_iterators.h", I+"utility/apply_permutation.h", I+"detail/associate_iterator.h"],
 [("indices", I+"utility/sorted_indices.h"), ("iterators", I+"utility/sorted_iterators.h"), ("cycles", I+"utility/apply_permutation.h")],
 ["returned container", "content of both ranges after the call"])

prop("C11", "All call forms of the unified sorting interface mean the same",
 "A sorter, adapter or probe called with an iterable or a pair of iterators, with or without a comparison, with or without a projection (in any of the documented forms: function objects, pointers to members, std::less<> and identity stand-ins, as_comparison/as_projection, composed projections, refined functions, conversion to a function pointer) gives the result of the canonical call with explicit comparison and projection. sorter_facade routes each form to the overload the implementation provides, with exactly the given arguments, and returns what it returns.",
 ["programs", "configurations", "inputs"],
 "all subsets of overloads an implementation may provide x all call forms x inputs",
 "Forms and overload sets multiply; the tests exercise a few implementations, mostly those providing every overload.",
 [I+"sorter_facade.h", I+"utility/functional.h", I+"utility/as_function.h", I+"refined.h", I+"detail/checkers.h", I+"sort.h", I+"stable_sort.h"],
 [("overload synthesis", I+"sorter_facade.h"), ("projection composition", I+"utility/functional.h")],
 ["which implementation overload runs and with which arguments", "value returned", "content of the range"])

prop("C12", "Only live elements inside the range are read, moved or compared",
 "During any call of a sorter or adapter with a pair of iterators, elements outside [first, last) are never read or written; comparisons and projections only ever receive objects that currently hold a value (never moved-from or destroyed ones); and each value is moved, never duplicated. This holds equally for move-only types, types without a default constructor and iterators returning proxies.",
 ["inputs", "configurations"],
 "all inputs x positions of the range in a larger collection x sorters x element kinds (movable, move-only, non-default-constructible) x reference kinds (true references, proxies)",
 "A sort that compares a moved-from pivot or reads one past the end usually still gives a sorted result with ints; only tracking every object on every path shows it.",
 [I+"detail/", I+"utility/iter_move.h", I+"adapters/"],
 [("iter_move/iter_swap discipline", I+"utility/iter_move.h"), ("sentinels and unguarded loops", I+"detail/{pdqsort,insertion_sort,spinsort,introselect}.h"), ("temporaries", I+"detail/{rotate,stable_partition,merge_move,memory}.h")],
 ["element events: construct, move, compare, project, destroy", "elements around the range after the call"],
 [("custody", "which object holds which value", "element type instrumented by the harness")])

prop("C13", "Container-aware list sorts relink nodes and keep every iterator valid",
 "container_aware_adapter around insertion, mel, merge or selection sort, applied to std::list or std::forward_list, sorts by relinking nodes: each node keeps its value at the same address, iterators and references keep designating the same value, the number of nodes is unchanged and no element is moved or copied. The result is a sorted permutation, stable for the sorters documented as stable on lists, for any comparison and projection.",
 ["inputs", "configurations"],
 "all inputs x {insertion, mel, merge, selection} x {list, forward_list} x comparison/projection",
 "The tests sort one list per sorter; losing or duplicating a node on a rare splice path needs specific arrangements.",
 [I+"adapters/container_aware_adapter.h", I+"detail/container_aware/"],
 [("splicing algorithms", I+"detail/container_aware/*.h"), ("dispatch", I+"adapters/container_aware_adapter.h")],
 ["addresses and values of the nodes, in order, after the call", "element move events"])

prop("C14", "Counters, metrics and the Schwartzian transform account for every operation",
 "counting_adapter and the comparisons, moves and projections metrics return exactly the number of comparisons, moves and projection calls that the wrapped sorter performs during the call and sort as the wrapped sorter does. A sorter wrapped in schwartz_adapter calls the projection exactly once per element, and never more than n times.",
 ["inputs", "configurations"],
 "all inputs x sorters x counters",
 "Tests compare the count against one constant for one sorter.",
 [I+"adapters/counting_adapter.h", I+"adapters/schwartz_adapter.h", I+"metrics/", I+"detail/comparison_counter.h", I+"utility/metrics_tools.h", I+"detail/associate_iterator.h", I+"detail/schwartz_small_array.h"],
 [("comparison counter", I+"detail/comparison_counter.h"), ("metrics", I+"metrics/*.h"), ("associated projections", I+"adapters/schwartz_adapter.h")],
 ["value returned by counting sorters and metrics", "comparison, move and projection events"])

prop("C15", "indirect_adapter moves each element at most the minimal number of times",
 "Sorting through indirect_adapter leaves the elements exactly where sorting the iterators says, moving an element that is already in place zero times and resolving a cycle of k misplaced elements with at most k+1 moves (or k-1 swaps), so at most 3n/2 moves in total. out_of_place_adapter moves each element exactly once out of and once back into the collection.",
 ["inputs"],
 "all permutations (cycle structures) x iterator categories x adapted sorters",
 "Cycle structures are as many as permutations; tests check only that the result is sorted.",
 [I+"adapters/indirect_adapter.h", I+"detail/indiesort.h", I+"adapters/out_of_place_adapter.h"],
 [("cycle resolution", I+"adapters/indirect_adapter.h, detail/indiesort.h"), ("out of place", I+"adapters/out_of_place_adapter.h")],
 ["element move events during a call"])

prop("C16", "Type-specific sorters order every representable value correctly",
 "counting_sorter, ska_sorter and the spread sorters (integer, float, string) leave a sorted permutation for every value of every type they accept: all integer widths and signs including extreme values and 128-bit ones, all finite and infinite floating point values of both signs, strings of any bytes and lengths (prefixes, embedded nulls, long common prefixes), and the pairs, tuples and indexable types ska_sorter supports, with projections where supported. counting_sorter and string_spread_sorter with std::greater<> leave the reverse order.",
 ["inputs"],
 "all values of all supported key types x sizes around the radix/bucket thresholds x projections x directions",
 "Radix-style code depends on each byte, sign, exponent and on bucket counts; tests use small positive ranges and a few random arrays.",
 [I+"sorters/counting_sorter.h", I+"sorters/ska_sorter.h", I+"sorters/spread_sorter.h", I+"sorters/spread_sorter/", I+"detail/ska_sort.h", I+"detail/counting_sort.h", I+"detail/spreadsort/", I+"detail/boost_common/"],
 [("byte keys", I+"detail/ska_sort.h"), ("bucketing", I+"detail/spreadsort/detail/*.h"), ("value counting", I+"detail/counting_sort.h")],
 ["content of the range on return"])

prop("C17", "Buffered sorters give the same result whatever the buffer",
 "grail_sorter, wiki_sorter (block_sorter) and every other component with a buffer provider leave exactly the same stable result for every buffer provider and size: no buffer, any fixed size, or a dynamic buffer with any size policy. The buffer providers give buffers of exactly the documented size, and only the elements of that buffer are used.",
 ["configurations", "inputs"],
 "all buffer providers/sizes x all inputs (in particular with too few distinct values for the in-place block merges)",
 "Block merges take a different path for each relation between buffer size, block size and number of distinct keys; tests run three buffer kinds on shuffled unique values.",
 [I+"utility/buffer.h", I+"detail/grail_sort.h", I+"detail/wiki_sort.h", I+"sorters/grail_sorter.h", I+"sorters/wiki_sorter.h", I+"utility/functional.h"],
 [("buffer providers", I+"utility/buffer.h"), ("block merging", I+"detail/grail_sort.h, detail/wiki_sort.h"), ("size policies", I+"utility/functional.h")],
 ["content of the range on return", "size of the buffers"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
