#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
I = "include/cpp-sort/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                  **({"state": state} if state else {}),
                  "observe_at": observe, "hook_needed": hook}})

p("C01", "Every random-access sorter returns the ordered permutation of its input",
  "For every finite input collection, every strict weak order comparator and every projection it accepts, a call to any comparison sorter on random-access iterators terminates and leaves in the range exactly the elements it found there, ordered by the comparator applied to the projected elements. It never reads or writes outside the range and never calls the comparator or the projection on anything but live elements of the collection.",
  ["inputs", "configurations"],
  "All comparison sorters x all inputs (all tie patterns, sizes, presortedness shapes, adversarial comparator answers) x comparator/projection/element kinds.",
  "The suite feeds each sorter a handful of fixed distributions at two or three sizes; sorts branch on sizes (thresholds 15..128, powers of two), on run structure and on ties, and no sample covers every branch combination.",
  [I+"sorters", I+"detail/pdqsort.h", I+"detail/timsort.h", I+"detail/wiki_sort.h", I+"detail/grail_sort.h", I+"detail/spinsort.h", I+"detail/smoothsort.h", I+"detail/vergesort.h"],
  [("each sorter's algorithm", I+"detail/*sort*.h"), ("sorter_facade overload set", I+"sorter_facade.h"), ("introspective fallbacks", I+"detail/introselect.h")],
  ["contents of the range after sorter(first, last, comp, proj)", "arguments of comparator/projection calls"])

p("C02", "Forward/bidirectional sorters sort using only their category's operations",
  "Every sorter documented for forward or bidirectional iterators sorts any range of that category (singly/doubly linked lists included) into the ordered permutation of its elements. It uses only operations the category allows, never moves an iterator outside [first, last] and never dereferences last.",
  ["inputs", "configurations"],
  "All sorters documented Forward or Bidirectional x iterator categories x all inputs as in C01.",
  "Tests use std::list/forward_list with one or two shapes; the libstdc++ iterators do not diagnose a walk before begin or past end, nor a dereference of end.",
  [I+"detail/quicksort.h", I+"detail/merge_sort.h", I+"detail/quick_merge_sort.h", I+"detail/inplace_merge.h", I+"detail/melsort.h", I+"detail/cartesian_tree_sort.h", I+"detail/splaysort.h", I+"detail/slabsort.h", I+"detail/drop_merge_sort.h", I+"detail/insertion_sort.h", I+"detail/selection_sort.h", I+"detail/adaptive_quickselect.h"],
  [("forward/bidirectional algorithm variants", I+"detail/recmerge_forward.h, recmerge_bidirectional.h, adaptive_quickselect.h, rotate.h"), ("category dispatch", I+"sorters/*.h")],
  ["contents of the range", "every iterator operation"])

p("C03", "Sorters documented or reported stable preserve the order of ties",
  "A sort documented as stable (the stable sorters, the stable adapter and its specialisations, stable_sort) leaves elements whose projections compare equivalent in their original relative order, for every input, comparator and projection. Whenever the is_stable trait answers true for a call, that very call is stable.",
  ["inputs", "configurations"],
  "All stable sorters and stabilised unstable sorters x all tie patterns up to the bound x iterator categories x buffers.",
  "Stability only shows on particular tie placements around run, block and buffer boundaries; the tests check a few sizes of one shuffled sequence.",
  [I+"adapters/stable_adapter.h", I+"sorter_traits.h", I+"detail/timsort.h", I+"detail/wiki_sort.h", I+"detail/grail_sort.h", I+"detail/spinsort.h", I+"detail/merge_sort.h", I+"detail/inplace_merge.h", I+"detail/stable_partition.h", I+"stable_sort.h"],
  [("index association tie-break", I+"adapters/stable_adapter.h"), ("left-biased merges", I+"detail/merge_move.h, inplace_merge.h"), ("is_always_stable / is_stable", I+"sorter_traits.h")],
  ["original positions of equivalent elements after the sort", "is_stable<Sorter(...)>::value"])

p("C04", "Sorting respects element lifetimes: moves only, no moved-from reads",
  "On move-only, non-default-constructible types every sorter that does not document otherwise works; it never copies an element, never hands a moved-from element to the comparator or projection, never self-moves blindly, and destroys every temporary exactly once. When the call returns, exactly the original number of live elements, none of them moved-from, is left.",
  ["inputs", "configurations"],
  "All sorters and adapters x all inputs as in C01 with an instrumented element type that tracks every construction, assignment, swap and destruction.",
  "Tests run move-only types through one shuffled input per sorter; a stray read of a moved-from slot is invisible unless the moved-from value happens to matter.",
  [I+"detail/memory.h", I+"detail/immovable_vector.h", I+"detail/merge_sort.h", I+"detail/spinsort.h", I+"detail/drop_merge_sort.h", I+"detail/splaysort.h", I+"detail/melsort.h", I+"detail/slabsort.h", I+"detail/fixed_size_list.h", I+"detail/rotate_left.h", I+"detail/insertion_sort.h"],
  [("destruct_n / immovable_vector / node pools", I+"detail/memory.h, immovable_vector.h, fixed_size_list.h, binary_tree.h"), ("iter_move based shifting", I+"utility/iter_move.h")],
  ["element special member functions"])

p("C05", "An exception from a callback or a move leaks nothing and propagates",
  "If the comparator, the projection or a move/swap of an element throws at any point of any sort, the same exception reaches the caller, every object and memory block the sort created has been released exactly once, and the range still holds its original number of valid, destructible objects. A later sort of that range behaves normally.",
  ["fault_sequences", "inputs"],
  "Every throwing point (k-th comparator call, projection call or move) of every sorter/adapter on every input of the bounded space.",
  "Tests throw at a few points for two or three sorters; leaks and double destructions depend on the exact call that throws.",
  [I+"detail/memory.h", I+"detail/immovable_vector.h", I+"detail/scope_exit.h", I+"detail/fixed_size_list.h", I+"detail/binary_tree.h", I+"adapters/indirect_adapter.h", I+"adapters/schwartz_adapter.h"],
  [("RAII cleanup of raw storage", I+"detail/memory.h"), ("scope guards", I+"detail/scope_exit.h")],
  ["live object count", "allocation balance", "exception identity"])

p("C06", "Allocation failure at any point never corrupts a sort",
  "If the n-th heap allocation of a sort fails, for any n or from some n onwards, the call either completes with a correctly sorted range or throws std::bad_alloc with all temporaries released and the original number of valid objects in the range. The sorters documented as not throwing bad_alloc or using O(1) memory always complete correctly, stably where they are stable.",
  ["fault_sequences", "inputs"],
  "Every allocation index (single failure, and all-failing-from-n) for every sorter, adapter and probe on the bounded input space and iterator categories.",
  "Tests replace operator new by one that always fails, on one input size; partial failure (a smaller buffer obtained, a later one refused) is never exercised.",
  [I+"detail/memory.h", I+"detail/merge_sort.h", I+"detail/inplace_merge.h", I+"detail/rotate.h", I+"detail/stable_partition.h", I+"detail/split_sort.h", I+"probes/dis.h", I+"probes/osc.h"],
  [("get_temporary_buffer with shrinking requests", I+"detail/memory.h"), ("in-place fallbacks", I+"detail/inplace_merge.h, symmerge.h, rotate.h")],
  ["range contents", "exception type", "allocation balance"])

p("C07", "Sorting is deterministic: same input, same sequence of operations",
  "Two runs of the same sorter on equal inputs perform the same sequence of comparisons, projections and moves and return the same result, whatever was sorted before, whatever the content of freshly allocated memory or of the stack, and wherever the elements happen to be stored.",
  ["inputs", "histories"],
  "All sorters and probes x bounded input spaces x histories of preceding sorts x contents of allocated memory.",
  "Tests never compare two runs of one sort and have no control over the uninitialised memory a sort sees.",
  [I+"detail/quicksort.h", I+"detail/pdqsort.h", I+"detail/introselect.h", I+"detail/spinsort.h", I+"detail/fixed_size_list.h", I+"detail/splaysort.h"],
  [("stateless algorithms, no global state, no randomness", I+"detail/*.h")],
  ["trace of comparator calls by element identity", "memory contents"])

p("C08", "Sorts running concurrently or re-entrantly do not affect each other",
  "Any two sorts of disjoint ranges whose comparator, projection and move steps are interleaved in any order, and any sort started from within the comparator of another one, each give the result and perform the operation sequence they would have performed alone. No shared hidden state exists between calls, sorter objects or threads.",
  ["schedules", "histories"],
  "Pairs of sorters (same or different) x inputs x all interleavings at callback granularity up to a preemption bound, plus nesting at every callback.",
  "No test runs two sorts at once; a static scratch buffer or cached cursor would pass every existing test.",
  [I+"detail/immovable_vector.h", I+"detail/fixed_size_list.h", I+"utility/buffer.h", I+"detail/grail_sort.h", I+"utility/static_const.h", I+"adapters/stable_adapter.h"],
  [("all scratch storage is local to the call", I+"detail/*.h"), ("sorters are stateless function objects", I+"sorter_facade.h")],
  ["result and comparator trace of each sort under each schedule"])

p("C09", "Documented worst-case complexity holds for every input",
  "For every input, a sorter (or dedicated list algorithm of container_aware_adapter) documented with an O(n log n) worst case performs at most a small constant times n log n comparisons, projections and element moves, including against adversarial comparators; those documented O(n log^2 n) or O(n^2) stay within those bounds likewise.",
  ["inputs"],
  "All sorters and iterator categories x shape families and adversarial comparator strategies at growing sizes.",
  "Tests time or count nothing across shapes; quadratic blow-ups show only on killer patterns (organ pipe, adversarial median-of-k, many ties).",
  [I+"detail/pdqsort.h", I+"detail/quicksort.h", I+"detail/introselect.h", I+"detail/adaptive_quickselect.h", I+"detail/smoothsort.h", I+"detail/melsort.h", I+"detail/slabsort.h", I+"detail/splaysort.h"],
  [("introspection / fallback to heapsort or median of medians", I+"detail/pdqsort.h, introselect.h, quicksort.h"), ("run-policy of natural merges", I+"detail/timsort.h, sorters/adaptive_shivers_sorter.h")],
  ["number of comparator calls and element moves"])

p("C10", "Adaptive sorters use linear work on already sorted input",
  "A sorter (or dedicated list algorithm of container_aware_adapter) documented with a best case of n (quick_merge_sorter excepted) does at most a small constant times n comparisons and moves on input that is already sorted (quick_sorter: on input with few distinct values), whatever its size and ties. The sorters documented as adaptive to a measure (Runs for adaptive_shivers, tim and verge; Rem for drop_merge and split; Enc for mel) keep that up to a factor logarithmic in the number of runs, removed elements or encroaching lists.",
  ["inputs"],
  "All sorters with documented linear best case x all sizes up to the bound x sorted layouts and inputs of bounded disorder.",
  "Tests check results, not work; losing adaptivity leaves every test green.",
  [I+"detail/vergesort.h", I+"detail/timsort.h", I+"detail/spinsort.h", I+"detail/slabsort.h", I+"detail/melsort.h", I+"detail/split_sort.h", I+"detail/quick_merge_sort.h", I+"detail/wiki_sort.h"],
  [("run detection", I+"detail/is_sorted_until.h, vergesort.h, timsort.h"), ("early exits", I+"detail/pdqsort.h, quicksort.h, merge_sort.h")],
  ["number of comparator calls and element moves"])

p("C11", "Fixed-size sorters sort every input of their size, with any comparator",
  "For every supported N, low_comparisons_sorter<N>, low_moves_sorter<N>, sorting_network_sorter<N>, merge_exchange_network_sorter<N> and odd_even_merge_network_sorter<N> put any N elements in the order of the comparator applied to the projected elements, for any tie pattern, whether elements are plain numbers or non-trivial move-only objects.",
  ["inputs", "configurations"],
  "All N and all weak orders of N elements up to the bound (all permutations and all 0/1 inputs above it).",
  "Tests try a few shuffles per size out of N! orders.",
  [I+"detail/low_comparisons", I+"detail/low_moves", I+"detail/sorting_network", I+"fixed", I+"detail/swap_if.h", I+"detail/rotate_left.h", I+"detail/rotate_right.h", I+"detail/front_insert.h"],
  [("hand-written decision trees and networks", I+"detail/low_comparisons/*.h, low_moves/*.h, sorting_network/*.h"), ("swap_if branchless and generic forms", I+"detail/swap_if.h")],
  ["range contents"])

p("C12", "Sorting networks are valid, minimal as documented, and match their index pairs",
  "For every N, the list of index pairs a network sorter exposes is a valid sorting network for N inputs with i<j in range and has the documented number of compare-exchange units; running the sorter performs exactly the comparisons of that list, and applying the list with swap_index_pairs sorts any sequence.",
  ["inputs", "configurations"],
  "All N (0..64 for sorting_network_sorter, powers of two for odd-even merge, all small and medium N for merge-exchange) and all inputs, by the 0-1 principle.",
  "2^64 0-1 inputs cannot be tested; tests sort a few sequences per size and never compare the exposed pairs with the operator.",
  [I+"detail/sorting_network", I+"fixed/sorting_network_sorter.h", I+"fixed/merge_exchange_network_sorter.h", I+"fixed/odd_even_merge_network_sorter.h", I+"utility/sorting_networks.h"],
  [("static tables of compare-exchange units", I+"detail/sorting_network/*.h"), ("constexpr pair generators", I+"fixed/*network_sorter.h")],
  ["index_pairs<>()", "comparator call trace"])

p("C13", "Fixed-size sorters meet their documented comparison and move counts",
  "Summed over all permutations of N distinct elements, low_comparisons_sorter<N> performs no more comparisons and low_moves_sorter<N> no more moves than documented, and the domains and stability the fixed-size sorters report through their traits are truthful.",
  ["inputs"],
  "All N up to the enumeration bound, all N! permutations; structural facts for the larger N.",
  "Only the documentation records the counts; no test enumerates permutations.",
  [I+"detail/low_comparisons", I+"detail/low_moves", I+"fixed/low_comparisons_sorter.h", I+"fixed/low_moves_sorter.h"],
  [("decision trees", I+"detail/low_comparisons/*.h"), ("min/max selection schemes", I+"detail/low_moves/*.h"), ("fixed_sorter_traits", I+"sorter_traits.h")],
  ["comparison and move counters"])

p("C14", "Type-specific sorters order every representable value correctly",
  "counting_sorter, ska_sorter and spread_sorter sort any collection of the key types they accept (integers of every width and sign incl. 128-bit, floats, strings, and for ska_sorter pairs, tuples and arrays thereof), directly or through a projection, into exactly the order of < (or > where supported), keeping the same multiset of elements. This includes extreme values, empty strings, shared prefixes, embedded zero bytes, infinities and subnormals. counting_sorter allocates nothing when the collection is already sorted.",
  ["inputs", "configurations"],
  "All key types x all short sequences over boundary-value alphabets x sizes around the internal algorithm thresholds.",
  "Tests use shuffled small ints and a few strings; digit, sign and length boundary cases are not enumerated.",
  [I+"detail/counting_sort.h", I+"detail/ska_sort.h", I+"detail/spreadsort", I+"sorters/counting_sorter.h", I+"sorters/ska_sorter.h", I+"sorters/spread_sorter"],
  [("unsigned key transforms", I+"detail/ska_sort.h"), ("bin splitting with fallback to pdqsort", I+"detail/spreadsort/detail/*.h")],
  ["range contents"])

p("C15", "Buffered sorters are correct and stable with any buffer provider",
  "grail_sorter and wiki_sorter sort correctly and stably whatever buffer provider is supplied: none, fixed of any size, dynamic with any size policy, including sizes smaller or larger than needed and 0 or 1. They never use more storage than the provider gives.",
  ["configurations", "inputs"],
  "Buffer kinds and sizes x all inputs of the bounded space.",
  "Tests instantiate three providers on one shuffled input.",
  [I+"utility/buffer.h", I+"detail/grail_sort.h", I+"detail/wiki_sort.h", I+"sorters/grail_sorter.h", I+"sorters/wiki_sorter.h", I+"utility/functional.h"],
  [("buffer providers", I+"utility/buffer.h"), ("buffered/unbuffered merge selection", I+"detail/wiki_sort.h, grail_sort.h")],
  ["range contents", "buffer accesses"])

p("C16", "Sorter adapters and their nestings sort like the sorter they adapt",
  "Wrapping a sorter in any adapter (counting, schwartz, indirect, stable, hybrid, self-sort, small-array, out-of-place, container-aware, drop-merge, split, verge) or in any nesting of adapters still yields the ordered permutation of the input under the given comparator and projection, on every iterator category and range the adapted sorter declares, and works for sorters given as types or as stateful objects.",
  ["inputs", "configurations", "programs"],
  "All adapters x nestings up to depth 2-3 x representative sorters x iterator categories x all inputs of the bounded space.",
  "Tests check a few combinations on one shuffled array.",
  [I+"adapters", I+"utility/adapter_storage.h", I+"detail/indiesort.h", I+"detail/associate_iterator.h", I+"detail/drop_merge_sort.h", I+"detail/split_sort.h", I+"detail/vergesort.h"],
  [("adapter forwarding and storage", I+"adapters/*.h, utility/adapter_storage.h"), ("associate_iterator proxies", I+"detail/associate_iterator.h")],
  ["range contents", "returned value"])

p("C17", "indirect_adapter moves elements minimally and only after sorting succeeded",
  "indirect_adapter leaves the collection untouched if an exception is thrown while it compares or allocates, moves no element already in place, and performs at most (3/2)n element moves and no element swap or copy otherwise; elements end up as the adapted sorter ordered their iterators, for every permutation.",
  ["crash_points", "inputs"],
  "All permutations and tie patterns up to the bound x every comparison and allocation as a failing point x adapted sorters x iterator categories.",
  "Tests check the final order of one sequence; they never interrupt the sort nor count moves by cycle structure.",
  [I+"adapters/indirect_adapter.h", I+"detail/indiesort.h"],
  [("cycle-leader placement in a scope-exit action", I+"adapters/indirect_adapter.h")],
  ["element identity and position after each crash point", "move counter"])

p("C18", "schwartz_adapter projects every element exactly once",
  "A sort through schwartz_adapter calls the projection exactly once per element, keeps each projected value attached to its element through every move the adapted sorter makes, compares only projected values, and gives the same order as the adapted sorter would.",
  ["inputs", "configurations"],
  "All adapted sorters x all inputs of the bounded space x projection result types.",
  "Tests check the order on one sequence and one projection count.",
  [I+"adapters/schwartz_adapter.h", I+"detail/associate_iterator.h", I+"detail/schwartz_small_array.h"],
  [("association of element iterator/value and projected value", I+"detail/associate_iterator.h")],
  ["projection call counter", "comparator arguments"])

p("C19", "Counting adapter and metrics report exactly what happened",
  "counting_adapter, metrics::comparisons, metrics::projections and metrics::moves return exactly the number of comparator calls, projection calls and moves that the adapted sorter performs, and leave the sort's result and operation sequence unchanged.",
  ["inputs", "configurations"],
  "All metrics x sorters x overloads (range/iterators, with or without comparator/projection) x all inputs of the bounded space.",
  "Tests compare counts for one input and a few sorters.",
  [I+"adapters/counting_adapter.h", I+"metrics", I+"detail/comparison_counter.h", I+"utility/metrics_tools.h"],
  [("counting wrappers passed by reference", I+"metrics/*.h, detail/comparison_counter.h")],
  ["returned metric vs harness counters"])

p("C20", "Container-aware sorters relink list nodes without touching the elements",
  "The container-aware insertion, mel, merge and selection sorters sort std::list and std::forward_list correctly (stably where documented) by relinking nodes: no element is moved, copied or swapped, every iterator and reference stays valid and keeps designating its element, and if the comparator or projection throws the list stays consistent and nothing leaks.",
  ["inputs", "fault_sequences"],
  "All four sorters x both list types x comparator/projection overloads x all inputs of the bounded space x every throwing point.",
  "Tests sort one shuffled list each and never interrupt it.",
  [I+"adapters/container_aware_adapter.h", I+"detail/container_aware"],
  [("splice-based algorithms", I+"detail/container_aware/*.h")],
  ["node addresses, values and links"])

p("C21", "Dispatching adapters pick the documented sorter and report truthful traits",
  "hybrid_adapter runs the first given sorter, among those of the strongest iterator category that applies to the collection, that accepts the call, however hybrid adapters are nested, rebound to another category, given as stateful objects or made stable, and returns what it returns; small_array_adapter runs the fixed-size sorter of the array's size exactly when that size is in its domain; self_sort_adapter runs the container's own sort, else its stable_sort, when it can take the functions given, and the adapted sorter otherwise (stable_adapter of it only stable ones). The traits tell the truth: iterator_category and is_always_stable have the documented value for every sorter and adapter (absent when the adapted sorter has none), is_stable is never true for a call that is not stable and is true for every call of a sorter that is always stable, stable_t and stable_adapter yield a stable sorter (the adapted sorter itself when that is one), also from instances, and the is_sorter and is_projection families tell exactly what can be called.",
  ["configurations", "programs"],
  "All tuples of up to three tagged sorters by category and accepted calls x nesting shapes x collections x call forms; array sizes x domains; all 64 sets of members; all traits; is_stable of all adapters over sorters whose stability varies by call x all short inputs with ties.",
  "Tests cover a few hand-picked combinations out of hundreds.",
  [I+"adapters/hybrid_adapter.h", I+"adapters/small_array_adapter.h", I+"adapters/self_sort_adapter.h", I+"adapters/stable_adapter.h", I+"sorter_traits.h", I+"detail/stable_adapter_hybrid_adapter.h", I+"detail/stable_adapter_self_sort_adapter.h", I+"detail/checkers.h", I+"detail/raw_checkers.h", I+"detail/stability_of_call.h"],
  [("choice<> overload ranking", I+"adapters/hybrid_adapter.h, detail/type_traits.h"), ("SFINAE on size and members", I+"adapters/small_array_adapter.h, self_sort_adapter.h"), ("is_stable specialisations", I+"adapters/*.h, metrics/*.h")],
  ["which tagged sorter ran", "trait values", "order of ties"])

p("C22", "Every way of calling a sorter is equivalent",
  "For a given sorter or adapter, all supported call forms give the same correct result: range or iterator pair, with or without comparator and projection in any documented combination, through the function object, sort()/stable_sort(), a global instance, stable_t, or a function pointer obtained from it; lvalue and rvalue ranges, views, C arrays, spans, pointers; comparators and projections that are function objects (stateful and non-const ones included), function pointers, pointers to members, projections returning by value, and the comparison function objects and identities of the standard library (std::ranges ones included). Arguments passed as comparator are never mistaken for projections or vice versa; sorter_facade completes whatever subset of overloads an implementation provides, calling the overload that handles the arguments directly when there is one; a sorter with state does not convert to a function pointer, and a converted pointer returns what the sorter returns.",
  ["configurations", "inputs"],
  "All 256 subsets of the overloads of a sorter implementation x all call forms; all library sorters and adapters x all call forms x kinds of comparators, projections and ranges, on all short inputs.",
  "Tests compile each overload on one input; the interplay of overload x sorter kind x argument kind is not enumerated.",
  [I+"sorter_facade.h", I+"sort.h", I+"stable_sort.h", I+"refined.h", I+"utility/as_function.h", I+"comparators/projection_compare.h", I+"detail/swap_if.h", I+"detail/checkers.h"],
  [("sorter_facade overloads with refined/projection_compare fallback", I+"sorter_facade.h, detail/checkers.h"), ("operations specialised for standard function objects", I+"detail/swap_if.h, detail/three_way_compare.h, sorters/*")],
  ["range contents and return value per call form"])

p("C23", "Probes return the exact value of their measure of presortedness",
  "For every sequence, comparator and projection, each probe (block, dis, enc, exc, ham, inv, max, mono, osc, rem, runs, sus) returns the value its documented definition gives (Exc and Block exactly on distinct elements; with equivalent elements within the values the possible tie-breaks give), on every iterator category it accepts and whether or not memory for its fast path is available, and leaves the elements and their order unmodified.",
  ["inputs", "configurations", "fault_sequences"],
  "All weak orders up to the bound and all words over small alphabets at larger sizes x categories x allocation failures, against naive definitions.",
  "Tests check a couple of literal sequences per probe plus one randomised relation.",
  [I+"probes", I+"detail/count_inversions.h", I+"detail/longest_non_descending_subsequence.h", I+"detail/is_p_sorted.h"],
  [("O(n log n) or better algorithms for each measure", I+"probes/*.h")],
  ["probe return values"])

p("C24", "Probe bounds and relations between measures hold for every sequence",
  "Every probe returns 0 on sorted sequences and never more than its max_for_size, which is reached by some sequence of each size; the measures keep the inequalities and invariances that the documentation states for them (independence from the values chosen to represent an order, and e.g. Max <= Dis <= Inv, Mono <= Runs <= Rem <= Inv, Enc <= SUS <= Runs), for every sequence.",
  ["inputs"],
  "All weak orders up to the bound for every probe; all sizes for max_for_size.",
  "Tests sample one random sequence per relation.",
  [I+"probes"],
  [("max_for_size formulas", I+"probes/*.h"), ("measure algorithms", I+"probes/*.h")],
  ["probe return values", "max_for_size()"])

p("C25", "Total, weak and partial order comparators satisfy their order axioms",
  "total_less/total_greater order floating point values like IEEE totalOrder (signed zeros distinguished, negative NaNs first and positive NaNs last; as documented, NaNs of the same sign are not told apart), weak_less/weak_greater a strict weak order with all same-signed NaNs equivalent and -0 equivalent to +0, partial_less/partial_greater agree with < and >; greater is always less with swapped arguments, and on integers all agree with < and >.",
  ["inputs"],
  "All pairs and triples over an exhaustive class-representative alphabet (all small-exponent/mantissa patterns) for float, double, long double and integers.",
  "Tests check a few ordered pairs; transitivity is a statement over all triples.",
  [I+"comparators/total_less.h", I+"comparators/total_greater.h", I+"comparators/weak_less.h", I+"comparators/weak_greater.h", I+"comparators/partial_less.h", I+"comparators/partial_greater.h", I+"detail/floating_point_weight.h", I+"detail/three_way_compare.h"],
  [("floating point classification weights", I+"detail/floating_point_weight.h")],
  ["comparator results"])

p("C26", "String comparators are strict weak orders matching their description",
  "natural_less orders strings so that embedded digit runs compare by numeric value and other characters by code, for any forward iterable of characters; case_insensitive_less orders strings as if every character was folded with the locale it was given. Both are irreflexive, asymmetric, transitive with transitive equivalence on all strings, including empty ones, leading zeros and prefixes.",
  ["inputs"],
  "All strings up to the bounded length over a small alphabet, all pairs and triples, against a reference.",
  "Tests compare a dozen pairs.",
  [I+"comparators/natural_less.h", I+"comparators/case_insensitive_less.h"],
  [("digit-run comparison", I+"comparators/natural_less.h"), ("ctype-based folding", I+"comparators/case_insensitive_less.h")],
  ["comparator results"])

p("C27", "Comparator adapters and projection pipes denote the composition they name",
  "flip(f)(x,y)=f(y,x), not_fn(f)=!f, projection_compare(c,p)(x,y)=c(p(x),p(y)) and f|g|h applies left to right, for every nesting of these, any callable kind (pointers to members, lambdas, stateful objects) and any value category of callable; the simplifications the library applies (double flips, double negations, unwrapping of projection_compare) never change the result.",
  ["programs", "inputs"],
  "All compositions up to the bounded depth x all argument tuples of a small domain, against direct evaluation.",
  "Tests check depth-1 compositions on two values.",
  [I+"comparators/flip.h", I+"comparators/not_fn.h", I+"comparators/projection_compare.h", I+"utility/functional.h", I+"utility/as_function.h", I+"refined.h"],
  [("flip/not_fn unwrapping overloads", I+"comparators/flip.h, not_fn.h"), ("projection_base operator|", I+"utility/functional.h"), ("as_function/refined", I+"utility/as_function.h, refined.h")],
  ["results of composed callables"])

p("C28", "Indices, iterators and permutations round-trip",
  "sorted_indices and sorted_iterators return the permutation (resp. iterators) that visits the collection in the adapted sorter's order, stably for stable sorters, without modifying the collection; apply_permutation moves each element exactly where the given index list says for every permutation, and together they sort the collection.",
  ["inputs"],
  "All permutations / weak orders up to the bound x iterator categories x sorters.",
  "Tests check one permutation each; cycle handling depends on the full cycle structure.",
  [I+"utility/apply_permutation.h", I+"utility/sorted_indices.h", I+"utility/sorted_iterators.h"],
  [("cycle walking with marking", I+"utility/apply_permutation.h"), ("indirect sorting of indices/iterators", I+"utility/sorted_indices.h, sorted_iterators.h")],
  ["returned permutations", "collection contents"])

p("C29", "Proxy and customised iterators are honoured by every sorter",
  "Every sorter except std_sorter sorts ranges whose iterators return proxies and provide their own iter_move/iter_swap: elements are only moved through these customisation points, the destination storage stays consistent, and every iterator adapter the library uses internally (move, reverse, association, out-of-place) forwards to them.",
  ["inputs", "configurations"],
  "All sorters and adapters x all inputs of the bounded space with a generic-iterator harness recording each customisation call.",
  "Tests run one shuffled collection through a generic iterator that only remaps dereferencing.",
  [I+"utility/iter_move.h", I+"detail/move.h", I+"detail/swap_ranges.h", I+"detail/rotate.h", I+"detail/reverse.h", I+"detail/associate_iterator.h", I+"detail/swap_if.h"],
  [("utility::iter_move / iter_swap dispatch", I+"utility/iter_move.h")],
  ["proxy access log", "range contents"])

p("C30", "Utility components honour their contracts for every argument",
  "For every collection size, buffer providers expose exactly the storage their size policy promises (none for an empty collection), writable, contiguous and released, or propagate std::bad_alloc; half, log and sqrt return exactly what division by 2, std::log and std::sqrt return; metric and metrics compare, assign and tag values as documented; size() agrees with the range for every kind of range; identity, indirect, as_function, function_constant and adapter_storage forward arguments, results and value categories unchanged; the branchless traits are true exactly for the documented functions whatever the qualifications; swap_index_pairs and swap_index_pairs_force_unroll apply exactly the compare-exchanges they are given, in order; make_integer_range and make_index_range contain exactly the documented values.",
  ["inputs", "configurations"],
  "All arguments up to a bound and around every power of two; all utility types of the public headers.",
  "Tests check two or three literal values per utility.",
  [I+"utility/functional.h", I+"utility/buffer.h", I+"utility/size.h", I+"utility/metrics_tools.h", I+"utility/branchless_traits.h", I+"utility/as_function.h", I+"utility/sorting_networks.h", I+"utility/adapter_storage.h", I+"utility/make_integer_range.h", I+"utility/static_const.h"],
  [("size policies", I+"utility/functional.h, utility/buffer.h"), ("metric value wrapper", I+"utility/metrics_tools.h")],
  ["returned values"])

p("C31", "Probes keep within their documented complexity",
  "For every sequence, each probe performs a number of comparisons, projections and iterator steps bounded by its documented time complexity for the category of its iterators, and uses heap and stack memory bounded by its documented memory complexity; those with a second row (dis, osc) stay within it when no memory is available. The bound is a fixed multiple of the documented function of n.",
  ["inputs", "configurations"],
  "All probes x structured inputs of growing size x iterator categories x memory available or not.",
  "Tests only check values on short sequences; a quadratic step on lists or an unbounded recursion is invisible there.",
  [I+"probes", I+"detail/count_inversions.h", I+"detail/longest_non_descending_subsequence.h", I+"detail/is_p_sorted.h"],
  [("one algorithm per probe and memory situation", I+"probes/*.h")],
  ["operation counters", "heap", "stack depth in callbacks"])

p("C32", "Documented memory complexity holds for every input",
  "For every input, including those built adversarially during the sort, the additional memory of every comparison sorter, adapter and container-aware list sort (peak heap allocation plus stack depth) stays within a fixed multiple of the documented memory complexity: constant, log n, log^2 n or n. Sorters that run without heap memory keep their documented recursion depth then too.",
  ["inputs", "configurations"],
  "All sorters and representative adapters x structured and adversarial inputs of growing size x iterator categories x memory available or not.",
  "Recursion depth depends on partition quality; tests use one size and well-behaved distributions, and a linear recursion on 10^3 elements does not crash.",
  [I+"sorters", I+"adapters", I+"detail/pdqsort.h", I+"detail/quicksort.h", I+"detail/quick_merge_sort.h", I+"detail/introselect.h", I+"detail/adaptive_quickselect.h", I+"detail/merge_sort.h", I+"detail/inplace_merge.h", I+"detail/grail_sort.h", I+"detail/wiki_sort.h"],
  [("recursion into the smaller part, loop on the larger one", I+"detail/quicksort.h, pdqsort.h"), ("temporary buffers", I+"detail/memory.h, immovable_vector.h, scope_exit.h")],
  ["heap", "stack depth in callbacks"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
