import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m,where=", ".join(files) if len(files)<5 else "src (all modules)") for m in mech]))
    if obs: d["anchors"]["observe_at"]=[obs]
    P.append(d)
ALL=["src/lib.rs","src/partition.rs","src/insertion_sort.rs","src/heap_sort.rs","src/quick_sort.rs","src/merge_sort.rs","src/stable_sort.rs","src/partition_dedup.rs","src/par/partition.rs","src/par/insertion_sort.rs","src/par/heap_sort.rs","src/par/quick_sort.rs","src/par/merge_sort.rs"]
p("C01","No operation touches memory outside its view or its scratch buffers",
 "Whatever the length of the view, the element type and the answers given by the user's comparator, key function or predicate (including inconsistent ones), no operation reads or writes an element outside the given view, outside the part of a scratch buffer that was allocated, or past a stack buffer. No reference is ever made to an out-of-range element.",
 ["inputs","programs"],"every length (0..isize::MAX), every comparator outcome at every comparison, every index argument",
 "The code skips bounds checks (unchecked view indexing, raw copies, block offsets held as u8); tests use short contiguous u32 arrays with one lawful comparator, where an off-by-one reads a neighbouring valid element and goes unseen.",
 ALL,["unchecked indexing in the insertion helpers, the partition scans, the block partition, the streak finder, the merges and the searches","scratch buffers sized len/2 (sequential) or len (parallel)"],"every public method of the extension trait")
p("C02","A panicking callback leaves every element in the view exactly once",
 "If the user's comparator, key function or predicate panics at any call, then when the panic leaves the operation the view holds exactly the elements it held before, each once, in some order: none is lost, none duplicated, none dropped. This holds for the sequential and the parallel operations.",
 ["crash_points","inputs"],"every callback call of every run as the panicking one, every input length and comparator history",
 "No test passes a panicking callback; the property quantifies over the position of the panic in every history of comparisons.",
 ["src/insertion_sort.rs","src/partition.rs","src/merge_sort.rs","src/quick_sort.rs","src/heap_sort.rs","src/par/merge_sort.rs","src/par/partition.rs","src/par/insertion_sort.rs","src/partition_dedup.rs"],["hole guards writing a held-out element back on unwind","merge guards copying the rest of the scratch buffer back","the parallel copy-on-drop guards"],"the view, after catch_unwind")
p("C03","Every reordering operation returns a permutation of its input",
 "When a sorting, selecting, partitioning, deduplicating or reversing operation returns normally, the view holds exactly the elements it held before, each exactly once. Nothing is cloned, dropped or left behind in a temporary, whatever the comparator answered.",
 ["inputs"],"every length, layout and comparator history, including comparators that are not an order",
 "Tests compare sorted u32 values below 100 elements with lawful comparators: bitwise duplicates of equal values, long inputs of the fallback paths and unlawful comparators are not sampled.",
 ["src/insertion_sort.rs","src/partition.rs","src/merge_sort.rs","src/quick_sort.rs","src/heap_sort.rs","src/partition_dedup.rs","src/par/merge_sort.rs","src/par/partition.rs","src/par/insertion_sort.rs","src/par/quick_sort.rs","src/par/heap_sort.rs"],["element moves by raw copy through holes and scratch buffers","swaps","the cyclic exchange of the block partition"],"the view after return")
p("C04","No operation panics unless its callback does or a documented rule is broken",
 "With valid arguments and a callback that returns, no operation panics, overflows an integer, divides by zero or fails a debug assertion, for any length, layout and comparator, in debug and in release builds. The only panics are the documented ones: a selection index that is out of range, and a list of indices that is not strictly ascending and in range.",
 ["inputs"],"every length, layout, index argument and comparator history",
 "Arithmetic on block widths, run lengths, pivots and the deterministic selection fallback is reached only by long or adversarial inputs that the property tests do not generate.",
 ALL,["index arithmetic of the partition blocks, the ninther sampling, the pivot choice and pattern breaking","debug assertions and internal asserts","unwraps of scratch allocation and min/max searches"],"every public method")
p("C05","Out-of-range selection requests are rejected",
 "Selecting an index that is not smaller than the length panics, for every element type and length, before any element is moved and before the callback is called; so does every index of a many-index request that is outside the view or not in strictly ascending order relative to its neighbours in the request. A successful selection therefore always refers to an element of the view.",
 ["inputs"],"every (length, index) pair and every list of indices",
 "The tests only pass valid indices; the rejection has to hold for all of them, also for zero-sized elements and empty views.",
 ["src/partition.rs","src/par/partition.rs","src/lib.rs"],["the range check at the head of single selection, shared by the many-index operations"],"the select operations")
p("C06","Results do not depend on the memory layout of the view",
 "Every operation works on the logical sequence of elements of the view only: strides (including negative and larger than one), offsets into a parent array and the parent's ownership never change what it does. No operation treats the view as contiguous memory or reads or writes elements of the parent array that the view skips.",
 ["inputs","configurations"],"every stride, offset and ownership of the one-dimensional array",
 "All existing tests use owned contiguous arrays, where pointer arithmetic and logical indexing coincide.",
 ALL,["logical indexing through the array view everywhere instead of the pointer arithmetic of the algorithm this is derived from"],"every public method on strided views")
p("C07","Sorting operations sort",
 "After any sorting operation with a comparator that is a total order, no element of the view is followed by a smaller one. This holds for stable and unstable, sequential and parallel, natural-order, by-comparator, by-key and by-cached-key sorting, at every length.",
 ["inputs"],"every input sequence and every total order",
 "Tests sample arrays of fewer than 100 small integers for most routines; the heap fallback, long merges, block boundaries and the parallel thresholds are sampled rarely or not at all.",
 ["src/quick_sort.rs","src/merge_sort.rs","src/heap_sort.rs","src/insertion_sort.rs","src/partition.rs","src/par/quick_sort.rs","src/par/merge_sort.rs","src/par/heap_sort.rs"],["partition and recursion on both sides","run detection and merging","heap fallback"],"the sorting methods")
p("C08","Stable sorts keep equal elements in order",
 "The stable sorting operations (sequential, parallel, by comparator, by key and by cached key) keep every pair of elements that compare equal in their original relative order.",
 ["inputs"],"every input sequence with ties and every comparator",
 "Stability is lost only for particular tie patterns at merge, streak and chunk borders; the tests sample few of them.",
 ["src/merge_sort.rs","src/par/merge_sort.rs","src/insertion_sort.rs","src/lib.rs"],["strict comparisons that let a later element pass an earlier one only when it is less","reversal of strictly descending runs only"],"the stable sorting methods")
p("C09","Selection puts the right element at the requested position",
 "After selecting an index with a comparator that is a total order, no element before the index is greater than the selected element, no element after it is smaller, and the three returned parts are the prefix, the element and the suffix of the view at that index. The many-index operations do this for every requested index.",
 ["inputs"],"every input sequence, index and total order",
 "The tests sample a third of short arrays at one index; the fallback for bad pivots is never reached.",
 ["src/partition.rs","src/par/partition.rs"],["the quickselect loop and its index bookkeeping","the median-of-medians fallback"],"the select operations")
p("C10","Deduplication keeps the first element of each run of equal neighbours",
 "Deduplication returns two parts that are a split of the view: the first holds, in the original order, the first element of every maximal run of consecutive elements the predicate calls the same, the second holds the rest. The predicate is called at most once per neighbouring pair with the later element first and the last kept element second.",
 ["inputs"],"every input sequence and predicate history",
 "A handful of doc examples; the relation must hold for every length and predicate.",
 ["src/partition_dedup.rs","src/lib.rs"],["the read and write cursors"],"partition_dedup methods")
p("C11","Binary search and partition point return a correct position",
 "On a view partitioned by the comparator, a found position holds an element the comparator calls equal, and a reported insertion point has only smaller elements before it and only greater ones from it on; partition_point returns the number of leading elements satisfying the predicate. For any comparator at all, a found index is smaller than the length and an insertion point is at most the length.",
 ["inputs"],"every length, every comparator history",
 "Doc examples sample a few positions; border positions of every length and unlawful comparators are not sampled.",
 ["src/lib.rs"],["the bisecting loop with its left and right borders"],"binary_search*, partition_point")
p("C12","The sortedness test examines every neighbouring pair",
 "The sortedness test answers true exactly when every pair of neighbours passes the comparison, in that order; it stops at the first failing pair and answers true for empty and one-element views.",
 ["inputs"],"every length and every comparator history",
 "Doc examples use five-element arrays.",
 ["src/partition.rs","src/lib.rs"],["the neighbour loop"],"is_sorted*")
p("C13","Membership test answers true exactly for contained values",
 "The membership test answers true exactly when some element of the view equals the given value, and compares no element after the first hit.",
 ["inputs"],"every view and value",
 "Doc examples only.",["src/lib.rs"],["iteration over all elements"],"contains")
p("C14","In-place operations never allocate",
 "The operations documented as in-place (unstable sorting, selection, deduplication, reversal, searching and sortedness tests) never allocate or free heap memory themselves; in the build without allocation support no operation does. Growing the stack and the user's own callbacks and collection are the only exceptions.",
 ["inputs","configurations"],"every input and every feature set",
 "No test observes allocation; an allocation on a rarely taken path would go unnoticed until it fails on a target without a heap.",
 ["src/lib.rs","src/quick_sort.rs","src/heap_sort.rs","src/partition.rs","src/insertion_sort.rs","src/partition_dedup.rs"],["absence of any allocating call in the call graph of those operations"],"sort_unstable*, select_*, partition_dedup*, reverse, binary_search*, is_sorted*, contains, partition_point")
p("C15","Sequential operations are deterministic",
 "The result of every sequential operation, and the sequence of callback calls it makes, is a function of the elements, the arguments and the callback answers alone: nothing depends on addresses, time, thread identity, random sources or state kept between calls.",
 ["inputs","histories"],"every input and every history of earlier calls",
 "Nondeterminism shows only across runs or address layouts, which no test compares.",
 ["src/lib.rs","src/partition.rs","src/quick_sort.rs","src/merge_sort.rs"],["the pattern-breaking generator seeded from the length","absence of statics, clocks and hashing of addresses"],"all sequential methods")
p("C16","Parallel operations are free of data races",
 "The parallel operations accept only elements and callbacks that may be shared between threads as they are used, and two tasks that may run at the same time never access the same element or scratch slot unless both only read it.",
 ["schedules","inputs"],"every work-stealing schedule, every length",
 "Tests run one schedule each and contain no race detector; thread-safety bounds are a property of programs that must not compile.",
 ["src/lib.rs","src/par/quick_sort.rs","src/par/merge_sort.rs","src/par/partition.rs"],["Send and Sync bounds of the trait methods","disjoint splits handed to the two sides of a join","per-chunk scratch offsets"],"par_* methods")
p("C17","Cached-key sorting computes each key once and never truncates a position",
 "Sorting by cached key calls the key function exactly once per element for views of two or more elements and not at all for shorter ones, and every position it remembers is represented without loss whatever the length of the view and the size of the key type.",
 ["inputs","programs"],"every length and key type size",
 "The tests sort up to five elements with one key type; the index widths switch at 255, 65535 and 4294967295.",
 ["src/lib.rs"],["the choice of the index type by key size and length","the permutation pass"],"sort_by_cached_key, par_sort_by_cached_key")
p("C18","Every operation terminates for every comparator",
 "For any callback that returns, however inconsistent, every loop and every recursion of every operation makes progress and ends.",
 ["inputs"],"every input and every comparator history",
 "Termination under inconsistent comparators is a statement about infinitely many histories; no test uses an unlawful comparator.",
 ALL,["shrinking views in the partition loops","advancing cursors in scans and merges"],"every public method")
p("C19","Scratch memory is released exactly once on every exit",
 "Every block of scratch memory an operation allocates is released exactly once, with the size it was allocated with, when the operation returns or a callback panics, and is never used afterwards; zero-sized blocks are never requested from the allocator.",
 ["crash_points","inputs"],"every exit path including every panic position",
 "Leaks and size mismatches are silent under the default allocator, and no test panics in a callback.",
 ["src/merge_sort.rs","src/stable_sort.rs","src/par/merge_sort.rs","src/lib.rs"],["the buffer guard and the run stack with their drop code","the vector owning the parallel scratch"],"sort*, par_sort*")
p("C20","All variants of an operation use the same ascending order",
 "Natural-order, by-comparator and by-key variants, sequential and parallel, interpret the callback the same way: a sorts before b exactly when the ordering of a to b (or of their keys) is less, equal elements are never treated as less, and greater is never confused with less. Searching and sortedness tests interpret theirs as documented.",
 ["inputs","programs"],"every public method and every possible comparison result",
 "There are more than thirty entry points; the tests exercise the internal routines with one comparator and touch most entry points by one doc example, many without ties.",
 ["src/lib.rs"],["the closures that adapt the user's ordering, key or predicate"],"every public method taking a callback or an ordering bound")
p("C21","Many-index selection delivers every requested element, in order",
 "The sequential many-index selection adds each requested index once, in ascending order, with a reference to the element at that position. The parallel one appends exactly one reference per index in the same order after the elements already in the collection, and leaves no appended slot unset.",
 ["inputs","schedules"],"every list of indices, every previous content, every split of the work",
 "Uninitialised slots or swapped halves show only for particular index lists and above the parallel threshold.",
 ["src/lib.rs","src/partition.rs","src/par/partition.rs"],["in-order recursion on the index list","spare-capacity writes and the final length update"],"select_many_nth_unstable*, par_select_many_nth_unstable*")
p("C22","Reversal mirrors every position",
 "Reversing a view of length n exchanges position i with position n-1-i for every i, for every length, and does nothing else.",
 ["inputs"],"every length","Tests sample short arrays of integers, where equal values hide misplaced pairs.",
 ["src/partition.rs","src/lib.rs"],["splitting into mirrored halves and swapping pairwise"],"reverse")
p("C23","Each feature set offers exactly its documented operations",
 "The build with neither std nor alloc compiles for targets without the standard library and offers the in-place operations; alloc adds stable sorting, std adds cached-key sorting, and rayon adds the parallel operations, and an operation a feature set does not include is absent.",
 ["configurations","programs"],"every feature set and every program written against it",
 "Tests check that calls compile, not which calls must not, and run on hosts where std is always present.",
 ["src/lib.rs","src/stable_sort.rs","src/merge_sort.rs"],["cfg gates on trait methods and imports"],"the public API surface")
p("C24","Worst-case running time is bounded as documented",
 "Unstable sorting needs O(n log n) and selection O(n) comparisons in the worst case, and stable sorting O(n log n), for every input.",
 ["inputs"],"every input sequence","Adversarial inputs are not sampled and comparisons are not counted.",
 ["src/quick_sort.rs","src/partition.rs","src/merge_sort.rs"],["the depth limit with the heap and median-of-medians fallbacks","the run stack invariant"],"comparison counts")
p("C25","Callbacks are shown only elements the view still owns",
 "Every reference passed to a comparator, key function or predicate refers to the one current copy of an element of the view, so a change a callback makes through interior mutability is never lost or applied to a stale copy.",
 ["inputs","histories"],"every comparison of every run",
 "No test mutates elements inside a comparator; a stale copy compares equal to the real element and is invisible otherwise.",
 ["src/insertion_sort.rs","src/partition.rs","src/merge_sort.rs","src/par/merge_sort.rs","src/par/partition.rs"],["comparisons against the held-out copy, which is what is written back"],"interior-mutable elements")
p("C26","Stack use stays bounded on adversarial inputs",
 "Sequential unstable sorting recurses only into the smaller part of a partition, so that its recursion depth is logarithmic in the length, and with stack growing enabled every recursion that can go deep runs under the stack-growth guard.",
 ["inputs","configurations"],"every input sequence and comparator",
 "Depth depends on adversarial pivots that tests do not produce.",
 ["src/quick_sort.rs","src/partition.rs","src/par/quick_sort.rs","src/par/partition.rs","src/lib.rs"],["recursing on the shorter side and looping on the longer","the stack growth wrapper"],"deep recursion")
for d in P: assert len(d["title"])<=80,(d["id"],len(d["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
print(len(P))
