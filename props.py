"""What each check runs and how its cases are made.

engines: shards per engine and tier. budget: seconds each shard may spend (a
watchdog; sizes are chosen so that it is not normally reached in the native
engines). parallel: shards run at once. min_observed: a run that observed less
is inconclusive.
"""
GENERIC_ASSUMPTIONS = [
    "rustc, std, rayon and the sanitizers/Miri are trusted",
    "64-bit Linux; panic=unwind",
]


def eng(dbg=(2, 8), rel=(0, 0), asan=(0, 0), miri=(0, 0), tsan=(0, 0)):
    q, t = {}, {}
    for name, (a, b) in dict(miri=miri, dbg=dbg, rel=rel, asan=asan, tsan=tsan).items():
        if a:
            q[name] = a
        if b:
            t[name] = b
    return dict(quick=q, thorough=t)


MEM = "element types of 0 to 160 bytes, over-aligned, zero-sized with and without drop glue, and ledger tokens that report double drops, leaks and use of garbage"

PROPS = {
    "C01": dict(
        engines=eng(dbg=(4, 8), rel=(2, 8), asan=(1, 4), miri=(5, 8)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: random operation histories against an executable row-of-rows model, token ledger, ASan and Miri",
        rule="random histories of about 60 kinds of operation over three matrices; after every operation the touched matrices are compared with a row-of-rows model element by element and address by address, and the token ledger is balanced; every history is non-trivial; distinct by (section, key)",
        assumptions=["the comparison reads through get/iter_elements/size of the library itself, cross-checked by address against the documented memory order"],
        min_observed={"ops succeeded": 2000, "operation pairs": 500},
        note="held on the histories counted in the evidence; new operations added to the crate are not exercised until an entry is added to ops.rs",
    ),
    "C02": dict(
        engines=eng(dbg=(6, 8), asan=(2, 8), miri=(6, 8)), budget=dict(quick=60, thorough=700),
        level="fault_enumeration",
        technique="runtime monitoring: a panic is injected at every call the library makes into caller code, then coherence, token ledger and usability are monitored; ASan and Miri",
        rule="a case is one operation with generated operands; it is run once without faults to count the calls into caller code (Default, Clone, Drop, PartialEq, Debug/Display, arithmetic, closures, AsIndex/Into<Shape>, iterators) and then once per call with a panic at exactly that call; afterwards every reachable matrix must satisfy the coherence relation, show only live elements, survive further operations and drop cleanly with no token dropped twice",
        assumptions=["one injected panic per run (plus, in part of the runs, panicking drops afterwards); elements may be leaked"],
        min_observed={"faults injected": 5000, "faults injected into large matrices": 2000, "operation x faulting callback": 60},
        note="every fault point of each generated operation is enumerated up to the cap counted as 'more fault points than enumerated'; operands are sampled",
    ),
    "C03": dict(
        engines=eng(dbg=(2, 4), rel=(1, 4), asan=(1, 4), miri=(7, 8)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: address-level monitor over every reference handed out, pointer-event hook, Miri (Tree Borrows), ASan",
        rule="every interleaving of next/next_back on outer and inner iterators for small shapes (bit masks), random interleavings with partially consumed and simultaneously live vectors for larger ones, zero-sized elements with up to usize::MAX of them; each reference must be the element at the position it stands for, given out once, and len() exact at each step; " + MEM,
        assumptions=["pointers formed inside the iterators are observed through the verif-hooks feature in the dbg, asan and miri engines; Miri checks out-of-bounds arithmetic independently of it"],
        min_observed={"references handed out": 20000},
        note="the hook reports pointers formed at the sites it was placed at; Miri covers pointer arithmetic elsewhere",
    ),
    "C04": dict(
        engines=eng(dbg=(2, 8), rel=(1, 8), asan=(1, 4), miri=(7, 8)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: identity oracle over all index forms with hostile index types, Miri and ASan for reads outside the buffer",
        rule="every index pair of a window around each shape plus extreme usize values, through get, get_mut, [] and []=, with six index types; index types whose accessors change their answers between calls must resolve to some element or fail, never touch memory outside; failing accesses must not touch elements",
        min_observed={"in-bounds index pairs": 1000, "out-of-bounds index pairs": 10000, "fickle index refused": 100},
        note="all usize pairs are sampled, not enumerated",
    ),
    "C05": dict(
        engines=eng(dbg=(4, 8), rel=(1, 8), asan=(1, 4), miri=(2, 6)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: cell-by-cell oracle over all small shapes and both orders, token ledger (no clone, no drop), Miri and ASan",
        rule="all shapes up to a bound and larger random ones, both orders, several ways the matrix came about (spare capacity, relabelled): transpose once and twice, switch_order, set_order and the *_without_rearrangement variants against the cell-by-cell definition, clone and drop events counted by the ledger; " + MEM,
        min_observed={"elements moved and compared": 100000, "distinct shapes": 200},
        note="shapes beyond the enumerated bound are sampled",
    ),
    "C06": dict(
        engines=eng(dbg=(1, 8), rel=(1, 4), asan=(1, 4), miri=(3, 6)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: every row/column view compared by address with the logical matrix, from both ends, under mixed consumption; Miri and ASan",
        rule="all shapes up to a bound (empty ones included), both orders: every outer and nth view, shared and mutable, forwards, backwards and alternating, with nth/nth_back/rev/len at each step; vector numbers around and far outside the valid range; " + MEM,
        min_observed={"vector views compared": 5000, "vector numbers tried": 2000},
        note="shapes beyond the enumerated bound are sampled",
    ),
    "C07": dict(
        engines=eng(dbg=(2, 8), rel=(2, 8)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: differential runs of every operation over all storage-order combinations; equality oracle on logical contents",
        rule="equal matrices in both orders are substituted for every operand of every order-agnostic operation (about 50) and results, errors, panics, Display texts and result orders compared; equality against pairwise comparison for elements with equality classes, never-equal elements, NaN, and zero-sized elements of extreme shapes",
        min_observed={"operations succeeding in every order": 1000, "operations failing in every order": 300, "one-element changes compared": 500, "vast pairs": 10},
        note="operands are sampled",
    ),
    "C08": dict(
        engines=eng(dbg=(2, 6), rel=(2, 6)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: a guard allocator records and refuses every large allocation; exact 128-bit oracle for which error is due; forked runs survive aborts",
        rule="shapes around every boundary (usize::MAX, isize::MAX, powers of two, products off by one) and random ones, element sizes 0, 1, 3, 8 (aligned) and 4096, through every constructor and size-changing or mapping operation; the oracle computes count and byte size in 128 bits; a failing call must not allocate, run caller code, panic or abort; a feasible one is carried out or observed to reach the allocator with exactly the requested size",
        assumptions=["requests beyond 1 MiB are intercepted by the guard allocator and counted as reaching the allocation; From/FromIterator of zero-sized rows whose count overflows usize have no error to return and are not exercised"],
        min_observed={"CapacityOverflow calls": 300, "SizeOverflow calls": 300, "feasible calls carried out": 50},
        note="all usize pairs are sampled around the boundaries of the oracle",
    ),
    "C09": dict(
        engines=eng(dbg=(2, 8), rel=(1, 4), asan=(1, 4)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: before/after snapshots (shape, order, capacity-independent contents, addresses, ledger) around every fallible in-place operation",
        rule="all shape pairs up to a bound, both orders: reshape and resize against the memory-order sequence with drop and Default events counted; every failing reshape, resize, swap, elementwise assignment and compound operator must leave the snapshot unchanged; histories of mixed failing and succeeding operations",
        min_observed={"failing reshapes": 1000, "growing resizes": 1000, "failing swaps": 1000},
        note="shapes beyond the enumerated bound are sampled",
    ),
    "C10": dict(
        engines=eng(dbg=(1, 6), rel=(1, 4), asan=(1, 4), miri=(7, 8)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: all index pairs on all small shapes against the model with clone/drop counting; Miri (Tree Borrows) and ASan",
        rule="all shapes up to a bound, both orders, all pairs of element, row and column numbers including equal and out-of-range ones, larger shapes sampled, zero-sized elements of extreme shapes; contents compared with the model, ledger must show no clone and no drop; " + MEM,
        min_observed={"row swaps": 500, "element swaps": 2000, "failing swaps": 5000},
        note="shapes beyond the enumerated bound are sampled",
    ),
    "C11": dict(
        engines=eng(dbg=(1, 6), rel=(1, 6), asan=(1, 4)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: tokens record each factor pair; products compared with the textbook sum; closure arguments checked by address",
        rule="all triples of extents up to a bound in all order combinations, non-commutative element types whose products record (factor, factor) and whose sums record the multiset, wrapping and floating-point numbers, multiplication_like_operation with an address-checking closure, all four owned/borrowed forms, non-conformable operands",
        assumptions=["the order of the summands is not prescribed: integer sums are compared exactly and floating-point products use values whose sums are exact"],
        min_observed={"conformable pairs": 100, "non-conformable pairs": 100, "factor pairs seen": 5000},
        note="operands beyond the enumerated bound are sampled",
    ),
    "C12": dict(
        engines=eng(dbg=(1, 6), rel=(1, 6), asan=(1, 4)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: closures record the pairs of positions they are given; all named methods and operators compared with the primitive operator",
        rule="all pairs of shapes up to a bound in all order combinations and both identities of operands (distinct, equal, transposed shape); each closure call is recorded with the addresses/identities of both operands; named methods and operators on integers and floats against the primitive operator",
        min_observed={"operand pairs checked": 500, "non-conformable pairs": 200, "numeric elements compared": 10000},
        note="operands are sampled",
    ),
    "C13": dict(
        engines=eng(dbg=(1, 6), rel=(2, 4), asan=(1, 4), miri=(4, 8)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: 128-bit Euclidean-remainder oracle over extreme isize pairs; guard pages, Miri and ASan for reads on empty matrices",
        rule="shapes up to a bound, larger ones, and zero-sized or sparsely backed matrices with extents up to usize::MAX; index pairs from a window around zero, around multiples of the extents, and around isize::MIN/MAX and powers of two; all checked, mutable, operator and unchecked forms; empty matrices of every form",
        min_observed={"wrapping index pairs resolved": 20000, "pairs refused on empty matrices": 500},
        note="all isize pairs are sampled, not enumerated",
    ),
    "C14": dict(
        engines=eng(dbg=(1, 6), rel=(1, 4), asan=(1, 4), miri=(3, 8)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: token identities show which source element each destination element is a clone of; ledger and snapshots for everything else; Miri and ASan",
        rule="all pairs of shapes up to a bound in all order combinations plus random larger ones; afterwards each destination element must be a clone of the right source element or untouched (same token, same address), the source identical, and the ledger balanced",
        min_observed={"elements copied": 5000, "elements kept": 5000, "overlap kinds": 100},
        note="shapes beyond the enumerated bound are sampled",
    ),
    "C15": dict(
        engines=eng(dbg=(2, 8), rel=(1, 4), asan=(1, 4), miri=(4, 8)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: items checked by address against get at the reported index, under random consumption from both ends and in thread pools; token ledger; Miri and ASan",
        rule="shapes up to a bound and larger ones, both orders: six sequential forms under random next/next_back/nth/len sequences and partial consumption, six parallel forms in pools of several sizes; zero-sized matrices of extreme shape entered from both ends",
        min_observed={"elements visited": 100000, "elements visited in parallel": 20000},
        note="schedules are sampled",
    ),
    "C16": dict(
        engines=eng(dbg=(2, 4), rel=(1, 4), tsan=(2, 4), miri=(4, 8)), budget=dict(quick=60, thorough=500),
        parallel=8,
        technique="runtime monitoring: differential runs against the sequential form in pools of 1 to 16 threads with injected delays and recorded work divisions; ThreadSanitizer and Miri",
        rule="shapes x orders x pool sizes x delay patterns; each closure call is recorded with element identity and thread; results, order and multisets compared with the sequential form; consumers that stop early, unsized and nested; capacity overflow compared for zero-sized sources of extreme size",
        min_observed={"closure calls watched": 10000, "distinct divisions of the elements among threads": 2},
        note="schedules are sampled; the number of distinct divisions of work observed is in the evidence",
    ),
    "C17": dict(
        engines=eng(dbg=(2, 4), rel=(1, 4), tsan=(2, 4), miri=(3, 8)), budget=dict(quick=60, thorough=500),
        parallel=8, probes=[dict(name="c17_compile")],
        technique="runtime monitoring: ThreadSanitizer, Miri and address-ownership logs over concurrent mutation; auto-trait observation for element types of every Send/Sync combination; programs that must be rejected",
        rule="rows or columns of one iterator are handed to 2-16 threads in five ways (dealt out, travelling outer iterator, half-consumed, scattered references, rayon bridge) with delays; every address may be touched by one thread only and the result must equal the sequential one; Send/Sync of all iterator types is observed for 17 element types; about 200 misuse programs must not compile while their harmless twins do",
        min_observed={"elements mutated concurrently": 10000, "auto-trait verdicts": 100, "misuse programs rejected": 100},
        note="schedules are sampled; Send/Sync soundness for other element types follows from the bounds being uniform, which is assumed",
    ),
    "C18": dict(
        engines=eng(dbg=(3, 8), rel=(2, 8)), budget=dict(quick=60, thorough=600), rel_opt=0,
        technique="runtime monitoring: every operator form on every primitive type compared element by element with the primitive operator, panics included",
        rule="14 element types x 5 operators x all owned/borrowed forms of matrix, scalar and element, both sides, compound assignments and negation, on extreme and random values and several shapes and both orders, including shapes without elements; panics of the primitive operator must be mirrored; scalar_operation forms with recording closures",
        min_observed={"elements compared with the primitive operator": 100000, "closure calls watched": 1000},
        note="values are sampled; forms and types are enumerated",
    ),
    "C19": dict(
        engines=eng(dbg=(2, 8), rel=(1, 4), asan=(1, 4)), budget=dict(quick=60, thorough=600),
        technique="runtime monitoring: constructions compared with the given rows by token identity; ragged inputs by exhaustive row-length patterns; initializer calls logged",
        rule="every From/TryFrom/FromIterator/macro/constructor form on all extents up to a bound, every pattern of row lengths up to a bound (ragged ones must be rejected with the due error and all tokens dropped), vectors with spare capacity, iterators with lying or absent size hints",
        min_observed={"accepted": 300, "rejected": 1000, "initializer calls logged": 500},
        note="extents beyond the enumerated bound are sampled",
    ),
    "C20": dict(
        engines=eng(dbg=(3, 8), rel=(1, 4)), budget=dict(quick=60, thorough=600), probes=[dict(name="c20_colour")],
        technique="runtime monitoring: an independent tokeniser reads the texts back; differential runs across storage orders, and across builds with and without colours on pipes and terminals",
        rule="shapes at label-width boundaries and random ones; element texts of random width, empty, non-ASCII, bracketed, multi-line and up to 200 000 characters; formatting options and writers that fail after so many bytes; two builds of a formatting program compared on eight kinds of output that support no colour",
        assumptions=["element types whose own Display/Debug returns an error are outside the statement; owo-colors' supports-colors decides what an output supports"],
        min_observed={"Display texts tokenised": 500, "Debug texts tokenised": 500, "texts compared with and without the colour feature": 1000},
        note="texts are sampled",
    ),
}
