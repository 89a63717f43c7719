"""What each claimed property is decided by. Read by check.py and gen_manifest.py."""
SHARED = {
    "assumptions": [
        "sampling: a clean batch of seeds is evidence, not proof",
        "the library is compiled by clang 18 (-O1, AddressSanitizer) as C++20 with the date polyfill and its contract checks enabled",
        "operator new/delete are the simulator's: every allocation of the library goes through them",
    ],
}
REAL_SEQ = ["all of /repo/include and /repo/src that the layout under test uses, unmodified"]
STUB_ALLOC = ["global operator new/delete (simulated allocator with ledger, seeded fill, seeded failures)", "contract failure handler (reports instead of SIGTRAP)"]
CHECKS = {
    "M04": dict(
        profiles=[("seq", "M04", 1)], level="exploration", quick_s=25, thorough_s=600, real=REAL_SEQ, stub=STUB_ALLOC,
        technique="deterministic simulation: seeded histories of bitset operations against a vector<bool> model",
        note="Sampled histories (no bound on kinds of operation, up to 40 operations and a few hundred bits each) of dynamic_bitset, dynamic_bitset_view and "
             "non_owning_dynamic_bitset with 8 to 64 bit blocks; every read path compared after every step. Trusts the model and the memory sanitizer.",
        rule="Operations: constructions, copies, moves, element writes, push/pop, insert, erase, resize, iterator walks on up to three bitsets per run."),
    "M01": dict(
        profiles=[("seq", "M01", 1)], level="exploration", quick_s=25, thorough_s=600, real=REAL_SEQ, stub=STUB_ALLOC,
        technique="deterministic simulation: seeded mutation histories of primitive arrays against a vector of optionals",
        note="Sampled histories over all eleven numeric element types, of built, sliced, imported (with offset, slack, no bitmap, unknown null count) and copied arrays; every read path (index, forward and "
             "reverse iteration, bitmap, values, returned iterators) compared after every step. Trusts the model and the memory sanitizer.",
        rule="Operations: constructions, element writes through references, iterators and validity flags, elements assigned to, swapped and compared with each other, push/pop, insert (one, n, range, list), erase, resize, slice, export and re-import, copies, moves."),
    "M02": dict(
        profiles=[("seq", "M02", 1)], level="exploration", quick_s=25, thorough_s=600, real=REAL_SEQ, stub=STUB_ALLOC,
        technique="deterministic simulation: seeded mutation histories of string arrays against a vector of optional strings",
        note="Sampled histories of string arrays (32- and 64-bit offsets) with strings of 0 to 100 bytes including embedded NULs, slices, arrays without bitmap; every read path compared after every step.",
        rule="Same operations as M01 on string_array, with replacement by shorter, equal, longer and own elements."),
    "M03": dict(
        profiles=[("seq", "M03", 1)], level="exploration", quick_s=25, thorough_s=600, real=REAL_SEQ, stub=STUB_ALLOC + ["accounting polymorphic and custom allocators"],
        technique="deterministic simulation: seeded histories of buffer operations against a vector model, with accounting allocators and lifetime-checking elements",
        note="Sampled histories of buffer<int>, buffer of an owning element type, buffer_adaptor (uint32/double over uint8, uint32 over uint16) and u8_buffer with standard, polymorphic and custom "
             "allocators; content, returned iterators, lifetimes of elements and blocks checked after every step. Swapping buffers of unequal allocators is excluded.",
        rule="Operations: all constructors, copies, moves, assignments, insertions (also of own elements), erasures, resizes, reserve, shrink on up to three buffers per run."),
    "M06": dict(
        profiles=[("seq", "M06-prim", 1), ("seq", "M06-str", 1)], level="exploration", quick_s=30, thorough_s=600, real=REAL_SEQ, stub=STUB_ALLOC,
        technique="deterministic simulation: seeded mutation histories, the exported structures are checked after every step by a reader of the C data interface written apart from the library",
        note="Histories of M01 and M02, in most steps without mutable reads in between so that stale state is not repaired by the observer; after every step the raw ArrowArray is checked for length, null count, buffer sizes (against the allocator's ledger), monotone offsets and element values.",
        rule="Same operations as M01 and M02."),
    "F03": dict(
        profiles=[("seq", "F03-bits", 1), ("seq", "F03-prim", 2), ("seq", "F03-str", 2), ("seq", "F03-buf", 1)], level="exploration", quick_s=35, thorough_s=900, real=REAL_SEQ, stub=STUB_ALLOC,
        technique="deterministic simulation with fault injection: seeded allocation failures inside mutations of bitsets, buffers, primitive and string arrays",
        note="The n-th allocation of a mutation fails (n seeded); the exception must be bad_alloc, nothing may leak, elements outside the range being changed keep their value and the history goes on "
             "against the model. Trusts the simulated allocator's ledger.",
        rule="Histories of M01, M02, M03 and M04 in which a seeded third of the operations runs under an allocation fault."),
}
REAL_INTER = ["all of /repo/include and /repo/src: proxies, array, array factory, every layout, record batch, C interface callbacks"]
STUB_INTER = STUB_ALLOC + ["the other side of the C data interface: a foreign producer with counted release callbacks and a consumer, written from the specification"]
def inter(prop, what, rule, quick=30, thorough=900, technique=None, profiles=None):
    CHECKS[prop] = dict(
        profiles=profiles or [("inter", prop, 1)], level="exploration", quick_s=quick, thorough_s=thorough, real=REAL_INTER, stub=STUB_INTER,
        technique=technique or "deterministic simulation: a foreign producer, the library and consumers exchange arrays in seeded histories, checked against a value model",
        note=what, rule=rule)
POP = ("Up to twelve live objects per run (arrays, typed layouts, record batches, structures held by producers and consumers) of random type trees up to height 4 over 25 kinds of layout; "
       "after every step every live object is read through every access path and its exported structures are read by an independent reader. ")
OPS = ("Operations: produce, import by move / half move / reference, build, copy, copy assignment, self assignment, move, move assignment, slice, slice view, nest, wrap, extract, extract one structure, "
       "consumer release and child moves, equality of arrays and of elements with each other, reads, mutation of arrays and of their children, record batches. ")
inter("L01", POP + "Release callbacks of the producer are counted, the ledger must be empty at the end; a third of the runs has failing allocations.", OPS,
      technique="deterministic simulation with fault injection: seeded histories of ownership transfers with counted release callbacks and an allocation ledger")
inter("L02", POP + "Exposed and extracted structures are validated against the specification; consumers release in either order and move children out.", OPS + "Biased to extraction and consumer actions.")
inter("L03", POP + "Copies are compared with the model after every later step of their source and the other way round.", OPS + "Biased to copies, assignments and mutations.")
inter("L04", POP + "The producer draws offsets, omitted bitmaps and offsets, leading and trailing garbage, garbage under nulls; digests of its memory are compared after every step.", OPS + "Biased to imports of foreign data.")
inter("F01", POP + "Half of the operations run under an allocation fault (the n-th allocation, once or from then on); the operation must report bad_alloc, change nothing and succeed when repeated.", OPS,
      technique="deterministic simulation with fault injection: seeded allocation failures inside imports, copies, assignments, slices, nestings, exports and reads")
inter("F02", POP + "Half of the operations run under an allocation fault; biased to construction of every layout from ranges, bitmaps, nullables and children, through the generic builder (nested ranges, tuples, variants, encoding wishes) and from caller ranges that throw at a seeded element.", OPS + "Biased to builds.",
      technique="deterministic simulation with fault injection: seeded allocation failures inside constructors of every layout, leak ledger, retry with equal input")
inter("S01", POP + "Slices of slices of built, imported (with offset) and nested arrays are compared with the model.", OPS + "Biased to slices and slice views.")
inter("S02", POP + "Elements of nested and encoded arrays are compared with the decoded logical values through every history.", OPS + "Biased to nesting, wrapping and re-import.")
inter("S03", POP + "Names, columns, the name to column map and equality of record batches are compared with a table model.", OPS + "Biased to record batches; a third of the runs has failing allocations.")
inter("M05", "One to three arrow_proxy objects per run (library made, imported by move, half move, reference, with children and dictionaries, pairs whose one half belongs to a foreign producer and the other to the library) edited through every public mutator and compared after every step, "
      "node by node, with a tree model: accessors, exposed structures, buffers, children views, reference counts of every released node. Refused edits must leave everything as it was. A third of the runs has failing allocations. "
      "insert_bitmap twice without a set_length in between is excluded (its meaning is undefined).",
      "Operations: format (of every type of the specification), name, metadata, flags, length, null count, offset, buffers, n_buffers, children added, set, popped, resized, dictionary, validity bits pushed, inserted, erased, resized, set; copies, moves, extraction, destruction.",
      technique="deterministic simulation with fault injection: seeded histories of low-level edits against a tree model of the structures, counted release callbacks, allocation ledger")
STUB_THR = ["operating system scheduler (one thread runs at a time; every load, store and atomic operation of instrumented code inside a library call is a scheduling point)",
            "mutexes, read-write locks, call_once, condition variables, yields, sleeps and guards of function-local statics",
            "malloc/free during the threaded phase (freed memory is not reused and guarded)"] + STUB_INTER
def thr(prop, what, rule):
    CHECKS[prop] = dict(
        profiles=[("thr", prop, 1)], level="exploration", quick_s=30, thorough_s=900,
        real=["all of /repo/include and /repo/src, compiled with memory access instrumentation (-fsanitize=thread) and linked with the simulator's runtime; real threads, thread-local storage and exceptions"],
        stub=STUB_THR, technique="deterministic simulation: seeded interleavings of threads at memory access granularity, happens-before race detection, comparison with the value model",
        note=what, rule=rule,
        states="T01: shared populations (types and number of shared objects); T02: abstract states of the populations of the threads after a step",
        assumptions=["code of libstdc++.so and libc that is not inlined is not instrumented (memcpy, memmove, memset and std::string are)", "sequentially consistent memory: relaxed orderings only matter for the race detection"])
thr("T01", "A population of arrays, typed layouts, record batches and proxies of random types, never read before, is read by two or three threads through const operations; every conflicting pair of accesses "
    "not ordered by synchronisation is a violation whatever the schedule, and so is a value different from the model (unless one thread alone sees it too). A third of the runs has failing allocations in the readers.",
    "Operations: reads of everything or some elements, copies, slices, slice views, equality, record batch access, proxy access; 0 to 120 scheduled switches at seeded numbers of memory accesses, bursts of switches.")
thr("T02", "Two or three threads run histories of the interoperability world on objects of their own (a quarter of the runs: the same history in every thread); any conflicting access pair and any result that differs from "
    "the model although each history alone conforms is a violation. Half of the runs has failing allocations.",
    OPS + "0 to 120 scheduled switches at seeded numbers of memory accesses, bursts of switches.")
