#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the statements are easy to review)."""
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),hook=False):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mechanism],
                   observe_at=list(observe),hook_needed=hook or None)))
INC="include/sparrow/"
prop("L01","Every Arrow structure is released exactly once, by its owner only",
 "Whatever sequence of imports (by move, by half move, by reference), typed and untyped copies, moves, assignments, slices, nestings, exports and destructions the parties perform, the release callback of every producer-owned ArrowArray and ArrowSchema whose ownership was handed over is invoked exactly once, and the callback of a borrowed structure is never invoked by the library. Nothing that was released or freed is read afterwards, and once every owner (library object or consumer) is gone no memory the library allocated is left.",
 ["histories","schedules"],
 "for every history of operations by any number of producers, library objects and consumers, in every order of the releases, over every supported layout and nesting",
 "The unit tests perform one import/copy/export per case with stack structures and never count release calls, leaks or use-after-release over a mixed history; most ownership bugs need a particular order of copy, move, export and release.",
 [INC+"arrow_array_schema_proxy.hpp","src/arrow_array_schema_proxy.cpp",INC+"arrow_interface/arrow_array_schema_utils.hpp","src/arrow_interface/arrow_array.cpp","src/arrow_interface/arrow_schema.cpp",INC+"layout/array_wrapper.hpp","src/array.cpp"],
 [("arrow_proxy ownership variant and destructor","src/arrow_array_schema_proxy.cpp"),("release_common_arrow / release_arrow_array / release_arrow_schema",INC+"arrow_interface/arrow_array_schema_utils.hpp"),("move_array / swap / copy_array",INC+"c_interface.hpp")],
 [("release callback","non-null while the structure is owned by its holder",INC+"c_interface.hpp")],
 ["producer release callbacks","ledger over every allocation made inside library calls","AddressSanitizer on every access"])
prop("L02","Exported structures conform to the C data interface and stand alone",
 "An ArrowArray/ArrowSchema pair exported (extracted or exposed) after any history conforms to the Arrow C data interface: an independent reader that knows only the specification reads from it exactly the values, nulls, length, offset, null count, format, name, flags and children the source object held. An extracted pair does not depend on any library object that is still alive or was destroyed, and a consumer may release array and schema in either order, move children or the dictionary out and release them before or after their parent, or hand the pair back to the library.",
 ["histories","schedules"],
 "for every array produced by any history, every consumer protocol allowed by the C data interface and every order of consumer actions relative to the life of library objects",
 "Tests read exported data back through the same library and release it immediately; independence from source lifetime and consumer-side moves of children are not exercised.",
 [INC+"array_api.hpp",INC+"arrow_interface/arrow_array.hpp",INC+"arrow_interface/arrow_array_schema_utils.hpp",INC+"arrow_interface/arrow_array/private_data.hpp",INC+"arrow_interface/arrow_schema/private_data.hpp"],
 [("extract_arrow_structures / get_arrow_structures",INC+"array.hpp"),("release callbacks installed by the library","src/arrow_interface/arrow_array.cpp")],
 [("private_data","keeps the buffers of an exported structure alive",INC+"arrow_interface/arrow_array/private_data.hpp")],
 ["independent C-data-interface reader in the harness","allocation ledger"])
prop("L03","Copies are deep and independent of their source",
 "A copy (copy construction, copy assignment, clone, or copying slice) of any array, typed layout, record batch or proxy holds exactly the logical value of its source at the time of the copy. From then on, no mutation, move, export, release or destruction of either one changes what the other reads or exports, at any nesting depth; moved-to objects hold the value of the moved-from one.",
 ["histories","schedules"],
 "for every layout and nesting, every interleaving of mutations and destructions of source and copies after the copy, including copies of borrowed, sliced and imported arrays and self assignment",
 "Tests compare a copy with its source once, immediately after copying, and never interleave mutation or destruction afterwards.",
 ["src/arrow_interface/arrow_array.cpp","src/arrow_interface/arrow_schema.cpp","src/arrow_array_schema_proxy.cpp",INC+"layout/array_wrapper.hpp",INC+"layout/list_layout/list_array.hpp",INC+"layout/struct_layout/struct_array.hpp",INC+"layout/union_array.hpp",INC+"layout/dictionary_encoded_array.hpp",INC+"layout/run_end_encoded_layout/run_end_encoded_array.hpp"],
 [("copy_array / copy_schema","src/arrow_interface/arrow_array.cpp"),("array_wrapper::clone",INC+"layout/array_wrapper.hpp"),("layout copy constructors and assignments",INC+"layout")],
 [],["reference value model of every slot compared after each step"])
prop("L04","Importing foreign data is lossless and read-only",
 "For any conforming foreign producer, including arrays with a non-zero offset, without a validity bitmap, of length zero and with nested children that carry offsets of their own, the library reads exactly the values and nulls the producer meant. Reading, copying, slicing and comparing never writes to the producer's buffers, structures, children or dictionary, and operations that would change the size of data whose buffers the library does not own are refused by an exception without any effect.",
 ["inputs","histories"],
 "for every conforming producer (layout tree, offsets, bitmaps present or absent, sizes) and every history of reads, copies and refused mutations on the imported object",
 "Tests import a handful of hand-built arrays, mostly created by the library itself, with one fixed shape and offset; foreign memory is not checked for writes.",
 ["src/arrow_array_schema_proxy.cpp",INC+"arrow_interface/arrow_array_schema_utils.hpp",INC+"utils/buffers.hpp","src/array_factory.cpp",INC+"layout/array_bitmap_base.hpp"],
 [("get_arrow_array_buffers / update_buffers","src/arrow_interface/arrow_array.cpp"),("array_factory","src/array_factory.cpp")],
 [],["foreign memory digests around every operation","reference value model"])
prop("F01","A failed allocation inside an array operation has no side effects",
 "If any allocation fails during an import, copy, assignment, slice, nesting, export, wrap or read of arrays, typed layouts or record batches, the failure surfaces to the caller as std::bad_alloc and never as termination, another exception or a corrupt result. Nothing is leaked or released twice, the operands and every other live object still read exactly what they read before, an assignment target remains destructible and assignable, and the same operation succeeds once memory is available again.",
 ["fault_sequences","histories"],
 "for every allocation point of every operation, single or sustained failures, at every place of every history",
 "No test injects an allocation failure anywhere.",
 ["src/arrow_interface/arrow_array.cpp","src/arrow_interface/arrow_schema.cpp","src/arrow_array_schema_proxy.cpp",INC+"utils/memory.hpp",INC+"layout/array_wrapper.hpp","src/record_batch.cpp"],
 [("partial construction and clean-up on unwinding","src/arrow_interface/arrow_array.cpp"),("cloning_ptr copy",INC+"utils/memory.hpp")],
 [],["operator new seam with injected failures","allocation ledger","reference value model"])
prop("F02","Building an array is all-or-nothing under faults",
 "Constructing a typed array from ranges, buffers, bitmaps, index lists, nullables or children, or through the generic builder, either yields an array equal to its input or throws the fault that happened (failed allocation, or an exception from the caller's range) and leaves nothing behind: no leak, no double release, no half-consumed output. A retry with an equal input succeeds.",
 ["fault_sequences","inputs"],
 "for every constructor and builder shape, every input content and every position of a failing allocation or throwing range element",
 "Constructors are tested with a few fixed inputs and no failure is ever injected, so the clean-up paths have never run.",
 [INC+"builder/builder.hpp",INC+"layout/primitive_array.hpp",INC+"layout/variable_size_binary_layout/variable_size_binary_array.hpp",INC+"layout/list_layout/list_array.hpp",INC+"layout/struct_layout/struct_array.hpp",INC+"layout/union_array.hpp",INC+"layout/dictionary_encoded_array.hpp","src/run_encoded_array.cpp",INC+"buffer/u8_buffer.hpp",INC+"layout/array_bitmap_base.hpp"],
 [("create_proxy of every layout",INC+"layout"),("make_arrow_array / make_arrow_schema",INC+"arrow_interface/arrow_array.hpp"),("build",INC+"builder/builder.hpp")],
 [],["operator new seam","throwing input ranges","allocation ledger","reference value model"])
prop("F03","A mutation hit by a failed allocation leaves a usable container",
 "When an allocation fails in the middle of a mutation of a primitive array, string array, buffer or bitset, the caller gets std::bad_alloc and the container stays in a valid state: its size agrees with what can be iterated, every element and validity flag can be read, it can be copied, exported, assigned, mutated further and destroyed without undefined behaviour or leak. Elements outside the range being changed keep their values, and later fault-free operations behave as specified.",
 ["fault_sequences","histories"],
 "for every mutating operation, every allocation point in it, and every history before and after the failure",
 "No test injects an allocation failure; multi-buffer updates (bitmap, offsets, data, length) that stop half-way are never observed.",
 [INC+"layout/mutable_array_base.hpp",INC+"layout/primitive_array.hpp",INC+"layout/variable_size_binary_layout/variable_size_binary_array.hpp",INC+"buffer/buffer.hpp",INC+"buffer/dynamic_bitset/dynamic_bitset_base.hpp"],
 [("bitmap, values and length updated one after the other",INC+"layout/mutable_array_base.hpp"),("buffer reallocation",INC+"buffer/buffer.hpp")],
 [],["operator new seam","structural self-consistency check after every failed step"])
prop("M01","A primitive array behaves as a sequence of nullable values",
 "Under any history of element assignment (value, null, through references or iterators), push_back, pop_back, insert (one, repeated, range), erase (one, range) and resize, a primitive array of every numeric type reads (index, forward and reverse iteration, bitmap, values) exactly as a std::vector of optional values subjected to the same history, whatever its size relative to byte boundaries. Iterators returned by mutators designate the position documented.",
 ["histories","inputs"],
 "for every element type, every history of mutations and every size including those where bitmap blocks fill up",
 "The primitive array test file is not part of this build and samples single operations on 10-element arrays; histories crossing bitmap block boundaries are not reached.",
 [INC+"layout/primitive_array.hpp",INC+"layout/mutable_array_base.hpp",INC+"layout/array_bitmap_base.hpp",INC+"buffer/dynamic_bitset/dynamic_bitset_base.hpp",INC+"buffer/buffer_adaptor.hpp"],
 [("insert/erase/resize over bitmap and data buffer",INC+"layout/mutable_array_base.hpp")],
 [],["reference vector<optional<T>> model after each step"])
prop("M02","A string array behaves as a sequence of nullable strings",
 "Under any history of element assignment (shorter, equal or longer strings, nulls), push_back, pop_back, insert (one, repeated, range), erase and resize, a string array reads exactly as a std::vector of optional strings subjected to the same history. Changing one element never changes the bytes, length or validity of another.",
 ["histories","inputs"],
 "for every history of mutations, every mix of string lengths including empty strings, and every position",
 "The string array test file is not part of this build and only samples single operations with strings of similar length; offset arithmetic after mixed insert/erase/assign histories is not reached.",
 [INC+"layout/variable_size_binary_layout/variable_size_binary_array.hpp",INC+"layout/variable_size_binary_layout/variable_size_binary_reference.hpp",INC+"layout/mutable_array_base.hpp"],
 [("offset and data buffer adjustment",INC+"layout/variable_size_binary_layout/variable_size_binary_array.hpp")],
 [],["reference vector<optional<string>> model after each step"])
prop("M03","buffer behaves as a vector and returns memory to its allocator",
 "Under any history of constructions, copies, moves, assignments, swaps, insertions, erasures, resizes, reserves, shrink_to_fit and clears, a buffer (and a buffer adaptor over it) holds exactly the elements a std::vector would, with size not exceeding capacity. Every block obtained from an allocator is given back exactly once, to an equal allocator and with the size it was requested with, and element objects are constructed and destroyed in pairs.",
 ["histories","fault_sequences"],
 "for every history over buffers using standard, polymorphic and user allocators, trivial and non-trivial element types, with and without failing allocations",
 "Tests exercise each member once on small integer buffers with one allocator; allocator and object pairing over histories is not checked.",
 [INC+"buffer/buffer.hpp",INC+"buffer/allocator.hpp",INC+"buffer/buffer_adaptor.hpp",INC+"buffer/u8_buffer.hpp"],
 [("buffer_base allocate/deallocate",INC+"buffer/buffer.hpp"),("any_allocator type erasure",INC+"buffer/allocator.hpp")],
 [],["tracking allocators","tracking element type","reference vector model"])
prop("M04","A bitset behaves as a vector of bools with an exact null count",
 "Under any history of set, element assignment, push_back, pop_back, insert, erase, resize, clear, copies, moves and swaps, a dynamic bitset reads (test, index, iteration in both directions, iterator arithmetic, front/back) exactly as a std::vector<bool> with the same history, at every size and across every block boundary. Its null count always equals the number of false bits, and a non-owning view reads and writes the same bits in place and nothing outside its range.",
 ["histories","inputs"],
 "for every history, size, block type and starting buffer content",
 "Tests check single operations on one fixed 29-bit pattern; block-aligned sizes and long histories are not reached.",
 [INC+"buffer/dynamic_bitset/dynamic_bitset_base.hpp",INC+"buffer/dynamic_bitset/dynamic_bitset.hpp",INC+"buffer/dynamic_bitset/bitset_iterator.hpp",INC+"buffer/dynamic_bitset/bitset_reference.hpp",INC+"buffer/dynamic_bitset/dynamic_bitset_view.hpp"],
 [("null count maintenance and trailing bits",INC+"buffer/dynamic_bitset/dynamic_bitset_base.hpp"),("bit iterator arithmetic",INC+"buffer/dynamic_bitset/bitset_iterator.hpp")],
 [],["reference vector<bool> model after each step"])
prop("M05","Low-level Arrow structure edits keep the pair consistent",
 "Under any history of edits through the low-level proxy (format, name, metadata, flags, length, null count, offset, buffers, children added, set, popped or resized, dictionary, validity bits pushed, inserted, erased, resized or set) the accessors, the exposed ArrowArray/ArrowSchema and every view derived from them agree with a simple tree model of the same history. An edit on structures the library did not create, or does not own, throws the documented exception and changes nothing; children and dictionaries replaced or dropped by an edit are released and freed exactly once if owned and never if not.",
 ["histories","fault_sequences"],
 "for every history of edits on owned, borrowed and foreign pairs, at any depth, with and without failing allocations",
 "Each setter is tested once on a flat fixture; sequences of child and dictionary edits, ownership mixes and rejected edits followed by use are not reached.",
 [INC+"arrow_array_schema_proxy.hpp","src/arrow_array_schema_proxy.cpp",INC+"arrow_interface/arrow_array/private_data.hpp",INC+"arrow_interface/arrow_schema/private_data.hpp"],
 [("set_*/add_children/pop_children/resize_children/set_dictionary","src/arrow_array_schema_proxy.cpp"),("validity bitmap edits","src/arrow_array_schema_proxy.cpp")],
 [],["tree model","producer release callbacks","allocation ledger"])
prop("M06","What is exported after mutation is what was written",
 "After any history of mutations of a primitive or string array, the exported structures stay internally consistent: length equals the element count, null_count equals the number of null elements (or is -1, not computed), the bitmap, offsets and data buffers are large enough for offset plus length, string offsets are monotone and in range, and an independent reader of the C data interface reads exactly the elements the array itself reads.",
 ["histories"],
 "for every mutation history and at every point of it where a consumer may look at, extract, copy or re-import the structures",
 "Tests check the C++ view after a mutation, never the exported metadata, and never with a second reader.",
 [INC+"layout/mutable_array_base.hpp",INC+"layout/array_bitmap_base.hpp","src/arrow_array_schema_proxy.cpp",INC+"arrow_interface/arrow_array/private_data.hpp"],
 [("update / update_buffers / update_null_count","src/arrow_array_schema_proxy.cpp")],
 [],["independent C-data-interface reader","re-import into a second library object"])
prop("S01","Slices select exactly the requested elements",
 "slice(i, j) and slice_view(i, j) of any array, including slices of slices and arrays imported with an offset, read (elements, size, null count, iteration) exactly the elements i to j-1 of the array they were taken from. Taking a slice never changes the source, a slice copy outlives its source, and a slice view stays valid as long as the source is neither destroyed nor mutated.",
 ["histories","inputs"],
 "for every layout and nesting, every chain of slices with any bounds, and any history of copies, moves, exports and re-imports of the slices",
 "One slice of one small unsliced primitive array is tested.",
 ["src/array.cpp","src/arrow_array_schema_proxy.cpp",INC+"layout/primitive_array.hpp",INC+"layout/list_layout/list_array.hpp",INC+"layout/struct_layout/struct_array.hpp",INC+"layout/union_array.hpp","src/run_encoded_array.cpp"],
 [("slice / slice_view","src/arrow_array_schema_proxy.cpp"),("offset handling of each layout",INC+"layout")],
 [],["reference value model"])
prop("S02","Nested and encoded arrays keep their value through any history",
 "Lists (32/64-bit, views, fixed size), structs, dense and sparse unions, dictionary-encoded and run-end-encoded arrays, nested in any combination, read (size, operator[], at, iteration, visit, equality) exactly the logical values they were built from, before and after any history of copies, moves, assignments, wrapping, nesting, export and re-import, independent of what other arrays were created or read before in the process.",
 ["histories","inputs"],
 "for every type tree within the harness bounds, every content, and every history over a population of arrays of different types",
 "Tests check each layout alone, directly after construction and at one nesting level; no test reads an array after unrelated arrays of other types have been used in the same process.",
 [INC+"layout/list_layout/list_array.hpp",INC+"layout/struct_layout/struct_array.hpp",INC+"layout/union_array.hpp",INC+"layout/dictionary_encoded_array.hpp",INC+"layout/run_end_encoded_layout/run_end_encoded_array.hpp",INC+"layout/dispatch.hpp","src/array_helper.cpp","src/list_value.cpp","src/struct_value.cpp"],
 [("visit dispatch and element access",INC+"layout/dispatch.hpp"),("children layouts rebuilt on copy",INC+"layout")],
 [],["reference value model after each step"])
prop("S03","A record batch stays a consistent named table",
 "Under any history of construction, copy, move, assignment and destruction of record batches and of the arrays and names they were built from, each batch reports the names, columns, row and column counts it was built with, each name maps to the column at the same position of that very batch, unknown names are reported by std::out_of_range, and two batches are equal exactly when names and column contents are.",
 ["histories","fault_sequences"],
 "for every history over a population of batches and arrays, including assignments between batches of different shapes and failed allocations",
 "Tests build one batch with three columns and copy or move it once; lookups by name after assignment chains and destruction of the source are not reached.",
 [INC+"record_batch.hpp","src/record_batch.cpp"],
 [("name to column map","src/record_batch.cpp")],
 [("m_array_map","pointers into the batch's own column list",INC+"record_batch.hpp")],["reference table model after each step"])
prop("T01","Concurrent readers of shared arrays never race",
 "Any number of threads may call const operations (size, element access, iteration in any direction, bitmap and metadata access, equality, visit, copying, slicing, typed access) on the same array, typed layout or record batch at the same time: in every interleaving no two accesses conflict without synchronisation, and every thread reads the same values as a single thread would.",
 ["schedules"],
 "for every interleaving, at the granularity of individual memory accesses, of any const operations of several readers over every layout",
 "There is no multi-threaded test; a race needs a particular interleaving.",
 [INC+"layout/array_base.hpp",INC+"arrow_array_schema_proxy.hpp",INC+"layout/dictionary_encoded_array.hpp",INC+"layout/dispatch.hpp","src/array_helper.cpp","src/arrow_array_schema_proxy.cpp",INC+"record_batch.hpp"],
 [("const access paths of every layout",INC+"layout"),("function-local statics",INC+"layout/dictionary_encoded_array.hpp")],
 [],["compiler-inserted hooks on every load, store and atomic of library code, run under a seeded scheduler with happens-before tracking"])
prop("T02","Threads working on their own arrays do not influence each other",
 "Threads that create, mutate, copy, export, re-import and destroy arrays they do not share never conflict on any memory, and each obtains exactly the results it would obtain running alone: the library keeps no hidden mutable state through which unrelated objects can affect each other, including when another thread's allocations fail.",
 ["schedules","fault_sequences"],
 "for every interleaving, at the granularity of individual memory accesses, of the operations of threads with disjoint objects",
 "There is no multi-threaded test, and hidden shared state shows only under interleaving.",
 [INC+"layout/mutable_array_base.hpp",INC+"buffer/allocator.hpp",INC+"layout/dictionary_encoded_array.hpp","src/arrow_interface/arrow_array.cpp","src/arrow_array_schema_proxy.cpp"],
 [("function-local statics and shared handles","include/sparrow")],
 [],["compiler-inserted hooks on every load, store and atomic of library code, run under a seeded scheduler with happens-before tracking"])
NA_WHY="Tests sample a few inputs; the input space is unbounded."
prop("N01","Format strings and data types map one to one",
 "For every supported data type, converting to the Arrow format string and back yields the same type, and unknown format strings are reported as such.",
 ["inputs"],"for every format string and every data type",NA_WHY,[INC+"types/data_type.hpp"],[("format_to_data_type / data_type_to_format",INC+"types/data_type.hpp")])
prop("N02","nullable follows optional comparison and value rules",
 "For all values and nulls of comparable types, nullable comparison, assignment and value access obey the documented total order in which null is smaller than any value and equal to null.",
 ["inputs"],"for all pairs of nullable values",NA_WHY,[INC+"utils/nullable.hpp"],[("nullable operators",INC+"utils/nullable.hpp")])
prop("N03","The builder's nested comparators are a strict weak order",
 "The nested less-than used for dictionary encoding is a strict weak ordering over nullables, tuples, ranges and variants, and agrees with the nested equality used for run-end encoding.",
 ["inputs"],"for all triples of nested values",NA_WHY,[INC+"builder/nested_less.hpp",INC+"builder/nested_eq.hpp"],[("nested_less / nested_eq",INC+"builder/nested_less.hpp")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
