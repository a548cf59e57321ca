# Executed by catalog.py.

prop('C03', 'Packed bit operations act on exactly the addressed bits',
     '''Reading, setting, counting, scanning, copying and combining bits of a packed bit sequence gives the result defined bit by bit,
     for every word width, start, length and pair of offsets. No bit outside the addressed range changes and no memory word outside the
     words that hold the range is read or written. Empty ranges are legal everywhere and change nothing.''',
     ['inputs'], 'Every range of up to three words, every pair of source/destination offsets and every content of the boundary words.',
     '''Unit tests sample a few word patterns and offsets; off-by-one errors show only for particular combinations of offsets, lengths and
     contents (a range ending exactly on a word boundary, an intersect with a negative offset difference).''',
     ['arolla/util/algorithms.h', 'arolla/util/algorithms.cc', 'arolla/util/bits.h', 'arolla/util/bits.cc'],
     [('word shifts and masks', 'arolla/util/bits.h'), ('word-wise combination with offsets', 'arolla/util/algorithms.h')],
     '''Exhaustive within the stated range lengths; buffers are poisoned around the addressed words (AddressSanitizer), so any out-of-range
     access is reported. Trusted: the bit-by-bit model, the compiler.''')

prop('C04', 'Sorted searches return the first qualifying position; iterators keep order',
     '''Every lower/upper bound search over a sorted sequence, including the galloping and NaN-aware ones, returns exactly the position the
     definition gives, never reads outside the sequence and never moves an iterator past its end. Container iterators behave as random access
     iterators over the container: any history of moves, differences and comparisons agrees with index arithmetic. Sorted map traversal and
     map comparison depend only on the contents.''',
     ['inputs', 'histories'], 'Every sorted sequence (by change points) and searched value within the bounds; every history of iterator moves.',
     '''Tests try a few arrays and keys; the branch-free and galloping searches have size-specific code paths and the defects appear only for
     particular (size, answer, hint) combinations.''',
     ['arolla/util/binary_search.h', 'arolla/util/binary_search.cc', 'arolla/util/algorithms.h', 'arolla/util/iterator.h', 'arolla/util/map.h'],
     [('branch-free and hinted searches', 'arolla/util/binary_search.h'), ('exponential search', 'arolla/util/algorithms.h'),
      ('iterator wrapper', 'arolla/util/iterator.h')],
     'Sequences are determined by their change points, so enumerating those is complete for each size bound. Iterators are instrumented to detect overruns.')

prop('C05', 'Scalar arithmetic, comparison and rounding operators follow their definitions',
     '''For all operands, including NaN, signed zeros, infinities, denormals and integer extremes, each scalar operator returns the value its
     definition gives: total results where defined, wrap-around for integer overflow, a reported error for division by zero. Comparisons are
     consistent with each other (exactly one of less, equal, greater for ordered operands; min/max and sorting keep NaN and missing rules).
     No operand triggers undefined behaviour.''',
     ['inputs'], 'All pairs (triples where ternary) of boundary and ordinary values per scalar type.',
     '''Tests check a handful of values per operator; the interesting operands are the pairwise combinations of extremes (minimum by minus one, NaN with infinity, negative zero).''',
     ['arolla/qexpr/operators/math/math.h', 'arolla/qexpr/operators/math/arithmetic.h', 'arolla/qexpr/operators/bool/comparison.h'],
     [('operator functors', 'arolla/qexpr/operators/math/arithmetic.h'), ('comparison functors', 'arolla/qexpr/operators/bool/comparison.h')],
     'Exhaustive over a grid of boundary values, not over all bit patterns; built with the undefined behaviour sanitizer. Oracle: wide-integer and long double arithmetic.')

prop('C07', 'Accessor lists: unique names, stable order, exact filtering and splitting',
     '''A list of named accessors holds each name exactly once and in sorted order independent of construction order; contradictory duplicates are
     rejected with an error while exact duplicates collapse. Name filters keep exactly the selected accessors, in every combination and nesting of filters.
     Splitting a list into shards yields a partition of the list that preserves order and balances sizes.''',
     ['inputs', 'configurations'], 'Every small list of accessors, every filter expression of the grammar and every shard count.',
     'Tests check a few lists; duplicates, name collisions and nested filters interact combinatorially.',
     ['arolla/codegen/io/accessors.py', 'arolla/codegen/io/accessor_generator.py', 'arolla/codegen/io/array_generator.py'],
     [('sorted unique accessor list', 'arolla/codegen/io/accessors.py'), ('filtering and generator composition', 'arolla/codegen/io/accessor_generator.py')],
     'Runs the real Python sources on every composition within the bounds and compares with an independent model.')

prop('C10', 'Generated C++ names, literals and includes are valid and unambiguous',
     '''Any text, path or type description turned into C++ source by the code generators denotes the intended entity: generated identifiers are
     valid C++ identifiers, header guards are unique per path, string literals evaluate to the original bytes, and includes are sorted and unique.
     Distinct inputs do not collapse into the same generated name where a one-to-one mapping is promised.''',
     ['inputs'], 'Every string up to a length bound over an alphabet of special characters; every composition of includes and type names within bounds.',
     'Tests check single examples; the failures need particular adjacent characters or shared prefixes.',
     ['arolla/codegen/io/cpp.py', 'arolla/codegen/utils.py'],
     [('names, namespaces and includes', 'arolla/codegen/io/cpp.py')],
     'Exhaustive over the alphabets and lengths stated in the harness; the oracle is an independent model of the C++ lexical rules.')

prop('C11', 'Build-time function calls receive exactly the specified arguments',
     '''A function call specified in a build file, after encoding, Bazel make-variable expansion, shell word splitting and decoding, invokes the named
     function with exactly the specified arguments and environment, whatever characters they contain. Nested calls are evaluated innermost first, each
     exactly once, without modifying the specification. Dependencies and data of nested calls propagate to the rule.''',
     ['inputs', 'programs'], 'Every nested call specification up to a node bound; every argument string up to a length bound over special characters.',
     'Tests use plain identifiers and one level of nesting; the quoting layers (JSON, make variables, bash) only interact on special characters.',
     ['arolla/codegen/utils.bzl', 'arolla/codegen/utils.py', 'arolla/codegen/eval_python_function_call.py', 'arolla/codegen/render_jinja2_template.py'],
     [('encoding and quoting', 'arolla/codegen/utils.bzl'), ('decoding and evaluation', 'arolla/codegen/utils.py')],
     '''The build macros are executed as Python (Starlark is a subset) with stand-ins for the built-ins, a model of Bazel's variable expansion and a real bash.''')

prop('C06', 'Packs of named accessors convert without loss',
     '''A pack of alternating names and accessors converts to the same sequence of (name, accessor) pairs: none lost, duplicated or reordered, each name bound to
     the accessor that follows it, whatever kinds of strings and callables are used. Names and accessors are owned by the result (as values, never as references
     or views), so it stays valid and unchanged after the arguments are gone or changed; the arguments themselves are left as they were.''',
     ['configurations'], 'Every combination of ways to pass names and accessors for packs up to the length bound.',
     'Tests instantiate two or three packs; template code depends on the combination of value categories and types at each position.',
     ['arolla/io/accessor_helpers.h'],
     [('recursive regrouping of the pack', 'arolla/io/accessor_helpers.h')],
     '''Each combination is a compiled instantiation that is then executed; an instantiation that stops compiling is a violation. Lifetimes are checked with AddressSanitizer and instance counters.''')

prop('C13', 'Raw memory facilities respect size, alignment and bounds',
     '''Aligned allocations have the requested alignment and size and are freed once; the shared block of zeros is zero, aligned and large enough; types claimed to be
     constructible by zeroing really equal a default constructed value when zeroed. Overflow-checked arithmetic reports exactly the overflowing inputs. Raw spans
     address exactly the elements of the sequence they were made from, and struct field descriptions give the true offset and type of every field.''',
     ['inputs', 'configurations'], 'All alignments, sizes, spans and boundary values of the integer types within the bounds.',
     'Tests check one value per facility; the failures are at boundary values and unusual alignments.',
     ['arolla/util/memory.h', 'arolla/util/preallocated_buffers.h', 'arolla/util/preallocated_buffers.cc', 'arolla/util/is_bzero_constructible.h',
      'arolla/util/overflow.h', 'arolla/util/raw_span.h', 'arolla/util/struct_field.h'],
     [('aligned allocation', 'arolla/util/memory.h'), ('checked arithmetic', 'arolla/util/overflow.h')],
     'Exhaustive within the bounds; AddressSanitizer and the undefined behaviour sanitizer watch every access.')

prop('C14', 'Caches, identifiers and class hierarchies follow their definitions',
     '''The bounded cache behaves as a least-recently-used map for every history: after each insertion the total weight is within the capacity unless a single entry remains, exactly the least recently used entries are evicted, a lookup returns
     the value most recently stored, and destroys every entry once. Identifier and qualified-name predicates accept exactly the documented grammar and printing of
     container access is unambiguous. The runtime class hierarchy answers ancestor queries exactly according to the declared parents.''',
     ['histories', 'inputs'], 'Every history of cache operations, every short string over special characters and every class forest within the bounds.',
     'Tests check one history and a few strings; recency errors need particular sequences of lookups and insertions.',
     ['arolla/util/lru_cache.h', 'arolla/util/string.h', 'arolla/util/operator_name.h', 'arolla/util/class_info.h', 'arolla/util/class_info.cc'],
     [('recency list and lookup', 'arolla/util/lru_cache.h'), ('class descriptions', 'arolla/util/class_info.cc')],
     'Every history up to the depth bound is replayed against an independent reference map.')

prop('C01', 'Shared ownership: one destruction, after every use, by the last owner',
     """On every interleaving of any number of threads, an object owned through reference counts or reference-counted pointers stays alive while any owner exists and is destroyed exactly
     once, when the last owner lets go, with everything any owner did to it happening before its destruction and no access racing with it. Copying, moving, assigning (also to
     itself or from inside the owned object), swapping and resetting pointers preserve the counts. The thread-safe shared pointer acts as a linearizable register whose operations never
     deadlock, even when the destructor of a replaced object uses it.""",
     ['schedules', 'histories'], 'Every interleaving of two and three owner programs up to a preemption bound, with every value an atomic load may return; every pointer history up to a depth.',
     """A wrong memory order or a check-then-act on a count fails only on particular interleavings and is invisible on strongly ordered hardware.""",
     ['arolla/util/refcount.h', 'arolla/util/refcount_ptr.h', 'arolla/util/thread_safe_shared_ptr.h'],
     [('atomic count and its memory orders', 'arolla/util/refcount.h'), ('owning pointer', 'arolla/util/refcount_ptr.h'), ('locked register', 'arolla/util/thread_safe_shared_ptr.h')],
     """Stateless exploration of the compiled code under a controlled scheduler with happens-before race detection honouring the C++ memory orders; bounded in preemptions plus stale
     reads per execution. Trusted: the exploration runtime (harness/mcrt), the compiler's instrumentation.""",
     technique='stateless model checking of the compiled code: exhaustive exploration of thread schedules and weak-memory reads within a preemption bound')

prop('C02', 'Parallel tasks run exactly once and are complete on return',
     """On every schedule, executing a set of tasks in parallel runs every task exactly once and returns only after all have finished, with their effects visible to the caller without further
     synchronisation; parallel sections nest. No more than the permitted number of tasks run at once, and as many as permitted can be in progress together, so tasks may wait for each
     other within that limit. Threads started through the threading interface run their function once, and calling the returned join function waits for its end, whatever copies of that function exist.""",
     ['schedules'], 'Every interleaving within the preemption bound for up to four tasks and every parallelism limit.',
     """Lost or doubled tasks and early returns need two workers to interleave between claiming and checking a task; tests run one schedule.""",
     ['arolla/util/threading.h', 'arolla/util/threading.cc'],
     [('claiming of tasks and joining of workers', 'arolla/util/threading.cc'), ('threading interface', 'arolla/util/threading.h')],
     'As for C01. At least one worker is assumed to be permitted (max_parallelism >= 1).',
     technique='stateless model checking of the compiled code: exhaustive exploration of thread schedules within a preemption bound')

prop('C12', 'Table and column paths behave as sequences of segments; names are exact',
     '''Paths of tables and columns compose as sequences of segments: child, column, size, map keys and values append the documented segment without changing their base; the parent index path and prefix removal
     give exactly the corresponding part or report an error. Equality, order and hash agree with the segments. Full names, every naming policy and the
     id of a path are the documented function of its segments, and ids of well-formed paths convert back to the same path.''',
     ['inputs'], 'Every path and pair of paths up to a length bound over special names, every policy, every id string over special tokens.',
     'Tests show one or two paths per function; errors show for extensions, nested indices, empty parts or a size column in the middle.',
     ['arolla/naming/table.h', 'arolla/naming/table.cc', 'arolla/naming/policy.cc', 'arolla/naming/protopath_id.cc', 'arolla/codegen/io/table.py'],
     [('path composition', 'arolla/naming/table.cc'), ('naming policies', 'arolla/naming/policy.cc'), ('names used by generated loaders', 'arolla/codegen/io/table.py')],
     'Exhaustive within the length bound; the oracle recomputes every name from a plain list of (name, is_index) pairs.')

prop('C08', 'A generated accessor reads and writes exactly what its protopath denotes',
     '''For every protopath and every message (or struct, pointer or container), the generated accessor returns the values the path denotes: missing
     where a step is absent, one element per repetition in order, sizes as counts, map entries sorted by key, defaults where requested. A generated
     mutable accessor writes the present values to the addressed fields, keeps everything else, and refuses arrays of a wrong size. The generated code compiles.''',
     ['inputs', 'configurations'], 'Every combination of path elements in the pool with every combination of presence, sizes and keys of the fields on the path.',
     '''Tests compare generated source text for a few paths; whether the code behaves depends on which intermediate messages are absent, and on combinations of element kinds.''',
     ['arolla/codegen/io/protopath.py', 'arolla/codegen/io/array_generator.py', 'arolla/io/proto_types/types.h', 'arolla/codegen/io/multi_loader.h', 'arolla/util/map.h'],
     [('code generation of accessors', 'arolla/codegen/io/protopath.py'), ('array builders', 'arolla/codegen/io/array_generator.py')],
     '''The generator is run from the tree, its output is compiled and executed; the oracle is an independent interpreter of paths over protobuf reflection.
     Messages of up to two or three repetitions per field. Text outputs to std::string fields are not covered (a limit of the installed absl).''')

prop('C09', 'Generated loaders and listeners touch exactly the requested slots',
     '''A generated input loader fills every requested slot with the value of its column and leaves all other slots alone, for every subset of columns, every
     reuse of a binding and every sharding. Missing intermediate values never leak between columns or inputs. A generated slot listener writes exactly the
     requested columns to its output, and available names and types are those of the accessors.''',
     ['inputs', 'configurations'], 'Loaders and listeners over all element kinds; every pair of columns, request kind and message contents for these columns.',
     '''Tests load a few fixed messages; hierarchical collection of intermediate values, bit sets of requested nodes and groups of eight nodes go wrong only for particular subsets of requests and missing values.''',
     ['arolla/codegen/io/multi_protopath.py', 'arolla/codegen/io/multi_loader.h', 'arolla/codegen/io/multi_loader.cc', 'arolla/codegen/io/input_loader_lib.py', 'arolla/codegen/io/slot_listener_main.py',
      'arolla/codegen/io/input_loader_single_value_proto.cc.jinja2', 'arolla/codegen/io/input_loader_multi_value_proto.cc.jinja2', 'arolla/io/input_loader.h', 'arolla/io/slot_listener.h'],
     [('request trees', 'arolla/codegen/io/multi_protopath.py'), ('templates', 'arolla/codegen/io/input_loader_multi_value_proto.cc.jinja2'),
      ('requested input propagation', 'arolla/codegen/io/multi_loader.cc')],
     '''The generators are run from the tree and the result is executed. Columns interact through shared prefixes, so messages vary in two columns at a time against an
     empty and a full background. Which empty intermediate messages a missing output creates is not specified and not compared.''')

prop('C15', 'Protopaths: grammar, column names and request trees',
     '''A string is accepted as a protopath exactly if each of its elements is valid in its position, and the parsed path keeps the elements, kind and default name of the
     text. Lists of paths become trees with one leaf per request, one shared node per common prefix, bounded groups and consistent node numbers. The accessors
     listed for a message type are those of its supported fields, each once, sorted by name.''',
     ['inputs'], 'Every path and every list of requests within the bounds; every message type, filter and mode for the test protos.',
     'Tests check chosen paths and trees; numbering and sharing depend on the order and the common prefixes of several requests.',
     ['arolla/codegen/io/protopath.py', 'arolla/codegen/io/multi_protopath.py', 'arolla/codegen/io/table.py'],
     [('parser', 'arolla/codegen/io/protopath.py'), ('trees and numeration', 'arolla/codegen/io/multi_protopath.py')],
     'Runs the real Python code; the oracle assembles expectations from a table of elements. Names of the bare container element are not compared.')

prop('C16', 'A cancellation or event reaches every observer exactly once and stays',
     '''The first Cancel of a context decides its status and the flag never resets: every later or concurrent Cancel changes nothing, and each callback
     subscribed and not dropped before runs exactly once (before the deciding Cancel returns, or at once when subscribed afterwards) and is then released,
     while a callback dropped before the cancellation never runs and is released at once. Cancellation scopes nest per thread: the innermost scope
     determines what Cancelled and CheckCancellation report and the previous one is restored at its end; a permanent event may be notified any number of
     times, is set when Notify returns, wakes every waiter, makes data written before it visible, and never resets.''',
     ['schedules', 'histories'], 'Every schedule up to a preemption bound of every pair and triple of short programs; every history of one thread up to a length.',
     '''The races between Cancel, Subscribe and dropping a subscription, and between two notifications, need one particular interleaving; linked-list
     removal goes wrong only for certain orders of subscription and removal.''',
     ['arolla/util/cancellation.h', 'arolla/util/cancellation.cc', 'arolla/util/permanent_event.h'],
     [('subscription list and flag', 'arolla/util/cancellation.cc'), ('scopes', 'arolla/util/cancellation.h'), ('once-only notification', 'arolla/util/permanent_event.h')],
     '''Exhaustive under the controlled scheduler with the C++ memory model (stale reads within the bound) and race, leak and use-after-free detection.
     Mutex, condition variable and Notification are replaced by stand-ins with the same protocol.''')

prop('C17', 'Buffers keep their elements through every history of building and copying',
     '''A buffer holds exactly the elements its builder, inserter, container or reshuffling was given, with default or empty elements where documented, whatever slices, shallow
     and deep copies, element types, sizes and memory factories led to it, and deriving one buffer never changes another. Two buffers are equal exactly if their elements are; equal
     buffers have equal hashes and buffers with different elements have different fingerprints. Raw buffer factories hand out aligned, disjoint memory which keeps its contents when it is
     resized, an arena reuses its pages after a reset, and data made owned outlives its arena.''',
     ['histories', 'inputs'], 'Every history of operations within the bounds, for numbers, bools, strings, units and shared objects and three memory factories.',
     '''Defects need a sequence: a slice that is copied, cut again and reshuffled with a default (three were found here). Tests exercise each step alone.''',
     ['arolla/memory/simple_buffer.h', 'arolla/memory/strings_buffer.h', 'arolla/memory/strings_buffer.cc', 'arolla/memory/void_buffer.h', 'arolla/memory/buffer.h',
      'arolla/memory/raw_buffer_factory.h', 'arolla/memory/raw_buffer_factory.cc', 'arolla/util/preallocated_buffers.h'],
     [('string buffers with a base offset', 'arolla/memory/strings_buffer.cc'), ('arena pages', 'arolla/memory/raw_buffer_factory.cc'), ('number buffers', 'arolla/memory/simple_buffer.h')],
     '''Exhaustive within the bounds; the oracle is a list of element codes. Elements the code documents as uninitialized are not compared. Pointer arithmetic on a null page
     is not reported (it is benign here).''')

prop('C18', 'Dense arrays are sequences of optional values, whatever their representation',
     '''A dense array is the sequence of its optional elements: size, counts, presence, element access, every iteration, slices of slices, masks, copies, equivalence and fingerprint agree with
     it, and do not depend on the bit offset, on an absent bitmap, or on bits outside of the array. Bitmap functions and builders compute exactly the documented bits and touch nothing else.
     A pointwise operation gives row by row the function of the elements, present exactly if all required arguments (and an optional result) are, under every combination of flags that permits it;
     it is not called for missing rows unless allowed, reports the error of the first failing row, and refuses arrays of different sizes.''',
     ['inputs'], 'Every array shape (size, presence, bit offset, outer bits) of the pool, every pair and a reduced set of triples, each flag combination and kind of argument and result.',
     '''Word and offset arithmetic fails for particular combinations of size, two bit offsets and presence; the unit tests use a few sizes and mostly no offset.''',
     ['arolla/dense_array/bitmap.h', 'arolla/dense_array/bitmap.cc', 'arolla/dense_array/dense_array.h', 'arolla/dense_array/ops/dense_ops.h', 'arolla/dense_array/ops/universal_dense_op.h',
      'arolla/dense_array/ops/util.h'],
     [('bitmaps', 'arolla/dense_array/bitmap.h'), ('views', 'arolla/dense_array/dense_array.h'), ('pointwise operations', 'arolla/dense_array/ops/universal_dense_op.h')],
     'Exhaustive within the pool of shapes; the oracle is the list of presences and a formula for the values. Values of missing rows are not compared.')


prop('C19', 'Edges map rows to groups exactly, and group operations aggregate by them',
     '''An edge is the mapping it was built from (split points, mapping or uniform groups), for dense and sparse arrays alike: invalid input is refused, conversions between the forms,
     equivalence, fingerprints and compositions of edges are those of the mappings. An aggregation gives for each group (partial and full: for each row) the accumulator's result over exactly the rows
     of the group with all required arguments, in order, starting from the arguments of the group; groups without their required arguments and rows without a group give missing, and errors of the accumulator and
     wrong sizes are reported. The choice of algorithm (dense, sparse, split points, mapping, one group, many edges) never shows.''',
     ['inputs'], 'Every edge within the bounds in each representation, every presence of parent and child arguments, three kinds of accumulators and each arrangement of arguments.',
     '''There are a dozen algorithms, selected by density and edge kind, whose differences show for particular mixtures of empty groups, missing parents and defaults.''',
     ['arolla/dense_array/edge.h', 'arolla/dense_array/edge.cc', 'arolla/array/edge.h', 'arolla/array/edge.cc', 'arolla/dense_array/ops/dense_group_ops.h', 'arolla/array/group_op.h',
      'arolla/dense_array/ops/multi_edge_util.h', 'arolla/array/multi_edge_util.h', 'arolla/qexpr/aggregation_ops_interface.h'],
     [('composition and split points', 'arolla/dense_array/edge.cc'), ('selection of algorithms', 'arolla/array/group_op.h'), ('dense groups', 'arolla/dense_array/ops/dense_group_ops.h')],
     'Exhaustive within the bounds; the oracle is a plain loop over groups with an accumulator which remembers everything it saw. Partial results are in row order within a group.')

prop('C20', 'Sparse arrays are sequences of optional values, whatever their representation',
     '''An array is the sequence of its optional elements: access, counts, iteration with and without repetition, slices, masks, conversions between the constant, dense and sparse form with any
     default, copies, equivalence and fingerprint agree with it and do not depend on the id offset, the stored defaults or the form. Id filters are exact sets under merging, intersection and
     slicing. Pointwise operations give row by row the function of the elements of their arguments: they report an error exactly if a row has one and refuse arrays of different sizes.''',
     ['inputs'], 'Every array within the bounds in every form, default, id offset and presence of the stored elements, in pairs and triples; every pair of id filters.',
     '''Two arrays meet in many combinations of forms, defaults and id sets; three defects were found here that need an empty array or a full filter.''',
     ['arolla/array/array.h', 'arolla/array/array.cc', 'arolla/array/id_filter.h', 'arolla/array/id_filter.cc', 'arolla/array/ops_util.h', 'arolla/array/pointwise_op.h', 'arolla/array/array_util.h', 'arolla/array/array_util.cc'],
     [('forms and slices', 'arolla/array/array.h'), ('id filters', 'arolla/array/id_filter.cc'), ('pointwise operations', 'arolla/array/pointwise_op.h')],
     'Exhaustive within the bounds; the oracle is the list of elements. Which form a result has is compared only where documented.')


prop('C21', 'Frames hold their slots apart, and dynamic values are what was put in',
     '''Every slot of a frame layout has aligned memory of its own, whatever slots and subframes the layout was built from; each object in a frame is constructed exactly once, zeroed where
     documented, destroyed exactly once, and the registered fields are exactly those of the slots. A dynamic value, tuple, named tuple, optional or slice keeps its type and fields through every copy, move,
     slot, subslot and reset, without touching other slots; two values have the same fingerprint exactly if type and contents are equal, and types are unique per structure. Wrong types,
     field counts, names, slots and inconsistent derived types are refused.''',
     ['histories', 'inputs'], 'Every layout and history of allocations within the bounds; every nested tuple and named tuple over a set of atoms, in pairs; every map of names to types and slots.',
     '''Offsets of nested frames and shared factories of one type go wrong only for particular mixtures; tests build a few layouts. One defect was found here.''',
     ['arolla/memory/frame.h', 'arolla/memory/frame.cc', 'arolla/memory/memory_allocation.h', 'arolla/qtype/typed_value.h', 'arolla/qtype/typed_value.cc', 'arolla/qtype/typed_slot.h', 'arolla/qtype/typed_slot.cc',
      'arolla/qtype/typed_ref.h', 'arolla/qtype/typed_ref.cc', 'arolla/qtype/tuple_qtype.cc', 'arolla/qtype/derived_qtype.cc', 'arolla/qtype/slice_qtype.cc', 'arolla/qtype/optional_qtype.cc',
      'arolla/qtype/named_field_qtype.cc', 'arolla/qtype/simple_qtype.h', 'arolla/qtype/qtype.cc', 'arolla/qtype/weak_qtype.cc'],
     [('layouts', 'arolla/memory/frame.h'), ('subframes', 'arolla/memory/frame.cc'), ('values', 'arolla/qtype/typed_value.cc'), ('tuples', 'arolla/qtype/tuple_qtype.cc')],
     'Exhaustive within the bounds; the oracle is a list of (offset, type) and a textual description of each value. Objects register where they live, so a missed or doubled construction is seen.')


prop('C22', 'Jagged shapes are nested lists',
     '''A jagged shape is the shape of a nested list: shapes are accepted exactly if the edges chain and are sorted and full, whatever the form of the edges; rank, size, edges, adding, removing,
     flattening and inserting dimensions, equivalence, fingerprints, broadcasting and its edge are those of the nested lists, and no operation changes its arguments. Concatenating or stacking jagged arrays along
     any dimension gives the elements and the shape of the joined nested lists, and arguments of different rank, prefix, number or size are refused. Shape operators count dimensions from the end and clamp like Python.''',
     ['inputs'], 'Every nested list within the bounds for dense and sparse arrays, every pair with any common prefix, and every list of up to three for joining.',
     '''Empty groups, prefixes and interleaving matter in combination: a shape with equal sizes but different groups, a join where one argument has no rows.''',
     ['arolla/jagged_shape/jagged_shape.h', 'arolla/jagged_shape/util/concat.h', 'arolla/jagged_shape/util/repr.cc', 'arolla/jagged_shape/qexpr/shape_operators.h', 'arolla/jagged_shape/array/jagged_shape.cc',
      'arolla/jagged_shape/dense_array/jagged_shape.cc', 'arolla/jagged_shape/array/util/concat.h', 'arolla/jagged_shape/dense_array/util/concat.h', 'arolla/jagged_shape/qtype/qtype.cc'],
     [('shapes', 'arolla/jagged_shape/jagged_shape.h'), ('joining', 'arolla/jagged_shape/util/concat.h'), ('operators', 'arolla/jagged_shape/qexpr/shape_operators.h')],
     'Exhaustive within the bounds; the oracle is a tree. Out of contract: flattening a range that is not in order (the C++ method).')


prop('C23', 'Every decision forest evaluator agrees with walking the trees',
     '''For every decision forest, row of inputs and partition of trees into groups, each evaluator (naive, compiled with any set of algorithms, batched over dense or sparse arrays with any split of the work) gives the
     sum over the group of weight times the leaf reached, where an interval holds for values within it (never for missing or NaN) and a set for its members, and for missing values if it says so. Forests are accepted
     exactly if children, counts, tags and input types are consistent, overlapping groups, wrong slots and columns of different sizes are refused, and equal conditions and forests, and only those, have equal fingerprints.''',
     ['inputs'], 'Every tree within the bounds on every row of a set that covers each condition, its edges, infinities, NaN and missing; every forest over a pool with each kind of tree; far thresholds of both types.',
     '''Each tree is given to one of four algorithms by its form, size and conditions; a wrong answer needs a particular tree and row. One defect was found here (thresholds far from zero, infinities).''',
     ['arolla/decision_forest/decision_forest.cc', 'arolla/decision_forest/split_conditions/interval_split_condition.h', 'arolla/decision_forest/split_conditions/set_of_values_split_condition.h',
      'arolla/decision_forest/pointwise_evaluation/forest_evaluator.cc', 'arolla/decision_forest/pointwise_evaluation/single_input_eval.cc', 'arolla/decision_forest/pointwise_evaluation/oblivious.cc',
      'arolla/decision_forest/pointwise_evaluation/bitmask_eval.h', 'arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc', 'arolla/decision_forest/pointwise_evaluation/pointwise.h',
      'arolla/decision_forest/batched_evaluation/batched_forest_evaluator.cc'],
     [('forests', 'arolla/decision_forest/decision_forest.cc'), ('pointwise', 'arolla/decision_forest/pointwise_evaluation/forest_evaluator.cc'), ('batched', 'arolla/decision_forest/batched_evaluation/batched_forest_evaluator.cc')],
     'Exhaustive within the bounds; leaf values are chosen so that sums are exact. Out of contract: cyclic trees, NaN thresholds.')


prop('C24', 'Optimized and lowered expressions evaluate to what the operators define',
     '''For every expression and input, compiling it and running it gives the value and the type the operators define, whether or not it is optimized, with any optimizer, with literals in place of inputs,
     with or without overriding of inputs and stack traces: the peephole optimizations, type casting, constant folding and slot reuse change nothing. A branch of a conditional that is not selected is not
     evaluated if nothing else needs it, and an error in a part that is needed is always reported.''',
     ['inputs'], 'Every expression within the bounds over optional and scalar units, booleans, integers and floats (with NaN), on every combination of values of its leaves.',
     '''Optimizations match combinations of operators, optionality and literals; tests compare the rewritten expression with an expected expression, which is itself wrong for some values or types. One defect
     was found here (negated comparisons of NaN).''',
     ['arolla/expr/optimization/peephole_optimizations/presence.cc', 'arolla/expr/optimization/peephole_optimizations/bool.cc', 'arolla/expr/optimization/peephole_optimizations/arithmetic.cc',
      'arolla/expr/optimization/peephole_optimizer.cc', 'arolla/expr/optimization/pattern_based_optimization.cc', 'arolla/expr/eval/prepare_expression.cc', 'arolla/expr/eval/dynamic_compiled_expr.cc', 'arolla/expr/eval/compile_where_operator.cc',
      'arolla/expr/eval/slot_allocator.cc', 'arolla/expr/operators/casting_registry.cc', 'arolla/expr/operators/bootstrap_operators.cc', 'arolla/expr/operator_loader/generic_operator.cc'],
     [('optimizations', 'arolla/expr/optimization/peephole_optimizations/presence.cc'), ('compilation', 'arolla/expr/eval/dynamic_compiled_expr.cc'), ('lazy branches', 'arolla/expr/eval/compile_where_operator.cc')],
     '''Exhaustive within the bounds; the oracle is an interpreter written from the definitions of the operators. The operator package is the committed snapshot, adapted to the current loader; 17 of its 313 operators
     (none used here) do not load.''')


prop('C25', 'Serialization reproduces values and expressions, and refuses damaged data',
     '''Every value and expression that can be encoded is decoded to one with the same type, content and fingerprint (empty and sliced arrays: the same content), also after a change to the wire format, without codec
     hints and in version 1 of the format, and what is repeated is encoded once. Encoding is deterministic and what was decoded is encoded in the same way. Data with any field removed, added, changed,
     repeated or swapped is either refused with an error or decodes to valid values that can be encoded again, without reading outside of buffers.''',
     ['inputs', 'fault_sequences'], 'All values and pairs of values within the bounds, every operator of the standard package, all expressions and pairs; every single fault of each encoding, and every pair of faults of small ones.',
     '''Tests give round trips of a few values and a list of broken protos; sharing between several outputs, slices of sparse arrays and combinations of broken fields are not sampled.''',
     ['arolla/serialization_base/encoder.cc', 'arolla/serialization_base/decoder.cc', 'arolla/serialization/encode.cc', 'arolla/serialization/decode.cc',
      'arolla/serialization_codecs/generic/encoders/operator_encoder.cc', 'arolla/serialization_codecs/generic/decoders/operator_decoder.cc', 'arolla/serialization_codecs/dense_array/decoders/dense_array_decoder.cc',
      'arolla/serialization_codecs/dense_array/encoders/dense_array_encoder.cc', 'arolla/serialization_codecs/array/decoders/array_decoder.cc', 'arolla/serialization_codecs/array/encoders/array_encoder.cc'],
     [('encoder', 'arolla/serialization_base/encoder.cc'), ('decoder', 'arolla/serialization_base/decoder.cc'), ('sparse arrays', 'arolla/serialization_codecs/array/decoders/array_decoder.cc')],
     '''Exhaustive within the bounds; faults are those of fields, not of bytes (protobuf parses those). Decision forests, dictionaries and streams are not encoded.''')
