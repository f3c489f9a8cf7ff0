import json
I="include/fixed_containers/"
def P(id,title,st,over,qt,why,files,mech,obs,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],mechanism=[dict(name=n,where=I+w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=I+c) for a,b,c in state]
    return d
out=[]
A=out.append
A(P("C01","Fixed-capacity vector behaves exactly like std::vector",
"For every capacity, element type and sequence of operations whose preconditions hold (never exceeding the capacity), a fixed vector has the same size, the same elements in the same order, and gives the same return values and returned iterator positions as a std::vector given the same calls. This covers every constructor, assignment, insertion and erasure form, ranges of every iterator category (including single-pass input ranges and empty ranges), and arguments that refer to the vector's own elements where std::vector allows it.",
["histories","inputs","configurations"],"all operation sequences x all capacities x all element categories (trivial, non-trivial, move-only, over-aligned)",
"Existing tests call each operation a few times on hand-written small vectors; position x count x free-space x element-category combinations and long histories are not sampled.",
["fixed_vector.hpp","emplace.hpp","iterator_utils.hpp","memory.hpp"],
[("shift elements then construct/assign in the gap",  "fixed_vector.hpp insert/emplace/erase"),("size field bounds the live prefix of the storage","fixed_vector.hpp")],["fixed vector public API"]))
A(P("C02","Fixed-capacity deque behaves exactly like std::deque",
"For every capacity, element type and sequence of operations whose preconditions hold, a fixed deque has the same size, elements, return values and returned iterator positions as a std::deque given the same calls, no matter where in its circular storage the elements currently lie (wrapped around or not). This covers pushes and pops at both ends, insertion and erasure of single elements and of ranges of every iterator category at any position, and arguments that refer to the deque's own elements where std::deque allows it.",
["histories","inputs","configurations"],"all operation sequences x start offsets x capacities x element categories",
"Tests use a couple of pre-rotated start offsets; they do not combine every offset with every position and count, nor long push/pop histories that wrap repeatedly.",
["fixed_deque.hpp","circular_indexing.hpp","circular_integer_range_iterator.hpp"],
[("start index and size over a circular buffer","fixed_deque.hpp"),("shift either side of the gap","fixed_deque.hpp insert/erase")],["fixed deque public API"]))
A(P("C03","Circular deque/queue keep exactly the newest elements on overflow",
"A circular deque behaves like a std::deque until it is full; adding at the back when full discards exactly the front-most elements, and adding at the front when full discards exactly the back-most elements, so that adding elements never exceeds its capacity and never fails. An insertion at a position that overflows, of one element or a range, first drops elements ahead of the position, front-most first, and then, the position being a barrier, the earliest incoming elements; elements behind the position are never dropped. Range, list and count construction or assignment that overflow keep the newest elements. A circular queue is the FIFO view of the same rule. (resize beyond the capacity is an error, not an overwrite.)",
["histories","inputs","configurations"],"all operation sequences, including any number of overflows, x capacities x start offsets",
"Tests show overflow of a capacity-3 buffer by a few elements; overflow by more than the capacity, at every rotation, through every insertion form is not sampled.",
["fixed_circular_deque.hpp","fixed_circular_queue.hpp","fixed_deque.hpp","queue_adapter.hpp"],
[("pop the opposite end before pushing when full","fixed_circular_deque.hpp push_*/emplace_*"),("trim incoming range to what fits","fixed_circular_deque.hpp insert")],["circular deque and circular queue public API"]))
A(P("C04","Fixed-capacity list behaves exactly like std::list",
"For every capacity, element type and sequence of operations whose preconditions hold, a fixed list has the same size, elements in both directions, return values and returned iterator positions as a std::list given the same calls, including removal by value or predicate, resize, range insertion of any iterator category and arguments referring to the list's own elements. Slots freed by erasures are reusable without limit: capacity is never lost however long the history is.",
["histories","inputs","configurations"],"all operation sequences x capacities x element categories",
"Tests do short scripted sequences; free-list reuse patterns after arbitrary interleavings of insertions and erasures are not explored.",
["fixed_list.hpp","fixed_doubly_linked_list.hpp","fixed_index_based_storage.hpp","index_or_value_storage.hpp"],
[("index-linked chain with sentinel","fixed_doubly_linked_list.hpp"),("free-list threaded through unused slots","fixed_index_based_storage.hpp")],["fixed list public API"]))
A(P("C05","Fixed-capacity string behaves like std::string, always NUL-terminated",
"For every capacity and sequence of operations whose preconditions hold, a fixed string has the same characters, length, return values and comparison results as a std::string given the same calls, over everything it offers: construction, assignment, push/pop, append and +=, iterator insert and erase, resize, substr, the find family, compare, starts_with, ends_with, conversion to string views, stream insertion and extraction, and embedded NUL characters. After every operation the character just past the last one, as seen through its C-string accessor, is NUL and the C-string accessor's contents equal the string's.",
["histories","inputs","configurations"],"all operation sequences and argument strings (any bytes) x capacities including 0 and exactly-full",
"Tests use a few literals; exactly-full strings, shrinking then growing, embedded NULs and mixed overloads are barely sampled.",
["fixed_string.hpp","fixed_vector.hpp"],
[("one extra slot kept for the terminator and rewritten after each size change","fixed_string.hpp"),],["fixed string public API, c_str()/data()"]))
A(P("C06","Fixed stack and queue are exact LIFO/FIFO adapters",
"For every capacity and every sequence of pushes, emplaces, pops, copies, moves, assignments and swaps within capacity, a fixed stack returns elements in exactly LIFO order and a fixed queue in exactly FIFO order, with top/front/back, size, empty, full and emplace's result as the std adapters give. The queue can be cycled through its storage indefinitely without losing capacity or order.",
["histories","inputs","configurations"],"all push/pop histories x capacities x element categories",
"Tests push and pop a handful of elements; long cycling histories and mixed forms are not sampled.",
["fixed_stack.hpp","fixed_queue.hpp","stack_adapter.hpp","queue_adapter.hpp"],
[("forwarding to a fixed vector / fixed deque","stack_adapter.hpp, queue_adapter.hpp")],["fixed stack / fixed queue public API"]))
A(P("C07","Fixed-capacity map behaves exactly like std::map",
"For every capacity, comparator (reversed, stateful, transparent/heterogeneous, with probes equivalent to none, one or several stored keys), internal storage layout and history of operations within capacity, a fixed map holds the same key/value pairs in the same order as a std::map with the same comparator, and every lookup, bound, range, insertion (all forms, hints included), erasure and comparison returns the same result and iterator position. Erasures return full capacity to the map, in both the pool-based and the contiguous storage layouts, and both iteration directions agree.",
["histories","inputs","configurations"],"all insert/erase/lookup histories x comparators x layouts x capacities",
"Red-black rebalancing has many shape-dependent branches; tests reach them with a few fixed key sequences and capacities, mostly one layout and std::less.",
["fixed_map.hpp","fixed_red_black_tree.hpp","fixed_red_black_tree_ops.hpp","fixed_red_black_tree_nodes.hpp","fixed_red_black_tree_storage.hpp","fixed_index_based_storage.hpp"],
[("red-black insert/delete fixups","fixed_red_black_tree.hpp"),("pool / contiguous node storage with index repair on delete","fixed_red_black_tree_storage.hpp, fixed_index_based_storage.hpp")],["fixed map public API"]))
A(P("C08","Fixed-capacity set behaves exactly like std::set",
"For every capacity, comparator (reversed, stateful, transparent/heterogeneous, with probes equivalent to none, one or several stored keys), storage layout and history of operations within capacity, a fixed set contains exactly the keys a std::set would, in the same order in both iteration directions, and every lookup, bound, insertion, erasure and comparison returns the same result and iterator position. An insertion of an equivalent key never replaces the stored key, and erasures return full capacity.",
["histories","inputs","configurations"],"all histories x comparators x layouts x capacities",
"Tests use a few keys; reverse iteration, equivalent-but-distinguishable keys and long erase/insert histories are not sampled.",
["fixed_set.hpp","fixed_red_black_tree.hpp","fixed_red_black_tree_storage.hpp"],
[("key-only red-black tree","fixed_set.hpp, fixed_red_black_tree.hpp")],["fixed set public API"]))
A(P("C09","Fixed unordered map behaves exactly like std::unordered_map",
"For every capacity, bucket count, hash function (including constant, clustering and adversarial ones), key equality and history of operations within capacity, a fixed unordered map holds exactly the same key/value pairs as a std::unordered_map, and every lookup, insertion form, assignment and erasure returns the same result; iteration visits each pair exactly once. Erasures return full capacity, and objects that compare equal keep comparing equal whatever the insertion order.",
["histories","inputs","configurations"],"all histories x hash functions x capacities x bucket counts",
"Probe-chain and backward-shift behaviour depends on how hash values collide and wrap; tests only use the default hash and few keys.",
["fixed_unordered_map.hpp","fixed_map_adapter.hpp","fixed_robinhood_hashtable.hpp","fixed_doubly_linked_list.hpp","wyhash.hpp"],
[("robin-hood probing with fingerprint/distance metadata, backward-shift deletion","fixed_robinhood_hashtable.hpp"),("values in a linked pool","fixed_doubly_linked_list.hpp")],["fixed unordered map public API"]))
A(P("C10","Fixed unordered set behaves exactly like std::unordered_set",
"For every capacity, bucket count, hash function (including constant, clustering and adversarial ones) and history of operations within capacity, a fixed unordered set contains exactly the keys a std::unordered_set would, and every lookup, insertion and erasure returns the same result; iteration visits each key exactly once. The default hash gives equal keys equal hashes whatever their representation (for example a string and a string view of the same characters, or positive and negative zero), and erasures return full capacity.",
["histories","inputs","configurations"],"all histories x hash functions x capacities x bucket counts",
"Same as for the unordered map: collisions, wrap-around and deletion chains are shape-dependent.",
["fixed_unordered_set.hpp","fixed_set_adapter.hpp","fixed_robinhood_hashtable.hpp","wyhash.hpp"],
[("robin-hood probing, backward-shift deletion","fixed_robinhood_hashtable.hpp")],["fixed unordered set public API"]))
A(P("C11","Enum-keyed map behaves like an ordered map over the enum",
"For every plain or rich enum, value type and history of operations, an enum map holds exactly the key/value pairs a std::map ordered by the enum's values list would (plain enums: ascending value; rich enums and adapted enums: the order of their values list), and every lookup, insertion form, erasure, iteration direction, comparison and conversion from a completely or partially specified list gives the corresponding result. Any subset of the enumerators can be present, up to all of them.",
["histories","inputs","configurations"],"all histories x enum types (dense, sparse, negative, rich) x value types",
"Tests use two small enums and short sequences.",
["enum_map.hpp","enum_utils.hpp","filtered_integer_range_iterator.hpp"],
[("presence flags plus slot per enumerator ordinal","enum_map.hpp")],["enum map public API"]))
A(P("C12","Enum set and enum array behave like their std counterparts over the enum",
"For every plain or rich enum and history of operations, an enum set contains exactly the enumerators a std::set in values-list order would (plain enums: ascending value), with the same results for insertion, erasure, lookup, iteration in both directions, comparison, and the all/none/complement constructors. An enum array maps each enumerator to exactly one independent element, iterates in that same order and compares elementwise.",
["histories","inputs","configurations"],"all histories x enum types x subsets",
"Tests use a few literals of small enums; subsets and histories are not quantified.",
["enum_set.hpp","enum_array.hpp","enum_utils.hpp"],
[("presence flags per enumerator ordinal","enum_set.hpp"),("array indexed by ordinal","enum_array.hpp")],["enum set and enum array public API"]))
A(P("C13","Every element is constructed once, destroyed once, never used outside its life",
"For every container, element type with observable lifetime and history of operations (including copy, move, assignment, swap, clear, and container destruction), at every point exactly the contained elements are alive, every element ever constructed is destroyed exactly once, and no element is read, assigned or destroyed before construction or after destruction. Element objects are relocated only through their own copy/move operations.",
["histories","configurations"],"all histories x all containers x element categories",
"Tests count constructions in a few scenarios for a few containers; leaks and double destruction depend on the exact mixture of operations.",
["fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_circular_deque.hpp","optional_storage.hpp","index_or_value_storage.hpp","fixed_red_black_tree.hpp","fixed_robinhood_hashtable.hpp","fixed_doubly_linked_list.hpp","enum_map.hpp"],
[("placement construct / destroy at slots",  "memory.hpp"),("union storage with manual lifetime","optional_storage.hpp, index_or_value_storage.hpp")],["constructor/destructor/assignment events of the element type"]))
A(P("C14","Copies, moves, assignments and swaps of containers have value semantics",
"For every container and any two reachable states, a copy (constructed or assigned) equals its source and is fully independent of it; a move-constructed or move-assigned target has exactly the source's former contents; swap exchanges contents exactly; self-assignment changes nothing. Afterwards the target behaves in every later operation as an object with those contents (including its comparator/hash behaviour), whatever it held before.",
["histories","configurations"],"all pairs of states x containers x element categories x later operations",
"Tests copy or move one small container and compare; targets with prior content, wrapped storage, fragmented free lists and later mutation are not sampled.",
["fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_map.hpp","fixed_set.hpp","fixed_red_black_tree.hpp","fixed_robinhood_hashtable.hpp","fixed_doubly_linked_list.hpp","enum_map.hpp","fixed_string.hpp"],
[("element-wise rebuild for non-trivial elements, defaulted otherwise","per-container special members")],["container public API"]))
A(P("C15","Precondition violations are reported exactly when they occur, with right kind",
"For every container and any call with arbitrary arguments, the configured error policy is invoked (before any access outside the container) if and only if the call exceeds the capacity (length error), uses an index or key that is not present (out of range), accesses an element of an empty container (empty container access), or erases a reversed range or the end position of a sequence (invalid argument); calls that merely fill the container exactly, or that end below capacity, are never reported, and circular deques and queues overwrite instead (only resizing one beyond its capacity is reported). Dereferencing an empty optional reference and building a complete enum map from a list with missing or duplicate keys are reported likewise. The report carries the index or key that was asked for, or the size the call would have needed (more than the capacity), and, for calls that take a source location, the place of the caller. With the default policy a reported violation terminates the program instead of continuing.",
["inputs","histories","configurations"],"all states x operations x arguments around the boundaries, all error policies",
"Tests check a few death cases per container; off-by-one boundaries over all operations, states, range kinds and rotations are not covered, nor is absence of false reports.",
["sequence_container_checking.hpp","map_checking.hpp","set_checking.hpp","optional_reference_checking.hpp","fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_string.hpp","fixed_map.hpp","fixed_set.hpp","fixed_map_adapter.hpp","fixed_set_adapter.hpp","enum_map.hpp","preconditions.hpp"],
[("precondition test followed by the checking policy","per-container check_* helpers")],["calls received by a user-supplied checking policy; process exit by signal"]))
A(P("C16","Compile-time evaluation gives the same results as run time",
"Every program over the containers that is valid at run time (including mutation) can be evaluated in a constant expression for literal element types (and constexpr hash functions and comparators), and the constant-evaluated result equals the run-time result and that of the std equivalent; constant evaluation neither leaks nor reads outside lifetime. Constant-evaluated containers of structural element types are usable as template arguments and read back from them unchanged.",
["programs","inputs"],"all programs over the public API x containers x literal element types",
"Tests have one constexpr snippet per operation; sequences of operations in constant evaluation, which rejects any undefined behaviour, are not explored.",
["fixed_vector.hpp","fixed_deque.hpp","fixed_circular_deque.hpp","fixed_list.hpp","fixed_string.hpp","fixed_map.hpp","fixed_set.hpp","fixed_unordered_map.hpp","fixed_unordered_set.hpp","enum_map.hpp","enum_set.hpp","memory.hpp","algorithm.hpp"],
[("constexpr everywhere, construct_at/destroy_at instead of placement new","memory.hpp"),("constant-evaluation specific branches","fixed_*.hpp")],["constexpr variables vs run-time results"]))
A(P("C17","Containers of trivially copyable elements can be relocated as raw bytes",
"For every container with trivially copyable contents and any history, copying the object's bytes to another suitably aligned address (and overwriting the original) yields a container with the same contents that keeps behaving correctly under all further operations, and a byte copy taken earlier restores the earlier state. The whole state lies inside the object: there are no pointers to itself, to other memory or to globals.",
["histories","configurations"],"all histories x relocation points x containers",
"Tests only static_assert trivial copyability; they never move bytes of a populated container and go on.",
["fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_map.hpp","fixed_unordered_map.hpp","enum_map.hpp","fixed_string.hpp"],
[("indices instead of pointers","fixed_index_based_storage.hpp, fixed_red_black_tree_nodes.hpp, fixed_robinhood_hashtable.hpp")],["memcpy of the object representation followed by public API calls"]))
A(P("C18","Containers never allocate dynamic memory",
"No constructor, operation, iteration, comparison or destructor of any container allocates from the heap, whatever the element type (unless the element itself does), the history or the fill level. All storage lies inside the container object, so every element's address is within it.",
["histories","configurations"],"all histories x containers x element types",
"Tests never intercept the allocator; hidden temporaries (std::vector, std::function, stable_sort buffers) would pass them.",
["fixed_vector.hpp","fixed_deque.hpp","fixed_circular_deque.hpp","fixed_list.hpp","fixed_string.hpp","fixed_map.hpp","fixed_set.hpp","fixed_unordered_map.hpp","fixed_unordered_set.hpp","enum_map.hpp","enum_set.hpp"],
[("inline storage arrays","all containers")],["allocator hooks; element addresses"]))
A(P("C19","Containers retain the triviality and copy/move properties of their elements",
"For every element type, each container is trivially copyable / trivially copy- or move-constructible / -assignable / trivially destructible whenever the element type has that property, and does not claim triviality or assignability the element type lacks. It stays usable with move-only, non-assignable, const-member and (where elements are built in place and never shifted) immovable element types, and never copies an element that it was given as an rvalue, that it shifts, or that moves along with the container. Default-constructibility, standard layout and usability as a template parameter hold for each such element type. (Element types whose copy and move operations contradict each other are outside.)",
["configurations","programs"],"all element types classified by the kind (trivial, user-provided, deleted) of each special member x containers x capacities",
"Tests static_assert a handful of element types per container; the cross product of special-member kinds is not covered.",
["concepts.hpp","optional_storage.hpp","index_or_value_storage.hpp","fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_map.hpp","fixed_set.hpp","fixed_robinhood_hashtable.hpp","enum_map.hpp"],
[("constrained defaulted/user-provided special members","per-container"),("union with constrained members","optional_storage.hpp")],["std type traits of the container type"]))
A(P("C20","Container iterators obey their iterator category's laws",
"For every container in every reachable state, its iterators satisfy the laws of their advertised category: traversing forward visits each element once in order, decrement inverts increment, reverse traversal is the exact mirror, distance/offset/subscript/ordering are mutually consistent for random access, and const and reverse iterators obtained by conversion denote the same element as the original. Empty and wrapped containers and end positions are included, and std algorithms and ranges give the same results as on std containers.",
["histories","inputs","configurations"],"all states x iterator pairs x offsets x iterator kinds",
"Tests iterate over a few small containers; pairwise laws over all positions, conversions and states are not covered.",
["random_access_iterator.hpp","bidirectional_iterator.hpp","forward_iterator.hpp","random_access_iterator_transformer.hpp","iterator_utils.hpp","fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_map.hpp","fixed_set.hpp","fixed_robinhood_hashtable.hpp","enum_map.hpp","enum_set.hpp"],
[("reference provider plus generic iterator facade","random_access_iterator.hpp, bidirectional_iterator.hpp")],["iterators returned by the public API"]))
A(P("C21","References and iterators to untouched elements stay valid",
"In lists, pool-layout maps and sets, unordered maps, unordered sets and enum maps, every reference, pointer and iterator to an element keeps denoting that same element, at the same address and with the same value, through every insertion and through every erasure of other elements. In vectors and deques, operations leave valid whatever the std counterpart guarantees within capacity (vector: elements before the point of modification; deque: references survive pushes and pops at the ends).",
["histories","configurations"],"all histories x watched elements",
"Tests watch one or two elements over one or two operations.",
["fixed_list.hpp","fixed_doubly_linked_list.hpp","fixed_index_based_storage.hpp","fixed_red_black_tree_storage.hpp","fixed_map.hpp","fixed_set.hpp","fixed_robinhood_hashtable.hpp","fixed_vector.hpp","fixed_deque.hpp"],
[("elements never move between slots while alive","fixed_index_based_storage.hpp")],["addresses and iterators obtained from the public API"]))
A(P("C22","Equality and ordering depend only on contents",
"For any two containers of the same family, whatever their capacities, internal layouts, checking policies and histories, ==, !=, <, <=, >, >= and three-way comparison (where offered) give the same answer as the std counterpart does on the same contents: elementwise equality and lexicographic order, for element types whose equality is reflexive. Consequently equality is an equivalence, and ordering is total and consistent with it.",
["histories","inputs","configurations"],"all pairs of contents x all histories producing them x capacities",
"Tests compare a few literals with equal capacities; equal contents reached by different histories, or different capacities, are barely sampled.",
["fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_string.hpp","fixed_map.hpp","fixed_set.hpp","fixed_robinhood_hashtable.hpp","enum_map.hpp","enum_set.hpp","comparison_chain.hpp"],
[("range comparison over iterators","per-container comparison operators")],["comparison operators"]))
A(P("C23","Raw views decode a container's bytes to exactly its contents",
"For every supported container of capacity at least one, element size and alignment (trees: alignment up to that of a pointer), capacity and history, a type-erased raw view built from the container's address and element layout reports the same size and visits, in the same order, exactly the bytes of the container's elements, keys and values. Viewing never modifies the container.",
["histories","configurations"],"all histories x element sizes/alignments x capacities x supported containers",
"Tests view a few literals with one or two element types.",
["fixed_deque_raw_view.hpp","fixed_doubly_linked_list_raw_view.hpp","fixed_map_raw_view.hpp","fixed_red_black_tree_view.hpp","fixed_unordered_map_raw_view.hpp","fixed_unordered_set_raw_view.hpp","map_entry_raw_view.hpp"],
[("offset arithmetic that mirrors the typed layout","*_raw_view.hpp, fixed_red_black_tree_view.hpp")],["raw view iterators"]))
A(P("C24","Ordered map and set lookups and updates take logarithmic time",
"For every insertion and erasure history, a lookup in an ordered map or set of n elements looks at no more than about 2*log2(n+1) stored keys (a red-black tree's height) and calls the comparator at most twice for each; insertions, erasures, at, count and equal_range take at most twice that. The underlying search tree thus never degenerates, for sorted, reverse-sorted, clustered and adversarially erased key sequences alike, in every storage layout.",
["histories","configurations"],"all insert/erase histories x layouts x capacities",
"Functional tests cannot notice a tree that has become unbalanced but is still sorted.",
["fixed_red_black_tree.hpp","fixed_red_black_tree_ops.hpp","fixed_map.hpp","fixed_set.hpp"],
[("red-black insertion/deletion fixup","fixed_red_black_tree.hpp")],["comparator call counts"]))
A(P("C25","Rich enums and enum adapters are faithful bijections",
"For every plain enum or rich enum and every value, the value list contains each enumerator exactly once (plain enums in ascending value order; rich and adapted enums in the order they list), ordinals are the positions in that list, names and values convert back and forth, and comparison, equality and hashing of rich enums agree with those of their backing enum. Lookups by an unknown name or value report absence instead of fabricating an enumerator.",
["inputs","configurations"],"all enum types (dense, sparse, negative, large, any underlying type) x values x candidate names",
"Tests use three small enums and a few strings.",
["enum_utils.hpp"],
[("reflection over enumerators plus ordinal search","enum_utils.hpp")],["rich enum and enum adapter public API"]))
A(P("C26","Integer helpers and integer ranges are exact on their whole domain",
"Safe addition, subtraction, sign casts and comparison helpers agree with unbounded integer arithmetic for every pair of operand values and types whose result is representable; rounded-up division agrees with exact division; circular index arithmetic agrees with true modular arithmetic for every start, offset and capacity; integer ranges (and circular and filtered ones) contain exactly the integers they describe, in order, with iterator arithmetic to match; a comparison chain yields the lexicographic order of its links.",
["inputs","configurations"],"all operand pairs over all integer types incl. extremes; all ranges",
"Tests use a dozen literals; extreme and mixed-sign operands are not covered.",
["int_math.hpp","circular_indexing.hpp","integer_range.hpp","integer_range_iterator.hpp","circular_integer_range_iterator.hpp","filtered_integer_range_iterator.hpp","max_size.hpp"],
[("widened/sign-aware arithmetic","int_math.hpp")],["helper return values"]))
A(P("C27","Reflection reports every field of a struct, in order, with its name and type",
"For every aggregate struct (any number, type and nesting of fields, inheritance excluded where unsupported), compile-time reflection reports exactly the declared field names in declaration order, and field iteration hands out references to exactly the corresponding members. Recursive reflection visits every leaf field exactly once along the correct path, entering and leaving each nested level in order; a C array is one leaf and a container is entered through its elements' type.",
["programs","inputs"],"all struct definitions x values",
"Tests use a few hand-written structs; field counts, types and nestings vary without bound.",
["reflection.hpp","recursive_reflection.hpp","struct_decomposition.hpp","tuples.hpp"],
[("compiler struct dump at constant evaluation","reflection.hpp"),("structured-binding decomposition per field count","struct_decomposition.hpp")],["field names, addresses and visit order"]))
A(P("C28","Struct views address exactly the right bytes of every field path",
"For every struct definition, a struct view built from it maps each field path (through nested structs, optionals, arrays and containers) to the offset, size, type and array strides the compiler gives that field, and reading or copying through the view touches exactly those bytes. Extracting a sub-view and copying it between two layouts transfers precisely the shared paths' values and leaves everything else untouched.",
["programs","inputs"],"all struct definitions x values x sub-selections of fields",
"Tests use a few hand-written structs.",
["struct_view.hpp","recursive_reflection.hpp"],
[("path to properties map built by recursive reflection","struct_view.hpp")],["bytes read and written through the view"]))
A(P("C29","Optional references, pair views and small wrappers behave like what they wrap",
"For every value and history of assignments, an optional reference is a rebindable nullable reference: it reports presence, refers to exactly the bound object, and its value-or/comparison results equal those of a std::optional holding that value. Pair views, map entries, in/out wrappers, string literals, visitors, type names, memory helpers and index-sequence helpers expose exactly the values or references they were built from.",
["inputs","histories"],"all values x binding histories",
"Tests use a few literals.",
["optional_reference.hpp","pair_view.hpp","pair.hpp","map_entry.hpp","in_out.hpp","out.hpp","string_literal.hpp","value_or_reference_storage.hpp","variadic_templates.hpp","type_name.hpp","arrow_proxy.hpp"],
[("pointer to referent","optional_reference.hpp"),("pair of pointers","pair_view.hpp")],["wrapper public API"]))
A(P("C30","Concurrent readers, and users of distinct containers, never interfere",
"For every container state and every interleaving, operations that only read (const members, and the non-const accessors that merely hand out iterators or references) write nothing: neither to the container object nor to hidden shared state. So any number of threads may read one container at once, or write to different elements of it through the references it hands out, and a container may lie in read-only memory. Operations on distinct containers share no mutable state, so different threads may use their own containers at once; results are the same as single-threaded.",
["schedules","histories"],"all histories x all interleavings of readers, or of users of distinct containers",
"Tests are single-threaded and use writable objects.",
["fixed_vector.hpp","fixed_deque.hpp","fixed_list.hpp","fixed_string.hpp","fixed_red_black_tree.hpp","fixed_robinhood_hashtable.hpp","fixed_map_adapter.hpp","fixed_set_adapter.hpp","enum_map.hpp","enum_set.hpp"],
[("the bytes of the container object","fixed_vector.hpp")],["container public API from several threads"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in out))
print(len(out))
