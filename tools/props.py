"""Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, level='proof', note='', na=None, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, level=level, note=note, na=na, state=state))
L = 'src/libs/conduit/'; B = 'src/libs/blueprint/'
P('C01', 'Leaf layout arithmetic is exact for every layout',
  'For every leaf description (type, element count, offset, stride, element size, byte order) the byte address reported for element i is offset + stride*i, the strided and spanned byte counts cover exactly the bytes of its elements (nothing when there are no elements), the compact byte count is count times element size, and compactness, compatibility and equality answers agree with those numbers. Building or resetting a description for a type yields exactly the requested fields with the type\'s default element size where none is given, and queries never change the description.',
  ['inputs'], 'every type id, element count, offset, stride, element size and byte order', 'Tests sample a few layouts with small counts; the arithmetic has to hold for all combinations, including zero elements and strides unequal to the element size.',
  [L + 'conduit_data_type.cpp', L + 'conduit_data_type.hpp'], [('field-wise getters, compact_to, is_compact, compatible, equals, strided/spanned bytes', L + 'conduit_data_type.cpp')],
  note='unbounded in all fields; i64 arithmetic is treated as mathematical (overflow of 64-bit byte counts excluded)')
P('C02', 'Type and byte-order names map one to one to ids',
  'Every type id has one name, and looking that name up gives the id back; an unknown name or id gives the empty type (or the default byte order) and never some other entry; native C type names map to the fixed-width type of the same size and signedness. The same holds for byte-order names, and the default size reported for a type id is the size of one element of that type.',
  ['inputs'], 'every id and every string', 'Tests look up the known names; the claim is about every id and every string.',
  [L + 'conduit_data_type.cpp', L + 'conduit_endianness.cpp'], [('name_to_id / id_to_name / c_type_name_to_id chains', L + 'conduit_data_type.cpp'), ('Endianness::name_to_id / id_to_name', L + 'conduit_endianness.cpp')],
  note='string equality chains decided over all strings; std::string operations by assumed library contract')
P('C03', 'Changing byte order reverses exactly the bytes of each element',
  'Switching a leaf to the other byte order reverses the bytes of each of its elements in place, records the new order, and touches no byte outside those elements, for every type, count, offset and stride; asking for the order it already has changes nothing, and doing it twice restores the original bytes. On a tree it applies to every leaf below it, and machine byte order is reported consistently.',
  ['inputs'], 'every type, count, offset, stride, byte order and buffer content', 'Tests swap single scalars and short compact arrays.',
  [L + 'conduit_endianness.cpp', L + 'conduit_node.cpp'], [('Endianness::swap16/32/64', L + 'conduit_endianness.cpp'), ('Node::endian_swap', L + 'conduit_node.cpp')],
  note='leaf swap unbounded per element type (loop invariant); the recursion over containers is only covered by the bounded driver')
P('C04', 'Typed array views touch exactly the addressed elements',
  'Reading or writing element i of a typed array view accesses the bytes at offset + stride*i and no others; setting or filling a view from a pointer, another view, a converting view or a constant writes each element with the value converted as the language converts it, leaves the gaps between elements and the description untouched, and reads the source at its own layout. This holds for every count, offset and stride and for every pair of source and destination numeric types.',
  ['inputs'], 'every pair of numeric types, every count, offset, stride and content', 'There are hundreds of type pairs and unbounded layouts; tests try a handful with small arrays.',
  [L + 'conduit_data_array.cpp', L + 'conduit_data_array.hpp'], [('DataArray<T>::operator[], element_ptr, set, fill', L + 'conduit_data_array.cpp')],
  note='unbounded element counts (loop invariants by Skolem element); source and destination memory assumed disjoint')
P('C05', 'Converting views read and write through the described type',
  'A converting view over a buffer of any numeric type returns, for every index, the stored element converted to the requested type, and writing stores the value converted to the described type at exactly that element; whole-array set and fill do this for every element and touch nothing else. A description that is not numeric raises an error instead of reading or writing anything.',
  ['inputs'], 'every described type, requested type, layout and content', 'Type pairs times layouts; tests sample.',
  [L + 'conduit_data_accessor.cpp', L + 'conduit_data_accessor.hpp'], [('DataAccessor<T>::element, set, fill', L + 'conduit_data_accessor.cpp')],
  note='unbounded element counts; source and destination memory assumed disjoint')
P('C06', 'Array reductions are exact for every array',
  'For every array view and converting view, whatever its length and layout, sum, mean, minimum, maximum, element count of a value and first-element queries report what a left-to-right pass over exactly the described elements gives: the minimum and maximum are attained by some element and bound all of them, the sum adds each element exactly once, and the count of a value is the number of elements equal to it. The array itself is not changed.',
  ['inputs'], 'every numeric type, count, layout and (finite) content', 'Needs induction over the length; tests use short arrays.',
  [L + 'conduit_data_array.cpp', L + 'conduit_data_accessor.cpp'], [('min, max, sum, mean, count', L + 'conduit_data_array.cpp')],
  note='unbounded length by loop invariants over an uninterpreted prefix-sum/count definition; NaN and infinities excluded for min/max')
P('C07', 'Setting a node stores exactly the given values',
  'For every numeric type (the ten fixed-width ones and the native C types), every form of setting a node (scalar, array view, vector, initializer list, pointer with count/offset/stride, text, description plus data; set, the named set_*, operator=, set_path, constructors) and whatever the node held before: afterwards element i of the node is exactly value i that was given, including strided sources. If the node already holds at least as many elements of that type, its memory and description are kept, only those elements change and nothing is allocated or released; otherwise the old content is released and the node owns new memory from its allocator, described as exactly that many elements of that type, with no children. set_external copies and writes nothing: the node points at the caller\'s memory, does not own it, and carries exactly the given description. The path forms do the same to exactly the node at that path. The source is never changed.',
  ['inputs'], 'every value, count, layout and previous content', 'There are several hundred near-identical setters; one that uses the wrong stride, count or description works for the dense small arrays tests use.',
  [L + 'conduit_node.cpp'], [('set, set_*, set_external*, set_path*', L + 'conduit_node.cpp')], note='unbounded in element count, offset and stride; the source must not overlap the memory of the node')
P('C08', 'Compaction, serialization and contiguity are exact for every tree',
  'For every tree of objects, lists, leaves (any type, offset and stride, any number of elements) and empty nodes: total_bytes_compact, total_strided_bytes and spanned_bytes are the sum, sum and maximum over the leaves; serialize (to a vector, a buffer or a stream) produces exactly the elements of the leaves in tree order with nothing between them; compact_to gives a tree with the same names, order and kinds whose leaves are adjacent and whose schema offsets point at exactly those bytes, so that a node built from the compact schema over the serialized bytes has the same values; the source is unchanged; and is_contiguous / contiguous_with are true exactly when every leaf starts where the one before it ended.',
  ['inputs'], 'every tree shape and leaf layout', 'Offsets in the schema and positions in the data are computed by two separate recursions that must agree for every mix of strided, offset, empty and nested children.',
  [L + 'conduit_node.cpp', L + 'conduit_schema.cpp', L + 'conduit_utils.cpp'], [('compact_to, serialize, contiguous_with', L + 'conduit_node.cpp'), ('compact_to, total_bytes_compact, spanned_bytes', L + 'conduit_schema.cpp'), ('conduit_memcpy_strided_elements', L + 'conduit_utils.cpp')],
  note='unbounded in the number of children and elements; deeper levels by the contract of the recursive call')
P('C09', 'Schema trees keep names, order and children in agreement',
  'After any sequence of adding, appending, fetching, renaming, removing, copying, assigning and resetting, a schema tree is consistent: an object has one distinct name per child, the order of names is the order of insertion, looking a name up by index, by name or by path leads to the same child, every child points back to its parent, removing shifts later children by exactly one and leaves the rest alone, and a copy is an independent tree with the same names, order and descriptions. Asking for a name, path or index that does not exist raises an error and changes nothing, except for the fetch that creates, which creates exactly the missing children.',
  ['inputs', 'histories'], 'every schema tree, every name and path, every sequence of operations', 'The invariant has to survive every history of operations on trees of any size; tests run short fixed sequences.',
  [L + 'conduit_schema.cpp', L + 'conduit_schema.hpp'], [('object map / order / children vectors', L + 'conduit_schema.cpp'), ('add_child, append, fetch, remove, rename_child, set', L + 'conduit_schema.cpp')],
  note='each operation is proved to preserve the invariant from any consistent state, unbounded in the number of children; deeper levels by the contract of the recursive call; name() and path() only by the bounded driver')
P('C10', 'Node trees stay in lockstep with their schema trees',
  'After any sequence of node operations (set, set_external, add_child, append, fetch, remove, rename, swap, move, update, reset and copies), every node has exactly one child per child of its schema, child i is described by child schema i, every child points back to its parent node, and values stay with their nodes: swap exchanges two places and nothing else, move empties the source, a removed child is destroyed exactly once, memory a node allocated is released exactly once, and external memory is never released. A bad index or name raises an error and changes nothing.',
  ['inputs', 'histories'], 'every pair of trees and every sequence of operations', 'Two parallel trees must agree after every history; tests check short sequences and rarely the internal links.',
  [L + 'conduit_node.cpp', L + 'conduit_schema.cpp'], [('m_children / m_schema / m_parent links', L + 'conduit_node.cpp'), ('swap, move, set_node, walk_schema, mirror_node, init, release', L + 'conduit_node.cpp')],
  note='unbounded in the number of children; deeper levels by the contract of the recursive call; operands of set/swap/move/update are not ancestors of each other')
NA = 'no contract within reach of the verifier decides this here: '
P('C11', 'Comparing trees, schemas and arrays tells exactly whether they differ',
  'For any two nodes, diff says "different" exactly when their kinds differ, or an object has a name the other lacks, or lists have different lengths, or corresponding children differ, or leaves of the same type have different counts or some element that differs (integers by value, floating point by more than epsilon or NaN against a number, text as null-terminated text), whatever the strides, offsets and child order; diff_compatible says the same with the other tree allowed to have more names, entries or elements and text allowed to be a prefix; relaxed integer comparison compares the values of leaves of different integer types; the report records the verdict that is returned. Schema::equals and Schema::compatible are true exactly when the descriptions agree child by child. Nothing compared is changed.',
  ['inputs'], 'every pair of trees, layouts and values', 'A comparison that misses one kind of difference (an extra child on one side, an element past the first, a NaN) still passes tests that compare equal trees.',
  [L + 'conduit_node.cpp', L + 'conduit_schema.cpp', L + 'conduit_data_array.cpp'], [('diff, diff_compatible', L + 'conduit_node.cpp'), ('DataArray::diff, diff_compatible', L + 'conduit_data_array.cpp'), ('equals, compatible', L + 'conduit_schema.cpp')],
  note='unbounded in the number of children and elements; deeper levels by the contract of the recursive call; the contents of the report beyond the verdict are not specified')
P('C12', 'Reading a node returns exactly the stored elements',
  'For every leaf type, offset, stride and count: as_<T> returns element 0 bit for bit, as_<T>_ptr its address, as_<T>_array a view with exactly the data and description of the node, but only if the node is of exactly that type; for any other type they return zero, null or an empty view and never reinterpret the bytes. to_<T> and to_<T>_array(res) (and to_data_type) convert every element by value like a C++ cast from the stored type, writing the result as setting a node does, and leave the source unchanged; a non-numeric node reads as zero and its array conversion is an error. as_<T>_accessor views the data with its own description. value() and to_value() give the same results as the readers of the type asked for.',
  ['inputs'], 'every type pair, layout and value', 'About 400 hand-written readers: one that reads through the wrong type, drops the offset or accepts a wrong type is invisible to tests with small dense positive data.',
  [L + 'conduit_node.cpp'], [('as_*, to_*, value()', L + 'conduit_node.cpp')], note='unbounded in element count, offset and stride; text-to-number parsing is checked by the driver only')
P('C13', 'Paths, separated text and escapes are taken apart and put together exactly',
  'For every text and every non-empty separator: split_string cuts at the first occurrence of the whole separator and rsplit_string at the last, losing and duplicating no character (the two parts with the separator between them are the text; without a separator the whole text is the first result and the other is empty, whatever the outputs held before); split_path, rsplit_path, split_file_path and rsplit_file_path do this for the slash, and with a separator of one\'s own a colon that belongs to a leading drive letter never splits; splitting into a list appends exactly the non-empty runs between separators, in order, after what the list held. join_path puts exactly one slash between two non-empty parts unless the left one ends with one (join_file_path likewise, also before an empty right part). escape_special_chars replaces exactly the quote, backslash, newline, tab, backspace, form feed and carriage return by their two-character escapes; unescape_special_chars turns exactly those and the escaped slash back, keeps every other escape and character as it is, and undoes escaping for every text; trim_string removes exactly the leading and trailing characters that are in the given set.',
  ['inputs'], 'every text and separator', 'Positions of separators at the start, at the end, doubled, overlapping or longer than one character each take another branch; tests use one or two ordinary paths.',
  [L + 'conduit_utils.cpp'], [('split_string, rsplit_string, split_path, join_path, split_file_path, escape_special_chars, unescape_special_chars', L + 'conduit_utils.cpp')],
  note='unbounded in the length of the text; string primitives by the z3 theory of strings; trim_string by the bounded driver only')
P('C14', 'Relations, n-d indices and component arrays address exactly their data',
  'A one-to-many relation with optional sizes, offsets and indices (each in any integer type and layout) addresses, for every one i and every many j below its size, entry indices[offsets[i]+j] of its data (offsets[i]+j without indices, indices[i] or i without sizes): O2MIndex and O2MIterator agree on this, and walking the iterator forwards, backwards or by position visits exactly those entries in order, each once. generate_offsets gives the running sums of the sizes; compact_to gives a relation with the same sizes, running offsets and no indices whose data, for every data path, is exactly the entries in that order, and leaves the source unchanged; verify accepts exactly relations with consistent arrays. An n-d index maps (i,j,k,l) to the sum of (offset+index)*stride over the dimensions, with offset 0 and dense strides (the running product of shape plus offset) where not given. A multi-component array is accepted exactly when it has at least one component and all components are numeric leaves of one length; to_contiguous and to_interleaved lay the same components (names, or order in a list, types, values) out one after the other, or element by element with one stride, and is_interleaved recognises exactly that.',
  ['inputs'], 'every relation, n-d description and component list', 'Positions, defaults and layouts combine: tests use one relation and int32 dense index arrays.',
  [B + 'conduit_blueprint_o2mrelation.cpp', B + 'conduit_blueprint_o2mrelation_index.cpp', B + 'conduit_blueprint_o2mrelation_iterator.cpp', B + 'conduit_blueprint_ndarray_index.cpp', B + 'conduit_blueprint_ndarray_index.hpp', B + 'conduit_blueprint_mcarray.cpp'],
  [('O2MIndex, O2MIterator, generate_offsets', B + 'conduit_blueprint_o2mrelation_iterator.cpp'), ('NDIndex', B + 'conduit_blueprint_ndarray_index.hpp'), ('mcarray', B + 'conduit_blueprint_mcarray.cpp')],
  note='unbounded in sizes; ones without entries are outside the iterator contracts (bounded driver); compact_to and verify of relations by the bounded driver only')
P('C15', 'Updating a tree merges exactly the source into it',
  'Node::update puts every entry of an object source into the destination child of the same name (created if there is none; children with other names stay as they are), every entry of a list source into the entry at the same position (appended beyond the end); a leaf of the same type with room for all source elements is overwritten in place, element by element through both layouts, keeping its description, gaps and further elements; any other leaf is replaced by a compact copy of the source leaf; an empty source node changes nothing. update_compatible changes only entries present on both sides by name or position and only leaves of the same type with room; it adds, removes and retypes nothing. update_external makes each leaf a view of the source leaf (same description, same bytes), merging names and positions the same way. The source is never changed.',
  ['inputs'], 'every pair of disjoint trees', 'Merging combines two arbitrary trees, layouts and lengths; tests update a few small objects.',
  [L + 'conduit_node.cpp'], [('Node::update, update_compatible, update_external', L + 'conduit_node.cpp')],
  note='unbounded trees (recursion by contract) and element counts; the two trees are disjoint and in machine byte order')
P('C16', 'Walking the children of a node visits each child once, in order',
  'NodeIterator and NodeConstIterator over a node with n children keep a cursor in 0..n: has_next() holds exactly before the end, next() visits the child at the cursor and advances by one, previous() steps back to the child visited before the last one, has_previous() holds exactly when there is one, peek_next() is the child next() would visit and peek_previous() the child just before the cursor; at either end these report an error and leave the cursor where it was. index(), node() and name() tell the child last visited (its name in an object, its position in a list); to_front() and to_back() move to 0 and n; copies and assignments (also from non-const to const) continue from the same cursor; begin()/end() span the children from the cursor to the last. The random-access child iterators address the child at their position, and their arithmetic, distances, order and equality are those of the positions within one node.',
  ['inputs', 'histories'], 'every node and every sequence of moves', 'Every position, direction and history of moves; tests walk one or two small nodes front to back.',
  [L + 'conduit_node_iterator.cpp', L + 'conduit_node_iterator.hpp'], [('NodeIterator, NodeConstIterator, NodeChildIterator, NodeConstChildIterator', L + 'conduit_node_iterator.cpp')],
  note='unbounded in the number of children; the node itself is not changed during the walk; info() is not covered')
P('C17', 'The C interface does exactly what the C++ operations do',
  'Every function of the C interface (nodes and data types of the core library, blueprint, relay io) performs exactly the C++ operation it stands for, once, on the node (or the node at the given path) it is given, with the same operands in the same roles - values, pointers, counts, offsets, strides, element sizes, byte orders, texts, options - and returns that operation\'s result: typed functions use the type they name, functions without layout operands use a dense layout in machine order, functions on a path act on the node at that path, an absent protocol, path or options operand means its default, texts handed out are copies, and destroying a handle deletes only a root node.',
  ['inputs'], 'every call of every C function', 'About five hundred functions times all operands; tests call some of them with one or two values.',
  [L + 'c/conduit_node_c.cpp', L + 'c/conduit_datatype_c.cpp', L + 'c/conduit_cpp_to_c.cpp', L + 'c/conduit_utils_c.cpp', B + 'c/conduit_blueprint_c.cpp', B + 'c/conduit_blueprint_mcarray_c.cpp', B + 'c/conduit_blueprint_mesh_c.cpp', B + 'c/conduit_blueprint_table_c.cpp', 'src/libs/relay/c/conduit_relay_io_c.cpp'], [('conduit_node_*, conduit_datatype_*', L + 'c/conduit_node_c.cpp'), ('conduit_blueprint_*', B + 'c/conduit_blueprint_mesh_c.cpp'), ('conduit_relay_io_*', 'src/libs/relay/c/conduit_relay_io_c.cpp')],
  note='all 482 functions under contract; the C++ operations themselves are the business of the other properties; message handlers by the bounded driver only')
P('C18', 'Schema text (JSON or YAML) builds exactly the tree it describes',
  'Reading a conduit_json or conduit_yaml schema (into a Schema, into a Node without data, with data copied in, or over external data), a base64 document, or a pure json or yaml text builds exactly the tree the text describes: one child per entry, in order, under its name; each leaf with the type, count, offset, stride, element size and byte order given or the documented defaults (leaves without an offset follow the bytes described before them); lists of a repeated or referenced length with that many entries; inline values and addresses as written; numbers as int64, uint64 or float64 as they fit; the same text means the same in both languages. A protocol is read by its own reader, an unreadable text is an error that leaves the node empty, and an error is raised for nothing else.',
  ['inputs'], 'every text that describes a tree, both languages, every way of reading it', 'Texts nest without bound and combine optional entries freely; tests read a few dozen fixed texts, most of them in one of the two languages.',
  [L + 'conduit_generator.cpp', L + 'conduit_generator.hpp', L + 'conduit_node.cpp', L + 'conduit_schema.cpp'], [('Generator::walk, walk_external', L + 'conduit_generator.cpp'), ('walk_json_schema, walk_yaml_schema', L + 'conduit_generator.cpp'), ('parse_leaf_dtype, parse_inline_value', L + 'conduit_generator.cpp')],
  note='108 functions under contract; the bundled rapidjson and libyaml parsers are assumed; json_sanitize, inline string edge cases and whole texts by the bounded driver')
P('C19', 'A tree written as text is the text of that tree',
  'Writing a node, a schema or a leaf description as json (json, conduit_json, conduit_json_external, conduit_base64_json, in any white-space layout, as a string, to a stream or to a file) gives one complete JSON text: an object with one member per child, in order, under its escaped name; a list with one entry per child; a leaf as all of its elements, in full 64 bit range (a single element plain, any other count as a list, nan and inf as texts), as its escaped text, or null; in conduit_json with exactly its type, count, offset, stride, element size and byte order; in base64 the packed bytes of the whole tree with the schema of the packing. Reading the text back gives the same tree (floating point values to 15 digits; in pure json with widened types). Yaml text has one line per child at its depth with the same values. The protocol and layout asked for are the ones used, and an unknown protocol or unusable file is an error.',
  ['inputs'], 'every tree, protocol, layout and destination', 'Trees, names and values are unbounded; tests print a few trees and most never read the text back.',
  [L + 'conduit_node.cpp', L + 'conduit_schema.cpp', L + 'conduit_data_type.cpp', L + 'conduit_data_array.cpp', L + 'conduit_utils.cpp'], [('Node::to_json_generic, to_base64_json, to_yaml_generic', L + 'conduit_node.cpp'), ('Schema::to_json_stream', L + 'conduit_schema.cpp'), ('DataArray::to_json_stream', L + 'conduit_data_array.cpp')],
  note='the stream as a JSON automaton; number formatting and the base64 coder are assumed / bounded')
P('C20', 'A message between processes delivers the tree that was sent',
  'A node sent with relay::mpi (send and recv, isend and irecv with any of the waits, send_using_schema and recv_using_schema, communicate_using_schema, broadcast and broadcast_using_schema, gather, all_gather and their using_schema forms) arrives with the same values at every receiver the operation names, whatever the memory layout on either side: packed, separate, strided, with gaps, or a part of a larger tree. The plain forms fill a receiving node of the same structure in place; the using_schema forms also carry the structure (receives and communicate fill in what was sent and keep the rest of the receiving tree; broadcasts give an equal tree or reuse a compatible leaf; gathers give a list with one entry per process, in rank order). reduce and all_reduce combine element by element in the type of the leaf with the operation asked for. Exactly the bytes of the content are sent, to the process and with the tag asked for; distinct tags stay distinct as long as they are below the largest tag of the MPI library, and a negative tag is an error. The sent node is not changed, the receiving memory outside the node is not touched, and a finished request holds nothing.',
  ['inputs', 'schedules'], 'every tree, layout, number of processes, rank, root, tag and matching order', 'Layouts and tags are unbounded; tests exchange a few separately allocated or compact trees between two ranks.',
  ['src/libs/relay/conduit_relay_mpi.cpp'], [('send, recv, isend, irecv, wait', 'src/libs/relay/conduit_relay_mpi.cpp'), ('broadcast, gather, reduce', 'src/libs/relay/conduit_relay_mpi.cpp'), ('safe_tag, TagLimits', 'src/libs/relay/conduit_relay_mpi.cpp')],
  note='MPI itself by an assumed contract; the gathers using schemas and communicate_using_schema are bounded')
P('C90', 'Any tree survives a round trip through YAML text',
  'Writing any tree as yaml and reading it back gives an equal tree, whatever its names, types and empty parts.', ['inputs'], 'every tree', 'unbounded trees and strings',
  [L + 'conduit_node.cpp'], [('to_yaml', L + 'conduit_node.cpp')],
  na='not a property of this system: yaml output carries no types, writes names unquoted and leaves out empty containers (by design of the writer); what it does guarantee is stated in C19')
P('C91', 'Mesh verification, topology transforms, partition and flatten preserve the mesh',
  'Every supported mesh transform keeps element geometry, field values and connectivity.', ['inputs'], 'every valid mesh', 'unbounded meshes',
  [B + 'conduit_blueprint_mesh.cpp', B + 'conduit_blueprint_mesh_partition.cpp'], [('mesh algorithms', B + 'conduit_blueprint_mesh.cpp')],
  na=NA + 'the algorithms run over trees addressed by computed path strings and std::map/std::set containers; no stated behavioural contract of them fits function-level obligations of tractable size')
P('C92', 'File transports and the MPI library preserve trees',
  'A tree written to a file in any format is read back equal, and the MPI library delivers what relay hands to it.', ['inputs', 'schedules', 'fault_sequences'], 'every tree, file protocol and message schedule', 'external libraries and processes',
  ['src/libs/relay/conduit_relay_io.cpp', 'src/libs/relay/conduit_relay_mpi.cpp'], [('protocol dispatch', 'src/libs/relay/conduit_relay_io.cpp')],
  na=NA + 'the deciding behaviour is in HDF5, Silo, ADIOS, MPI and the operating system, outside this code; contracts on them would be pure assumption (what relay hands to MPI and does with what arrives is C20)')
