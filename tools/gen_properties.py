#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the lines stay valid and consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "No input makes any operation panic, overflow, abort or loop forever",
 "Whatever bytes a caller passes in and whatever arguments (names, paths, skip counts) it uses, every public operation on the hive and on everything reachable from it returns a value, an error or 'absent' after a bounded amount of work. No arithmetic overflow, failed assertion, out-of-range slice, stack exhaustion or endless loop is ever reachable.",
 ["inputs", "histories", "fault_sequences"],
 "every byte string (in particular every truncation and every one- and two-field corruption of a well-formed hive, and every way of wiring record references to each other), and every sequence of API calls on it",
 "All 11 tests read one pristine hive file (plus literal strings); no test ever shows the library a malformed, truncated or self-referential hive.",
 ["src/hive.rs", "src/helpers.rs", "src/key_node.rs", "src/key_value.rs", "src/leaf.rs", "src/index_root.rs", "src/subkeys_list.rs", "src/key_values_list.rs", "src/big_data.rs", "src/string.rs"],
 [("checked sub-range helper used before every slice", "src/helpers.rs byte_subrange"), ("cell header and bounds validation", "src/hive.rs cell_range_from_data_offset"), ("forbid(unsafe_code), errors instead of panics", "src/lib.rs, src/error.rs"), ("saturating/checked cursor arithmetic in nth", "src/leaf.rs, src/key_values_list.rs, src/big_data.rs")],
 observe=["any public call: normal return vs panic, signal or watchdog timeout"])

prop("C02", "A hive is accepted exactly when its header is valid",
 "Opening with validation (or validating later) succeeds exactly when the input holds a whole 4096-byte header with the right signature, equal sequence numbers, major version 1 with minor version 3 or newer, primary file type, memory format, clustering factor 1, a data size that is a multiple of 4096 and no larger than the bytes supplied, and the format's XOR checksum (0 stored as 1, all-ones stored as all-ones minus 1). Opening without validation succeeds for any input that holds a whole header, and both ways of opening report the stored version numbers; the known minor versions 0 to 6 can be told by HiveMinorVersion::n, which knows no other.",
 ["inputs"],
 "every combination of header field values, every single-byte header corruption (with and without a matching checksum), every input length",
 "The tests open one valid file; no header rule is ever exercised in the rejecting direction and the special checksum values never occur.",
 ["src/hive.rs"],
 [("validate and the eight validate_* functions", "src/hive.rs"), ("prefix split of base block", "src/hive.rs without_validation")],
 observe=["Hive::new", "Hive::without_validation", "Hive::validate", "Hive::major_version", "Hive::minor_version"])

prop("C03", "Only allocated, well-sized, in-bounds records are ever read",
 "Every record the library follows a stored reference to is accepted only if it starts inside the hive's data, is marked allocated, has a size that is a non-zero multiple of 8 bytes and lies completely inside the data, is large enough for its fixed part and every count or length it declares, and carries the type signature expected in that place. Otherwise the operation that needed the record reports an error, and nothing outside the accepted record's own bytes is ever returned as a name, class name, list entry or data.",
 ["inputs", "fault_sequences"],
 "every reference field pointed at every byte offset of the data area and beyond; every record's size field, count, length and signature set to every relevant value",
 "The test hive is intact, so neither an unallocated, misaligned, oversized or truncated record nor a reference to the wrong kind of record is ever seen.",
 ["src/hive.rs", "src/helpers.rs", "src/key_node.rs", "src/key_value.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/big_data.rs"],
 [("cell header checks", "src/hive.rs cell_range_from_data_offset"), ("signature checks", "validate_signature in key_node.rs, key_value.rs, subkeys_list.rs, big_data.rs"), ("length checks against the cell", "byte_subrange callers")],
 observe=["root_key_node, subkeys, values, name, class_name, data and all iterators: Ok/Err and the address range of returned slices"])

prop("C04", "Enumerating subkeys yields exactly the stored keys, in stored order",
 "Iterating the subkeys of a key yields one item per entry of its subkey list, in stored order, each being the key that entry refers to, regardless of which list format (fast, hash or index leaf, or a two-level index over any mix of them) and which list sizes are used. A key without a list reports no subkeys; a damaged entry or sub-list (an empty sub-list of an index counts as damaged) yields one error in its place and the remaining entries are still delivered.",
 ["inputs", "configurations"],
 "every list format, every split of n keys over two-level indexes, every position of damaged entries, list lengths up to the 16-bit maximum",
 "Only the list shapes in one hive file are enumerated: two-level over hash leaves for 512 keys; fast and index leaves, mixed indexes, empty lists and damaged entries never occur.",
 ["src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs", "src/key_node.rs"],
 [("leaf item stepping by item size", "src/leaf.rs LeafItemRanges"), ("two-level iteration", "src/index_root.rs IndexRootKeyNodes::next"), ("format dispatch", "src/subkeys_list.rs SubKeyNodes")],
 observe=["KeyNode::subkeys and iteration, names of yielded keys"])

prop("C05", "Finding a subkey by name agrees with enumerating the subkeys",
 "In a key whose subkeys are stored in the registry's case-insensitive order, looking up a name returns the one enumerated subkey whose name matches case-insensitively, and reports absence exactly when no enumerated subkey matches, for every list format and every split over a two-level index. Even in unsorted or damaged lists a lookup never returns a key that is not enumerated under that parent or whose name does not match; it may only report absence or an error.",
 ["inputs", "configurations"],
 "every list format, every composition of n sorted keys into two-level indexes, every present name, every gap between names, every letter-case and encoding variant, all sizes up to the bound and sizes at 8/15/16-bit boundaries; unsorted and duplicate lists",
 "One 512-key list of a single shape is searched, only for names that exist; absent names, boundaries between leaves of other shapes and other formats are not.",
 ["src/key_node.rs", "src/leaf.rs", "src/index_root.rs", "src/string.rs"],
 [("binary search in leaf", "src/key_node.rs binary_search_subkey_in_leaf"), ("binary search over index root", "src/key_node.rs binary_search_subkey_in_index_root"), ("nth / last on item ranges", "src/leaf.rs, src/index_root.rs")],
 observe=["KeyNode::subkey vs KeyNode::subkeys"])

prop("C06", "A subkey lookup inspects only logarithmically many list entries",
 "Looking up one name among n sorted subkeys depends on only a logarithmic number of list entries (at most about two binary searches' worth), so the work does not grow linearly with n. In particular, damage to an entry that the search does not need does not change the lookup's result.",
 ["inputs", "fault_sequences"],
 "every list size up to the bound and list format/split, every searched name, and every choice of the one damaged entry",
 "Tests never measure what a lookup touches and contain no damaged entry; a linear scan would pass them all.",
 ["src/key_node.rs"],
 [("binary searches", "src/key_node.rs binary_search_subkey_in_leaf / _in_index_root")],
 observe=["KeyNode::subkey on copies of the hive in which one entry at a time is damaged"])

prop("C07", "Following a path equals looking up its components one by one",
 "Following a backslash-separated path from any key gives the same result as looking up each non-empty component in turn: repeated, leading and trailing backslashes are ignored, a path without components yields the key itself, and the first absent or failing component decides an absent or error result. No other character separates or is stripped.",
 ["inputs"],
 "every path string up to a length bound over an alphabet of names, case variants, separators and near-separators, from every start key, including trees with damaged parts",
 "Tests try about a dozen paths on a healthy tree.",
 ["src/key_node.rs"],
 [("component loop", "src/key_node.rs subpath")],
 observe=["KeyNode::subpath vs repeated KeyNode::subkey"])

prop("C08", "Values are enumerated in stored order and found by name, never mixed up",
 "Iterating a key's values yields one item per stored entry in stored order, an error standing in for each damaged entry, and a key without a value list reports none. Looking up a name returns the first enumerated value whose name matches case-insensitively (the empty name being the default value), absence if there is none, and an error if a damaged entry comes before any match; it never returns a value whose own name is different or unreadable.",
 ["inputs"],
 "every value list up to a length bound over intact, duplicate, case-variant, empty-named and variously damaged entries, every looked-up name; long lists",
 "Tests look up existing names in one healthy list; absent names, duplicates, damaged entries and iteration order are not tested.",
 ["src/key_node.rs", "src/key_values_list.rs", "src/key_value.rs"],
 [("linear find", "src/key_node.rs value"), ("list iteration", "src/key_values_list.rs KeyValues")],
 observe=["KeyNode::values", "KeyNode::value"])

prop("C09", "Value data is returned byte for byte for every storage layout",
 "The raw data of a value equals the stored bytes exactly - same length as the reported data size, same content, same order - whether it is stored inline (up to 4 bytes), in one cell (up to 16344 bytes, and any size in hives older than minor version 4) or split over big-data segments of 16344 bytes with a shorter last one, regardless of spare room or surplus segments. When a part of the data is missing, too short or damaged an error is reported in its place and never shortened, padded or foreign bytes.",
 ["inputs", "configurations"],
 "every data size up to several segments, every storage layout and segment count including the 16-bit maximum, surplus segments, oversized cells, each part damaged in turn",
 "Three sizes around the threshold with constant filler bytes are tested, so order, offsets, more than two segments, and damaged or surplus segments are invisible.",
 ["src/key_value.rs", "src/big_data.rs"],
 [("layout decision by size and flag", "src/key_value.rs data"), ("segment iteration", "src/big_data.rs BigDataSlices")],
 observe=["KeyValue::data, data_size, KeyValueData::into_vec and segment iteration"])

prop("C10", "Numeric and typed accessors check type and size and decode exactly",
 "A value's data type is reported exactly for the twelve defined types and as an error for any other number. The 32-bit accessor succeeds only for little- or big-endian DWORD values with exactly 4 data bytes and decodes them in that byte order, the 64-bit accessor only for QWORD values with exactly 8 bytes in little-endian order, and the string accessors only for their string types; every other combination of type, size and storage layout is an error.",
 ["inputs"],
 "every data type code, data size 0..9 and big-data sizes, every storage layout, byte patterns exercising every byte position",
 "Each accessor is tested with one matching value; wrong types, wrong sizes and other byte patterns are not.",
 ["src/key_value.rs"],
 [("type and length checks", "src/key_value.rs dword_data, qword_data, string_data, multi_string_data, data_type")],
 observe=["KeyValue::data_type, dword_data, qword_data, string_data, multi_string_data"])

prop("C11", "String values decode identically however they are stored",
 "The string accessor decodes the value's whole data as little-endian UTF-16 up to the first NUL or the end, replacing each unpaired surrogate by U+FFFD and ignoring an odd trailing byte. The result depends only on the data bytes, not on whether they are stored inline, in one cell or split at any point over big-data segments.",
 ["inputs"],
 "every 16-bit string up to a length bound over an alphabet with NUL, ASCII, BMP, high and low surrogates, with and without an odd byte, placed at every position relative to a segment boundary",
 "Tests decode one short ASCII string; no surrogate, invalid or segment-crossing string value is tested.",
 ["src/key_value.rs", "src/big_data.rs"],
 [("UTF-16 decoding over slices", "src/key_value.rs utf16le_to_string_lossy")],
 observe=["KeyValue::string_data"])

prop("C12", "Multi-string values split exactly, end once, and ignore storage layout",
 "The multi-string accessor yields the NUL-separated strings of the value's data in order, accepts data without a final terminator, and ends at the first empty string or at the end of the data; once ended it stays ended. Decoding follows the same rules as single strings and does not depend on how the data is split over segments; a damaged segment yields an error rather than wrong text.",
 ["inputs", "histories"],
 "every 16-bit string up to a length bound over an alphabet with NUL, letters and surrogates, every position of a segment boundary, repeated calls after the end",
 "Two well-formed values are tested; empty strings in the middle, missing terminators, surrogates over a boundary and damaged segments are not.",
 ["src/key_value.rs", "src/big_data.rs"],
 [("string iterator", "src/key_value.rs RegMultiSZStrings::next")],
 observe=["KeyValue::multi_string_data and its iterator"])

prop("C13", "Name comparison is one case-insensitive total order across encodings",
 "Names compare by their UTF-16 code units after mapping each Basic-Multilingual-Plane unit to its single-character uppercase (the Unicode 13 simple mapping), a proper prefix sorting first; units outside that mapping, surrogates included, compare as they are. Equality and ordering agree with each other, are the same for Latin-1 and UTF-16 storage and for comparison with ordinary strings in either direction, and therefore form a total order.",
 ["inputs"],
 "every 16-bit code unit (against its own mapping and its neighbours), every Latin-1/UTF-16 pair of single units, and every pair of strings up to a length bound in every encoding combination",
 "About twenty literal comparisons are tested out of a table with more than a thousand mappings.",
 ["src/string.rs"],
 [("uppercase table and binary search in it", "src/string.rs BMP_UPPERCASE_TABLE, utf16_code_unit_to_uppercase"), ("cmp_iter and the PartialEq/PartialOrd impls", "src/string.rs")],
 observe=["==, <, cmp, partial_cmp of names with names and with str, both directions"])

prop("C14", "Names and class names are reported exactly as stored",
 "A key or value name is exactly the declared number of stored bytes, interpreted as Latin-1 when the record's compressed-name flag is set and as UTF-16LE otherwise, whatever other flags are set; a class name is the declared number of bytes as UTF-16LE and absent when the key has none. Length and emptiness are in bytes; lossy conversion and display produce the same text (U+FFFD for each unpaired surrogate, an odd last byte ignored, formatting options never altering the characters), and checked conversion returns that text exactly when nothing had to be replaced.",
 ["inputs"],
 "all 65536 flag words, every name length from 0 to past the record's end, every 16-bit string up to a length bound over an alphabet with surrogates, all 256 Latin-1 bytes",
 "No test reads a class name, converts a name to text or displays it; flag combinations other than those in the file never occur.",
 ["src/string.rs", "src/key_node.rs", "src/key_value.rs"],
 [("flag test", "src/key_node.rs name, src/key_value.rs name"), ("conversions", "src/string.rs to_string_checked, to_string_lossy, Display")],
 observe=["KeyNode::name, KeyNode::class_name, KeyValue::name, NtHiveNameString methods and Display"])

prop("C15", "Every iterator obeys the iterator laws in every state",
 "For all public iterators, skipping n items equals n single steps (for any n), the reported remaining length and size bounds match what iteration actually delivers, counting and taking the last item agree with stepping through, an exhausted iterator stays exhausted, and a clone continues independently with the same items. This holds in every state reachable by mixing these calls, including lists with damaged entries or surplus segments.",
 ["histories", "inputs"],
 "every sequence of iterator calls up to a depth bound (step, skip by small, boundary and maximal counts, clone, then count / last / length) on every iterator type over lists of every small length with damaged entries at every position",
 "Tests only step iterators with plain for/next; skip, last, count, length and clone overrides are never called.",
 ["src/leaf.rs", "src/index_root.rs", "src/subkeys_list.rs", "src/key_values_list.rs", "src/big_data.rs", "src/key_value.rs"],
 [("hand-written nth/count/last/size_hint, ExactSizeIterator and FusedIterator impls", "src/leaf.rs, src/index_root.rs, src/key_values_list.rs, src/big_data.rs, src/key_value.rs")],
 state=[("cursor range", "remaining list entries", "items_range fields"), ("bytes_left", "remaining big-data bytes", "src/big_data.rs BigDataSlices")],
 observe=["Iterator and ExactSizeIterator methods of subkey, value, big-data and multi-string iterators"])

prop("C16", "Clearing volatile subkeys zeroes exactly those counts, everywhere",
 "When clearing succeeds, the volatile subkey count of the root key and of every key reachable through subkey lists of any format is zero and not a single other byte of the hive has changed, so a second clearing changes nothing. When it fails because part of the hive is damaged, it still has changed nothing but volatile subkey counts of reachable keys, to zero; reading operations never change any byte.",
 ["inputs", "histories", "fault_sequences"],
 "every key tree up to a size bound with every list format and split, every placement of non-zero counts, unlinked keys, damage at each structural field; the registry's maximum nesting depth",
 "The only test checks that clearing returns Ok on one hive; it looks at no byte afterwards.",
 ["src/hive.rs", "src/key_node.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs"],
 [("recursive clearing", "src/key_node.rs KeyNodeMut::clear_volatile_subkeys"), ("mutable list iteration", "src/leaf.rs LeafKeyNodesMut, src/index_root.rs IndexRootKeyNodesMut")],
 observe=["hive bytes before and after Hive::clear_volatile_subkeys"])

prop("C17", "Errors name the faulty byte and the true numbers",
 "When a hive is damaged in a single place, the error reported by the operation that meets it is of the kind that describes the damage, and its offset is the position in the hive file of the damaged field or record. The reported numbers are true: a signature or version as stored, the size a field claims versus the bytes available, the size required versus the size present, the stored value as actual and the required one as expected. The error's message states the same offset and numbers.",
 ["inputs", "fault_sequences"],
 "every structural field of well-formed hives in turn set to every relevant wrong value, for every operation that reads it, with the hive bytes at different places in memory",
 "No test ever looks at an error value.",
 ["src/error.rs", "src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/big_data.rs"],
 [("absolute offsets from addresses and data offsets", "src/hive.rs offset_of_field, offset_of_data_offset"), ("error construction sites", "all modules")],
 observe=["NtHiveError values returned by every fallible public operation"])

prop("C18", "Key and value handles have stable identity and reads are repeatable",
 "Two handles compare equal exactly when they denote the same stored record of the same opened hive, no matter whether they were obtained by enumeration, lookup, path, root access or cloning. Repeating any read, in any order and interleaved with other reads, gives the same result. Hives, handles and iterators over plain bytes can be shared between threads, and what one thread reads does not depend on what another one reads meanwhile.",
 ["histories", "inputs", "schedules"],
 "all pairs of handles obtained in all ways from every small hive, including records referenced from several lists and two openings of the same bytes; every order of reads up to a depth bound; every interleaving, up to a preemption bound, of two threads with one read each",
 "One equality and one inequality between two handles are tested.",
 ["src/key_node.rs", "src/key_value.rs"],
 [("PartialEq on hive identity and record range", "src/key_node.rs, src/key_value.rs")],
 observe=["== and != on KeyNode and KeyValue, repeated calls"])

prop("C19", "Results do not depend on buffer placement, build options or platform",
 "The same hive bytes and calls give the same results whatever kind of byte buffer holds them (shared, mutable, runtime-borrowed), at whatever address and alignment, and in every supported build: with or without overflow checks, with the std, alloc-only and minimal feature sets (for the operations each offers), on 32- and 64-bit and on little- and big-endian targets.",
 ["configurations", "inputs"],
 "every combination of buffer kind, alignment 0..15, build profile, feature set and target (x86-64, 32-bit, big-endian) over a fixed enumerated family of intact and damaged hives",
 "Tests run in one debug build on the host with one heap buffer; no other target, feature set or alignment is ever executed.",
 ["src/lib.rs", "src/hive.rs", "src/key_values_list.rs", "src/key_value.rs", "Cargo.toml"],
 [("unaligned little-endian field types", "all on-disk structs"), ("generic byte-slice parameter", "src/hive.rs Hive<B>"), ("feature gates", "src/lib.rs, src/key_value.rs, src/string.rs")],
 observe=["digest of every observable result per configuration"])

prop("C20", "The readhive tool prints the whole tree or reports an error, never crashes",
 "For any file containing an acyclic hive, the readhive example prints the root name and then every subkey with its class name and every value of it with name, type, size and decoded data (strings, string lists, numbers, and the bytes of binary values; binary data split over segments is only announced, and the other types have no data line), depth first in stored order and indented by depth, and exits successfully. For any file that is not a hive or is damaged it stops at the damage with an error message and a failing exit status instead of crashing.",
 ["inputs"],
 "a family of small hives covering all value types and list formats, and every single structural-field damage of one of them",
 "The example is compiled but never run by the test suite.",
 ["examples/readhive.rs"],
 [("recursive printing", "examples/readhive.rs process_subkey"), ("error propagation", "examples/readhive.rs main")],
 observe=["stdout, stderr and exit status of the readhive example"])

prop("C21", "Reading takes no memory beyond the data it returns, and little stack",
 "Opening, validating, navigating, enumerating, looking up, comparing, formatting names, reading data as slices or numbers and clearing allocate no memory at all. Operations that return owned data (name to string, data to byte vector, strings, string lists) allocate in proportion to the bytes really present in the hive, however large the sizes and counts in damaged records claim to be. Apart from clearing, no operation needs stack in proportion to the length of a list, the depth of the tree or the length of a path.",
 ["inputs", "fault_sequences", "histories"],
 "every operation on every single-field fault of the seed hives, intact hives of many forms, and lists of 1..65535 keys, values and segments, damaged at the start, in the middle and at the end, metered by a counting allocator on a 64 KiB stack",
 "No test measures memory or stack; all run on one small intact hive.",
 ["src/lib.rs", "src/key_value.rs", "src/string.rs", "src/big_data.rs", "src/key_node.rs"],
 [("owned conversions", "src/key_value.rs KeyValueData::into_vec, utf16le_to_string_lossy, RegMultiSZStrings::next; src/string.rs to_string_*"), ("no_std without alloc", "src/lib.rs"), ("path loop", "src/key_node.rs subpath")],
 observe=["allocations and peak memory of every public operation, success on a small stack"])

prop("C22", "Hints, stamps, caches, spare bytes and free space have no influence",
 "What any operation returns for a well-formed hive, and which counters clearing touches, depends only on the content-bearing parts: the validated header fields, cell sizes, record signatures, references, list counts and entries, the compressed-name flags, lengths, names, class names, value types, sizes and data. Time stamps, parent and security references, subkey counts, volatile-list references, cached maximum lengths, other flag bits, the name hints and hashes in leaves, spare bytes of records and cells, surplus list entries and segments, cells nothing refers to, bin headers, unvalidated header bytes (checksum kept right) and bytes behind the hive may hold anything.",
 ["inputs"],
 "every meaningless byte of 7 hives with every value, all of them at once with constant, word and copied patterns in hundreds of hives of many forms, every pair of meaningless words, garbage appended to the hive",
 "Tests read one hive written by Windows, in which all hints and counters agree with the content.",
 ["src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/leaf.rs", "src/subkeys_list.rs", "src/big_data.rs"],
 [("leaf entries compared by the key's own name, not by hint or hash", "src/leaf.rs key_node_offset, src/key_node.rs binary_search_subkey_in_leaf"), ("ignored fields", "src/key_node.rs KeyNodeHeader, src/key_value.rs KeyValueHeader, src/hive.rs HiveBaseBlock")],
 observe=["digest of every observable result, bytes changed by clearing"])

prop("C23", "Records may lie anywhere and in any order in the hive",
 "Moving the cells of a hive to other places - any order, any 8-byte aligned distance, any bin, with or without free cells between them - and adjusting the references changes nothing but addresses and offsets: the same keys, classes, values, data, lookups, equalities, sizes, kinds of errors, and the same counters cleared.",
 ["inputs", "configurations"],
 "every order of the cells of small hives of all record kinds times six ways to lay them out, the same with one damaged field, and all rotations, moves and exchanges of cells in larger hives",
 "The tests' hive has one layout, in the order Windows wrote it.",
 ["src/hive.rs", "src/key_node.rs", "src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/key_value.rs", "src/big_data.rs"],
 [("every reference resolved on its own", "src/hive.rs cell_range_from_data_offset")],
 observe=["position-free rendering of everything readable"])

prop("C24", "No operation does more work than it has to",
 "Opening, validating, every step and every skip of an iterator over a flat list, a value list or segments, their length, count and last item, and reading names, types, data handles and numbers look at a bounded number of records, however long the lists are. A lookup by name in a subkey list looks at a logarithmic number of them, a path lookup at that many per component, a value lookup at no more than the list holds; owned conversions go over the data once, and clearing visits each key once per path to it.",
 ["inputs", "histories"],
 "every operation on the hives of C21, with a buffer that counts how often it is looked into, compared with a bound in the number of records and entries concerned; and the instructions of each kind of operation counted at sizes that grow by 8",
 "No test measures work; on its small hive a quadratic or linear implementation is as good.",
 ["src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/big_data.rs", "src/key_node.rs", "src/subkeys_list.rs"],
 [("constant-time nth, last, count, size_hint", "src/leaf.rs, src/index_root.rs, src/key_values_list.rs, src/big_data.rs"), ("binary searches", "src/key_node.rs")],
 observe=["number of accesses to the hive's bytes per public operation", "machine instructions per public operation"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
