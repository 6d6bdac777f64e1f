#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

REL = "release/cee.c"; RELJ = "cee-json/release/cee-json.c"

prop("C01", "Valid API use never causes a memory error or undefined behaviour",
 "Any sequence of documented calls on live objects, mixing strings, blocks, boxed values, lists, maps, sets, dicts, stacks, tuples, tagged values, environments, closures and JSON values in one state, performs no out-of-bounds access, use after free, double free, uninitialised read or other undefined behaviour. Objects that the caller still holds keep their contents until they are deleted or collected.",
 ["programs", "histories"], "every finite sequence of valid calls, over every mix of object kinds, delete policies, deletions and collections",
 "the testers call each function a few times in one fixed order and run without sanitizers",
 ["cee-common.c", "cee-resize.h", "cee-header.h", "state.c", "list.c", "map.c", "set.c", "str.c", "dict.c", REL, RELJ],
 [("object header and trace chain", "cee-resize.h S(chain)/S(de_chain)/S(resize)"), ("per-kind trace functions", "S(trace) in every module")],
 observe=["memory accesses of the compiled library", "contents of all live objects"])

prop("C02", "Deleting a state releases everything allocated under it, exactly once",
 "After a state is deleted, every block of memory obtained through it (including by failed parses, resized strings, printed buffers, merges and partially deleted containers) has been released, and none was released twice. This holds whatever was added, removed, deleted, rooted or collected before.",
 ["histories"], "every history of allocations, container updates, individual deletions and collections that ends with deletion of the state",
 "the tests delete one small state at the end and do not watch the allocator",
 ["state.c", "cee-resize.h", "cee-common.c", REL],
 [("trace chain walked from its tail", "state.c S(trace) CEE_TRACE_DEL_FOLLOW"), ("chain upkeep", "cee-resize.h")],
 state=[("trace chain", "every block allocated under the state", "cee.h struct cee_state.trace_tail")],
 observe=["allocator events (every malloc/free)"])

prop("C03", "Containers honour their delete policy for every element",
 "When a container is deleted, a reference-counted element is released exactly when no other reference-counting container still holds it, an owned element is released at once, and an element under the no-op policy is left untouched. Adding, replacing, removing and popping elements keep these counts exact, so that an element is never released while a container still holds it and never lingers once the last reference-counting holder is gone. Private bookkeeping goes with its entry: what is put in and taken out again, however often, leaves no memory behind, and neither does looking elements up.",
 ["histories", "configurations"], "every history of adds, replacements, removals and deletions over shared elements, every container kind and every policy",
 "the tests never share elements between containers and observe no individual release",
 ["cee-common.c", "list.c", "map.c", "set.c", "dict.c", "stack.c", "tuple.c", "triple.c", "quadruple.c", "n_tuple.c", "tagged.c", "env.c", REL],
 [("reference counting", "cee-common.c cee_incr_indegree/cee_decr_indegree/cee_del_e"), ("policy applied on deletion", "S(trace) CEE_TRACE_DEL_FOLLOW of each container")],
 state=[("in-degree", "number of reference-counting holders", "cee.h struct cee_sect.in_degree")],
 observe=["allocator events matched to objects"])

prop("C04", "Garbage collection keeps exactly what is reachable",
 "A collection keeps every object reachable from the state's roots, contexts or stack, through any kind of container and any sharing or cycles, with its contents intact and usable afterwards. Every object not reachable at that moment is released by that collection, no matter how many collections came before or when the object was created.",
 ["histories", "programs"], "every object graph and every interleaving of mutations, root and context changes and repeated collections",
 "the tests run one or two collections on a fixed tiny graph",
 ["state.c", "cee-common.c", "map.c", "closure.c", "env.c", "list.c", "set.c", "dict.c", "str.c", "cee-resize.h", REL],
 [("mark phase", "state.c S(trace) CEE_TRACE_MARK and every module's mark branch"), ("sweep phase", "state.c S(sweep)")],
 state=[("gc mark", "mark of the last collection the object survived", "cee.h struct cee_sect.gc_mark"), ("roots, contexts, stack", "liveness roots", "cee.h struct cee_state")],
 observe=["allocator events around each collection", "contents of surviving objects"])

prop("C05", "States are independent of each other, also across threads",
 "Operations under one state never change, release or invalidate anything that belongs to another state. Threads that each work only on their own state run without data races and obtain the same results as if each had run alone.",
 ["schedules", "histories"], "every interleaving of operations on several states, in one thread or in several",
 "the tests use one state and one thread",
 ["state.c", "singleton.c", "cee-json/value.c", "cee-json/parser.c", REL, RELJ],
 [("all bookkeeping lives in the state", "state.c, cee-resize.h"), ("shared JSON constants are immutable", "singleton.c, cee-json/value.c")],
 observe=["ThreadSanitizer reports", "per-thread result transcripts"])

prop("C06", "Strings hold exactly the formatted bytes through every edit",
 "A string made or edited with a format equals what standard formatting yields, appends extend it by exactly the appended text, and replacement leaves exactly the new text, at every length, including those where the storage must grow, and under each growth mode. A string is always NUL-terminated, a buffer requested with room for n bytes is usable for n bytes, and the handle returned by an edit holds the result.",
 ["inputs", "histories"], "all formats, argument values, lengths and edit sequences",
 "the tests use a handful of short strings that never cross a growth boundary",
 ["str.c", "cee-resize.h", "block.c", REL],
 [("two-pass formatting", "str.c cee_str_mkv/cee_str_mk_e/cee_str_catf/cee_str_replace"), ("growth", "cee-resize.h S(resize)")],
 observe=["returned strings", "writes within the promised capacity"])

prop("C07", "Trimming and substring replacement match their definitions",
 "Trimming removes exactly the leading or trailing run of blanks, tabs and line breaks. Replacing at an offset, replacing every occurrence of one text, or replacing several texts at once in one left-to-right pass yields exactly the text so defined, with its true length reported, for every input and every pair lengths, without touching memory outside the buffers.",
 ["inputs"], "all strings, offsets, needles (non-empty) and replacements (possibly empty or longer than the needle)",
 "no test calls the replacement functions",
 ["str.c", REL], [("result size bound", "str.c str_replace_all, str_replace_all_ext"), ("trim loops", "str.c cee_str_ltrim/cee_str_rtrim")],
 observe=["returned buffers and lengths"])

prop("C08", "Lists behave as growable sequences",
 "After any sequence of appends, insertions, removals and merges, a list has exactly the elements, order and size of the ideal sequence, its capacity is never below its size, and iteration visits each element once in order with its index, stops at the first non-zero callback result and returns that result (0 when it ran to the end). Merging appends the other list's elements and leaves that list unchanged; a missing list counts as empty.",
 ["histories", "inputs"], "every operation sequence, element count and initial capacity, including 0",
 "the tests append a few elements to one list",
 ["list.c", REL], [("geometric growth", "list.c cee_list_append/cee_list_insert"), ("iteration", "list.c cee_list_iterate")],
 observe=["list contents after each operation", "iteration event log"])

prop("C09", "Maps behave as dictionaries that remember insertion order",
 "After any sequence of adds, replacements, removals, renames, clones and merges, lookups, size, key and value listings (each pair once, keys and values in the same order) and the insertion-ordered key listing equal those of an ideal dictionary, adding an existing key returns and replaces the old value, and removing returns it. Iteration visits every pair once, stops at the first non-zero callback result and returns it; merging applies the given combining rule and leaves the source unchanged.",
 ["histories", "inputs"], "every operation sequence and key set, including adversarial insertion orders; distinct keys are compared by any consistent comparison function",
 "the tests insert ten keys and never remove, rename or merge",
 ["map.c", "musl-tsearch.c", REL], [("balanced search tree", "musl-tsearch.c"), ("insertion order list", "map.c cee_map_ordered_key_delete"), ("replace/merge", "map.c cee_map_add_e")],
 observe=["map queries after each operation", "iteration event log"])

prop("C10", "Sets behave as sets under their comparison function",
 "After any sequence of adds, removals, clears, clones and unions, membership, size, emptiness, listing and iteration (every element exactly once) equal those of an ideal set under the given comparison function. Adding an equal element keeps the one already present, finding returns the stored element, removing returns it or nothing, union leaves its inputs unchanged, and a missing set counts as empty.",
 ["histories", "inputs"], "every operation sequence and element set, including adversarial insertion orders",
 "the tests add a few elements and delete the state",
 ["set.c", "musl-tsearch.c", REL], [("balanced search tree", "musl-tsearch.c"), ("set operations", "set.c")],
 observe=["set queries after each operation"])

prop("C11", "Map and set operations stay logarithmic for every history",
 "In a map or set holding n elements, a lookup, insertion or removal in the search structure needs at most about 1.45*log2(n+2) + 2 comparisons per descent, whatever the order in which elements were inserted and removed. Sorted, reversed and adversarial orders are no worse.",
 ["histories", "inputs"], "every history of insertions and removals, in particular sorted and adversarial ones",
 "tests insert at most a few dozen elements, where even a degenerate tree looks fine",
 ["musl-tsearch.c", "map.c", "set.c", REL], [("AVL rebalancing on insert and delete", "musl-tsearch.c rot/__tsearch_balance/musl_tdelete")],
 observe=["number of calls of the user's comparison function"])

prop("C12", "Stacks, tuples, tagged values and blocks hold what was put in",
 "A stack is last-in first-out, never holds more than its size, refuses a push when full and yields nothing when popped or peeked beyond its content. Pairs, triples, quadruples, n-ary tuples (up to sixteen) and tagged values return exactly the members given, in order; blocks are zeroed or initialised as asked, report their size and are usable over all of it; a singleton keeps its tag and value whatever is deleted.",
 ["histories", "inputs"], "all sizes including 0, all operation sequences and member counts",
 "tests push and pop a couple of elements",
 ["stack.c", "tuple.c", "triple.c", "quadruple.c", "n_tuple.c", "tagged.c", "block.c", "singleton.c", REL],
 [("bounded push/pop", "stack.c"), ("member arrays", "tuple.c, triple.c, quadruple.c, n_tuple.c")],
 observe=["returned members", "stack queries"])

prop("C13", "Dictionaries find every key that was added, and only those",
 "A dictionary returns, for each key added, the value first added under it, and nothing for any other key, at every fill level, including key sets whose hashes collide and beyond the size it was made for. A dictionary that cannot get its memory is not made and leaves nothing behind.",
 ["inputs", "histories"], "all key sets, sizes and insertion orders",
 "tests add 10 keys to a dictionary sized for 100",
 ["dict.c", "musl-hsearch.c", REL], [("open addressing with resize", "musl-hsearch.c resize/lookup/musl_hsearch_r")],
 observe=["lookups after each addition"])

prop("C14", "Boxed numbers round-trip and are type-checked",
 "Each boxed number gives back exactly the value it was made from, for every width, sign and bit pattern, prints as the decimal form of that value within the given buffer size and reports the length needed. Reading it as any other type stops the program instead of yielding a wrong number.",
 ["inputs"], "all values of all ten primitive types, and all pairs of stored and requested type",
 "tests print one value per type",
 ["boxed.c", REL], [("type tag checked on every read", "boxed.c cee_boxed_to_*"), ("per-type formatting", "boxed.c cee_boxed_snprint")],
 observe=["returned values", "printed text", "termination of mistyped reads"])

prop("C15", "Environments resolve names by nearest scope; closures see their own",
 "Looking a name up in a chain of environments yields the binding of the innermost scope that defines it, and nothing if none does. Calling a closure passes it its state, its own environment and exactly the arguments of the call, in order.",
 ["histories", "inputs"], "all chains of scopes, shadowing patterns, rebindings and argument counts",
 "tests do not exercise environments or closures",
 ["env.c", "closure.c", REL], [("outward scope walk", "env.c cee_env_find"), ("variadic forwarding", "closure.c cee_closure_call")],
 observe=["lookup results", "arguments received by the callback"])

prop("C16", "The JSON parser accepts exactly JSON and yields the right values",
 "Every well-formed JSON text (RFC 8259, nesting up to the documented depth of 500, trailing commas tolerated) parses to the value it denotes: types, member order with the last duplicate winning, strings with all escapes decoded to UTF-8, integers exact over the signed and unsigned 64-bit range, other numbers as the nearest double. Every other text, including one with trailing garbage when the end is required or with an escape that is only half of a surrogate pair, is rejected with an error and no value.",
 ["inputs"], "all byte strings (raw bytes that are not UTF-8 inside strings, and the character U+0000, are outside the claim)",
 "the testers parse two fixed documents; the corpus tests are not part of the test run and only check acceptance",
 ["cee-json/tokenizer.c", "cee-json/parser.c", RELJ], [("tokenizer", "cee-json/tokenizer.c cee_json_next_token/parse_number/parse_string"), ("state machine", "cee-json/parser.c cee_json_parsex")],
 observe=["return code, error line and resulting value"])

prop("C17", "Parsing hostile bytes is contained",
 "Parsing any byte buffer of any length, not necessarily terminated, reads only within that buffer, terminates in time proportional to its size, never crashes, and either yields a value or reports an error with a line that exists in the input: the one (ended by \\n, \\r\\n or a lone \\r) on which the token that cannot continue a JSON text begins, so that line ends before that token move the reported line down by as many and nothing after it matters. Afterwards the state is fully usable and its deletion releases everything.",
 ["inputs"], "all byte buffers, including truncated, mutated, deeply nested and binary ones, placed flush against unreadable memory",
 "tests always parse NUL-terminated well-formed text",
 ["cee-json/tokenizer.c", "cee-json/parser.c", "cee-json/value.c", RELJ], [("end-of-buffer checks", "cee-json/tokenizer.c"), ("explicit parse stack with a depth limit", "cee-json/parser.c")],
 observe=["memory accesses around the buffer", "CPU time", "allocator balance", "reported lines of the same error below different numbers of line ends"])

prop("C18", "Printing a JSON value and parsing it back yields the same value",
 "For every JSON value made through the API or by parsing, compact and pretty output (to a buffer, to an allocated text, or to a descriptor behind a message) are well-formed JSON texts that denote that value: strings byte for byte, member order, array order, integers exactly and finite doubles to the last bit. Parsing the output yields an equal value, and printing that again yields the same text. The compact form has no white space between tokens; the pretty form has the same tokens, begins a line for each element and member, and indents with the nesting.",
 ["inputs"], "all values up to the documented nesting depth of 500 built from null, booleans, integers, doubles, UTF-8 strings, arrays and objects",
 "testers print a few shallow values and compare nothing",
 ["cee-json/snprint.c", "cee-json/tokenizer.c", "cee-json/parser.c", RELJ], [("printer stack machine", "cee-json/snprint.c cee_json_snprint"), ("string escaping", "cee-json/snprint.c str_append")],
 observe=["printed text checked by an independent JSON reader", "values after re-parsing"])

prop("C19", "The JSON printer announces its exact size and stays within it",
 "The length announced by a dry run equals the number of bytes a real run produces, in both formats; a real run never writes beyond the buffer size it was given, keeps the text terminated, and an allocating print returns a buffer that holds the whole terminated text. Any value, the undefined value and those without a form in JSON included, may be printed any number of times without being changed.",
 ["inputs", "configurations"], "all JSON values, both formats, every buffer size from 0 to more than needed",
 "testers always pass a generous buffer",
 ["cee-json/snprint.c", RELJ], [("two-pass printing", "cee-json/snprint.c"), ("allocation from the announced size", "cee-json/snprint.c cee_json_asprint")],
 observe=["announced and produced lengths", "guard bytes around the buffer"])

prop("C20", "JSON objects and arrays follow their model under every edit",
 "After any sequence of set, append, rename, remove, convert, insert, concatenate and listify calls, objects and arrays contain exactly the members, order and values the calls describe; typed getters return the value for the matching type, refuse every other type and never return a number altered by narrowing. Appending to a key turns its existing value, of whatever type, into an array first.",
 ["histories", "inputs"], "every edit sequence, key and value type",
 "the testers do a dozen sets on one object",
 ["cee-json/value.c", RELJ], [("typed setters and getters", "cee-json/value.c"), ("append with listify", "cee-json/value.c cee_json_object_append")],
 observe=["queries and printed form after each edit"])

prop("C21", "Merging JSON documents combines them recursively",
 "Merging one JSON object into another yields, for every key, the recursive merge where both sides hold objects, the concatenation where both hold arrays, and otherwise the source's value, keeping keys that only one side has. The source reads the same before and after, the call reports whether a merge was possible, and both documents stay usable and deletable.",
 ["inputs", "histories"], "all pairs of documents, repeated merges and merges of several sources",
 "one tester merges two fixed files' worth of keys",
 ["cee-json/value.c", "cee-json/cee_json_merge.c", "map.c", "list.c", REL, RELJ], [("recursive merge callback", "cee-json/value.c merge_json_value/cee_json_merge"), ("map merge", "map.c cee_map_add_e")],
 observe=["both documents after the merge"])

prop("C22", "Selectors and key search return the addressed value",
 "A selector made of member names, indexes, argument placeholders and a type check returns exactly the value at that path, and nothing when the path does not exist or the type differs; a number check accepts every kind of number. Searching a document for a key finds the member if it occurs anywhere, and nothing otherwise.",
 ["inputs"], "all documents, paths, placeholder arguments (any length) and type letters",
 "testers use two literal selectors",
 ["cee-json/value.c", RELJ], [("selector automaton", "cee-json/value.c cee_json_select"), ("recursive search", "cee-json/value.c cee_json_has")],
 observe=["returned values"])

prop("C23", "Escaping text for JSON is lossless and bounded",
 "Escaping any byte string produces text that, between quotes, is a valid JSON string for exactly those bytes; the returned length and the reported remainder of the buffer are exact, and nothing is written outside the destination.",
 ["inputs"], "all byte strings, including every control character, and all destination sizes",
 "no test calls it",
 ["cee-json/value.c", RELJ], [("escape table", "cee-json/value.c cee_json_escape_string")],
 observe=["destination bytes, returned length and remainder"])

prop("C24", "Saving JSON to a file and loading it back preserves it",
 "A document saved to a file in either format and loaded again, by path, stream or descriptor, is equal to the original, whatever its size; a file that is not a JSON text (including an empty one) loads as nothing with an error line. Merging files writes the merge of all inputs plus the list of their names; saving or merging that cannot write its whole result reports failure.",
 ["inputs", "fault_sequences"], "all documents and file contents, both formats, every loading entry point",
 "one tester loads one file",
 ["cee-json/value.c", "cee-json/cee_json_merge.c", RELJ], [("whole-file read and write", "cee-json/value.c cee_json_save*/cee_json_load_*")],
 observe=["file bytes", "loaded values"])

prop("C25", "Database rows round-trip and values are never interpreted as SQL",
 "A row inserted through bindings, a JSON document, a JSON array or a dynamic statement and then selected comes back with exactly the bound values (64-bit integers, any text including quotes and SQL fragments, blobs, NULL), under the declared column names, in row order, leaving all other rows and tables unchanged. Documented defaults are used for missing mandatory columns, and rows hidden or unlabelled by configuration are returned accordingly.",
 ["inputs", "histories"], "all column types, values (in particular hostile text) and input documents; column names come from trusted code",
 "no test touches the database layer",
 ["sqlite3/cee-sqlite3.c"], [("parameter binding", "sqlite3/cee-sqlite3.c cee_sqlite3_bind_run_sql"), ("JSON to binding", "populate_usage, cee_json_to_bind_info, collect_colums_values")],
 observe=["database contents read through plain SQLite", "result documents"])

prop("C26", "Database updates, deletes and upserts do what they report",
 "Update, update-if-exists, insert-or-update, select-or-insert and delete change exactly the rows their conditions name, in exactly the named columns, and report the row id, the number of changed rows and the used and unused keys truthfully. The next-integer helper returns one more than the current maximum, or 1 for an empty table, under a condition of any length.",
 ["histories", "inputs"], "every sequence of operations on a table, checked against an ideal table",
 "no test touches the database layer",
 ["sqlite3/cee-sqlite3.c"], [("existence check then write", "cee_sqlite3_update_if_exists, cee_sqlite3_update_or_insert, cee_sqlite3_select1_or_insert"), ("dynamic statements", "compose_dyn_stmts, cee_sqlite3_generic_opcode")],
 observe=["database contents after each operation", "status documents"])

prop("C27", "Database errors are reported and leave nothing behind",
 "When a statement is malformed, has an unbound parameter, violates a constraint, is given a value of the wrong type or fails part-way through its rows, the call returns (does not hang or crash), its result says so, and rows already stored are unaffected. After every call, successful or not, no statement is left open on the connection. A database that cannot be opened yields a null handle and leaves no connection behind, and an initialisation script that fails inside its transaction is not taken for success and changes nothing.",
 ["fault_sequences", "inputs", "histories"], "every operation combined with every kind of failure, at every row",
 "no test touches the database layer",
 ["sqlite3/cee-sqlite3.c"], [("unbound parameter check", "cee_sqlite3_bind_run_sql"), ("error propagation", "cee_sqlite3_select_iter, cee_json_set_error")],
 observe=["return codes, status documents", "open statements of the connection", "database contents"])

prop("C28", "Database joins attach to each document the rows its own keys select",
 "Joining a table into a JSON object or into each element of a JSON array attaches exactly the rows selected by that element's own key values (as a named array, or merged into the element), for every element, and reports an error in an element whose key is missing or unusable. Results selected under a name are added to what the document already holds under that name.",
 ["inputs", "histories"], "all arrays of documents, key types and tables",
 "no test touches the database layer",
 ["sqlite3/join.c", "sqlite3/cee-sqlite3.c"], [("per-element rebinding", "sqlite3/join.c join_one"), ("named selection", "cee_sqlite3_select_as, cee_sqlite3_select1_as")],
 observe=["joined documents"])

prop("C29", "String views slice text exactly and never read outside it",
 "Every view operation (trim, chop by count, character, text or predicate, search, compare, prefix and suffix test, number reading) returns exactly the slice or answer its definition gives, leaves the remainder as the rest of the view, and reads only bytes of the views it was given.",
 ["inputs", "histories"], "all views, delimiters (also longer than the view), counts and operation sequences",
 "no test compiles the string view code",
 ["strview.c"], [("count and data kept in step", "strview.c sv_chop_*")],
 observe=["returned and remaining views", "memory accesses around the viewed text"])

prop("C30", "The single-file release behaves like the module sources",
 "A program built with the committed single-file release produces the same observable results as the same program built with the separate modules.",
 ["programs", "inputs"], "all programs over the public interface",
 "the test programs are only run against single-file builds, and results are not compared between builds",
 [REL, RELJ, "release/cee.h", "cee-json/release/cee-json.h", "Makefile", "cee-json/Makefile"], [("release target concatenates the modules", "Makefile, cee-json/Makefile")],
 observe=["transcripts of identical workloads on both builds"])

prop("C31", "The search functions keep their structures exact: trees, hash tables, queues, linear search",
 "A tree search inserts a key only when no equal key is there and returns the node of the equal key; finding and deleting affect exactly the equal key, through every rebalancing; a walk visits the nodes in key order, leaves once and inner nodes three times, with their true depth; the tree stays balanced; destroying it hands every key to the callback once. A hash table finds exactly the entries entered, through every growth. Queue insertion and removal keep both directions of the links. Linear search returns the first equal element, or appends a copy. An insertion that finds no memory is refused and changes nothing.",
 ["histories", "inputs"], "all sequences of insertions, deletions and lookups, all keys and sizes",
 "no test calls these functions directly, and the containers above them use only a part of them, on a handful of keys",
 ["musl-tsearch.c", "musl-hsearch.c", "musl-insque.c", "musl-lsearch.c", REL], [("AVL rotation and height bookkeeping", "musl-tsearch.c rot, __tsearch_balance"), ("rehash at three quarters load", "musl-hsearch.c resize"), ("neighbour links", "musl-insque.c")],
 observe=["returned nodes, entries and elements", "walk events", "keys handed to the destructor", "live blocks"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
