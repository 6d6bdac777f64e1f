"""What each check runs.  n: cases per build variant in the quick tier."""
BOTH = ["mod", "rel"]
def core(drv, n, **k): return dict(bin="core", drv=drv, n=n, vars=BOTH, **k)
def js(drv, n, **k): return dict(bin="json", drv=drv, n=n, vars=BOTH, **k)
SANS = "address and undefined-behaviour sanitizers over the real code, plus an online monitor: "
GEN = "Each case is a fresh pseudo-random history of API calls (seeded by VERIF_SEED and the case number) on a fresh state; "
WORLD = GEN + "objects of all sixteen kinds are made, shared, nested and linked in cycles under every delete policy, edited, deleted, rooted and collected, next to an ideal object graph that predicts which blocks live and what each holds; "
def mem(bin, drv, n): return dict(bin=bin, drv=drv, n=n, vars=["mod"], san="msan", memonly=1, watchdog=60)
SQL = "Each case opens a fresh database with a random schema and binding table and runs a random history of calls next to an ideal table; after every call both tables are read back through plain SQLite and the connection is searched for open statements. Here "
def sq(drv, n, **k): return dict(bin="sql", drv=drv, n=n, vars=BOTH, **k)
PROPS = {
 "C01": dict(jobs=[dict(js("c01", 16000), memonly=1), dict(js("c01", 6000), vars=["mod"], san="msan", memonly=1)]
                 + [dict(sq("c%d" % i, 400), vars=["mod"], memonly=1) for i in (25, 26, 27, 28)]
                 + [dict(js("c01", 8000), san="fort", memonly=1)]
                 + [mem("core", "c%02d" % i, n) for i, n in ((6, 1500), (7, 1500), (8, 1500), (9, 1000), (10, 1000), (11, 40), (12, 1500), (13, 300), (14, 300), (15, 1000), (31, 600))]
                 + [mem("json", "c%02d" % i, n) for i, n in ((16, 1200), (17, 800), (18, 600), (19, 200), (20, 1500), (21, 1500), (22, 1000), (23, 1500), (24, 300))],
   rule=WORLD + "the address, undefined-behaviour and memory sanitizers judge every access; a build with compiler fortification (_FORTIFY_SOURCE=3, stack protector) judges the sizes handed to the C library; the uninitialised-memory build also runs every workload of C06 to C24. A case counts when objects were used after being linked, distinct by its operation log.",
   technique="runtime monitoring: ASan/UBSan and MSan over model-guided random API histories", need=["objects made", "deletions", "collections", "json documents in worlds"]),
 "C02": dict(jobs=[js("c02", 20000)], rule=WORLD + "then the state is deleted at a random point and every block ever taken under it is looked up in the allocation monitor; distinct by operation log.",
   technique="runtime monitoring: allocation monitor (every malloc/free under the library) + ASan double-free detection", need=["states deleted", "objects released with their state", "rejected texts in worlds", "big containers left to the state"]),
 "C03": dict(jobs=[js("c03", 16000)], rule=WORLD + "deletions dominate; after each one exactly the predicted set of blocks must be gone and every survivor intact; distinct by operation log.",
   technique="runtime monitoring: ideal ownership graph against the allocation monitor, ASan", need=["deletions that cascade", "objects released by deletion", "last references released", "sets cleared", "private structures deleted", "reference counts beyond 16 bits", "values put again", "combined values", "repeated operations that leave nothing", "big containers deleted"]),
 "C04": dict(jobs=[js("c04", 20000)], rule=WORLD + "collections dominate; after each one the live blocks must be exactly those reachable from roots, contexts and the stack, with their contents; distinct by operation log.",
   technique="runtime monitoring: ideal reachability against the allocation monitor, ASan", need=["collections that keep and release", "collections of everything", "objects kept by a collection", "deep structures", "tuples of more than 8", "big containers collected"]),
 "C05": dict(jobs=[js("c05", 8000), dict(bin="thr", drv="c05t", n=1200, vars=BOTH, san="tsan", par=2, watchdog=120)], rule=WORLD + "two to four states are interleaved in one thread, and two to six threads run such programs at once under ThreadSanitizer, each transcript compared with the same program run alone; distinct by operation log.",
   technique="runtime monitoring: ThreadSanitizer + transcript comparison with the sequential run + per-state models", need=["full table comparisons", "states deleted next to living ones", "collections next to other states", "programs compared with running alone", "concurrent histories", "histories with identical threads", "histories within one part of the library", "files merged"]),
 "C06": dict(jobs=[core("c06", 24000), dict(core("c06", 6000), san="fort")], rule=GEN + "strings are made, appended to, formatted over and replaced at lengths around every growth boundary under each growth mode; a case counts when at least one edit was verified byte for byte, distinct by the hash of its operation log.",
   technique="runtime monitoring: ASan/UBSan + byte-exact string model checked after each edit",
   need=["edits verified", "growths by catf", "growths by add", "growths by replace", "strings made by format"]),
 "C07": dict(jobs=[core("c07", 24000)], rule=GEN + "texts over small alphabets (so that needles overlap and touch) are trimmed and replaced; a case counts when at least one result was compared with the reference definition.",
   technique="runtime monitoring: ASan/UBSan + reference definitions of trimming and replacement", need=["texts beyond 16-bit lengths", "trims", "replacements at an offset", "occurrences replaced (single pair)", "occurrences replaced (several pairs)"]),
 "C08": dict(jobs=[core("c08", 16000)], rule=GEN + "appends, insertions at any position, removals, merges and iterations mirrored in an ideal sequence; a case counts when a full verification ran on a non-empty history.",
   technique="runtime monitoring: ASan/UBSan + ideal-sequence model checked online", need=["appends", "inserts", "merges", "iterations stopped by the callback", "steps on lists over 65536"]),
 "C09": dict(jobs=[core("c09", 12000)], rule=GEN + "adds, replacements, removals, renames, clones and merges with colliding and fresh keys mirrored in an ideal dictionary with insertion order; non-trivial when the history verified at least one non-empty map.",
   technique="runtime monitoring: ASan/UBSan + ideal-dictionary model checked online", need=["deep verifications", "replacements", "renames", "merges", "clones", "removals", "large maps", "maps beyond 16-bit sizes", "clones used further"]),
 "C10": dict(jobs=[core("c10", 16000)], rule=GEN + "adds, removals, clears, clones and unions under several comparison functions mirrored in an ideal set; non-trivial when a non-empty set was verified.",
   technique="runtime monitoring: ASan/UBSan + ideal-set model checked online", need=["deep verifications", "adds of an equal element", "unions", "clones", "clears", "large sets", "sets beyond 16-bit sizes", "clones and unions used further"]),
 "C11": dict(jobs=[core("c11", 700)], rule=GEN + "maps and sets are filled and emptied in sorted, reversed, alternating, sawtooth and random orders while the comparison callback counts its calls per operation; non-trivial when operations on at least 64 elements were measured.",
   technique="runtime monitoring: comparison-counting callbacks checked against the logarithmic bound per operation", need=["lookups measured", "insertions measured", "removals measured"]),
 "C12": dict(jobs=[core("c12", 24000)], rule=GEN + "stacks, pairs, triples, quadruples, n-tuples, tagged values, blocks and singletons mirrored in plain arrays; non-trivial when contents were verified.",
   technique="runtime monitoring: ASan/UBSan + array models checked online", need=["pops", "full verifications", "refused pushes", "pops of an empty stack", "large stacks filled", "singletons"]),
 "C13": dict(jobs=[core("c13", 3000)], rule=GEN + "dictionaries are filled below, at and beyond their nominal size with random, sequential and deliberately hash-colliding keys and every key and many absent keys are looked up; non-trivial when keys were added.",
   technique="runtime monitoring: ASan/UBSan + ideal-dictionary model checked online", need=["keys added", "dicts filled beyond their size", "large dicts", "dicts beyond 16-bit sizes"]),
 "C14": dict(jobs=[core("c14", 3000)], rule=GEN + "every width is boxed from boundary and random bit patterns, read back, printed at every buffer size, and read as wrong types in forked children that must be stopped; non-trivial when a value was boxed.",
   technique="runtime monitoring: ASan/UBSan + bit-exact round-trip oracle; mistyped reads observed in forked children", need=["values boxed", "truncated prints", "mistyped reads stopped"]),
 "C15": dict(jobs=[core("c15", 12000)], rule=GEN + "chains of environments with shadowed names are searched and compared with a nearest-scope model, and closures record the state, environment and arguments they receive; non-trivial when a name was looked up or a closure called.",
   technique="runtime monitoring: ASan/UBSan + nearest-scope model, argument recorder inside the callee", need=["names looked up", "names found in an outer scope", "closure calls", "calls with more than 255 arguments"]),
 "C16": dict(jobs=[js("c16", 12000)], rule="Each case is one text (emitted from a random value tree in a random style, a mutation of one, or a JSON conformance seed and its mutations) given to the parser with and without the end-of-input flag and compared with an independent strict parser: accept/reject, every value, and the error line; a case counts when a text whose verdict is specified was decided, distinct by the text.",
   technique="runtime monitoring: ASan/UBSan + differential oracle (independent strict RFC 8259 parser)", need=["texts accepted", "texts rejected", "values compared", "values compared beyond the documented depth", "malformed texts with unspecified features", "token sequences enumerated", "token sequences near the grammar"]),
 "C17": dict(jobs=[js("c17", 9000, watchdog=60)], rule="Each case feeds a batch of hostile exact-size buffers (random bytes, structure-aware mutations, truncations, deep nesting, huge buffers) to the parser and then uses what was accepted; a case counts when buffers were parsed, distinct by their bytes.",
   technique="runtime monitoring: ASan/UBSan redzones around exact-size buffers + CPU-time watchdog + linear-time monitor", need=["buffers accepted", "buffers rejected", "buffers over 200 kB", "error lines compared below line ends", "error lines below tokens compared"]),
 "C18": dict(jobs=[js("c18", 6000)], rule="Each case is one document (parsed or built through the API: every type, extreme numbers, every class of character, nesting to the limit) printed compactly and pretty, judged by an independent parser, read back and printed again; distinct by the document.",
   technique="runtime monitoring: ASan/UBSan + round-trip oracle through an independent parser", need=["round trips", "parsed documents printed", "built documents printed", "prints to a descriptor", "lines of pretty output"]),
 "C19": dict(jobs=[js("c19", 2400)], rule="Each case prints one document into exact-size heap buffers of every relevant size, dry and allocating; distinct by the document.",
   technique="runtime monitoring: ASan redzones around exact-size buffers + announced-length comparison", need=["bounded prints", "allocating prints", "announced sizes compared"]),
 "C20": dict(jobs=[js("c20", 12000)], rule=GEN + "JSON arrays and objects are edited, shared, concatenated and converted next to an ideal tree, and every typed getter is called on every type of value; non-trivial when the whole tree was compared.",
   technique="runtime monitoring: ASan/UBSan + ideal-tree model checked online", need=["model comparisons", "typed reads", "conversions", "listify", "insertions", "element removals"]),
 "C21": dict(jobs=[js("c21", 12000)], rule=GEN + "pairs of objects with overlapping members are merged under every operation of the merge API, compared with the reference merge, and both sides are deleted in either order; non-trivial when both sides have members.",
   technique="runtime monitoring: ASan/UBSan + reference merge + liveness of both sides after deletion", need=["merges", "targets deleted", "sources deleted"]),
 "C22": dict(jobs=[js("c22", 9000)], rule="Each case builds one document and asks it a batch of selectors (names, indexes, placeholders, expected types, missing paths, incomplete selectors) answered independently on the model; distinct by document and selectors.",
   technique="runtime monitoring: ASan/UBSan + reference path resolution", need=["selections that find a value", "index placeholders", "name placeholders", "key searches", "near-miss keys", "type checks", "documents of hundreds of levels"]),
 "C23": dict(jobs=[js("c23", 12000)], rule="Each case escapes six byte strings (all byte values, control-heavy, quote-heavy) from exact-size sources into exact-size destinations of every relation to the size needed, decodes the result independently and through the library's parser; distinct by the bytes.",
   technique="runtime monitoring: ASan redzones + canary bytes + independent decoder", need=["destinations too small", "escaped texts parsed back"]),
 "C24": dict(jobs=[js("c24", 4000)], rule="Each case writes, loads, mutates or merges files in a scratch directory (from empty to several megabytes; including full devices, files cut short, unreadable, missing and non-JSON files) and compares with the documents; distinct by content.",
   technique="runtime monitoring: ASan/UBSan + round-trip oracle over the real file system with injected failures", need=["unwritable merges reported", "documents saved and loaded", "failed saves reported", "files merged", "failed merges reported", "files rejected", "documents loaded from a buffer", "files over 1 MB", "partial saves reported", "unreadable files", "inputs that list originals"]),
 "C25": dict(jobs=[sq("c25", 8000)], rule=SQL + "inserts and selects of every kind weigh most; distinct by operation log.",
   technique="runtime monitoring: ASan/UBSan + ideal-table model, database re-read through plain SQLite after every call",
   need=["rows inserted", "documents inserted", "dynamic inserts", "array elements inserted", "documents bound", "documents inserted by their own keys", "rows selected", "single rows selected", "hidden columns", "unlabelled rows", "mandatory columns defaulted", "texts without a terminator", "full table comparisons", "tables of many rows", "histories beyond 16-bit sizes"]),
 "C26": dict(jobs=[sq("c26", 8000)], rule=SQL + "updates, upserts, select-or-insert, deletes and next-integer calls weigh most; distinct by operation log.",
   technique="runtime monitoring: ASan/UBSan + ideal-table model, database re-read through plain SQLite after every call",
   need=["updates", "updates of several rows", "updates of a missing row", "rows inserted because none was there", "rows found instead of inserted", "deletes", "key reports checked", "next integers", "long conditions", "full table comparisons", "audited comparisons", "histories beyond 16-bit sizes"]),
 "C27": dict(jobs=[sq("c27", 8000)], rule=SQL + "more than half of the calls meet an injected failure (malformed text, unknown names, unbound parameters, a function failing at some row, a refusing trigger, read-only, locked or interrupted database) or a constraint; distinct by operation log.",
   technique="runtime monitoring: ASan/UBSan + fault injection, open-statement monitor and ideal-table model after every call",
   need=["failures reported", "failures part-way through the rows", "constraint violations", "unusable values refused", "faults: malformed statement", "faults: unbound parameter", "faults: failure at a row", "faults: refused by a trigger", "faults: locked", "faults: writes locked", "faults: interrupted", "faults: read-only", "full table comparisons", "databases that cannot be opened", "databases created", "failing scripts stopped", "parameters without a name"]),
 "C28": dict(jobs=[sq("c28", 8000)], rule=SQL + "joins of the table into documents and arrays of documents, and selections under a name, weigh most; distinct by operation log.",
   technique="runtime monitoring: ASan/UBSan + relational model of the join, element by element",
   need=["joins with parameters that take no value", "elements joined", "rows joined", "unusable keys reported", "join failures reported", "results added to an existing name", "histories beyond 16-bit sizes"]),
 "C29": dict(jobs=[dict(bin="sv", drv="c29", n=400000, vars=["mod"])], rule="Each case is a chain of view operations over texts whose views lie in exact-size heap blocks, every answer compared with its definition; distinct by the hash of its operation log.",
   technique="runtime monitoring: ASan redzones around every view + reference definitions", need=["trims", "chops by text", "chops by character", "chops by count", "delimiters longer than the view", "delimiters at the end", "comparisons", "numbers read", "predicate slices"]),
 "C30": dict(jobs=[core("c%02d" % i, n) for i, n in ((6, 6000), (7, 4000), (8, 4000), (9, 3000), (10, 3000), (11, 60), (12, 5000), (13, 800), (14, 500), (15, 2000), (31, 2000))]
                  + [js("c%02d" % i, n) for i, n in ((16, 4000), (17, 600), (18, 2000), (19, 500), (20, 3000), (21, 3000), (22, 3000), (23, 3000), (24, 800), (3, 3000), (4, 3000))],
   rule="Each case is a workload of another property run once on the separate modules and once on the single-file release; everything the library returns, prints or holds goes into a transcript and the two transcripts are compared; distinct by operation log.",
   technique="runtime monitoring: differential transcripts of identical workloads on both builds, under ASan/UBSan"),
 "C31": dict(jobs=[core("c31", 24000)], rule=GEN + "search trees grow and shrink in sorted, reversed, alternating and random orders, hash tables are filled through every growth with plain, hash-equal and non-ASCII keys, queues are linked and unlinked, and arrays searched, each next to a plain model; non-trivial when operations were compared.",
   technique="runtime monitoring: ASan/UBSan + sorted-array, dictionary and sequence models; the tree's shape judged through its visitor", need=["tree insertions", "tree deletions", "parents of deleted nodes", "walks", "trees destroyed", "hash tables", "hash entries", "queue insertions", "queue removals", "linear searches", "linear appends", "linear preloads"]),
}
# the checks that take seconds look further
for _p, _f in [("C02", 1.5), ("C03", 2), ("C04", 1.5), ("C06", 2), ("C07", 2), ("C08", 2), ("C09", 3), ("C10", 2), ("C11", 2), ("C12", 3), ("C13", 3), ("C14", 2), ("C15", 3), ("C16", 2.5), ("C17", 2), ("C18", 2), ("C19", 2),
               ("C20", 3), ("C21", 2), ("C22", 3), ("C23", 3), ("C24", 2), ("C25", 1.5), ("C26", 2), ("C28", 1.5), ("C29", 5), ("C31", 2)]:
    for _j in PROPS[_p]["jobs"]:
        _j.setdefault("n_thorough", _j["n"] * 40)
        _j["n"] = int(_j["n"] * _f)
