#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "crates/unicode-intervals/src/"
PY = "crates/unicode-intervals-py/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


# ---------------------------------------------------------------- claimed
p("C01", "Concurrent queries are exact and isolated",
  "Whatever other threads do with the library meanwhile and whatever was asked before, a query that returns gives exactly the ascending, disjoint, maximally merged code point intervals its own arguments define: the code points of the inclusive range whose general category in the chosen Unicode version is selected (all when none is given, none for an empty selection) and not excluded, plus the included characters, minus the excluded ones. A bound above U+10FFFF, or a minimum above the maximum, gives the matching error instead, for intervals and interval sets alike. Builders may be shared, cloned and reused by any number of threads without any answer changing.",
  ["schedules", "inputs", "histories"],
  "every interleaving of any number of threads at any point inside a call; every history of earlier queries; every version, category selection, exclusion, character lists and range",
  "the tests make one call at a time from one thread, each on a fresh builder, and compare a few dozen argument combinations, nearly all on one version",
  [C + "lib.rs", C + "query.rs", C + "intervals.rs", C + "categories.rs", C + "tables/"],
  [("no shared mutable state: tables and masks are const, builders are by-value", C + "lib.rs, query.rs"),
   ("range clamp, merge, subtract; 256-bit mask path", C + "query.rs, intervals.rs")],
  [("IntervalQuery fields", "the arguments collected so far", C + "lib.rs"), ("BY_NAME", "per-version category tables", C + "tables/*.rs")],
  ["IntervalQuery::intervals", "IntervalQuery::interval_set"])
p("C02", "A failed allocation has no other effect",
  "If a memory allocation fails at any point inside a library call and the failure unwinds, the call has no other effect: builders, interval sets, iterators and category sets that existed before give the same answers as before, and later calls on any thread are exact. Calls repeated with the same arguments while memory is available do not keep more of it each time. The same call repeated once memory is available returns the exact answer.",
  ["fault_sequences", "inputs", "histories", "schedules"],
  "every allocation of every call as the failing one, any sequence of such failures, other threads running or stopped inside calls",
  "no test makes an allocation fail",
  [C + "query.rs", C + "intervals.rs", C + "intervalset.rs", C + "categories.rs", C + "lib.rs"],
  [("results are built in owned locals that unwinding drops; nothing is published before it is complete", C + "query.rs, intervals.rs, intervalset.rs")],
  [("intervals / offsets vectors", "the allocations of a call", C + "intervals.rs, intervalset.rs")],
  ["process allocator", "results of later calls"])
p("C03", "A shared interval set is one immutable ascending list",
  "An interval set is an immutable snapshot of one ascending list of distinct code points, the one its query defines. For any number of threads reading, cloning and dropping it in any interleaving, its length, emptiness, membership, code point at an index, index of a code point, index of the first code point at or above a given one (the length if there is none) and its iteration all agree with that list. Any 32-bit argument is answered, in or out of range, without a panic.",
  ["schedules", "inputs", "histories"],
  "every interleaving of readers at any point inside a lookup; every set a query can produce; every 32-bit index or code point",
  "the tests read small or fixed sets from one thread, one lookup at a time",
  [C + "intervalset.rs", C + "lib.rs"],
  [("cumulative offsets with binary search over offsets and left bounds", C + "intervalset.rs"),
   ("read-only fields, shared by reference", C + "intervalset.rs")],
  [("intervals, offsets, size", "the list in compressed form", C + "intervalset.rs")],
  ["IntervalSet::{len,is_empty,contains,codepoint_at,index_of,index_above,iter,clone}"])
p("C04", "Iteration delivers each code point exactly once",
  "However calls that take from the front and from the back of a code point iterator interleave among the threads that pass it around, and wherever a consumer panics or gives up half way, every code point of the interval set is delivered exactly once: ascending from the front, descending from the back. Once the two ends meet, both return nothing forever. A clone continues independently from the position at which it was made.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of front and back consumers, skips, clones and consumer crashes, over every set a query can produce",
  "the tests collect forward once and take one element from the back",
  [C + "intervalset.rs"],
  [("forward and backward delegation to a flat-map of ranges", C + "intervalset.rs")],
  [("Codepoints", "the two positions of the iterator", C + "intervalset.rs")],
  ["Codepoints::{next,next_back,clone}", "IntervalSet::iter"])
p("C05", "Category expansion of a faulty input stream",
  "Expanding category names taken from a caller's stream returns each selected category once, in the version's normalised order, where a one-letter class stands for all its members; an unknown name gives an error that names the first unknown entry of the stream. The stream may stop early, misreport its size, pause while other threads run, call the library again, or panic at any entry: a panic reaches the caller unchanged, the stream is never asked for more after it has ended, and no other or later call is affected.",
  ["fault_sequences", "inputs", "schedules"],
  "every stream of entries, every position for a fault or a pause inside the stream, every interleaving with other calls, every version",
  "the tests pass three short, well-behaved arrays for one version",
  [C + "categories.rs", C + "lib.rs"],
  [("entries are folded into a value-type set, then filtered through the normalised order", C + "categories.rs as_general_categories")],
  [("wanted", "categories selected so far, local to the call", C + "categories.rs")],
  ["as_general_categories"])
p("C06", "Rendering into a failing sink",
  "When a category, a category set, a version or an error is written to a sink that fails, short-writes or panics at any point, what reached the sink is a prefix of the full text, the failure is reported to the caller, and nothing is written after it. A sink that never fails receives exactly the full text: the abbreviation, the version number, the error message, or the members' abbreviations in canonical order separated by a comma and a space.",
  ["fault_sequences", "inputs"],
  "every position of the first failing write, every category set, category, version and error value",
  "the tests render a handful of values into strings, which never fail",
  [C + "categories.rs", C + "error.rs", C + "lib.rs"],
  [("each write's result is propagated with ?", C + "categories.rs, error.rs, lib.rs Display impls")],
  [], ["fmt::Write sinks given to write!/format!"])
p("C07", "A stalled caller never blocks the others",
  "A thread that is stopped for any time, or for ever, at any point inside a call to the library never keeps calls on other threads from finishing. Every call finishes within a bounded number of its own steps, whatever the schedule.",
  ["schedules", "fault_sequences"],
  "every point inside every call as the place where a thread stops, every schedule of the others",
  "the tests never stop a thread inside a call",
  [C + "query.rs", C + "intervalset.rs", C + "categories.rs", C + "lib.rs"],
  [("no locks, no lazily initialised statics: tables, masks and orders are computed at compile time or per call", C + "query.rs, lib.rs")],
  [], ["steps per call under the simulator"])
p("C08", "Answers do not depend on clock, entropy or environment",
  "The same sequence of calls gives the same results, in the same order, whatever the system clock reads or jumps to, whatever entropy the system hands out, whatever the environment variables, addresses or thread identities are. In particular the order of listed and expanded categories and of rendered sets is a function of the arguments alone.",
  ["configurations", "schedules", "inputs"],
  "every clock reading and jump, entropy stream, environment, address layout and thread assignment",
  "the tests run in one environment and compare one run with constants",
  [C + "lib.rs", C + "categories.rs", C + "query.rs"],
  [("fixed enumeration order and stable, tie-broken sort", C + "lib.rs normalized_categories, categories.rs Iter")],
  [], ["results of all public calls in pairs of runs"])
p("C09", "Python: one shared category tuple per version",
  "In Python, every successful call that lists the categories of one Unicode version, from any thread and in any interleaving, also after calls that failed or were interrupted, returns the very same tuple object for the life of the process. The tuple holds that version's 30 category abbreviations in normalised order: by number of intervals, ties alphabetical, control and surrogate last. Different versions have different tuple objects, and no version given means the latest.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of first and later calls over all versions, with failures and garbage collections during the first calls",
  "the tests make four calls in one thread for two versions",
  [PY + "src/lib.rs", C + "lib.rs"],
  [("per-version once-set slots indexed by version", PY + "src/lib.rs categories"),
   ("normalised order", C + "lib.rs normalized_categories")],
  [("category cache", "one slot per version, empty until first use", PY + "src/lib.rs")],
  ["unicode_intervals.categories"])
p("C10", "Python: listing categories always completes",
  "In Python, listing categories never hangs or kills the process, whatever happens in the middle of the first call for a version: a garbage collection whose finalisers switch threads or list categories themselves, a failed allocation, other threads calling at the same moment, or a fork of the process. Once such events stop, every call in every thread, and in the forked child, returns the right tuple within a bounded number of steps.",
  ["schedules", "fault_sequences", "crash_points"],
  "every allocation of the call as the place of a collection, thread switch, re-entrant call, fork or failure, on every supported CPython (3.10 and 3.11 collect during allocations)",
  "the tests call from one thread, without any event inside the call",
  [PY + "src/lib.rs"],
  [("the cached value is built before the once-set slot is touched; no lock is held while Python runs", PY + "src/lib.rs categories")],
  [("category cache", "one slot per version", PY + "src/lib.rs")],
  ["unicode_intervals.categories"])
p("C11", "Python: concurrent calls are exact and isolated",
  "In Python, whatever other threads do meanwhile and whatever was called before, a query or a category expansion returns exactly the tuple its own arguments define (for a query the same intervals as the Rust library; the latest version when none is given), or raises ValueError for an unknown category, an unknown version, a bound above U+10FFFF (OverflowError if it does not fit 32 bits) or a minimum above the maximum. Version objects passed between threads stay equal to themselves and unequal to the others, and print the version they were made from.",
  ["schedules", "inputs", "histories"],
  "every interleaving at interpreter switch points, including inside callbacks from the library into Python; all arguments and versions",
  "the tests call from one thread; the comparison with hypothesis covers one version",
  [PY + "src/lib.rs", C + "query.rs", C + "lib.rs"],
  [("arguments are copied out of Python objects before the search starts", PY + "src/lib.rs query"),
   ("exhaustive mapping between the two version types", PY + "src/lib.rs")],
  [], ["unicode_intervals.query", "unicode_intervals.as_general_categories", "unicode_intervals.UnicodeVersion"])
p("C12", "Python: any iterable of names, faults included",
  "In Python, category arguments may be any iterable of strings, as the type stub promises, but not a bare string (TypeError); the call behaves as if given the list of the items delivered, in order. If the iterable raises at any point, including an interrupt, or delivers something that is not a string, the call raises that very exception or TypeError and changes nothing for later calls. The iterable may switch threads, call the library again, be changed by others, or misreport its length without any call returning a wrong answer, hanging or killing the process.",
  ["fault_sequences", "schedules", "inputs"],
  "every iterable type, every position and kind of fault inside the iteration, every interleaving at its switch points",
  "the tests pass short lists only",
  [PY + "src/lib.rs", PY + "python/unicode_intervals/__init__.pyi"],
  [("extraction through the iterator protocol", PY + "src/lib.rs"), ("Iterable[str] in the stub", PY + "python/unicode_intervals/__init__.pyi")],
  [], ["unicode_intervals.query", "unicode_intervals.as_general_categories"])
p("C13", "Python: memory failures raise and leak nothing",
  "In Python, when an allocation of the interpreter fails at any point inside a call of the bindings, the call either returns the exact answer or raises an exception; the process survives, and the same call repeated once memory is available returns the exact answer. Calls that return or raise, repeated any number of times, leave the number of live allocations and the reference counts of the objects involved unchanged once their results are dropped.",
  ["fault_sequences", "histories", "inputs"],
  "every interpreter allocation of every call as the failing one; every history of failing and succeeding calls",
  "no test makes an allocation fail or counts references",
  [PY + "src/lib.rs"],
  [("owned and borrowed references are tracked by types", PY + "src/lib.rs"), ("panics are turned into exceptions at the boundary", PY + "src/lib.rs #[pyfunction]")],
  [], ["CPython allocator hooks", "sys.getrefcount"])
p("C14", "Table regeneration is all or nothing",
  "Regenerating a version's table file either leaves the existing file exactly as it was (or absent if it was absent) and fails, or replaces it by the complete table with one slice per category in alphabetical order of the full category names. This holds when the download fails or is cut short, the generator tool fails or leaves a category out, the disk is full or a write fails, when the run is interrupted, and when the process dies at any instant, also while other regenerations run at the same time in the same directory. A run that reports success has put the complete table in place, and once the faults stop the next run succeeds.",
  ["fault_sequences", "crash_points", "schedules"],
  "every sequence of faults of the network, the tool and the file system, an interrupt or a crash at any point, every interleaving of simultaneous runs",
  "no test runs the generator script",
  ["generate_tables.py"],
  [("download, extraction and generation come before the output is touched; checked subprocess status", "generate_tables.py main, ucd_generate"),
   ("the output is replaced in one step", "generate_tables.py main")],
  [("src/tables/v*.rs", "the generated file", "generate_tables.py get_output_path")],
  ["content of the output file after the run"])
p("C15", "Calls from inside other calls are exact",
  "The library runs code of its caller in the middle of a call: the stream of category names and its destructor, the sink, the closures given to the iterator, the destructors of the values it consumes, the global allocator, the panic hook. Whatever such code calls the library for on the same thread, with the same or other shared builders, sets and category sets, the inner call gives exactly the answer it would give on its own, and the outer call then ends exactly as it would have without it. No such nesting, to any depth, panics, hangs or aborts.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every point inside every call at which code of the caller runs, every allocation and release included; every inner call; every interleaving with other threads",
  "the tests never call the library from a callback, a destructor or an allocator",
  [C + "lib.rs", C + "query.rs", C + "intervalset.rs", C + "categories.rs"],
  [("no thread-local or shared scratch state; nothing is borrowed, locked or half-updated while code of the caller can run", C + "query.rs, lib.rs, categories.rs")],
  [], ["results of inner and outer calls"])
# ------------------------------------------------------------ not applicable
p("P20", "Bundled tables match the Unicode standard",
  "For every bundled version, every code point from 0 to U+10FFFF is in exactly one of the 30 category tables, the one the Unicode Character Database of that version gives, and each table is sorted and maximally merged.",
  ["inputs"], "every code point of every bundled version",
  "the tests check that the union covers the code space, not that the tables are disjoint or agree with the standard",
  [C + "tables/"], [("generated from the UCD", "generate_tables.py")])
p("P21", "The two query paths agree",
  "A query whose bounds and characters lie below 256 gives the same answer whether or not the small-range fast path is used.",
  ["inputs"], "every query below 256", "the tests sample argument combinations on one version",
  [C + "query.rs"], [("bit masks built at compile time from the same tables", C + "query.rs")])
p("P22", "Names round-trip",
  "Every version and every category parses from exactly the text it prints, any other text is rejected with an error quoting it, and the Python version type maps one to one onto the Rust one.",
  ["inputs"], "every string", "the tests parse the valid names and one invalid name",
  [C + "lib.rs", C + "categories.rs", PY + "src/lib.rs"], [("literal matches", C + "lib.rs, categories.rs")])
p("P23", "Category sets are sets",
  "A category set built by any sequence of additions, removals and unions contains exactly the categories added and not removed since; length, emptiness and iteration order follow, and the one-letter classes contain exactly their members.",
  ["inputs", "histories"], "every sequence of operations", "the tests apply one operation to a few sets",
  [C + "categories.rs"], [("a 30-bit mask", C + "categories.rs")])
p("P24", "Normalised category order",
  "For every version the normalised order is a permutation of the 30 categories sorted by interval count with ties alphabetical, except control and surrogate, which come last.",
  ["inputs"], "every version", "the Rust tests check one version, the Python tests another",
  [C + "lib.rs"], [("const bubble sort on count and rank", C + "lib.rs")])
p("P25", "Compatibility with hypothesis",
  "For the interpreter's own Unicode version, Python queries, category lists and expansions give what hypothesis's character map gives.",
  ["inputs"], "all arguments", "300 sampled queries",
  [PY + "src/lib.rs"], [("same semantics and ordering by design", C + "query.rs, lib.rs")])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
