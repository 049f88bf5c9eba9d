"""What each registered check runs."""

COMMON_REAL = ["the whole library of /repo (all sources of LIBRARY_SOURCES), compiled from the current tree with "
               "ASan, UBSan, libstdc++ assertions and basic-block instrumentation"]
COMMON_STUB = ["clock: executed basic blocks", "callers, buffers and sinks: simulated clients"]

RULE = ("Each run draws a scenario (documents, damage in transit, client operations, faults) from one PRNG; texts come "
        "from corpus, dictionary and coverage-guided mutation. Counted as non-trivial and distinct: runs whose event "
        "history (every callback with its contents, every status, every fault) differs from all others of the worker.")

TECH = "deterministic simulation with fault injection: seeded search over "

SAMPLED = ("Seeded search, not exhaustive: holds on every simulated run, says nothing about scenarios not drawn. "
           "Trusts the compiler instrumentation and the simulator; every violation is replayed twice in fresh "
           "processes before it is reported. ")


def hl(runs, tech, note, **k):
    d = dict(units=["prop_hl"], variants=["ndebug"], runs={"quick": runs, "thorough": runs * 40},
             cap={"quick": 75, "thorough": 780}, level="exploration", rule=RULE,
             technique=TECH + tech, note=SAMPLED + note)
    d.update(k)
    return d


def io(runs, tech, note, **k):
    k.setdefault("units", ["prop_io", "disk"])
    k.setdefault("cap", {"quick": 45, "thorough": 780})
    return hl(runs, tech, note,
              opts={"cli": True, "wraps": ["fopen", "fopen64", "fclose", "exit", "ulight_source_to_html"]},
              stub=["disk: simulated files behind fopen/fclose with planned faults",
                    "process: standard output and standard error are simulated devices"], **k)


def js(tech, note, **k):
    d = dict(kind="js", runs={"quick": 10**7, "thorough": 10**9}, cap={"quick": 40, "thorough": 780},
             level="exploration", technique=TECH + tech, note=SAMPLED + note)
    d.update(k)
    return d


CHECKS = {
    "C01": hl(1000000, "sources, damage in transit and flush points; invariants over the callback history",
              "Every callback's tokens are checked against the ordering, bounds, naming and code point invariants."),
    "C02": hl(1000000, "buffer sizes (flush schedules) and scribbling callbacks; differential against one huge buffer",
              "The reference is the same library with buffers that never fill, so a defect that is the same at "
              "every buffer size is not seen here."),
    "C03": hl(1000000, "request histories and buffer sizes; protocol monitor on every callback",
              "Buffers are exact-size blocks under AddressSanitizer."),
    "C04": hl(1000000, "sources, names and buffer sizes; refinement against an executable renderer",
              "The renderer is independent of the library and works on the token stream of a separate request."),
    "C05": hl(1000000, "sources and damage in transit, on a simulated clock (basic blocks) with a step bound",
              "Both builds (assertions on and off) run. The bound is 400000 + 8000 n + 20 n^2 basic blocks. Nesting "
              "deeper than the simulated stack (1 GB) is not explored; see DESIGN.md for the known stack overflows.",
              variants=["ndebug", "debug"]),
    "C06": hl(1000000, "sources and surroundings in memory; differential between surroundings, under AddressSanitizer",
              "Out-of-range reads are seen by the sanitizer at exact-size blocks and by differing results when the "
              "surroundings differ."),
    "C07": io(1000000, "histories of allocating operations with failing allocations (any position, any duration) and "
              "retries; results against failure-free runs, ledger of live blocks",
              "The allocation seam counts operator new and delete; malloc inside the C and C++ runtimes does not fail.",
              units=["prop_alloc", "disk"],
              rule="Each run is one history of creating and deleting states, allocating, highlighting, loading files "
                   "and using the memory resource, with failing allocations. Counted as distinct: different event "
                   "histories."),
    "C08": hl(1000000, "consumer failures at every kind of flush, with retries on the same state; prefix oracle",
              "The reference output comes from a failure-free request in the same process."),
    "C09": hl(1000000, "thread interleavings at basic-block granularity, nesting of requests and failing consumers; "
              "differential against each request alone in a cold process",
              "Threads are real but run one at a time; the schedule preempts them between basic blocks of library "
              "code, so reorderings below that (memory model effects) are not explored.", units=["prop_conc"], mixed=True,
              variants=["ndebug", "race"],
              rule="Each run draws documents, 1 to 4 threads with up to 3 requests each, requests nested in callbacks "
                   "and a schedule of preemptions. Counted as distinct: different event histories, including every "
                   "switch between tasks and every callback."),
    "C10": hl(1000000, "histories of setters, valid, invalid and failing requests over several states; refinement "
              "against a model of the configuration, results against fresh states in another process",
              "The reference for accepted requests is the library itself on a fresh state, run in reverse order in a "
              "cold process (a quarter of the workers) or in the same process (the others).", units=["prop_state"],
              mixed=True,
              rule="Each run is one history of up to about 60 operations (creating, setting, copying, requesting) on "
                   "up to three states whose source and output memory is reused. Counted as distinct: different "
                   "sequences of operations, callbacks and results."),
    "C11": hl(1000000, "sources and flush points; refinement of the coalesced stream against the plain one",
              "The plain stream of the same library is the reference."),
    "C12": hl(1000000, "embedded texts, positions and buffer sizes; refinement against stand-alone requests",
              "Regions are found by an independent scanner restricted to unambiguous documents."),
    "C15": hl(1000000, "documents, damage, parser options, locales, bytes behind the text, and a visitor that throws at "
              "any event; refinement against a reference parser",
              "Where the documented reasons are ambiguous (a text that ends inside a member, an unterminated comment) "
              "the reference allows each of the fitting ones. Locales are simulated behind strtod and localeconv.",
              units=["prop_json"], variants=["ndebug", "debug", "race"],
              rule="Each run parses one to three generated, mostly damaged documents with drawn options. Counted as "
                   "distinct: different event histories."),
    "C16": hl(1000000, "operation histories and failing sinks; refinement against a list model",
              "The buffer is also on the path of every other streaming check; here its whole interface is driven.",
              units=["prop_buf"], variants=["ndebug", "debug"],
              rule="Each run is one history of operations on one buffer with one element type, source kind and sink, "
                   "with at most one window of failing sink calls. Counted as distinct: different sequences of "
                   "operations and sink calls."),
    "C13": io(1000000, "file contents and disk faults (short reads, read errors, failing opens, bit flips, truncation)",
              variants=["ndebug", "race"], note="The disk is simulated behind fopen (fopencookie streams); glibc's stdio runs for real."),
    "C14": io(1000000, "input files, arguments and faults of the input, the output file and standard output",
              "The tool's main() runs in-process; what exit() would flush afterwards is flushed by the simulator and "
              "its failure counts against a successful exit status.", real=["the command-line tool (main.cpp)"]),
    "C17": js("histories of calls on the binding, memory growth, failing allocations, statuses and traps, and cuts of the "
              "output; results against the library, ledger of the module's memory",
              "The compiled module is a stand-in (no WebAssembly toolchain here): real library output, simulated memory "
              "with the layout of the header compiled for wasm32.",
              real=["www/js/ulight.js", "the library (native), which produces every HTML output and every flush",
                    "the WebAssembly trampoline of the repository"],
              stub=["the module's linear memory and allocator", "fetch and WebAssembly instantiation"],
              rule="Each run is one history of calls on one instance. Counted as distinct: different sequences of calls, "
                   "allocations, growth and results."),
    "C18": js(some=200, tech="user actions, reloads at any event (also while loading), rejected storage writes, full storage, failing "
              "conversions; refinement against a model of what was saved and what has to be displayed",
              note="The browser is a stand-in: the elements of index.html, events, storage and module loading. Layout and "
              "rendering are not simulated.",
              real=["www/js/live_edit.js, live_edit_core.js, ulight.js and the inline scripts and elements of index.html",
                    "the library (native), which produces every HTML output and every flush"],
              stub=["browser: DOM elements, events, localStorage, media queries, module loading",
                    "the module's linear memory and allocator"],
              rule="Each run is one history of up to about 20 user actions and reloads. Counted as distinct: different "
                   "sequences of actions, storage writes, conversions and displayed states."),
    "C23": js(some=400, tech="histories of generator runs on a simulated disk: failing opens, reads, listings and short "
              "writes, damaged and invalid themes, any directory order and locale; refinement against an executable model "
              "of the stylesheet",
              note="The file system and the process are stand-ins; yargs is the installed one. Escapes and comments in CSS "
              "values are not modelled: for damaged themes that contain them, only the exit status is judged.",
              real=["scripts/theme-to-css.cjs (the whole script), yargs",
                    "the shipped themes and www/css/theme.css", "the library (native), which tells the highlight types"],
              stub=["fs: an in-memory disk that fails on request", "process: arguments, output, exit", "the locale's collation"],
              rule="Each run is one history of 1 to 3 generator runs with the files put on the disk before them. Counted as "
                   "distinct: different sequences of files, arguments, statuses and outputs."),
    "C19": io(1000000, "histories of handle operations with failing opens and closes; refinement against an owner model",
              "Closing is observed at the simulated fclose."),
}

PURE = ("Pure function of its argument: no schedule, clock, I/O, allocation or second party for the outcome to depend "
        "on, so simulation has nothing to decide; ")
NOT_APPLICABLE = {
    "C20": PURE + "exhaustive table checks or a proof would be the right tools.",
    "C21": PURE + "and there is no oracle for the grammars other than the highlighters themselves.",
    "C22": PURE + "exhaustive enumeration of the code points would be the right tool.",
}
