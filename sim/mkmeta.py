"""Writes properties.jsonl and MANIFEST.json from one table, so that the two stay in step."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, S, R, T, TS, TK, U, D, E = ("F15_Parser/F15Parse.py", "F15_Parser/ExtractedRouteSequence.py", "F15_Parser/ExtractedRouteRecord.py",
                               "Tokenizer/Tokens.py", "Tokenizer/Tokenize.py", "Tokenizer/Token.py", "Utilities/Utils.py",
                               "F15_Parser/F15TokenSyntaxDescriptions.py", "F15_Parser/ErrorMessageDefinitions.py")
ALL = [P, S, R, T, TS, TK, U, D, E]


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), check=None, na=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "mechanism": mechanism,
                        "observe_at": list(observe), "hook_needed": None}, "_check": check, "_na": na}


SEQ = "All 36 tests are single-threaded, uninterrupted, and compare a handful of fixed fields."
T1 = [
    prop("C01", "One parser instance may serve any number of threads",
         "A parser that is created once and used by several threads at the same time, each with its own token list and its own route, "
         "gives every caller exactly the return value, route records, errors, derived flight rules and token classification that the same "
         "field gives when it is parsed alone in a fresh process. Results already returned to one thread are not altered by what other "
         "threads parse afterwards.",
         ["schedules", "inputs"], "every interleaving of any number of concurrent tokenise-and-parse calls, over all fields",
         SEQ + " None runs two parses at once, so no interleaving at all is sampled.", ALL,
         mech(("parser keeps no per-call state on itself, only look-up objects", P + ": ParseF15"),
              ("all per-parse state lives in the caller's route and token list", P + ": parse_f15, " + S), ("read-only syntax table", D)),
         [("parser attributes", "shared look-up objects", P + ": ParseF15"), ("syntax table", "shared class-level table", D)],
         ["return value of parse_f15", "getters of the route and of its records", "getters of the tokens"],
         ("simulated threads on a shared parser, seeded line/bytecode scheduler, baseline of each field alone",
          "Sampled interleavings at every line or bytecode of the library, 2-6 threads, uniform/bursty/PCT/location-targeted schedulers.")),
    prop("C02", "Tokenising is exact and private to each tokeniser",
         "Tokenising splits the text at the whitespace characters the caller set, keeps each '/' that counts as whitespace as a token of its "
         "own, and reports for each token its text and its zero-based start and end index in the text, no character lost or invented. The "
         "list returned depends only on the text and whitespace last given to that tokeniser - not on its earlier texts, on other tokenisers "
         "or on other threads - and lists handed out earlier stay as they were.",
         ["schedules", "histories", "inputs"], "every text, every whitespace set, every sequence of uses of one tokeniser, every interleaving of tokenisers in several threads",
         "Three tokeniser tests use one tokeniser once with one text each.", [TS, T, TK],
         mech(("a fresh token list per tokenise call", TS + ": tokenize"), ("start index from end index minus length", TS + ": __save_token")),
         [("tokeniser text, whitespace, token list", "per-instance working state", TS + ": __init__")],
         ["token list returned by get_tokens"],
         ("simulated threads and reuse histories of tokenisers against an executable reference tokeniser",
          "Every returned list compared with an independent model; texts include empty, all-whitespace, non-ASCII and near-identical siblings.")),
    prop("C03", "A finished route can be read by many threads at once",
         "Any number of threads may read, print or convert to XML the same finished route and the same token list at the same time, also while "
         "other fields are being parsed: each gets exactly what a lone reader gets, and nothing in the route or the tokens is changed by reading.",
         ["schedules", "fault_sequences"], "every interleaving of readers (and of readers that are interrupted) of one result",
         "The XML test reads one route once from one thread.", [S, R, T, TK],
         mech(("reports are built in local variables", S + ": as_xml, print_ers"), ("getters return stored values", R)),
         [], ["as_xml, print_ers, print_record, print_tokens, getters"],
         ("simulated concurrent readers with interrupted readers, compared with a lone reader",
          "Sampled interleavings; every report compared with the report of the same field alone, route re-read after each.")),
    prop("C04", "An interrupted parse reports no verdict and leaves no trace",
         "If a parse is cut short at any point by an exception from outside - Ctrl-C, an exhausted memory or stack, a cancellation raised by a "
         "signal handler, thread shutdown - that exception reaches the caller and no verdict is returned. Everything parsed afterwards in that "
         "process, also by the same parser and also in other threads meanwhile, gives the same result as in a fresh process.",
         ["crash_points", "schedules", "histories"], "every line (and bytecode) of a parse at which it can be interrupted, every kind of interruption, every later work",
         "No test interrupts a parse.", ALL,
         mech(("no handler in the library catches exceptions", P), ("per-parse state lives in the caller's route", P + ": parse_f15")),
         [("class-level and module-level tables", "the only state that outlives a parse", ", ".join([P, D, E, U]))],
         ["exception seen by the caller", "results of later parses"],
         ("asynchronous exceptions and stack exhaustion injected at chosen code positions of a simulated parse, later work compared with baselines",
          "Positions drawn uniformly over the lines and bytecodes reached by a seeded field universe.")),
    prop("C05", "An interrupted tokenise call leaves the tokeniser usable",
         "If tokenising is cut short at any point by an exception from outside, the exception reaches the caller, the text and whitespace the "
         "caller set are kept, and the next tokenise call on the same or another tokeniser returns exactly the tokens of its text. Lists "
         "handed out before stay as they were.",
         ["crash_points", "histories", "schedules"], "every line and bytecode of tokenising, every kind of interruption, every later use",
         "No test interrupts a tokeniser or uses one twice.", [TS, T, TK],
         mech(("the token list is created anew at the start of every call", TS + ": tokenize")), [], ["get_tokens after a failed and a retried call"],
         ("asynchronous exceptions injected into simulated tokenise calls, retries compared with a reference tokeniser",
          "All positions of short texts are reachable; sampled.")),
    prop("C06", "The result of a parse does not depend on what was parsed before",
         "However many fields a process has parsed, reported, kept or thrown away before, with one parser or several, and however much time has "
         "passed, parsing a field gives the same return value, records, errors, rules, token classification and XML as in a fresh process; a "
         "route obtained earlier keeps its content.",
         ["histories", "inputs", "schedules"], "every history of parses (repeats, near-identical fields, hundreds of distinct tokens), clock jumps and collections in between",
         "Every test uses a new parser for one field; ordering effects between tests are invisible because each compares only its own field.", ALL,
         mech(("no cache or memo between parses", P), ("fresh containers per instance", S + ": __init__, " + T + ": __init__")), [],
         ["result of the same field early and late in a long history"],
         ("seeded histories of up to thousands of parses with clock jumps, dropped results and collections, compared with fresh-process baselines",
          "Sibling families of fields make any key collision visible; heavy histories contain thousands of distinct tokens.")),
    prop("C07", "Results belong to the caller",
         "Token lists, tokens, routes and records returned to a caller are its own: whatever the caller does to them through their public "
         "methods - rename, re-index, re-type, edit texts and values, append, empty - has no effect on any other result, on later tokenising "
         "or on later parsing.",
         ["histories", "schedules"], "every sequence of caller edits between parses, in one or several threads",
         "No test edits a result and then parses again.", [S, R, T, TK, TS, P],
         mech(("per-instance lists and records", S + ": __init__, " + R + ": __init__, " + T + ": __init__"), ("tokeniser replaces its list on every call", TS + ": tokenize")), [],
         ["later results and earlier kept results after edits"],
         ("simulated histories in which callers edit their results, other and later results compared with baselines",
          "All setters and list edits of the public classes are used.")),
    prop("C08", "The token list is a list with one cursor, also when interrupted",
         "A token list behaves as an ordinary list with one cursor: positional access, first, last, next, previous, peeking ahead and behind, "
         "insertion, truncation and the element count return what such a list would, nothing outside the list is ever returned, and peeking or "
         "positional access never moves the cursor. Each list is independent of all others; an operation cut short by an exception from outside "
         "has either happened or not.",
         ["histories", "crash_points", "inputs"], "every operation sequence on every list, any operation interrupted at any point, several threads with a list each",
         "Three tests walk one fixed list.", [T, TK],
         mech(("bounds test of positional access", T + ": get_token_at"), ("cursor index kept apart from the list", T)),
         [("token list and cursor", "per-instance", T + ": __init__")], ["returned tokens, counts, cursor"],
         ("random operation histories with injected interruptions against an executable list-with-cursor model", "Model compared after every operation.")),
    prop("C09", "The route keeps what was put into it, also when interrupted",
         "A route starts with the departure placeholder and then holds exactly the records and errors added, in order, each with the values last "
         "set and documented defaults otherwise; positional access outside the route gives nothing instead of failing, an error's '!' mark is "
         "replaced by the offending text, texts appended to a record accumulate separated by single blanks, and a stay time HHMM is kept in "
         "minutes. Routes are independent of each other; an operation cut short by an exception from outside has either happened or not.",
         ["histories", "crash_points", "inputs"], "every operation sequence on routes and records, any operation interrupted at any point, several threads with a route each",
         "Tests look at routes only as produced by twenty-odd fixed parses.", [S, R],
         mech(("append-only element and error lists", S), ("replacement of the mark in messages", S + ": add_error"), ("accumulating setters", R)),
         [("elements, errors, derived rules", "per-instance", S + ": __init__")], ["getters of routes and records"],
         ("random operation histories with injected interruptions against an executable route model", "Model compared after every operation.")),
    prop("C10", "Printed reports are complete, or the failure is reported",
         "Printing a route, a record or tokens and converting a route to XML give the complete report whatever the buffering of the output, with short and interrupted "
         "writes, and with several threads printing; the text a caller's print contributes is never mixed up with another route's. If the output "
         "fails (full disk, closed pipe, I/O error, characters it cannot represent) the caller gets an exception, what was written is a prefix "
         "of the report, the route is unchanged, and printing again to a healthy stream gives the full report.",
         ["fault_sequences", "schedules", "crash_points"], "every failure point of the output stream, every pattern of short and interrupted writes, every interleaving of printing threads",
         "No test prints to anything but a healthy stdout, and none looks at what is printed.", [S, R, TK, T, D],
         mech(("plain print calls, nothing caught", S + ": print_ers, " + R + ": print_record, " + T + ": print_tokens")), [],
         ["bytes received by the output device", "exception at the caller"],
         ("simulated output device (short writes, EINTR, ENOSPC, EPIPE, EIO, EAGAIN, narrow encodings) under the real io stack, plus concurrent printers",
          "Failure offsets drawn over the whole report; bytes compared with the fault-free report.")),
    prop("C11", "Parsing always ends, in work proportional to the field",
         "Tokenising and parsing any field ends after an amount of the call's own work that is bounded linearly in the length of the field - "
         "also when other threads are stalled in the middle of a call, have been killed by an exception, or have ended - and parsing never "
         "raises an error of its own. In particular no call waits for another thread or for time to pass.",
         ["schedules", "fault_sequences", "inputs"], "every field, every schedule, every set of stalled, interrupted or ended threads, every clock jump",
         "Tests have no bound on work, no second thread and no stalled one.", [P, TS, T],
         mech(("each state consumes a token before the next", P), ("no locks, no waiting, no sleeping", P)), [],
         ["own steps of each call", "exceptions raised by the call"],
         ("step-bounded progress of simulated calls among stalled, killed and finished threads, deadlock detection, clock jumps",
          "Bound: 60 steps per character and 1500 per token; fields up to 150 tokens in schedules, 1200 alone. Stack overflow on fields above about 500 tokens is known finding KF1.")),
    prop("C12", "Parsing may be re-entered at any point",
         "If tokenising, parsing or reporting is suspended at any point by a handler running in the same thread (signal handler, finaliser, "
         "debugger, tracing hook) which itself tokenises and parses other fields with the same parser, both the inner and the outer call give "
         "the same results as in a fresh process.",
         ["crash_points", "schedules", "inputs"], "every point at which a handler can run, every nested work, nesting in several threads",
         "No test nests calls.", ALL,
         mech(("no per-call state on shared objects, no locks", P)), [], ["results of the outer and the nested call"],
         ("re-entrant calls injected at chosen code positions of a simulated parse, both results compared with baselines", "Positions drawn uniformly over reached lines and bytecodes.")),
    prop("C13", "Unit and geodesy helpers are pure, whoever calls them",
         "The degree and minute range checks, the speed of sound at altitude, the Mach to metres-per-second conversion and the bearing/distance "
         "computations on the WGS84 ellipsoid give, for every argument, the value of their documented formula, independent of earlier, concurrent "
         "or interrupted calls and of what callers do with the returned lists.",
         ["schedules", "histories", "crash_points", "inputs"], "every argument, every interleaving and history of helper calls, any call interrupted",
         "The helper tests check a few values, one call at a time.", [U],
         mech(("constants and formula in one expression", U + ": speed_of_sound_at_altitude, mach_to_ms_speed"), ("one ellipsoid object per class, used read-only", U)),
         [("ellipsoid object", "shared", U)], ["returned values"],
         ("simulated concurrent, repeated and interrupted helper calls against independently written formulas", "Arguments biased to limits; tolerance 1e-9 relative.")),
    prop("C14", "The shipped example program works and fails loudly",
         "The shipped example program parses the sample field of the documentation, prints the complete report for it and ends successfully, "
         "also when run while other threads of the process parse, or after other work. If its output fails or it is interrupted it ends "
         "with an exception after writing a prefix of the report.",
         ["fault_sequences", "schedules", "crash_points"], "every output failure, interruption point and interleaving with other work",
         "No test runs the example; it was broken (wrong import) at the pinned commit.", ["main.py", S, P],
         mech(("the example uses only the public API", "main.py")), [], ["bytes on stdout", "exit status"],
         ("the example program as a simulated task over a faulty output device, output compared with the report of the sample field",
          "Output failures at every offset range; interruptions inside the program.")),
    prop("C15", "Results do not depend on the process environment",
         "Tokens, classification, parse results, XML, printed reports and helper values are the same in every process: whatever the hash seed, optimisation "
         "flags, locale, time zone, date, working directory, memory allocator, recursion or decimal settings, garbage collector settings, "
         "order of imports, or whether the work is done in the main thread.",
         ["configurations", "inputs"], "every combination of environment settings, over the field universe",
         "Tests run in one environment.", ALL,
         mech(("no environment is read", P), ("ordered tables, first match wins", D + ": get_token_type")), [], ["results in freshly started interpreters"],
         ("seeded environment faults: freshly started interpreters under drawn hash seeds, flags, clocks and limits, compared with the reference process",
          "400 interpreters per quick run, about 88 fields each.")),
    prop("C16", "Nothing accumulates in a long-running process",
         "Once the caller has dropped its results, tokenising, parsing, reporting, failing and being interrupted leave nothing behind: the "
         "number of live objects and the memory in use stay bounded however many fields - equal or all different - a process handles.",
         ["histories", "crash_points"], "every history of work phases, including interrupted ones and streams of never-repeated fields",
         "Tests end before any growth could show.", ALL,
         mech(("results referenced only by the caller", P + ": parse_f15"), ("no cache", P)), [], ["live objects and allocated blocks after each phase of work"],
         ("repeated phases of simulated work with injected interruptions, live objects and memory blocks measured between phases", "Growth in each of the last phases is required for a violation.")),
    prop("C17", "Token classification and messages do not drift",
         "What any given token is classified as, the printed syntax table and the wording of the error messages are the same at any moment in the life of a process "
         "- after any number of parses, failed or interrupted ones included, and in every thread - as in a fresh process, and an interrupted "
         "classification raises instead of answering.",
         ["histories", "schedules", "crash_points", "inputs"], "every token, every history, every interleaving of classifications",
         "Tests classify each token once.", [D, E, P],
         mech(("read-only syntax table scanned in order", D + ": get_token_type"), ("read-only message table", E)),
         [("syntax table", "class-level list", D), ("message table", "class-level mapping", E)], ["get_token_type, printed table, messages"],
         ("simulated histories and interruptions, classification of a probe set compared with a fresh process", "About 100 probe tokens per run incl. one per row of the table.")),
    prop("C18", "A token list can be parsed again; inputs are left alone",
         "Parsing does not change the text, the positions, the order or the number of the caller's tokens, also when it is interrupted. The same "
         "token list can be parsed again - after a complete or an interrupted parse, by the same or another parser, wherever its cursor stands - "
         "and gives the same result as the first time.",
         ["histories", "crash_points", "schedules"], "every repetition of parses of one token list, every interruption point in between",
         "No test parses a list twice.", [P, T, TK],
         mech(("every parse starts at the first token and re-types all tokens", P + ": parse_f15, assign_syntax_descriptions")),
         [("token types and cursor", "mutable parts of the caller's list", T + ", " + TK)], ["token list before and after", "result of the second parse"],
         ("simulated re-parses of token lists after complete and interrupted parses, compared with baselines and with the list before", "Interruption positions drawn over reached code.")),
    prop("C19", "Every finished parse is coherent",
         "A parse that returns gives a route framed by the departure and arrival placeholders whose records in between are tokens of the field, "
         "in field order, at their true positions; it returns true exactly if no error is recorded, and each error names a token of the field and has "
         "a message. The derived rules are I, V, Y or Z as the rules of the first record and the presence of the other rules among the records "
         "dictate, and the arrival carries the rules of the record before it - under every schedule, after every history and interruption.",
         ["schedules", "histories", "crash_points", "inputs"], "all fields, valid or damaged, under every schedule, fault and history",
         "Tests compare fixed expectations of some thirty fields; the ordering defect repaired in the first fix commit passed all of them.", [P, S],
         mech(("placeholders added by constructor and at the end", S + ": __init__, add_dummy_ades"), ("verdict from the error count", P + ": parse_f15"), ("rule derivation", P + ": parse_f15")), [],
         ["return value, records, errors, derived rules"],
         ("invariants checked on every parse of simulated concurrent, interrupted and long histories over generated fields", "No baseline needed, so every run sees fields nobody has seen before.")),
    prop("C20", "A forked child can go on parsing",
         "If the process forks while threads are in the middle of tokenising or parsing - at any point, also from inside a parse - the child, in which "
         "those threads no longer exist, can tokenise and parse any field with the inherited parser or a new one and gets the same results as a fresh process, without hanging.",
         ["crash_points", "schedules"], "every point at which the fork can happen relative to every thread's progress",
         "No test forks.", ALL,
         mech(("no locks and no per-call state on shared objects", P)), [], ["results in the child"],
         ("simulated fork at arbitrary scheduler states: other threads vanish mid-call, the child's results are compared with baselines", "Fork positions drawn over reached code and all schedules.")),
    prop("C21", "The settings of the host process are left alone",
         "Importing the library, tokenising, parsing, reporting, the helpers and the example program leave alone what a process has only one of and its program "
         "owns: recursion limit, garbage collector settings, standard streams and their modes, signal handlers and timers, trace and exception hooks, warning filters, logging "
         "configuration, locale, time zone, decimal context, random number generator, working directory, umask, environment variables, resource "
         "limits, built-ins. At no time are they changed, also not when calls fail, are interrupted, overlap in several threads or are nested; "
         "and a change that the program makes while calls are under way stands.",
         ["schedules", "crash_points", "histories", "configurations"], "every setting, every point at which a call is interrupted or another thread or handler looks or changes something",
         "No test looks at a setting of the process.", ALL + ["main.py"],
         mech(("no call of the library sets anything of the process", P), ("print() to whatever standard output is", S + ": print_ers, " + R + ": print_record")), [],
         ["settings of the process at the boundaries of and in the middle of calls"],
         ("host settings drawn and changed while simulated calls are interrupted, nested and interleaved; every operation ends with a comparison of about forty settings",
          "The table of settings is in sim/hostset.py; what is not in it is not watched.")),
    prop("C22", "Results can be stored, copied and handed to other processes",
         "A token list and a route can be copied and pickled, with every protocol, at any time - also after an interrupted parse - and the copy or the stored one is as good as the "
         "original, in the same process, in a forked one, in one that has done nothing before and in a freshly started interpreter: tokens parse to the same "
         "result, a route reads, prints, converts to XML and takes further edits the same. Storing changes nothing in the original; original "
         "and copy are independent of each other; results sent back are as good as the ones that were sent.",
         ["schedules", "crash_points", "histories", "configurations"], "every result, finished or interrupted, every point of other threads' work at which it is stored, every process that uses it",
         "No test copies or stores a result.", [S, R, T, TK, P],
         mech(("results are plain objects of plain values; nothing about them is kept elsewhere", S + ", " + R + ", " + T + ", " + TK)), [],
         ["observations of the copy or of the stored result where it is used"],
         ("results of simulated concurrent and interrupted parses stored and used in copies, forked, pristine and freshly started processes, compared with baselines",
          "Pickle protocols 0-5 and deep copies; parsers and tokenisers themselves are not stored.")),
    prop("C23", "The library can be loaded under any circumstances",
         "The library can be imported by several threads at once, module by module in any order, after earlier attempts that were cut short - by an exception from outside at "
         "any point of the loading, or by a module that could not be read - and again after the program has thrown it away. An attempt that "
         "is cut short raises that exception; one that returns leaves a library that classifies, tokenises, parses and reports as in a fresh process, for each thread as soon as its own import "
         "has returned, while others may still be importing.",
         ["schedules", "crash_points", "histories"], "every point at which the loading is interrupted or another thread imports, every order of modules",
         "The tests import everything once, in one order, in one thread.", ALL,
         mech(("modules without registrations or other effects outside themselves; imports without cycles", "the module level of all files")), [],
         ["outcome of the import, results of the work that follows"],
         ("imports executed line by line in simulated threads of a process that has not loaded the library, interrupted, starved of files, repeated, compared with baselines",
          "While several threads import, no exception strikes the importing itself (CPython may then hand a half-loaded module to another thread).")),
    prop("C24", "Work goes on while the process ends",
         "Tokenising, parsing, reporting and re-parsing give the same results as ever after the main thread has come to its end: in the threads the interpreter still "
         "waits for, and in exit handlers, whether these were registered before or after the library was imported - also for parsers, lists and routes "
         "made before, and after interrupted work.",
         ["schedules", "histories"], "every amount of work left to other threads and exit handlers at the end of the main thread",
         "The tests are over before the process ends.", ALL,
         mech(("no worker threads, exit handlers or finalisers", "all modules")), [],
         ["results of work done during the end of the process"],
         ("the interpreter's end-of-process stages (callbacks of threading, waiting for threads, exit handlers) executed in a simulated main thread amid other threads' parses; work in and after each stage compared with baselines",
          "The removal of modules after the exit handlers is not simulated.")),
]

PURE = "This is a function of the input alone: no schedule, clock, fault, crash point or interleaving takes part in it, so a simulator would only dress up input generation. "
NA = [
    prop("C30", "Tokens are classified as ICAO Doc 4444 describes",
         "Each token of a field gets the base type and subtype that its syntax has in ICAO Doc 4444 (speed and level groups, coordinates, points, routes, modifiers), and unknown otherwise.",
         ["inputs"], "every token string", "Tests sample some fifty tokens out of all strings up to the length limits.", [D],
         mech(("ordered table of patterns, first full match wins", D)), na=PURE + "Stability of the classification over time and threads is C17."),
    prop("C31", "Valid routes are accepted and invalid ones reported",
         "A field that follows the route grammar of ICAO Doc 4444 gives no errors, and each violation of it is reported at the offending token with a fitting message.",
         ["inputs"], "every token sequence", "Tests sample thirty fields.", [P, E], mech(("one state per grammar position", P)),
         na=PURE + "The schedule- and history-independence of the verdict is C01, C04, C06; its consistency with the recorded errors is C19."),
    prop("C32", "Speed, level and coordinate conversions are exact",
         "Speeds and levels in knots, Mach, km/h, flight levels, feet and metric levels, and coordinates in degrees and minutes, are stored in SI units and decimal degrees as their definitions say.",
         ["inputs"], "every speed, level and coordinate token", "Tests sample a few values.", [P, U], mech(("conversion in the assign methods", P)),
         na=PURE + "The shared helper functions under concurrency and interruption are C13."),
    prop("C33", "Speed, level and rules carry forward along the route",
         "Every record carries the speed, level and flight rules in force at its place in the field until the next change.",
         ["inputs"], "every field", "Tests sample a few fields.", [P], mech(("copy from the previous record", P + ": carry_speed_altitude_rules_forward")),
         na=PURE + "That other threads' records never enter a route is C01."),
    prop("C34", "Text between a break and its end is kept with the route",
         "Everything filed between the start of a VFR, OAT or IFPSTOP part and its end is kept, in order, as break text of the record that started it.",
         ["inputs"], "every field with breaks", "Tests sample a few fields.", [P, R], mech(("accumulating break text", P + ": break_text_save")), na=PURE),
    prop("C35", "The XML form of a route is well formed",
         "The XML form of any route is well-formed XML that carries every element and error of the route.",
         ["inputs"], "every field, including texts with markup characters", "One test compares one document.", [S, R],
         mech(("string concatenation of element fragments", S + ": as_xml, " + R + ": as_xml")),
         na=PURE + "That XML is the same for concurrent readers is C03. Reading the code shows that markup characters are not escaped; recorded in DESIGN.md."),
    prop("C36", "Bearing and distance link neighbouring known points",
         "For neighbouring points with known coordinates the route records the WGS84 bearing and distance between them, and for others none.",
         ["inputs"], "every field with coordinates", "Tests sample a few pairs.", [P, U], mech(("second pass over the route", P + ": assign_azimuth_distance_between_points")),
         na=PURE + "The geodesy helpers under concurrency are C13."),
    prop("C37", "An error damages the route only locally",
         "After an error the parser resumes at the next recognisable element, so that the rest of the field is still extracted.",
         ["inputs"], "every damaged field", "Tests sample a few damaged fields.", [P], mech(("re-synchronisation", P + ": re_sync_parser_after_error")), na=PURE),
    prop("C38", "Performance in real time",
         "A field of typical length is parsed within a few milliseconds of real time.",
         ["inputs"], "every field", "Tests measure no time.", [P, TS], mech(("single pass", P)),
         na="Simulated time says nothing about real time; the bound on the call's own work is C11."),
]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in T1 + NA:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in T1:
        tech, note = p["_check"]
        checks.append({"property": p["id"], "quick_cmd": "./dst check %s --tier quick" % p["id"],
                       "thorough_cmd": "./dst check %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "deterministic simulation with fault injection: " + tech, "level": "exploration",
                       "level_note": note + " Seeded sampling, not proof; trusts CPython, the simulator in sim/ and the stated oracles."})
    doc = {"version": 1, "setup_cmd": "./dst setup", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["_na"]} for p in NA],
           "notes": "No hooks in /repo: scheduling points are the interpreter's own line and bytecode events (sys.monitoring) of the code "
                    "objects that the simulator's import loader compiled from /repo. Replay a reported file with ./dst replay FILE; "
                    "./dst selftest proves determinism (same seeds, other worker counts, other PYTHONHASHSEED)."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
