"""What each check runs. parts: scenario of the simulator, build flavour, and per tier the number of runs and a time limit."""
REAL = ["the whole fuzzylite library compiled from /repo/src (engine, variables, terms, norms, hedges, rules, activation, "
        "defuzzifiers, factories, importers, exporters, console, benchmark, main)", "libstdc++ streams and containers", "glibc stdio"]
STUBS = ["memory allocator front end (operator new/delete: counts, fails on request, then malloc)"]
DISK = ["file system under /sim/ (in-memory, with faults, behind fopen/read/write/close of the C++ file streams)"]
CLOCK = ["clock (clock_gettime, time, gettimeofday)"]
TTY = ["terminal (tcgetattr, tcsetattr, keystrokes)"]

def part(scenario, flavour="asan", quick=20000, qs=28, thorough=2000000, ts=780, **kw):
    return {"scenario": scenario, "flavour": flavour, "quick": dict(runs=quick, seconds=qs, **kw), "thorough": dict(runs=thorough, seconds=ts, **kw)}

TECH = "deterministic simulation with fault injection: seeded search, reference model"
BASE = ["one seed determines one execution: all randomness goes through one choice sequence, threads (if any) through one baton",
        "AddressSanitizer reports are taken as violations"]
CHECKS = {}
def check(pid, title, parts, level, rule, states, technique, level_note, assumptions=(), stubs=()):
    CHECKS[pid] = dict(title=title, parts=parts, level=level, rule=rule, states=states, technique=technique, level_note=level_note,
                       assumptions=BASE + list(assumptions), stubs=STUBS + list(stubs))

check("C01", "process history against the reference model", [part("C01")], "exploration",
      "A run draws an engine (terms, norms, hedges, activation methods, defuzzifiers, chained outputs, formulas) and a history of sensor "
      "readings with faults, reconfigurations, toggles, rule reloads, restarts and cycles; after every cycle all visible state is "
      "compared with the reference model. Non-trivial: reached the end of its history; distinct by the hash of its trace.",
      "hash of (activation methods, fired and loaded rules, defuzzifiers, sizes of fuzzy outputs, defined/undefined values)",
      "deterministic simulation: seeded histories with sensor faults, refinement against an executable reference model",
      "Seeded search over histories; assumes the reference model (written independently from the documentation) is right; rounding "
      "differences below 1e-7 and ties within 1e-9 are tolerated.")
check("C02", "aborted cycles", [part("C02", quick=16000)], "exploration",
      "A run draws an engine and a history as for C01; in most cycles an exception is injected into a drawn evaluation (term, norm, "
      "hedge, defuzzifier, activation method) or a drawn memory allocation fails, once or from then on. The exception must reach the "
      "caller, every output must be in its old or its new state, and later cycles must agree with the reference model.",
      "hash of (activation methods, fired and loaded rules, defuzzifiers, sizes of fuzzy outputs, defined/undefined values)",
      "deterministic simulation: exceptions and allocation failures injected into seeded histories, reference model",
      "Seeded search over histories and injection points; the reference model is the same as for C01.",
      stubs=["probe subclasses of the built-in components, which delegate to them and throw on request"])
check("C03", "threads", [part("C03", flavour="tsan", quick=6000, qs=40)], "exploration",
      "A run draws a workload of up to five operations (of 20: import, build, process, copy, assign, export in every format, data sets, rules, formulas, "
      "components by name, benchmark, tools, configure, examples, edits, exports of a shared engine, rejected texts) for each of two to four threads, often "
      "the same one. Each workload first runs alone in a process of its own; then all run as real threads of which one at a time holds a baton, "
      "passed on after a drawn number of basic blocks of the library, also within static initialisation and while one thread stalls or runs out of "
      "memory. Every result must be the one obtained alone; ThreadSanitizer, which does not see the baton, reports unsynchronised accesses. "
      "Non-trivial: at least one preemption; distinct by the hash of its trace, which includes every switch.",
      "hash of (code address at which a thread was preempted, code address at which the other went on)",
      "deterministic simulation: seeded preemption of real threads at basic-block granularity, happens-before race detection, differential against each thread alone",
      "Seeded search over workloads and schedules under sequential consistency (effects of weaker memory orders appear only as data races). The C++ runtime "
      "and libc are not preempted within and not instrumented.",
      assumptions=["ThreadSanitizer reports are taken as violations", "libstdc++ and libc functions are atomic steps of the schedule"],
      stubs=["thread scheduling (one baton; mutexes, rwlocks, conditions, call_once and static-initialisation guards give way instead of blocking)"] + CLOCK)
check("C04", "copies", [part("C04", quick=12000)], "exploration",
      "A run keeps up to four engines and draws copies, clones, assignments (also to themselves and over engines of other shapes), "
      "copies of single parts, changes, cycles and destructions in any order. Each copy is compared with its original at once (text, "
      "values, fuzzy outputs, no shared component); every engine has its own reference model and all are compared after every step.",
      "hash of (activation methods, fired and loaded rules, defuzzifiers, sizes of fuzzy outputs, defined/undefined values)",
      "deterministic simulation: seeded interleavings of operations on originals and copies, one reference model per engine",
      "Seeded search over interleavings of operations; AddressSanitizer detects uses of destroyed components.")
check("C05", "exhausted memory", [part("C05", quick=12000, qs=35)], "exploration",
      "A run draws an engine and a few of about 33 operations (import, export, copy, assign, edit, configure, process, evaluate, data sets, "
      "benchmark, factories). Each operation runs once with memory available; then a drawn allocation of it fails, once or with all later ones. "
      "It must end with an error or with the regular result, lose no memory (an apparent loss is repeated to exclude memory kept for later), "
      "leave what it only reads and the target of a failed edit unchanged and everything usable; repeated with memory it must give the regular result.",
      "hash of (operation, library functions on the stack of the failing allocation)",
      "deterministic simulation: seeded failing allocations in every operation, differential against the regular result",
      "Seeded search over engines, operations and failing allocations. Failures inside string streams (a known finding) are attempted in one of 24 "
      "attempts only and reported under a class of their own.",
      stubs=["allocations performed inside std::basic_stringbuf and formatted stream operations are exempt in 23 of 24 attempts"])
check("C06", "rejected texts", [part("C06", quick=10000)], "exploration",
      "A run keeps one engine and its reference model and draws a history of loading rules, rule blocks and formulas from valid texts, texts damaged at a "
      "word so that no grammar allows them, and texts damaged anywhere, some with a failing allocation, with cycles, unloading and reconfiguration in "
      "between; and imports FLL, FCL and FIS texts with damaged lines. Invalid texts must be rejected (in importers: kept as unloaded rules), nothing be "
      "half-loaded, nothing else change, no memory be lost, and corrected texts behave as if nothing had failed.",
      "hash of (kind of text, damage, outcome)",
      "deterministic simulation: seeded histories of valid and damaged texts with failing allocations against the reference model and fresh objects",
      "Seeded search over texts and histories. Only damage that no grammar allows must be rejected; for damage anywhere, the outcome must be that of a fresh object.")
check("C07", "saving", [part("C07", quick=8000)], "exploration",
      "A run draws an engine (also of several hundred kilobytes) and an exporter, and saves to the simulated disk: fault-free with short and "
      "interrupted writes, then with a drawn fault (open, full disk, failed, torn or lost write, close) at a drawn operation or byte, or with a crash "
      "right after success. Success must coincide with the complete text being on the disk; the engine must be unaffected.",
      "hash of (exporter, size class, fault kind, operation hit, outcome)",
      "deterministic simulation: seeded disk faults and crashes in every file operation, comparison with the fault-free text",
      "Seeded search over engines, exporters, fault kinds and positions.", stubs=DISK)
check("C08", "loading", [part("C08", quick=8000)], "exploration",
      "A run draws an engine, writes its description to the simulated disk and loads it: with short and interrupted reads, then with a drawn "
      "fault (open, read failure at an operation or byte). The result is the engine of the complete text, or an error; every fault that hits a "
      "read must give an error; no file stays open, no memory is lost.",
      "hash of (format, size class, fault kind, outcome)",
      "deterministic simulation: seeded read faults and chunkings, comparison with the engine imported from the complete text",
      "Seeded search over engines, formats, chunkings and fault positions.", stubs=DISK)
check("C09", "generations", [part("C09", quick=12000)], "exploration",
      "A run draws an engine within what the format (FLL, FIS, FCL) can express, gives it a history, and lets it live through several generations of "
      "save, crash and load with short and interrupted transfers, cycles in between. Each generation must export the same text, and give the "
      "outputs of a reference engine that never crashed, over a common sequence of inputs (with sensor faults).",
      "hash of (format, components of the engine, generation, output classes)",
      "deterministic simulation: seeded save-crash-load generations on a simulated disk, refinement against the engine that never crashed",
      "Seeded search over engines, histories and generations; outputs are compared within the precision that rounded parameters allow.", stubs=DISK)
check("C10", "data sets", [part("C10", quick=14000)], "exploration",
      "A run draws an engine with a history, a data set (comments, headings, blank, malformed and non-finite cells) or a grid (values, scope, "
      "active variables), a way of arrival (string, stream or file in short and interrupted reads) and a source or destination fault. Rows are "
      "compared with an independent model of the data set, evaluated on a copy of the engine.",
      "hash of (way of exporting, scope, kinds of lines, fault, outcome)",
      "deterministic simulation: seeded data arrival and source and sink faults, reference model of the data set",
      "Seeded search over data, engines, arrival and faults.", stubs=DISK)
check("C11", "interactive console", [part("C11", quick=24000)], "exploration",
      "A run draws an engine with a history and sessions of keystrokes (numbers, malformed numbers, commands, arbitrary bytes, cut off anywhere), "
      "with failing terminal calls and with evaluations that throw. A state machine over the keystrokes predicts every result, which is compared with "
      "the screen and the destination; the terminal must be restored after every keystroke and the engine end as predicted.",
      "hash of (results, quit or end of input, commands used, faults, inputs and outputs of the engine)",
      "deterministic simulation: seeded keystrokes, end of input and terminal failures against a reference state machine",
      "Seeded search over keystrokes and faults. A terminal whose restoring call itself fails is not simulated.", stubs=TTY)
check("C12", "command line", [part("C12", quick=12000, qs=40)], "exploration",
      "A run draws command lines of the real main (conversions between all formats, data sets, interactive sessions, benchmarks, export of all examples; "
      "one in five or so with wrong arguments or damaged input) on the simulated disk and terminal, first without faults and then with disk faults, failing "
      "standard output or failing allocations. The exit status must be success exactly if nothing failed, and the destination then complete.",
      "hash of (command, validity, destination, kind of fault, operation hit, exit status)",
      "deterministic simulation: seeded command lines on a simulated disk, terminal, standard output and allocator",
      "Seeded search over command lines and faults; what is complete is determined by the library's own importers and exporters on the same text.",
      stubs=DISK + TTY + CLOCK + ["standard output", "signal() (handlers would hide crashes)"])
check("C13", "benchmarks", [part("C13", quick=20000)], "exploration",
      "A run draws an engine and a history of preparing (data with comments, headings, errors and malformed rows, from streams and files that come in pieces "
      "or fail; grids), running (under a steady, frozen, jumping or backwards clock, with evaluations that throw), using the engine otherwise, and "
      "reporting. Expected and obtained values, numbers of errors, times and all results are compared with a model of the benchmark.",
      "hash of (operation, outcome, clock, faults, sizes)",
      "deterministic simulation: seeded clocks, data arrival and faults against a reference model of the benchmark",
      "Seeded search over histories, clocks and faults; obtained values are compared with those of a copy of the engine.", stubs=DISK + CLOCK)
check("C14", "ownership under edits", [part("C14", quick=4000)], "exploration",
      "A run draws engines, variables, rule blocks, fuzzy outputs and formulas and a long sequence of edits on them (add, insert, replace, take out, "
      "find, assign, copy, move, destroy), some of unknown names, some with a failing allocation, with processing in between. A model of who holds "
      "which component predicts every identity, order, lookup and release; at the end nothing may be left.",
      "hash of (kind of edit, outcome, sizes of the holders)",
      "deterministic simulation: seeded edits with failing allocations against a model of ownership",
      "Seeded search over sequences of edits; releases are observed through the allocation balance and AddressSanitizer.")
check("C15", "factories", [part("C15", quick=20000)], "exploration",
      "A run keeps several factories of all seven kinds and several factory managers (the library's own among them) and draws registering, replacing, "
      "deregistering, making, copying, assigning, moving, giving and destroying, with failing allocations, and uses of the registered components by the "
      "importers, rules, formulas and Engine::configure. A model of each factory predicts names, kinds and identities; made objects are kept and checked "
      "after the factories changed or ended.",
      "hash of (kind of factory, operation, whether the name was known, outcome)",
      "deterministic simulation: seeded operations with failing allocations against a model of every factory",
      "Seeded search over sequences of operations; releases are observed through a registry of the user's components, the allocation balance and "
      "AddressSanitizer.", stubs=["components of the user, registered in the factories, which report their construction and destruction"])
check("C16", "settings", [part("C16", quick=10000)], "exploration",
      "A run interleaves changes of the settings with processing, importing, exporting, copying, benchmarking, saving, loading and console sessions, "
      "with failing allocations, exceptions in evaluations, disk, stream and terminal failures. After every step all settings, the factories, the "
      "streams of the user and of the process, the locale and the terminal are compared with those set; numbers, comparisons, texts, new defuzzifiers, "
      "logs and cycles are compared with what the settings in force require.",
      "hash of (operation, kind of fault, whether it happened, outcome)",
      "deterministic simulation: seeded setting changes and operations with faults against a model of the settings",
      "Seeded search over histories and faults. The tool's own main, a process of its own, is set aside.", stubs=DISK + TTY + CLOCK)
check("C17", "reports", [part("C17", quick=12000)], "exploration",
      "A run generates an engine, often with parts missing and with rules written in other spacing, and draws changes of its parameters, rules, "
      "operators and structure, cycles, restarts and faulty sensors. Before a cycle the reports of readiness and type are compared with what the model "
      "of the engine has in place, and after it with whether and why the cycle failed; the reported degrees, groups, highest terms and fuzzy texts are compared with "
      "those of the reference model. Reports are also made while memory runs out. The engine is compared before and after every report.",
      "hash of (ready, number of missing parts), and the type of inference",
      "deterministic simulation: seeded histories of changes, cycles and failing allocations; reports compared with a model and with the cycles",
      "Seeded search over histories and faults.")
