#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Each processing cycle follows the rules, whatever happened in earlier cycles",
     "Whatever the history of earlier cycles, restarts, sensor readings (including missing, infinite or out-of-range ones), reconfigurations and switching on and off of variables, rule blocks and rules, a processing cycle gives every rule the activation, and every output variable the fuzzy output, value and previous value, that the documented inference prescribes: enabled rule blocks in order, each with its own norms and activation method, then each enabled output defuzzified. "
     "The only things a cycle takes over from earlier ones are the documented ones: an output's value becomes its previous value, an undefined result is replaced by the previous value (when locked) or else the default, values are confined to the range (when locked), and a disabled output keeps its value; a restart forgets all of these. "
     "A disabled variable contributes nothing to antecedents and receives nothing from consequents.",
     ["histories", "inputs", "configurations"],
     "all engines over the built-in terms, norms, hedges, activation methods and defuzzifiers; all finite histories of input changes, sensor faults, toggles, reconfigurations, restarts and cycles",
     "The tests process the shipped examples from fresh engines with finite inputs; the state carried from cycle to cycle is exercised in a handful of fixed two- or three-step sequences.",
     ["src/Engine.cpp", "src/rule/RuleBlock.cpp", "src/rule/Rule.cpp", "src/rule/Antecedent.cpp", "src/rule/Consequent.cpp", "src/activation", "src/variable/OutputVariable.cpp", "src/variable/Variable.cpp", "src/term/Aggregated.cpp", "src/term/Activated.cpp", "src/defuzzifier"],
     [("fuzzy outputs are cleared at the start of each cycle", "Engine::process"), ("rules are deactivated before being evaluated", "Activation::activate of every method"), ("previous, default and locked values", "OutputVariable::defuzzify"), ("reset of inputs and outputs", "Engine::restart")],
     [("previous value", "output of the cycle before", "OutputVariable::_previousValue"), ("fuzzy output", "terms activated in this cycle", "OutputVariable::_fuzzyOutput"), ("activation degree and triggered flag", "of the last cycle", "Rule")],
     ["values, previous values and fuzzy outputs of output variables", "activation degrees and triggered flags of rules"])

prop("C02", "A cycle that fails part-way never damages later cycles",
     "When a processing cycle is aborted at any point, by a user-supplied component that throws, a missing norm or defuzzifier, or exhausted memory, the error reaches the caller and every output variable holds either the value and previous value it had before the cycle or the ones the completed cycle would have given it. "
     "The engine stays usable: once the cause is gone, the next cycle gives exactly the outputs a cycle from that state prescribes, with no trace of the aborted one.",
     ["histories", "fault_sequences", "crash_points"],
     "all engines and histories of C01, with an exception injected at every reachable evaluation (term, norm, hedge, defuzzifier, activation) or memory allocation of a cycle, in any cycle",
     "The tests check that some configurations throw; none continues to use the engine afterwards, and none can make an evaluation or allocation fail in the middle of a cycle.",
     ["src/Engine.cpp", "src/rule/RuleBlock.cpp", "src/activation", "src/rule/Rule.cpp", "src/rule/Consequent.cpp", "src/variable/OutputVariable.cpp", "src/term/Aggregated.cpp", "src/term/Function.cpp"],
     [("everything derived is rebuilt from scratch by the next cycle", "Engine::process, Activation::activate"), ("the previous value is replaced only once the new value is known", "OutputVariable::defuzzify")],
     [], ["exceptions out of Engine::process", "state of the engine after the exception and after the next cycle"])

prop("C03", "Engines used in different threads do not interfere",
     "Threads that each build, load, process, copy, export and destroy their own engines obtain exactly the results each would obtain running alone, for every interleaving of the threads. "
     "Several threads may also export or copy one engine that no thread is changing. "
     "No two threads ever access the same library memory at the same time without synchronisation, one of them writing.",
     ["schedules", "histories"],
     "all interleavings, at basic-block granularity, of two to four threads running independent workloads over all formats and components, from a cold or warm start of the process",
     "The tests are single-threaded.",
     ["src/factory/FactoryManager.cpp", "src/fuzzylite.cpp", "fuzzylite/fuzzylite.h", "src/imex", "src/term/Function.cpp", "src/Engine.cpp", "fuzzylite/Operation.h"],
     [("factories are created once and only read afterwards", "FactoryManager::instance"), ("no mutable static data outside the global settings", "src/"), ("each engine owns its components", "Engine")],
     [("factory singleton", "shared by all threads", "FactoryManager::instance"), ("formula variables", "mutable members of a const evaluation", "Function::variables")],
     ["results of each thread", "memory accesses of each thread"])

prop("C04", "Copies of an engine are complete and independent",
     "A copy of an engine (by construction, by assignment over any other engine, or of any of its parts) behaves from the moment of copying exactly as the original would have behaved, including retained values and what it reports about the last cycle. "
     "Original and copy never influence each other: whatever is done to one, in any interleaving, including destroying it, leaves the other as if it were alone.",
     ["histories", "schedules", "configurations"],
     "all engines, all histories before the copy, and all interleavings of operations on the original and its copies afterwards, including chains of copies and destruction in any order",
     "The tests copy engines once, freshly built, and compare their exported text; none continues to use both.",
     ["src/Engine.cpp", "src/variable/Variable.cpp", "src/variable/OutputVariable.cpp", "src/rule/RuleBlock.cpp", "src/rule/Rule.cpp", "src/term/Function.cpp", "src/term/Linear.cpp", "src/term/Aggregated.cpp"],
     [("deep copies followed by re-resolution of references", "Engine::copyFrom, Engine::updateReferences"), ("rules are reloaded against the copy", "RuleBlock::loadRules")],
     [("references from terms to the engine", "must point to the copy", "Function, Linear"), ("references from fuzzy outputs to terms", "must point to the copy", "Activated")],
     ["outputs, exported text and fuzzy outputs of original and copy"])

prop("C05", "Running out of memory is reported and harms nothing",
     "If memory runs out at any point of building, importing, copying, processing or exporting an engine, the operation reports an error instead of crashing or silently giving an incomplete result, and loses no memory. "
     "Objects that existed before keep working and can be used, copied and destroyed; objects the operation only reads are unchanged; repeating the operation with memory available gives the regular result.",
     ["fault_sequences", "crash_points", "inputs"],
     "every allocation point outside the standard library's string streams (a known finding), failing once or from then on, of every import format, export format, copy, formula, rule and processing operation over generated engines",
     "No test can make an allocation fail; every path behind a failing allocation is unexecuted.",
     ["src/imex", "src/Engine.cpp", "src/rule", "src/term/Function.cpp", "src/variable/Variable.cpp", "src/factory", "src/Operation.h"],
     [("owning containers and smart pointers release on unwinding", "importers, Variable, RuleBlock, Engine"), ("errors propagate as exceptions", "everywhere")],
     [], ["exceptions, allocation balance and object state at the API boundary"])

prop("C06", "A rejected rule, formula or engine text leaves nothing half-loaded",
     "Loading a rule, a rule block, a formula or an engine description that is invalid always fails with an error, which for a rule block names each offending rule (importers instead keep a rule that cannot be loaded as unloaded text), and whatever failed to load contributes nothing to later cycles. "
     "Everything else stays as it was or is loaded regardless of the order and number of failures, no memory is lost, and loading a corrected text afterwards behaves as if the failure had never happened.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of loading, unloading and reloading valid texts and texts damaged at an arbitrary token (missing, duplicated, replaced, truncated), interleaved with processing",
     "The tests feed fixed invalid texts to fresh objects and check the message; they neither continue with the same objects nor watch memory.",
     ["src/rule/Rule.cpp", "src/rule/RuleBlock.cpp", "src/rule/Antecedent.cpp", "src/rule/Consequent.cpp", "src/term/Function.cpp", "src/imex/FllImporter.cpp", "src/imex/FclImporter.cpp", "src/imex/FisImporter.cpp"],
     [("rules unload themselves when loading fails", "Rule::load"), ("failures are collected and the remaining rules still loaded", "RuleBlock::loadRules"), ("trees are released on errors", "Antecedent::load, Function::parse")],
     [], ["exceptions, loaded flags, allocation balance, outputs of later cycles"])

prop("C07", "Saving to a file reports success only if the file is complete",
     "When saving an engine, a data set or a script to a file returns normally, the file holds exactly the complete exported text, which stays there if the process dies right afterwards. "
     "Any failure of the disk on the way (cannot open, full disk, failed or partial write, failure on flushing or closing) is reported as an error, interrupted and short writes are retried without loss or duplication, and an engine saved as text is unaffected.",
     ["fault_sequences", "crash_points", "configurations"],
     "all exporters that write files, all engines and sizes, and a fault of any kind at any file operation or byte offset",
     "The tests write small files to a working disk; no write can fail in them.",
     ["src/imex/Exporter.cpp", "src/imex/FldExporter.cpp", "src/imex/RScriptExporter.cpp", "src/Console.cpp"],
     [("opening is checked", "Exporter::toFile, FldExporter::toFile, RScriptExporter::toFile"), ("stream state after writing and closing", "same")],
     [], ["return or exception of the saving call against the bytes on the simulated disk"])

prop("C08", "Loading from a file never yields a silently truncated engine",
     "Loading an engine from a file gives exactly the engine described by the complete content of the file, however the content arrives (short or interrupted reads), or reports an error. "
     "A read failure at any point is reported as an error and never taken for the end of the file, and nothing is left open or allocated.",
     ["fault_sequences", "inputs"],
     "all import formats, all engine descriptions, all ways of splitting the content into reads, and a read or open failure at any file operation or byte offset",
     "The tests read small files from a working disk in single reads.",
     ["src/imex/Importer.cpp", "src/imex/FllImporter.cpp", "src/imex/FisImporter.cpp", "src/imex/FclImporter.cpp"],
     [("opening is checked and lines are collected until the end of file", "Importer::fromFile")],
     [], ["engine or exception returned by the loading call"])

prop("C09", "A saved engine comes back as the same controller after a restart",
     "An engine saved in a format that can be read back and loaded again by a new process exports the same text again and, given the same sequence of inputs, produces the same outputs within the saved precision. "
     "This holds through any number of save, crash and load generations, for everything the format can express, and leaves the engine being saved untouched.",
     ["histories", "crash_points", "configurations"],
     "all engines expressible in FLL (and the FIS- and FCL-expressible subset), all histories before saving and after loading, all numbers of generations with crashes in between",
     "The tests round-trip the shipped examples' text once; none compares the behaviour of the engine that comes back, or uses engines outside the examples.",
     ["src/imex/FllExporter.cpp", "src/imex/FllImporter.cpp", "src/imex/FisExporter.cpp", "src/imex/FisImporter.cpp", "src/imex/FclExporter.cpp", "src/imex/FclImporter.cpp", "src/imex/Exporter.cpp", "src/imex/Importer.cpp"],
     [("exporter and importer cover the same attributes", "src/imex")],
     [], ["exported text, and outputs over a common history"])

prop("C10", "Every row of a data set is evaluated, in order, however the data arrives",
     "Exporting a data set evaluates exactly the requested points in order, and each row holds the inputs and the outputs that the engine gives for them; comment lines and a heading in the first line of the given data are skipped and nothing else is. "
     "The result does not depend on how the data arrives (chunk sizes, interrupted reads), a failing source is reported instead of being taken for the end of the data, a malformed row is reported, and what has been written by then is a prefix of the complete result.",
     ["inputs", "fault_sequences", "histories"],
     "all data sets with comments, headings, blank and malformed lines; all engines, formats and scopes; all chunkings; source and sink failures at any byte; engines with any history",
     "The tests export small data sets from strings and the examples; sources deliver everything at once and never fail.",
     ["src/imex/FldExporter.cpp"],
     [("rows are parsed and processed one by one", "FldExporter::write"), ("heading and comment detection", "FldExporter::write, FldExporter::parse")],
     [], ["bytes written to the destination and exceptions"])

prop("C11", "The interactive console survives any keystrokes and interruptions",
     "For every sequence of keystrokes, ended anywhere by the end of input, the interactive console terminates, applies exactly the values and commands typed, shows the outputs the engine gives for them, and restores the terminal to the state in which it found it after every keystroke, even when an error occurs in between.",
     ["inputs", "histories", "fault_sequences"],
     "all keystroke sequences (digits, editing keys, separators, commands, arbitrary bytes), end of input and terminal-call failures at any keystroke, all engines",
     "No test runs the interactive console.",
     ["src/Console.cpp"],
     [("keystroke loop", "Console::interactive"), ("raw mode around each read", "Console::readCharacter")],
     [("terminal attributes", "changed while reading", "tcgetattr/tcsetattr")], ["screen text, terminal attributes, engine values"])

prop("C12", "The command line reports failure exactly when it failed",
     "A run of the command-line tool that succeeds leaves the complete converted output at its destination and ends with the exit status of success. "
     "A run with wrong or missing options, or in which reading, converting or writing fails at any point, says so and ends with another exit status.",
     ["inputs", "fault_sequences"],
     "all option combinations (valid, missing, malformed), conversions between all formats, and disk faults at any file operation",
     "The tests call the option parser and one or two conversions; none observes the exit status or makes a file operation fail.",
     ["src/main.cpp", "src/Console.cpp"],
     [("exit code computed by the console", "Console::main"), ("exit status of the process", "main")],
     [], ["exit status, standard output and the files on the simulated disk"])

prop("C13", "Benchmarks count and compare faithfully whatever the clock does",
     "A benchmark runs the engine exactly the requested number of times over exactly the given data, reports for each run one elapsed time that is never negative, and reports errors that follow only from the expected and obtained outputs. "
     "Its results other than times do not depend on the clock (including jumps, standstill and skew), on how the data arrives, or on the engine's history; unreadable data is reported and never silently shortened.",
     ["histories", "fault_sequences", "schedules"],
     "all engines and data sets, all numbers of runs and repetitions, all clock behaviours at each reading, and source failures at any byte",
     "The tests run two benchmarks on the real clock and a working disk.",
     ["src/Benchmark.cpp", "src/Console.cpp"],
     [("restart before each run and one timing per run", "Benchmark::run"), ("error accounting", "Benchmark::errors, Benchmark::results")],
     [("obtained values and times", "of all runs so far", "Benchmark::_obtained, Benchmark::_times")], ["Benchmark results against a model"])

prop("C14", "Components are owned by exactly one holder over any sequence of edits",
     "Whatever sequence of adding, inserting, replacing, taking out, assigning and copying variables, terms, rule blocks, rules, norms and functions is applied, each component is released exactly once, by whoever holds it last, and lookups by name and position always give the component that the sequence implies. "
     "An edit that fails (unknown name, exhausted memory) changes nothing.",
     ["histories", "fault_sequences"],
     "all sequences of structural edits on engines, variables and rule blocks, interleaved with processing and copying, with failing edits and allocation failures in between",
     "The tests perform single edits on small engines and do not watch ownership.",
     ["src/Engine.cpp", "src/variable/Variable.cpp", "src/rule/RuleBlock.cpp", "src/rule/Rule.cpp", "src/variable/OutputVariable.cpp", "src/term/Aggregated.cpp"],
     [("owning vectors of raw pointers", "Engine, Variable, RuleBlock"), ("smart pointers for norms", "RuleBlock, Aggregated")],
     [], ["component identities, construction and destruction counts"])

prop("C15", "Factories give what is registered, independently of each other",
     "After any sequence of registering, replacing, deregistering, cloning, assigning and clearing, a factory creates a fresh object of exactly the kind last registered under a name, rejects names that are not registered, and lists exactly the registered names. "
     "Copies of factories are independent of their source, every registered object is released exactly once, and a failing operation leaves the factory as it was.",
     ["histories", "fault_sequences"],
     "all sequences of factory operations over several factories and their copies, with allocation failures at any point",
     "The tests register and clone one object each.",
     ["fuzzylite/factory/CloningFactory.h", "fuzzylite/factory/ConstructionFactory.h", "src/factory"],
     [("map from names to constructors or prototypes", "ConstructionFactory, CloningFactory"), ("deep copies", "CloningFactory::copyFrom, FactoryManager::copyFrom")],
     [], ["objects created, names listed, construction and destruction counts"])

prop("C16", "Operations leave process-wide settings as the user set them",
     "The numeric precision, comparison tolerance, number formatting, logging switches, default resolution and the component factories change only when the user sets them: no operation that succeeds, fails or is interrupted changes them, the formatting state of streams the user passes in, or the terminal. "
     "Results reflect the settings in force at the time of each operation and no earlier ones. The main of the command-line tool, a process of its own which sets them for itself, is set aside; its -decimals option counts as set by the user.",
     ["histories", "fault_sequences", "configurations"],
     "all sequences of setting changes interleaved with import, export, processing, copying and benchmarking operations that succeed or fail at any point",
     "The tests run with default settings, apart from a few that set and restore them.",
     ["src/fuzzylite.cpp", "fuzzylite/fuzzylite.h", "fuzzylite/Operation.h", "src/defuzzifier/IntegralDefuzzifier.cpp", "src/imex", "src/Benchmark.cpp", "src/Console.cpp"],
     [("settings are static members with explicit setters", "fuzzylite, IntegralDefuzzifier"), ("formatting in local string streams", "Op::str")],
     [], ["global getters, stream flags, exported text"])

prop("C17", "What an engine reports about itself is true",
     "However its rules are spaced or written, an engine that reports to be ready has every part that its enabled rules and outputs need, so that no cycle fails for want of one; one with nothing missing reports to be ready; and the status names the variables and rule blocks that lack something. "
     "The reported type of inference matches the defuzzifiers, implications and terms in place, and the reported degrees of terms, groups, highest terms, and fuzzy values and memberships shown as text agree with the degrees from which the outputs are computed. "
     "Asking for a report changes nothing in the engine, whether the report succeeds or fails.",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "all engines, with any parts missing, all sequences of changes, cycles and restarts, and all input values, with memory running out while a report is made",
     "The tests look at the reports of a few engines in a single state, with rules written in one way.",
     ["src/Engine.cpp", "src/term/Aggregated.cpp", "src/variable/Variable.cpp", "src/variable/OutputVariable.cpp", "src/rule/RuleBlock.cpp"],
     [("the report of missing parts", "Engine::isReady"), ("the type of inference", "Engine::type"), ("grouping of activated terms", "Aggregated::groupedTerms")],
     [], ["isReady and its status, type, activationDegree, groupedTerms, highestActivatedTerm, highestMembership, fuzzify, fuzzyOutputValue, and cycles"])

prop("C20", "Norms obey their algebraic laws",
     "Every built-in T-norm and S-norm is commutative, monotonic, bounded and has its neutral element over the unit interval.",
     ["inputs"], "all pairs of degrees in the unit interval", "The tests sample a grid.",
     ["src/norm"], [("closed formulas", "src/norm/t, src/norm/s")])
prop("C21", "Membership functions have their documented shape and range",
     "Every built-in term maps every value to a degree between zero and its height following its documented shape, and to an undefined degree only for an undefined value.",
     ["inputs"], "all terms, parameters and values", "The tests sample a few points of a few parameterisations.",
     ["src/term"], [("closed formulas", "src/term")])
prop("C22", "Formulas evaluate with the documented precedence and associativity",
     "Every valid formula evaluates to the value that the documented precedence and associativity of its operators and functions prescribe.",
     ["inputs", "programs"], "all formulas and variable values", "The tests evaluate fixed formulas.",
     ["src/term/Function.cpp", "src/factory/FunctionFactory.cpp"], [("shunting-yard parser", "Function::toPostfix, Function::parse")])
prop("C23", "Numbers survive conversion to text and back within the set precision",
     "Every number that is written with the set number of decimals reads back as the closest number with these decimals, and non-finite numbers read back as themselves.",
     ["inputs"], "all numbers and precisions", "The tests convert fixed numbers.",
     ["fuzzylite/Operation.h"], [("stream formatting and parsing", "Op::str, Op::toScalar")])
prop("C24", "Generated C++, Java and R sources describe the same engine",
     "The C++ and Java programs and the R scripts exported from an engine, when built and run, produce the outputs of the engine itself.",
     ["programs", "inputs"], "all engines and inputs", "The tests compare generated text.",
     ["src/imex/CppExporter.cpp", "src/imex/JavaExporter.cpp", "src/imex/RScriptExporter.cpp"], [("text generation", "exporters")])

pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
