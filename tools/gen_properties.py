#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

prop("C01", "Every multi-file run terminates",
 "Whatever mix of readable, missing, unreadable or malformed files is given, whatever job count is requested (including zero, one or more jobs than files), however the worker threads are scheduled and whichever file operation or thread creation fails, the command ends by itself with an exit status. It never deadlocks, never waits for work that cannot arrive and never spins for ever.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "All interleavings of the workers and the main thread, all job counts, all sets of inputs (good, bad, several per module), all single or repeated I/O failures.",
 "The two existing multi-file tests run one pair of good files with two jobs once; hangs need a particular interleaving (two workers finishing together), a failing file, or more modules than queue slots.",
 ["src/dumper.rs", "src/action.rs", "src/utils.rs"],
 [("work queue shared by main thread and workers", "src/dumper.rs several_files, consumer"),
  ("remaining-files counter that triggers the dump phase", "src/dumper.rs consumer"),
  ("termination messages sent to every worker", "src/dumper.rs poison_queue")],
 ["process exit (or its absence) within a bounded number of scheduling steps and bounded simulated time"],
 [dict(name="counter", meaning="input files not processed yet", where="src/dumper.rs"),
  dict(name="job queue", meaning="files to read, modules to write, end markers", where="src/dumper.rs")])

prop("C02", "Symbol output is independent of scheduling, job count and hash seeds",
 "For a given command line and given file contents, the set, location and bytes of all symbol files are the same for every job count, thread interleaving and hash seed (only the order of several modules on one stream is left open). Each module's output in a multi-file run equals what a run over just that module's own files, with the same options, produces.",
 ["schedules", "configurations", "inputs"],
 "All interleavings, job counts, CPU counts, hash seeds and completion orders, for any set of files including several that belong to one module, with and without inlines, mappings, architecture selection and symbol servers.",
 "Tests run each file or pair once, under whatever schedule happens, and mask lines that differ; none compares two schedules, job counts or batch against single runs.",
 ["src/dumper.rs", "src/object_info.rs", "src/source.rs", "src/mapping.rs", "src/inline_origins.rs", "src/utils.rs"],
 [("per-module result table filled by workers", "src/dumper.rs consumer"),
  ("combination of several files of one module", "src/object_info.rs merge, src/source.rs SourceMap::merge"),
  ("store path derived from module name and debug id", "src/utils.rs get_path_for_sym")],
 ["contents of the store directory / output file / standard output after the run"])

prop("C03", "A successful exit means every symbol file was completely written",
 "If the command exits successfully, every module it was asked to dump is present and byte-complete at the requested destination (store directory, file, standard output), no matter which directory creations, opens, writes or flushes failed or ran out of space on the way. If any byte of symbol output could not be delivered, the exit status reports failure.",
 ["fault_sequences", "schedules", "inputs"],
 "Every output operation x every error it can return (full disk, I/O error, quota, broken pipe, permission), at every position in the output, in single- and multi-file runs, under all schedules.",
 "No test injects an output error; a full disk in the last few kilobytes is lost in a buffer that is dropped.",
 ["src/dumper.rs", "src/object_info.rs", "src/main.rs"],
 [("buffered writer for symbol files", "src/dumper.rs get_writer_for_sym, store; src/object_info.rs dump"),
  ("errors of workers turned into the command's result", "src/dumper.rs several_files"),
  ("exit status", "src/main.rs main")],
 ["exit status together with the bytes that reached the simulated disk / standard output"])

prop("C04", "Partial and interrupted reads and writes never change the result",
 "Reads and writes that transfer fewer bytes than asked, or are interrupted by a signal and must be retried, change neither the exit status nor one byte of symbol output. This covers input files, companion PE/PDB files, cabinets, mapping files, hashed source files, cached symbols, and every output.",
 ["fault_sequences", "inputs", "configurations"],
 "Every read and write of a run, each possibly short (down to one byte) or interrupted any number of times, for all input kinds and output destinations.",
 "Regular files on a test machine always transfer everything at once, so these paths are never taken by tests.",
 ["src/utils.rs", "src/dumper.rs", "src/mapping.rs", "src/cache.rs", "src/windows/utils.rs"],
 [("whole-file reads", "src/utils.rs read_file, read"), ("cabinet extraction", "src/utils.rs read_cabinet"),
  ("symbol file writer", "src/dumper.rs get_writer_for_sym"), ("cache writer", "src/cache.rs copy_in_cache")],
 ["exit status, store directory, standard output, cache contents compared with a fault-free run"])

prop("C05", "A failing input fails the run and nothing is published from it",
 "If any input file of a run cannot be read or parsed, the command exits with a failure status and writes no symbol output at all, whatever the other inputs, the job count and the schedule. If call-frame data is required and a module has none, that module is not written and the command fails; a module that has call-frame data in any of its files is not rejected for want of it.",
 ["inputs", "fault_sequences", "schedules", "configurations"],
 "Every kind of failing input (missing, unreadable, read error part way, unknown format, damaged, missing architecture, no CFI when required) at every position among good inputs, all schedules and job counts.",
 "Tests only use good inputs in multi-file runs; the single-file failure test needs a file that is not in the tree.",
 ["src/dumper.rs", "src/action.rs", "src/main.rs", "src/utils.rs", "src/mac.rs"],
 [("errors and panics of workers", "src/dumper.rs consumer, several_files"),
  ("CFI requirement checked before writing", "src/dumper.rs store")],
 ["exit status, store directory, output file and standard output"])

prop("C06", "Modules sent to one destination are never interleaved",
 "When one run writes several modules to standard output, each module's symbol data appears exactly once, complete and contiguous, in some order. When one run writes several modules to the same file path, the file ends up holding exactly one of them, complete; never a mixture.",
 ["schedules", "inputs", "fault_sequences"],
 "All interleavings of the workers' writes, all job counts, module sizes below and above the I/O buffer sizes, with writes split arbitrarily.",
 "No test dumps two modules to one destination; interleaving needs two workers in the middle of their writes.",
 ["src/dumper.rs"],
 [("writer opened per module on the shared destination", "src/dumper.rs get_writer_for_sym, store")],
 ["bytes of standard output / of the output file after the run"])

prop("C07", "The symbol cache never serves a partial file",
 "After a download is cut off at any instant (process killed, write error, full disk, cache directory not writable), a later lookup of the same file either gets exactly the bytes the server had sent or behaves as if nothing had been cached: it downloads again if a server is reachable and fails cleanly otherwise. A damaged cache entry left by an earlier failed run is never parsed, dumped or allowed to block a later retrieval.",
 ["crash_points", "fault_sequences", "histories"],
 "Every crash point (before, after and in the middle of each file operation) and every file-operation error during retrieval, followed by lookups with servers up or down.",
 "The cache and HTTP code has no test that runs without the network, and none interrupts a download.",
 ["src/cache.rs", "src/utils.rs"],
 [("cache write after download", "src/cache.rs copy_in_cache, fetch_data"), ("cache lookup by existence", "src/cache.rs search_in_cache")],
 ["exit status and symbol output of the later runs"],
 [dict(name="cache/<name>/<id>/<name>", meaning="cached download", where="src/cache.rs")])

prop("C08", "Only complete, successful, genuine server responses are used or cached",
 "A response body is used or put in the cache only if the server answered the download itself with status 200 and the whole body arrived; error pages, bodies cut off before their announced end, empty bodies and 'Symbol Not Found' texts are treated as 'not available from this server', whatever an earlier existence check said. They never reach the symbol output and never stay in the cache.",
 ["fault_sequences", "histories", "inputs"],
 "All combinations of answers to the existence check and to the download (statuses, bodies, truncation at any byte, resets, redirects), all segmentations and latencies.",
 "No test runs the HTTP client; answers that change between check and download need a misbehaving server.",
 ["src/cache.rs"],
 [("existence check", "src/cache.rs check_if_file_exists, check_data"), ("download and filter", "src/cache.rs fetch_data, copy_in_cache")],
 ["symbol output, exit status, and what later lookups return"])

prop("C09", "One healthy server is enough, in bounded time; a cache hit needs none",
 "If at least one configured server serves the file, compressed or not, it is retrieved and dumped correctly within bounded time, however the other servers refuse, reset, stall, delay, answer errors, or promise the file and then fail to deliver it. If a configured cache already holds the file, it is used without any network access.",
 ["fault_sequences", "schedules", "configurations"],
 "All assignments of behaviours and latencies to the configured servers with at least one healthy, all completion orders of the concurrent queries, all positions of the healthy server and of the cache that has the file.",
 "Server order, latency and failure are never exercised by tests; a stalled server needs simulated time.",
 ["src/cache.rs", "src/dumper.rs", "src/windows/utils.rs"],
 [("concurrent existence checks on all servers", "src/cache.rs check_data"), ("download", "src/cache.rs fetch_data"), ("cache search first", "src/cache.rs search_in_cache, search_file")],
 ["symbol output, exit status, simulated time, connections attempted"])

prop("C10", "Downloaded symbols stay available offline and never change",
 "Over any sequence of runs that share caches, a file once retrieved from a server that has a cache configured is found again with every server down, and dumping it gives exactly the output of the first retrieval and of dumping the served file from disk. A file never retrieved is not found while servers are down, and one id's entry is never returned for another id or name.",
 ["histories", "fault_sequences"],
 "All sequences of lookups by debug id, code id or PE companion, with caches shared or separate and servers going up and down between runs, compressed or plain, compared with a map model.",
 "Needs several runs with servers and caches changing in between; no test runs even one.",
 ["src/cache.rs", "src/utils.rs", "src/dumper.rs", "src/windows/utils.rs"],
 [("cache layout", "src/cache.rs get_jobs, search_in_cache, copy_in_cache; src/utils.rs get_base"), ("cabinet transparency", "src/utils.rs read_cabinet")],
 ["exit status, symbol output and network use of each run"])

prop("C11", "Mapped source paths and digests are right under concurrency and errors",
 "Every source path in the output is either the mapping of that path by the configured rules, with any digest being that of the complete current contents of that very file, or, only if that file could not be read, the unmapped path. This holds for every module of a run however the workers share the mapping state and whichever reads fail, are short or are interrupted; one failed read affects only the module that was being dumped when it happened.",
 ["schedules", "fault_sequences", "inputs"],
 "All interleavings of workers mapping the same and different paths, all read faults on the source files, rules from command line and file.",
 "Tests map a handful of paths sequentially with readable files.",
 ["src/mapping.rs", "src/source.rs", "src/utils.rs"],
 [("mapping cache shared by all workers", "src/mapping.rs PathMappings::map"), ("digest of the source file", "src/mapping.rs get_digest")],
 ["FILE records of every module"],
 [dict(name="mapping cache", meaning="path to mapped path", where="src/mapping.rs")])

prop("C12", "Combining the files of one module conserves their symbols in any order",
 "When several inputs belong to one module, the combined output has, whatever their order and arrival, a function at every address where any input has one, with the name, size, source lines and inline calls that one such input gives it; a symbol or enclosing range at every address where any input has a public symbol; all unwind records of every input; and the code id line if any input has one. Every file and inline-origin number used in it is defined and denotes the same path or name as in the input it came from; no path of two inputs is listed twice.",
 ["schedules", "inputs", "configurations"],
 "All arrival orders and interleavings, all argument orders, groups of two to four files with overlapping and disjoint functions, files and inline origins, mixed with other modules.",
 "Tests merge exactly one stripped/debug pair whose stripped half has no functions, so renumbering is never needed.",
 ["src/object_info.rs", "src/source.rs", "src/inline_origins.rs", "src/symbol.rs", "src/dumper.rs"],
 [("pairwise combination", "src/object_info.rs merge"), ("file renumbering", "src/source.rs SourceMap::merge"), ("inline origin renumbering", "src/inline_origins.rs merge_inline_origins")],
 ["records of the combined symbol file against those of the inputs dumped alone"])

prop("C13", "An interrupted run can simply be repeated",
 "If a run is killed at any instant and the same command is run again, the second run succeeds and leaves exactly the symbol files, byte for byte, that a single uninterrupted run leaves. Nothing left behind by the killed run survives in, is appended to, or suppresses any symbol file.",
 ["crash_points", "histories", "schedules"],
 "Every crash point before, after and within each file operation of single- and multi-file runs to a store, a file or both; then a complete second run.",
 "No test kills a run or writes over existing output.",
 ["src/dumper.rs"],
 [("output truncated on open, directories created if missing", "src/dumper.rs get_writer_for_sym, store")],
 ["store directory and output file after the second run"])

prop("C14", "Concurrent invocations sharing a store or cache do not disturb each other",
 "Two invocations that share a store directory or a symbol cache and overlap in time in any way each give the exit status and output they would give alone. Neither ever reads a file the other has only partly written, and the final store and cache contents are complete.",
 ["schedules", "histories"],
 "Every instant at which one invocation can be suspended while the other runs to completion (or is itself suspended), for the same or different modules, with shared caches cold or warm.",
 "Tests never run two invocations against the same directories at once.",
 ["src/cache.rs", "src/dumper.rs"],
 [("cache publication", "src/cache.rs copy_in_cache"), ("directory creation tolerant of races", "src/dumper.rs store, src/cache.rs copy_in_cache")],
 ["exit status and output of both invocations, final directory contents"])

prop("C15", "Symbol files are well-formed for every input, damaged ones included",
 "Whatever the input files hold, including bit rot, zeroed, misplaced or lost sectors, cut-off files and names with control characters, line breaks or arbitrary bytes, a run either reports failure or every line it writes is one valid Breakpad record: the MODULE line first and with a module name, then INFO, FILE, INLINE_ORIGIN, symbol and STACK records, numbers in the right base, no control characters, file and origin numbers defined before use, functions and publics in strictly increasing address order. Each symbol file lies in the store exactly where the name and id of its MODULE line put it, never outside the store.",
 ["inputs", "fault_sequences", "schedules"],
 "All damage that storage or transfer can do to an input or to a companion file, in single files, in files that are combined and in batches.",
 "Tests dump a dozen intact files with well-behaved names.",
 ["src/object_info.rs", "src/symbol.rs", "src/line.rs", "src/inline_origins.rs", "src/common.rs", "src/utils.rs"],
 [("record formatting", "Display implementations of ObjectInfo, Symbol, SourceLineInformation"), ("module name", "src/object_info.rs from_object"), ("store path", "src/utils.rs get_path_for_sym")],
 ["every line of every file written, its location, and the exit status"])

prop("C21", "A PE file is only ever combined with the PDB that belongs to it",
 "Whichever PE, PDB and other files lie next to an input (builds of other versions, other modules, cabinets, directories, cut-off files), in the cache or on a symbol server, and whichever operations on them fail, the output for a PDB is that of the PDB alone or of the PDB with a PE of the same debug id, and the output for a PE is that of the PE alone or of the PE with a PDB of the same debug id. A PE with the same debug id lying next to the PDB under its name is used whatever else is there, and so is a matching PDB when it is the only candidate, be it at the path recorded in the PE, next to the PE, in the working directory, in a cache or on a server.",
 ["inputs", "fault_sequences", "schedules"],
 "All contents of the directory, cache and server for the candidate names, all failures of operations on them.",
 "Tests only have directories with the one right file, and the PDB the relevant test needs is missing from the tree.",
 ["src/windows/utils.rs", "src/dumper.rs"], [("debug id comparison", "src/windows/utils.rs find_pe_for_pdb, get_pe_pdb_buf")],
 ["unwind records, code id, symbols and identity of the module in the output"])

prop("C22", "A run changes nothing but its destinations",
 "Whatever fails or is interrupted, a run creates, changes and removes nothing except the output file it was given, the symbol files of its own modules in the store (with their directories) and the entries it downloads in the configured caches. Inputs, source files, configuration, the working directory, and everything else that lies in the store or cache, such as other modules, other versions of the same module and foreign files in the same directories, are left exactly as they were; a symbol file of an earlier run is left as it was if an input of this run cannot be read or parsed, or if required call-frame data is missing. Only the configured symbol servers are looked up and contacted (those given on the command line instead of those in the configuration file), and none if none is configured.",
 ["fault_sequences", "crash_points", "schedules", "configurations"],
 "All faults and crash points on outputs, caches and inputs of single- and multi-file runs and of server lookups, with the store, the cache and the surrounding directories already populated.",
 "Tests start from empty scratch directories, never fail an output operation and never look beside the one file they expect.",
 ["src/dumper.rs", "src/cache.rs", "src/utils.rs"],
 [("store and output file", "src/dumper.rs store, get_writer_for_sym"), ("cache publication and clean-up of its temporary file", "src/cache.rs copy_in_cache"), ("choice of servers", "src/cache.rs get_sym_servers, parse_srv")],
 ["the whole simulated file tree before and after the run, names resolved and connections made"])

prop("C23", "The number of jobs bounds the threads and open files of a run",
 "With -j N (or without it, one job per processor) no more than N threads of a multi-file run read inputs or write symbols at any moment, whatever the number of inputs and modules and the schedule, and the number of files open at any moment is bounded by the number of jobs, not by the number of inputs: files are closed when they have been read or written.",
 ["schedules", "configurations", "inputs"],
 "All interleavings, job counts, processor counts and numbers of inputs up to a few dozen.",
 "Tests run one or two files and cannot see which thread does what.",
 ["src/dumper.rs", "src/main.rs", "src/utils.rs"],
 [("worker pool", "src/dumper.rs several_files"), ("job count", "src/main.rs"), ("readers and writers", "src/utils.rs read_file; src/dumper.rs get_writer_for_sym")],
 ["thread of every file operation, number of open files over time"])

prop("C24", "A listing of architectures is complete and correct, or the run fails",
 "With --list-arch, a successful exit means that standard output holds, for every input in the order given, its file name and exactly the architectures it contains, and nothing else, however reads and writes were short or interrupted. If a file cannot be read or parsed, or a byte of the listing cannot be delivered, the exit status reports failure and what was printed is the beginning of the full listing. A listing never writes symbols, changes a file or uses the network, whatever other options are given.",
 ["inputs", "fault_sequences", "configurations"],
 "All lists of fat and thin files, bundles and cabinets, readable and not, all short, interrupted and failing reads of inputs and writes of the listing, with and without the options of a dump.",
 "The only tests of listings check one good fat file; none makes a read or write fail or gives several files.",
 ["src/action.rs", "src/mac.rs", "src/utils.rs", "src/main.rs"],
 [("listing of one file", "src/mac.rs print_macho_architectures"), ("loop over the files", "src/action.rs several_files"), ("reader", "src/utils.rs read_file")],
 ["standard output, exit status, file tree, network"])

prop("C25", "Messages never affect the result",
 "Whatever the level of verbosity, and whether messages can be written or not (standard error full, closed, failing, or accepting only a part at a time), the symbol output is byte for byte that of a quiet run and the exit status reports success or failure just as that run does. No message ever gets into a symbol file or onto standard output.",
 ["fault_sequences", "configurations", "schedules", "inputs"],
 "All levels, all failures of writes of messages at any point, all interleavings of threads that log, good and bad inputs and sources.",
 "No test runs with messages on, let alone with a standard error that fails.",
 ["src/main.rs", "src/dumper.rs", "src/object_info.rs", "src/mapping.rs"],
 [("logger and panic hook", "src/main.rs main"), ("messages of workers", "src/dumper.rs"), ("messages about sources and call-frame data", "src/mapping.rs, src/object_info.rs")],
 ["symbol output, standard output, exit status"])

prop("C26", "A configuration that cannot be used fails the run; it is never ignored",
 "If the mapping options, the mapping file, the architecture or an extra line given cannot be read or understood (missing, unreadable at any point, cut off, not JSON, an invalid expression, an unknown variable, unequal numbers of sources and destinations), or the symbol server configuration file is there but cannot be read when servers are needed, the command exits with a failure status, whatever the inputs, the job count and the schedule. Nothing is written: no symbol output, no change to any file that was there before.",
 ["inputs", "fault_sequences", "configurations", "schedules"],
 "All ways in which a configuration file or option is missing, cut off, damaged or invalid and all failures of reading it, for single files and batches, all destinations.",
 "Tests use valid mappings only and never make reading them fail.",
 ["src/mapping.rs", "src/cache.rs", "src/main.rs", "src/dumper.rs", "src/utils.rs"],
 [("mapping file and options", "src/mapping.rs PathMappings::new, Mappings::new"), ("server configuration", "src/cache.rs read_config"), ("extra lines", "src/main.rs get_extra_info")],
 ["exit status, standard output, file tree"])

# ---- listed for breadth; pure functions of their input: not simulation targets ----
def pure(id, title, statement, qtext, why, files, mech):
    prop(id, title, statement, ["inputs"], qtext, why, files, mech, ["symbol output"])
pure("C16", "Line and inline records cover a function's code exactly as the debug info says",
 "For every address of a function the line record and the chain of inline records covering it give the file, line and call stack that the debug information gives, with line lengths filling the function.",
 "All functions with all nestings of inlined calls and unordered or overlapping line rows.", "Tests cover a few compiled samples.",
 ["src/collector.rs", "src/line.rs"], [("line/inline sweep", "src/collector.rs"), ("length inference", "src/line.rs")])
pure("C17", "Names are demangled and cleaned consistently",
 "Compiler-added suffixes are removed, mangled names of all supported languages are demangled without return types, Windows decorations yield the parameter size, and names that cannot be demangled are kept unchanged.",
 "All symbol names.", "Tests sample a few names.", ["src/common.rs", "src/collector.rs", "src/symbol.rs"], [("name cleaning", "src/common.rs, src/symbol.rs")])
pure("C18", "Identity lines match the binary",
 "The platform, architecture, debug id, code id and module name in the output are those of the dumped binary, and the store path is derived from the same name and id.",
 "All object files.", "Tests compare fixed files.", ["src/object_info.rs", "src/utils.rs", "src/platform.rs"], [("module header", "src/object_info.rs")])
pure("C19", "Unwind records equal the binary's unwind tables",
 "The STACK records describe exactly the frame rules of the binary's own unwind tables, taken from the PE file rather than the PDB when both exist.",
 "All unwind tables.", "Tests compare fixed files.", ["src/object_info.rs"], [("CFI writer", "src/object_info.rs get_stack_info")])
pure("C20", "The requested architecture is taken from fat binaries",
 "From a binary with several architectures exactly the requested one is dumped, a binary with one architecture is dumped whatever is requested, and an absent architecture is an error.",
 "All archives and architectures.", "No test has a fat binary.", ["src/mac.rs"], [("object selection", "src/mac.rs from_macho")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
