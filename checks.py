"""What each check runs: number of runs and time limit per tier, probes, notes."""

COMMON_ASSUMPTIONS = [
    "The C++ standard library, the C library's stdio layer and the compiler are trusted; only the system call layer below them is simulated.",
    "A run is bounded (at most a few thousand operations, at most some ten thousand records); larger behaviour is extrapolated.",
]

DISK_REAL = ["all diagnostic classes of the repository (compiled with the project's flags)", "libstdc++ file streams"]
DISK_STUB = ["disk (in-memory files behind open/read/write/lseek/close)", "heap exhaustion (operator new)", "clocks", "standard output (captured)"]
DISK_MEASURE = "hash of the sequence of operations, object kinds, file system calls and transfer sizes, including the faults that fired"
SCHED_MEASURE = "hash of the sequence of thread switches (thread, its own step count, next thread), signals and file system calls with transfer sizes"
SCHED_STUB = ["thread scheduler (one thread at a time, switches at instrumented memory accesses, function calls and file system calls)"]
MATH_REAL = ["all scalar functions and all generated array functions, optimised build and build with instrumented memory accesses"]
CLOCK_REAL = ["the timer class"]
CLOCK_STUB = ["thread CPU, process CPU, monotonic and wall clocks"]
TOOL_STUB = ["process start and end (the program's main function in a forked process)", "disk (in-memory files behind open/read/write/lseek/close)", "clocks", "standard output (captured)"]
RULE = "One run is one seeded history of operations with seeded fault positions; "

CHECKS = {
    "P01": dict(note='Seeded histories of pool creations, saves and loads on a simulated disk whose transfers are split and interrupted at seeded positions; every load is compared bit for bit with a model. Sizes up to a few thousand numbers.',
                quick=(60000, 60), thorough=(120000, 150), level="fault_enumeration", probes=["read.back.records", "fault.short_write", "fault.short_read", "fault.interrupted_transfer"],
                rule=RULE + "non-trivial: at least one saved record was read back and compared.", measure=DISK_MEASURE, real=DISK_REAL, stub=DISK_STUB),
    "P02": dict(note='Seeded histories of responses with arbitrary bit patterns on a simulated disk with split and interrupted transfers; every load is compared bit for bit with a model.',
                quick=(60000, 60), thorough=(120000, 150), level="fault_enumeration", probes=["read.back.records", "fault.short_write", "fault.short_read", "fault.interrupted_transfer"],
                rule=RULE + "non-trivial: at least one saved record was read back and compared.", measure=DISK_MEASURE, real=DISK_REAL, stub=DISK_STUB),
    "P03": dict(note='Seeded histories of comparisons with arbitrary bit patterns; shown records and statistics after a load are compared with those of the original.',
                quick=(40000, 70), thorough=(80000, 150), level="fault_enumeration", probes=["read.back.records", "fault.short_write", "fault.short_read", "fault.interrupted_transfer"],
                rule=RULE + "non-trivial: at least one saved record was read back and compared.", measure=DISK_MEASURE, real=DISK_REAL, stub=DISK_STUB),
    "P04": dict(note='Crashes, full disks, device failures and lost file ends at seeded byte positions over the whole file, plus a writer interleaved with readers at every file system call and memory access; loads are compared with the records that reached the disk.',
                quick=(40000, 70), thorough=(120000, 150), level="fault_enumeration", probes=["read.torn", "fault.crash", "fault.disk_full", "fault.write_error", "fault.file_lost_its_end"],
                rule=RULE + "non-trivial: at least one file whose save was cut short, or which lost its end, was loaded and compared with what is on the disk, or a reader ran during a save.", measure=DISK_MEASURE, real=DISK_REAL, stub=DISK_STUB,
                assumptions=["Write failures last until the end of the save; a device that fails once and then works again may duplicate data in the C++ library and is not part of the property.",
                             "A crash keeps exactly the bytes written before it (no reordering by the disk cache)."]),
    "P05": dict(note='Seeded chains of loads and saves, also in place, on the simulated disk; every generation is compared with the first.',
                quick=(40000, 80), thorough=(120000, 150), level="fault_enumeration", probes=["read.resaved", "op.save_in_place"],
                rule=RULE + "non-trivial: a file written by a loaded object was read back with at least one record.", measure=DISK_MEASURE, real=DISK_REAL, stub=DISK_STUB,
                assumptions=["The source file is not changed by somebody else between loading and saving (documented copy semantics)."]),
    "P06": dict(note='Seeded sequences of open, read, write and close failures; memory, other files, descriptors and the retry are compared with a model after every operation.',
                quick=(40000, 90), thorough=(120000, 150), level="fault_enumeration", probes=["op.failed", "fault.open_fails", "fault.read_error", "fault.disk_full", "fault.write_error", "fault.close_fails"],
                rule=RULE + "non-trivial: at least one operation met a failure.", measure=DISK_MEASURE, real=DISK_REAL, stub=DISK_STUB),
    "P07": dict(note='Seeded start positions and durations on a simulated CPU clock; exact equality of the elapsed time.',
                quick=(200000, 30), thorough=(400000, 120), level="exploration", probes=["timer.read", "timer.over_a_second", "timer.second_boundary", "timer.printed"],
                rule=RULE + "non-trivial: at least one elapsed time was compared.", measure="hash of the sequence of timer operations and durations", real=CLOCK_REAL, stub=CLOCK_STUB),
    "P08": dict(note="Seeded interleavings of threads with timers on simulated per-thread clocks, with stalls and wall clock steps; exact equality with the thread's own simulated CPU time.",
                quick=(60000, 40), thorough=(160000, 150), level="exploration", probes=["timer.read", "timer.benchmarks", "sched.switches", "fault.stall", "fault.wall_clock_step"],
                rule=RULE + "non-trivial: at least one elapsed time was compared in a run with thread switches, stalls or wall clock steps.", measure=SCHED_MEASURE, real=CLOCK_REAL, stub=CLOCK_STUB + SCHED_STUB),
    "P09": dict(note='Benchmarks of a function whose every pass takes a seeded simulated time; evaluation order, mean and error are compared with the formula in extended precision.',
                quick=(24000, 60), thorough=(120000, 150), level="exploration", probes=["perf.runs", "perf.long_passes", "perf.more_than_32_bits"],
                rule=RULE + "non-trivial: at least one benchmark was run and its mean and error compared.", measure="hash of the benchmark forms, sizes, repetitions and means", real=["the benchmark class and the timer"], stub=CLOCK_STUB + ["the benchmarked function (spends a chosen amount of simulated time)"]),
    "P10": dict(note='Seeded interleavings of calls in up to four threads with switches inside calls and signal handlers inside calls; every result is compared with the same call in a fresh process.',
                quick=(60000, 80), thorough=(80000, 150), level="exploration", probes=["sched.switches", "fault.signal", "calls.compared", "history.calls", "history.asked_again"],
                rule=RULE + "non-trivial: at least one call was interrupted by another thread or a signal handler and all results were compared.", measure=SCHED_MEASURE, real=MATH_REAL, stub=SCHED_STUB + ["signal delivery (the handler runs inside the interrupted call at a chosen step)"]),
    "P11": dict(note='Seeded partitions of arrays over threads; every store of the instrumented build must lie in the output piece, and the optimised build runs with everything else write-protected; all elements are compared with the scalar function.',
                quick=(60000, 50), thorough=(80000, 150), level="exploration", probes=["sched.switches", "elements.compared", "piece.empty", "piece.plain", "piece.threads"],
                rule=RULE + "non-trivial: at least one element was computed in a piece and compared.", measure=SCHED_MEASURE + "; the functions, sizes and pieces", real=MATH_REAL, stub=SCHED_STUB + ["memory protection of everything but the output pages (optimised build)"]),
    "P12": dict(note="Seeded interleavings of pool constructions, saves and loads; each thread's pools are compared with those of the thread alone and with equal pools of other threads.",
                quick=(30000, 70), thorough=(60000, 150), level="exploration", probes=["sched.switches", "thread.compared", "pool.pairs_compared"],
                rule=RULE + "non-trivial: at least two threads were interleaved and their results compared with those of the threads alone.", measure=SCHED_MEASURE, real=DISK_REAL, stub=DISK_STUB + SCHED_STUB),
    "P13": dict(note='Seeded interleavings of threads on own files with switches at memory accesses and file system calls and split transfers; data and files are compared with those of each thread alone.',
                quick=(40000, 70), thorough=(60000, 150), level="exploration", probes=["sched.switches", "thread.compared", "fault.short_write", "fault.short_read", "fault.interrupted_transfer"],
                rule=RULE + "non-trivial: at least two threads were interleaved and their results compared with those of the threads alone.", measure=SCHED_MEASURE, real=DISK_REAL, stub=DISK_STUB + SCHED_STUB),
    "P14": dict(note='The real program is run as a simulated process that is killed or loses its disk at seeded positions, several times, then undisturbed; files are compared with a first run and outputs with the functions.',
                quick=(9000, 80), thorough=(30000, 200), level="fault_enumeration", probes=["bench.crashed_run", "bench.leftover_replaced", "bench.files_verified", "fault.disk_full", "fault.write_error", "fault.open_fails"],
                rule=RULE + "non-trivial: at least one run of the program was killed or met a disk failure before the undisturbed one.", measure=DISK_MEASURE, real=["the program vdtArithmBenchmark", "all functions and diagnostic classes it uses", "libstdc++ file streams"], stub=TOOL_STUB),
    "P15": dict(note='The real program is run on seeded lists of pairs with damaged files; every pair is run alone and compared with a direct comparison, then the list with its pairs.',
                quick=(24000, 90), thorough=(60000, 200), level="fault_enumeration", probes=["pair.compared", "pair.skipped", "list.mixed", "pair.ref", "pair.test", "pair.refdeny", "pair.testdeny", "pair.refempty", "pair.refhead", "pair.refcut", "pair.testcut", "pair.cut_compared"],
                rule=RULE + "non-trivial: at least one pair was compared.", measure=DISK_MEASURE + "; the names and contents of the pairs", real=["the program vdtArithmComparison", "the diagnostic classes it uses", "libstdc++ file streams"], stub=TOOL_STUB),
    "P16": dict(note='The real program is run on a simulated clock that advances by a seeded amount per reading; every line is recomputed from the readings, with and without failures of the report file.',
                quick=(40000, 50), thorough=(60000, 200), level="fault_enumeration", probes=["perf.lines_verified", "perf.faulty_run", "fault.open_fails", "fault.disk_full", "fault.write_error", "fault.short_write"],
                rule=RULE + "non-trivial: at least one function was measured.", measure="hash of the pattern, size, repetitions, clock behaviour, file system calls and transfer sizes", real=["the program vdtPerfBenchmark", "all functions and diagnostic classes it uses", "libstdc++ file streams"], stub=TOOL_STUB),
    "P23": dict(note='Seeded sequences of showing objects, statistics, benchmarks, timers and function differences; every text is compared with that of a process that showed nothing before, and loaded objects with their originals.',
                quick=(40000, 50), thorough=(200000, 150), level="exploration", probes=["shown.print", "shown.table", "shown.stats", "shown.perf", "shown.timer", "shown.funcs", "shown.bits", "shown.own", "shown.loaded_like_original"],
                rule=RULE + "non-trivial: at least two things were shown one after the other and compared.", measure="hash of the sequence of operations and object kinds", real=DISK_REAL, stub=DISK_STUB),
    "P24": dict(note='The real programs are run with a standard output that stops accepting text at seeded positions; all files and the text before the failure are compared with those of an undisturbed run.',
                quick=(30000, 50), thorough=(60000, 200), level="fault_enumeration", probes=["fault.screen_fails", "screen.tool0", "screen.tool1", "screen.tool2"],
                rule=RULE + "non-trivial: the screen failed and the run writes at least one file.", measure="hash of the texts, positions of the failure and file system calls", real=["the programs vdtArithmBenchmark, vdtArithmComparison and vdtPerfBenchmark", "all functions and diagnostic classes they use", "libstdc++ streams"], stub=TOOL_STUB[:3] + ["standard output (fails at a chosen character)"]),
    "P27": dict(note='The real programs are run one after the other in one simulated directory, killed or failing at seeded positions, over leftovers of each other, then undisturbed; files and texts are compared with those of the first runs in an empty directory.',
                quick=(9000, 60), thorough=(30000, 200), level="fault_enumeration", probes=["chain.killed.bench", "chain.killed.comp", "chain.killed.perf", "chain.finished.comp", "chain.leftover_replaced", "chain.bad_open", "chain.bad_write", "fault.disk_full", "fault.write_error", "fault.open_fails"],
                rule=RULE + "non-trivial: the undisturbed runs replaced a damaged or outdated file that earlier runs had left.", measure=DISK_MEASURE, real=["the programs vdtArithmBenchmark, vdtArithmComparison and vdtPerfBenchmark", "all functions and diagnostic classes they use", "libstdc++ streams"], stub=TOOL_STUB),
    "P28": dict(note='Seeded interleavings of threads that save, copy and read the same objects, with switches at memory accesses and file system calls and split transfers; files, copies and values are compared with those of each thread alone.',
                quick=(40000, 50), thorough=(60000, 150), level="exploration", probes=["sched.switches", "thread.compared", "thread.shared_objects", "fault.short_write", "fault.interrupted_transfer"],
                rule=RULE + "non-trivial: at least two threads were interleaved and their results compared with those of the threads alone.", measure=SCHED_MEASURE, real=DISK_REAL, stub=DISK_STUB + SCHED_STUB),
    "P29": dict(note='Two or three of the real programs run as simulated processes on one simulated disk and are interleaved at seeded file system calls, some of them killed or failing; files and texts are compared with those of each run alone.',
                quick=(12000, 60), thorough=(30000, 200), level="fault_enumeration", probes=["mesh.switches", "mesh.compared.bench", "mesh.compared.comp", "mesh.compared.perf", "mesh.disturbed", "mesh.reads_running"],
                rule=RULE + "non-trivial: at least two processes were interleaved.", measure=DISK_MEASURE + "; the positions at which processes were switched", real=["the programs vdtArithmBenchmark, vdtArithmComparison and vdtPerfBenchmark", "all functions and diagnostic classes they use", "libstdc++ streams"], stub=TOOL_STUB),
    "P25": dict(note='Seeded histories of copying, changing, saving and destroying objects, with write failures; the others of a family of copies are compared with a model after every operation on one of them.',
                quick=(30000, 50), thorough=(200000, 150), level="fault_enumeration", probes=["copy.checked", "op.copy", "op.add", "op.failed"],
                rule=RULE + "non-trivial: one of several copies was changed, saved or destroyed and another one was compared with the model.", measure=DISK_MEASURE, real=DISK_REAL, stub=DISK_STUB),
    "P26": dict(note='The real generator script is run by the real interpreter in a scratch directory, killed or failing at seeded bytes and system calls, over leftovers, in varying surroundings; every file is compared with that of a first run.',
                quick=(6000, 45), thorough=(30000, 150), level="fault_enumeration", probes=["gen.succeeded", "gen.killed", "gen.reported_failure", "gen.over_leftovers", "fault.crash", "fault.disk_full", "fault.write_error", "fault.open_fails", "fault.close_fails", "fault.short_write", "fault.interrupted_transfer"],
                rule=RULE + "non-trivial: a run of the generator succeeded over leftovers or after a failed run.", measure="hash of the sequence of file system calls with transfer sizes, and the faults that fired", real=["src/signatures_generator.py", "the Python interpreter and its library"], stub=["file system calls below the scratch directory (split, interrupted, failing, or the last of the process)", "clocks, process number, random bytes, hash seed, locale, time zone, file mode mask"]),
    "P30": dict(note='Functions that throw at a seeded evaluation, or create, save and load objects themselves, are handed to responses, benchmarks and displays of differences; what arrives, memory, files, other objects and the repetition are checked.',
                quick=(60000, 30), thorough=(120000, 120), level="fault_enumeration", probes=["fault.function_throws", "call.inner", "call.perf", "call.funcs"],
                rule=RULE + "non-trivial: a function threw, or used the library.", measure=DISK_MEASURE, real=DISK_REAL, stub=DISK_STUB),
    "P31": dict(note='Objects are created, copied, saved and loaded while the program has seeded language settings (digit grouping, separators, decimal character, blanks), changed between operations; contents are compared with a model and files with those saved without settings.',
                quick=(20000, 30), thorough=(120000, 120), level="exploration", probes=["fault.language_settings", "lang.same_content", "read.back", "op.copy"],
                rule=RULE + "non-trivial: a file saved under language settings was compared and records were read back.", measure=DISK_MEASURE, real=DISK_REAL, stub=DISK_STUB + ["the global locale of the program"]),
    "P32": dict(note='Objects are copied, extended, saved and loaded while the thread has a seeded floating-point mode (rounding direction, tiny results or arguments taken as zero), changed between operations; all bits are compared with a model.',
                quick=(20000, 25), thorough=(120000, 120), level="exploration", probes=["fault.floating_point_mode", "read.back", "op.copy"],
                rule=RULE + "non-trivial: an operation ran under a floating-point mode and records were read back.", measure=DISK_MEASURE, real=DISK_REAL, stub=DISK_STUB + ["the floating-point mode of the thread (set by the simulator)"]),
    "P17": dict(note='Every operation is repeated with the allocation at a seeded position failing, once or from then on; leaks, open files, other data and the retry are checked.',
                quick=(60000, 50), thorough=(120000, 150), level="fault_enumeration", probes=["fault.out_of_memory", "op.perf", "op.funcs", "op.copy"],
                rule=RULE + "non-trivial: at least one allocation failed.", measure=DISK_MEASURE, real=DISK_REAL, stub=DISK_STUB),
}

_PURE = "A pure function of its input: no schedule, clock, disk, memory or process state is involved, so that simulation with fault injection has nothing to vary; it calls for exhaustive or random numerical testing or proof. "
NOT_APPLICABLE = {
    "P18": _PURE + "Independence of the results from history and threads is decided under P10.",
    "P19": _PURE + "Independence of the results from history and threads is decided under P10.",
    "P20": _PURE + "That the counts survive saving and loading is decided under P03.",
    "P21": _PURE + "The programs are driven through this parser under P14, P15 and P16.",
    "P22": "A property of the generated text for a few generator options, decided by building it; nothing in it depends on schedules or faults.",
}
