import json
D="include/diagnostic/"
P=[]
WHERE={"P09":(D+"vdtdiag_fcnPerformance.h: measureTime, measureTimev, measureTime2D, measureTime2Dv",D+"vdtdiag_fcnPerformance.h"),
 "P10":("include/*.h",""),"P11":("src/signatures_generator.py: loops of the generated array functions","callers' arrays"),
 "P12":(D+"vdtdiag_random.h: constructors of the pool classes",D+"vdtdiag_random.h: fill functions"),
 "P14":("progs/vdtArithmBenchmark.cpp: saveResponses, main","working directory of progs/vdtArithmBenchmark.cpp"),
 "P15":("progs/vdtArithmComparison.cpp: loop in main","working directory of progs/vdtArithmComparison.cpp"),
 "P16":("progs/vdtPerfBenchmark.cpp: loops in main","progs/vdtPerfBenchmark.cpp")}
MEANING={"P23":"flags and precision that outlive one text","P24":"which part of the text was accepted","P25":"what a copy owns","P06":"error flags of the streams and file descriptors that must be closed again","P07":"the two stored clock values","P08":"the two stored values of the thread's CPU clock","P17":"blocks owned by objects under construction",
 "P04":"the bytes that reached the disk before the stop","P09":"sums of the pass times and of their squares","P11":"memory next to the output piece, which other threads use",
 "P12":"position of a generator in its sequence","P14":"files left over by earlier runs","P15":"response files read and comparison files written","P16":"CPU clock readings and the report file"}
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    w=WHERE.get(id,(files[-1],files[0]))
    a={"files":files,"mechanism":[{"name":mech,"where":w[0]}]}
    if state:a["state"]=[{"name":state,"meaning":MEANING.get(id,"state the property is about"),"where":w[1]}]
    if observe:a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
RW=[D+"vdtdiag_filePersistence.h",D+"vdtdiag_interfaces.h"]
p("P01","Saved random pools read back bit for bit",
 "A pool of random numbers (one- or two-dimensional, single or double precision) that was saved to a file and loaded again holds the same numbers, in the same order, with the same bits, and X stays paired with Y. This holds however the operating system splits or interrupts the transfers, and however many other saves and loads happened before.",
 ["inputs","histories","fault_sequences"],"All pool kinds, ranges, seeds and sizes, all histories of saves and loads, all short or interrupted transfers.",
 "A test saves one pool through one run of undisturbed system calls; the loss shows only for particular sizes, bit patterns, or transfer boundaries inside a number.",
 RW+[D+"vdtdiag_random.h"],"writeFile and the from-file constructors of the pool classes; hexadecimal write and read helpers.",None,"getNumbers/getNumbersX/getNumbersY of the loaded pool")
p("P02","Saved function responses read back bit for bit",
 "The inputs and outputs of a function response (one or two arguments, scalar or array function, single or double precision) equal what the function was given and returned, and after saving and loading they are the same numbers in the same order with the same bits, including signed zeros, subnormals, infinities and NaN payloads. This holds however the transfers are split or interrupted and whatever was saved or loaded before.",
 ["inputs","histories","fault_sequences"],"All response kinds, bit patterns, sizes and function names without line breaks; all histories; all short or interrupted transfers.",
 "Bit patterns, record counts and transfer boundaries cannot be enumerated by tests; the existing tests only print the result.",
 RW+[D+"vdtdiag_fcnResponse.h"],"writeFile and from-file constructors of the response classes.",None,"getInput/getInput1/getInput2/getOutput of the loaded response")
p("P03","Saved comparisons read back with all records and statistics",
 "A comparison of two sets of function outputs that was saved and loaded shows the same inputs, outputs, differing-bit counts and statistics as the original, record for record. This includes records whose inputs or outputs are zero, infinite or NaN, and holds however the transfers are split or interrupted.",
 ["inputs","histories","fault_sequences"],"All comparison kinds, bit patterns, sizes, histories and short or interrupted transfers.",
 "One unusual record can end the load early and the rest disappears silently; no test looks at the records after loading.",
 RW+[D+"vdtdiag_fcnComparison.h"],"writeFile, from-file constructors, print and printStats of the comparison classes.",None,"print and printStats of the loaded comparison")
p("P04","An interrupted save is never read back as invented data",
 "If a save is cut short by a crash, a full disk or a failing device that stays failed, or the file later loses its end, loading the file gives exactly the records that completely reached the disk, unaltered and in order; only the final record may be missing if its end was lost, and values of one record are never mixed with another. A statistics line is read either as it was saved or as empty, and a reader that runs while the first save of a file is still in progress also sees only such a leading part.",
 ["crash_points","fault_sequences","schedules"],"All byte positions at which a save can stop, all object kinds, sizes and values, all interleavings of one writer and its readers on a new file.",
 "The stop can fall on any byte of the file; a test would have to cut the file at every position of every kind of number.",
 RW+[D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h"],"Buffered stream writes flush at arbitrary positions; from-file constructors parse whatever is there.","in-memory disk behind the C library calls","records of the object loaded after the stop")
p("P05","Re-saving a loaded object keeps its data, even over its own file",
 "An object loaded from a file and saved again produces a file that loads as the same records, while the file it came from is unchanged. This holds over any number of generations, and also when the target is the very file the object was loaded from.",
 ["histories","fault_sequences"],"All chains of load and save, over any object kinds and file names, including saving in place, and all short or interrupted transfers.",
 "The loss depends on the chain of operations and on the coincidence of source and target names.",
 RW+[D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h"],"Objects made from a file are saved by copying that file behind a new first line.",None,"records loaded from the new file and from the source")
p("P06","Input/output failures stay contained and can be retried",
 "When opening, reading, writing or closing a file fails, the save or load returns normally, the objects in memory keep their data, no other file changes and no file stays open; loading a missing or unreadable file gives an empty object or a leading part of the saved records. Once the failures stop, repeating the same save or load succeeds completely.",
 ["fault_sequences","histories"],"All sequences of open, read, write and close failures over all object kinds and histories.",
 "Failing devices cannot be provoked in a test at every call; the second attempt after a failure is never tested.",
 RW+[D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h"],"Stream error state is not checked by writers and ends the loops of the readers.","stream state, open descriptors","objects, other files and open descriptors after the failure")
p("P07","The timer reports elapsed nanoseconds exactly",
 "The elapsed time reported between starting and stopping a timer equals the CPU time that passed in between, in nanoseconds, exactly. It does not matter where in a second the interval starts or ends, how long it lasts, or how often the timer was used before.",
 ["inputs","histories"],"All start times and durations of a monotonic clock with nanosecond resolution, all reuse histories of timers.",
 "A test cannot choose where in a second its interval falls nor wait for days.",
 [D+"vdtdiag_helper.h"],"Two clock readings are stored and subtracted.","clock readings","get_elapsed_time")
p("P08","The timer counts only the calling thread's own CPU time",
 "Time during which the measuring thread does not run - preemption, work done by other threads, stalls, or steps of the wall clock - is not part of the elapsed time. Timers used by different threads, or nested in one thread, do not influence each other.",
 ["schedules","fault_sequences"],"All interleavings of threads with their own timers, all stalls and wall clock steps.",
 "Preemption at the wrong moment and clock steps are rare on a test machine and cannot be repeated.",
 [D+"vdtdiag_helper.h"],"The timer reads a per-thread CPU clock.","clock readings","get_elapsed_time")
p("P09","Benchmark mean and error describe exactly the measured passes",
 "A benchmark with r repetitions over n inputs calls the function on every input, in order, in r warm-up passes and then in r measured passes. The reported mean is the time spent in the measured passes divided by n*r, and the error is sqrt((S - N*mean^2)/(N-1))/sqrt(N) with N=n*r and S the sum of the squared pass times, whatever the pass times are; warm-up passes and time outside the function do not count.",
 ["inputs","histories","fault_sequences"],"All sizes and repetition counts with N of at least 2, all four function forms and both precisions, all sequences of pass times from nanoseconds to minutes.",
 "The numbers depend on the clock; a test on a real machine can only see that they are plausible.",
 [D+"vdtdiag_fcnPerformance.h",D+"vdtdiag_helper.h"],"Four copies of the measuring loop accumulate pass times and their squares.","accumulated times","getAvg, getAvgErr, print")
p("P10","Scalar functions give the same bits in every thread and history",
 "Calling a scalar function with the same argument always gives the same result bits, whatever functions were called before, whatever other threads are doing at the same time, and also when a signal handler that uses the library interrupts a call. No initialisation or locking is needed.",
 ["schedules","histories"],"All interleavings of calls from several threads and signal handlers, all call histories, all functions and precisions.",
 "Hidden state shows only when another call falls into a window of a few instructions or after a special history.",
 ["include/asin.h","include/atan.h","include/atan2.h","include/exp.h","include/log.h","include/sincos.h","include/sin.h","include/cos.h","include/tan.h","include/tanh.h","include/inv.h","include/sqrt.h","include/identity.h","include/stdwrap.h","include/vdtcore_common.h"],"Inline functions without static state.",None,"returned values")
p("P11","Array functions can be split over threads without a trace",
 "Splitting an array into consecutive pieces of any sizes and alignment, and processing the pieces by array functions from several threads in any interleaving, gives element by element the bits of the scalar function (any NaN for a NaN). Inputs and everything outside the output piece are never written, not even temporarily; a piece of size zero is legal.",
 ["schedules","inputs"],"All partitions, alignments and interleavings, all array functions and both precisions.",
 "A write beyond the end of a piece is visible only if the neighbouring piece is processed at the wrong moment.",
 ["src/signatures_generator.py","include/vdtMath.h","include/vdtcore_common.h"],"Generated loops over the elements.","neighbouring elements","output arrays and memory around them")
p("P12","Random pools are reproducible in every history and thread",
 "The numbers of a pool depend only on its range, size, seed and precision: the same arguments give the same bits whatever pools were made before, at the same time in other threads, or loaded from files. All numbers lie inside the requested range and the pool has the requested size.",
 ["schedules","histories","inputs"],"All histories and interleavings of pool constructions, all ranges, sizes and seeds.",
 "Shared generator state shows only when pools are made in a different order or at the same time.",
 [D+"vdtdiag_random.h",D+"vdtdiag_interfaces.h"],"Each pool owns its engine and distribution.","random engine","getNumbers/getNumbersX/getNumbersY")
p("P13","Independent diagnostic objects in different threads do not interfere",
 "Threads that each create, save, load and re-save their own pools, responses and comparisons obtain the same data and files as if each thread ran alone, in every interleaving and with split or interrupted transfers. Several threads may load the same file at the same time.",
 ["schedules","fault_sequences"],"All interleavings of threads working on their own objects and files, all short or interrupted transfers.",
 "Interference needs a switch between two particular instructions or system calls.",
 RW+[D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h"],"Objects hold their own vectors and streams.",None,"data of every object and content of every file")
p("P14","The response benchmark can be killed and rerun at any moment",
 "A completed run of the response benchmark leaves one response file per function form, holding the requested number of records whose outputs are the function's results for their inputs. After any sequence of runs that crashed or met a full disk, one undisturbed run with the same options leaves exactly the files of a first undisturbed run, and never touches files of other nicknames.",
 ["crash_points","fault_sequences","histories"],"All crash points and disk failures of the benchmark, repeated runs, all nicknames and sizes.",
 "Leftovers of a crashed run are different at every byte position.",
 ["progs/vdtArithmBenchmark.cpp",D+"vdtdiag_fcnTuples.h",D+"vdtdiag_fcnResponse.h"],"The program writes one file after the other.","files","response files")
p("P15","The comparison tool treats every pair on its own",
 "For every pair of response files the comparison tool writes a comparison and prints a table row that agree with a direct comparison of the records in the two files. A pair whose files are missing, unopenable or hold different numbers of records, or whose reference file is empty or ends within its header, is reported and skipped, and the remaining pairs are processed as if it were not in the list. The differing-bit count of a record is the number of binary digits of the distance between the two outputs' bit patterns.",
 ["inputs","fault_sequences","crash_points"],"All lists of pairs with any subset missing, unopenable or cut off, all functions and sizes, all short or interrupted transfers.",
 "The outcome depends on which file of which pair is damaged and how.",
 ["progs/vdtArithmComparison.cpp",D+"vdtdiag_fcnComparison.h",D+"vdtdiag_fcnResponse.h"],"One loop over pairs, which opens, checks, loads and compares.","files","comparison files and printed table")
p("P16","The performance tool reports each selected function correctly",
 "The performance tool measures every function whose name matches the given pattern exactly once and no other, and writes the same line on the screen and to the report file, with mean and error following from the clock readings around the measured passes. The report is complete however the writes are split or interrupted, and a failing report file does not change the lines on the screen.",
 ["configurations","fault_sequences","inputs"],"All patterns, sizes, repetition counts, clock positions and speeds, and all write or open failures of the report file.",
 "On a real machine the expected numbers are unknown.",
 ["progs/vdtPerfBenchmark.cpp",D+"vdtdiag_fcnPerformance.h",D+"vdtdiag_fcnTuples.h"],"Loops over function tables with a pattern filter; print to two streams.","clock, files","screen output and report file")
p("P17","A failed memory allocation leaves nothing behind",
 "If memory runs out while an object is created, copied, loaded or saved, a function is measured or function differences are shown, the operation either finishes, possibly with fewer loaded records, or ends with the standard out-of-memory exception. Then no memory or open file is lost, other objects and files are unchanged, and repeating the operation with enough memory succeeds.",
 ["fault_sequences","histories"],"All allocations at which memory can run out, in all operations on all object kinds.",
 "Each of the hundreds of allocations in an operation would have to be made to fail in turn.",
 RW+[D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h",D+"vdtdiag_fcnPerformance.h"],"Vectors, streams and raw arrays owned by the objects and measuring loops.","heap","allocations, descriptors and objects after the exception")
p("P18","The fast functions are accurate to the advertised number of bits",
 "Inside their documented domain the fast functions differ from the correctly rounded result only in the last few bits.",
 ["inputs"],"All arguments in the domain of each function.",
 "Tests sample a few thousand of 2^32 or 2^64 arguments.",
 ["include/exp.h","include/log.h","include/sincos.h","include/tan.h","include/tanh.h","include/asin.h","include/atan.h","include/atan2.h","include/inv.h","include/sqrt.h"],"Rational approximations and range reduction.")
p("P19","The fast functions treat arguments at and beyond the domain edge sensibly",
 "Overflowing and underflowing exponentials, logarithms of zero and negative numbers and arc functions at the edge give the documented limits.",
 ["inputs"],"All arguments at or outside the domain edges.",
 "Edges differ for every function and precision.",
 ["include/exp.h","include/log.h","include/asin.h","include/atan2.h","include/tanh.h"],"Final range checks of each function.")
p("P20","The differing-bit count measures the distance of two numbers",
 "The count of two numbers is zero if they have the same bits and otherwise the number of binary digits of the distance between their bit patterns.",
 ["inputs"],"All pairs of numbers.",
 "2^128 pairs.",
 [D+"vdtdiag_helper.h"],"Difference of bit patterns and a logarithm.")
p("P21","Command line options are parsed as documented",
 "Short and long option names with an equals sign are accepted once each; unknown or repeated options are refused.",
 ["inputs"],"All argument lists.",
 "Argument lists are unbounded.",
 [D+"vdtdiag_simpleCmd.h"],"One pass over the arguments.")
p("P22","The generated library offers every function in every form",
 "For every function of the library the generated source contains the array form in both precisions, and on request the drop-in replacements of the system mathematical functions.",
 ["configurations"],"All generator options.",
 "Only the default option is built.",
 ["src/signatures_generator.py"],"A script prints C++ text.")
p("P23","Showing something never changes how anything is shown later",
 "Whatever objects, bit patterns, comparison statistics, benchmark results, timers or function differences were shown before on the same stream, showing an object gives the same text, and numbers the program prints itself afterwards look as if nothing had been shown. An object loaded from a file is shown like the one that was saved, apart from its name.",
 ["histories"],"All sequences of showing objects of all kinds, full or as a table row, mixed with saves, loads and benchmarks.",
 "The text of one object is right on its own; it changes only after particular others were shown on the same stream.",
 [D+"vdtdiag_helper.h",D+"vdtdiag_interfaces.h",D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h",D+"vdtdiag_fcnPerformance.h"],"print, printStats and the helpers set width, precision and number format of the shared standard stream.","stream format flags and precision","text on the standard output")
p("P24","A screen that stops accepting text never harms the files of a tool",
 "If the standard output of one of the three tools stops accepting text at any point of a run, all files it writes are complete and identical to those of an undisturbed run, and the exit status is the same. The text accepted until then is the beginning of the text of the undisturbed run.",
 ["fault_sequences","configurations"],"All positions at which the output can fail, all tools and option lists, all states of the files they read.",
 "A closed pipe or full log file hits at one particular character; tests run with a screen that works.",
 ["progs/vdtArithmBenchmark.cpp","progs/vdtArithmComparison.cpp","progs/vdtPerfBenchmark.cpp",D+"vdtdiag_fcnPerformance.h",D+"vdtdiag_fcnComparison.h"],"Progress text and files are written in turn from the same loops.","error state of the standard stream","files and exit status after the run")
p("P25","Copies of an object are independent of each other",
 "A copy of a pool, response or comparison shows the same data and saves the same content as the object it was made from. Adding data to one, saving it, failing to save it, or destroying it leaves the other unchanged and usable.",
 ["histories","fault_sequences"],"All histories of copying, changing, saving and destroying objects of all kinds, made in memory or loaded, with write failures and lack of memory.",
 "Shared state between copies shows only after one of them was changed or destroyed while the other is still used.",
 RW+[D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h"],"Compiler-generated copies of the classes with their vectors and file names.","data and source file name of each copy","data shown by and files saved from the other copies")
p("P26","The source generator can be interrupted and run again at any moment",
 "A completed run of the script that generates the source of the array functions leaves, in the requested directory, exactly the file that a first run with the same options leaves in an empty one, whatever earlier runs with the same or other options, crashes or full disks left there, and whatever the working directory, time, locale and process are. A run that cannot write the whole file ends with a failure status, never with success. No other file is created, changed or removed.",
 ["crash_points","fault_sequences","histories","configurations"],"All sequences of generator runs with and without the drop-in replacements, all leftovers, all positions of crashes, full disks and failing opens, writes and closes, all surroundings of the process.",
 "A build that starts in a clean directory never meets leftovers or failures; a stale or incomplete source shows as an unexplained build error or not at all.",
 ["src/signatures_generator.py"],"The script opens its output for writing, writes one or two texts and closes it.","the generated file","content of the generated file, exit status, other files")
p("P27","The tools can be killed and rerun in one directory at any moment",
 "However often runs of the three tools in one directory crashed, met a full disk or failing reads, or could not open files, an undisturbed run of the response benchmark, then of the comparison of its files, then of the performance tool leaves exactly the files and shows exactly the text of the same runs in an empty directory. No run dies or changes files of another tool or nickname. A comparison file that cannot be opened or written changes neither the table on the screen nor the other comparison files.",
 ["crash_points","fault_sequences","histories"],"All sequences of runs of the three tools with any nicknames, sizes and lists, all positions of crashes and failures, all leftovers.",
 "A test runs a tool once in a fresh directory; leftovers of one tool matter only to the next one, after an unlucky crash.",
 ["progs/vdtArithmBenchmark.cpp","progs/vdtArithmComparison.cpp","progs/vdtPerfBenchmark.cpp",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h",D+"vdtdiag_filePersistence.h"],"The tools hand over their results in files named after the nickname and the function.","files of the directory","files, text and exit status of each run")
p("P28","One object can be saved, copied and read by several threads at once",
 "Threads that save the same pool, response or comparison to different files, copy it or read its values at the same time each obtain the files, copies and values they would obtain alone, in every interleaving and with split or interrupted transfers. The object is the same afterwards, also if it was loaded from a file. No locking is needed.",
 ["schedules","histories"],"All interleavings of saves, copies and reads of shared objects of all kinds and precisions from several threads, all splits of transfers.",
 "A value kept in the object or in a static variable during a save goes wrong only if another save of the same object falls into a short window.",
 RW+[D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h"],"Saving, copying and the accessors only read the members of the object.","members of the shared object","files saved from, copies of and values read from the object in each thread")
p("P29","Tools running at the same time in one directory do not disturb each other",
 "Two or more tools running at the same time in one directory, of different kinds or with different nicknames, leave the files, show the text and end with the status of each run alone, in every interleaving of their file operations and also if one of them is killed or cannot write. A comparison that reads files which a benchmark is still writing changes nothing for the benchmark and does not die. Files of other nicknames are not touched.",
 ["schedules","crash_points","fault_sequences"],"All interleavings of the file operations of runs of the three tools with any options, all positions of crashes and failures in some of them.",
 "Tests run one tool after the other; a shared name of an auxiliary file or a clean-up that removes too much shows only if two runs overlap.",
 ["progs/vdtArithmBenchmark.cpp","progs/vdtArithmComparison.cpp","progs/vdtPerfBenchmark.cpp",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h",D+"vdtdiag_filePersistence.h"],"All names of files contain the nickname of the run; no other files are used.","files of the directory","files, text and exit status of each run")
p("P30","Functions handed to the library may throw or use the library themselves",
 "If a function handed to a response, a benchmark or a display of differences throws at any of its evaluations, the exception reaches the caller unchanged, no memory or open file is lost, other objects, files and the format of the screen are as before, and repeating the operation with a function that does not throw gives the normal result. A function that creates, saves and loads objects while it is evaluated for a response or a benchmark obtains the same objects as elsewhere, and does not change the operation it is evaluated for.",
 ["fault_sequences","schedules"],"All evaluations at which a function can throw or use the library, in all operations that take a function.",
 "Tests hand over pure functions that never fail; a buffer shared by nested operations or memory owned by a raw pointer goes wrong only at such an evaluation.",
 [D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h",D+"vdtdiag_fcnPerformance.h",D+"vdtdiag_helper.h"],"Function objects are called from constructors and loops that own their buffers.","buffers and formats during the evaluation","exceptions, allocations, objects and texts after the operation")
p("P31","Saved files do not depend on the language settings of the program",
 "A pool, response or comparison saved, copied or loaded in a program with any language settings (grouping of digits, separators, decimal character, characters taken as blanks) is saved byte for byte as it is without such settings. It reads back with the same records, values and statistics in a program with any other settings. The operations leave the settings of the program as they are.",
 ["configurations","histories"],"All histories of creating, copying, saving and loading under any settings that may change between the operations.",
 "Tests run with the default settings; a separator shows up in a file only in a program that installed the settings of its user, and the loss only in another program that reads it.",
 RW+[D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h"],"Every file stream uses the classic settings, whatever those of the program are.","global settings of the program","bytes of the files, records after a load, settings after each operation")
p("P32","Saving and loading do not depend on the floating-point mode of the thread",
 "A pool, response or comparison that is copied, extended, saved or loaded by a thread with any rounding direction, or one that takes tiny numbers as zero, holds the same bits afterwards, and reads back with the same records and bits in any other mode. The statistics of a comparison are read as they were saved. The operations leave the mode of the thread as it is.",
 ["configurations","histories"],"All histories of copying, extending, saving and loading under all combinations of rounding directions and treatments of tiny numbers, changed between the operations.",
 "Tests run in the default mode; a conversion through another type or a harmless-looking operation on a value changes bits only in programs that set another mode, as numerical programs do.",
 RW+[D+"vdtdiag_random.h",D+"vdtdiag_fcnResponse.h",D+"vdtdiag_fcnComparison.h"],"Numbers are stored and read as patterns of bits; no arithmetic is done on them.","floating-point mode of the thread","records after a load or a copy, mode after each operation")
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(x["id"],len(re.split(r'(?<=[.!?])\s+',x["statement"])),len(x["statement"]))
