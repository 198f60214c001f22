#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe, hook_needed=None)))
LIB="lib/src/lib.rs"
m=lambda n,w: dict(name=n, where=w)

p("L01","Whole-image compression equals independent per-tile compression",
  "For every image, size, format and parameter set, compressing a whole image writes, in row-major order, exactly the block that compressing each 4x4 tile on its own yields, with the tile pixels that lie outside the image masked out. This holds for every number of worker threads and every interleaving of them. An output buffer may be larger than the compressed size; bytes beyond the compressed size keep their previous contents.",
  ["schedules","inputs","configurations"],
  "all interleavings of the rayon workers x worker counts x widths/heights (multiples of four or not, one pixel, empty) x formats x algorithms x weights x pixel data x output buffers at least as large as required",
  "The unit tests compress one 4x4 tile, i.e. one parallel work item: no test ever has two work items, a partial tile, or more than one interleaving.",
  [LIB,"lib/src/alpha.rs","lib/src/colourset.rs","lib/src/colourfit.rs"],
  [m("output rows are split into disjoint chunks, one work item per block row; tile origin is derived from the chunk index", LIB+": Format::compress"),
   m("the mask excludes pixels outside the image (the scratch tile keeps stale pixels of earlier tiles)", LIB+": Format::compress, compress_block_masked")],
  ["the output buffer after Format::compress returns"])
p("L02","Whole-image decompression yields exactly the pixels the BCn formats define",
  "For every compressed data, image size and format (BC1 to BC5), decompressing a whole image writes at every pixel position exactly the RGBA value that the BCn format definition, with interpolated values rounded down, gives for that pixel of its 4x4 tile. This holds for every number of worker threads and every interleaving of them. An output buffer may be larger than the image; bytes beyond the image keep their previous contents.",
  ["schedules","inputs","configurations"],
  "all interleavings x worker counts x sizes x formats x arbitrary compressed bytes (both orders of the endpoint values, all index values) x data and output buffers at least as large as required",
  "The unit tests decode a handful of fixed blocks, at most two work items, under whatever single schedule happens.",
  [LIB,"lib/src/colourblock.rs","lib/src/alpha.rs"],
  [m("disjoint chunk of four pixel rows per work item; block offset derived from the chunk index; edge clipping", LIB+": Format::decompress"),
   m("palette construction", "lib/src/colourblock.rs: decompress; lib/src/alpha.rs: decompress_bc2, decompress_bc3")],
  ["the output buffer after Format::decompress returns"])
p("L03","A failed call reaches its caller and harms nobody else",
  "When a whole-image compress or decompress call is given too little input data for the requested image size, or a compress call too small an output buffer (which includes sizes so large that no buffer could be sufficient; a decompress call is meant here only if its output buffer has room for the whole image), the call panics in the calling thread: it neither returns normally, hangs nor aborts the process, whatever the worker count and interleaving. Calls that run at the same time and calls made afterwards in the same process still produce correct results.",
  ["schedules","inputs","histories"],
  "all interleavings x worker counts x which tile is the first that cannot be read x several tiles failing at once x concurrent and subsequent correct calls",
  "No existing test makes a call fail; which worker panics first, and what the other workers are doing then, is decided by the scheduler.",
  [LIB],
  [m("assert on the output size; slice bounds checks on the input; panics of parallel work items are resumed in the caller", LIB+": Format::compress, Format::decompress")],
  ["catch_unwind around each call, process exit status, results of neighbouring calls"])
p("L04","Results depend on the arguments alone, not on other calls",
  "The result of compressing or decompressing an image is a function of the arguments alone: any number of calls running at the same time on any threads, nested inside the caller's own parallel work or made one after another, each produce exactly the result they would produce alone in a fresh process. No call writes to any memory but its own output buffer.",
  ["schedules","histories","inputs"],
  "all interleavings of 1-4 calling threads (plain threads, tasks of the global pool, tasks of a private pool) each making a sequence of calls with differing formats, sizes, parameters and images",
  "The tests make one call per process thread on tiny images and compare with one constant; they cannot see interference that needs two calls overlapping at a particular instruction, or one call following another.",
  [LIB,"lib/src/alpha.rs","lib/src/colourfit/cluster.rs","lib/src/colourfit/range.rs","lib/src/colourfit/single.rs","lib/src/colourset.rs"],
  [m("no global or thread-local mutable state; all scratch data lives on the stack of one work item", "lib/src/*")],
  ["outputs of overlapping and successive calls compared with a single-threaded reference; guard bytes around every buffer"])
p("L05","Every call completes with any worker count and even if workers never run",
  "Every compress or decompress call completes within a number of execution steps bounded by the image size: with one worker or many, from a plain thread or from inside the caller's own parallel tasks (nested to any depth), and also when all workers of the pool but one never get to run. No schedule deadlocks or livelocks a call.",
  ["schedules","configurations"],
  "all fair interleavings x worker counts 1..9 x calling contexts (plain thread, global pool task, private pool, nested tasks filling every worker) x set of workers that are starved for ever or stalled for a while x spurious wake-ups",
  "Tests run on an idle machine with all workers available; a deadlock that needs a starved worker or a saturated pool cannot show up.",
  [LIB],
  [m("work is expressed as a work-stealing parallel iterator without barriers, locks or blocking waits between work items", LIB+": Format::compress, Format::decompress")],
  ["completion of every call within the step budget of the simulated scheduler"])
p("L06","The parallel and the serial build of the library agree",
  "Building the library with or without its optional parallel feature changes nothing observable but speed: for every call both builds produce identical output bytes, or both panic. This holds for every worker count and interleaving of the parallel build.",
  ["schedules","inputs","configurations"],
  "all interleavings and worker counts of the parallel build x arguments, including buffers that are larger or shorter than needed and empty images",
  "The test suite runs with whatever features the workspace resolves to and never compares the two builds.",
  [LIB],
  [m("both builds share one loop body; only the chunk iterator differs", LIB+": cfg(feature = rayon) in Format::compress and Format::decompress")],
  ["output buffers and panics of both builds for the same call"])

p("L07","The serial build works without heap memory and threads",
  "Built without its optional parallel feature, the library needs neither heap memory nor threads, as its no_std promise says: every compress or decompress call with sufficient buffers produces its correct result even if every memory allocation and every attempt to start a thread fails while it runs and the calling thread has a stack of no more than 128 KiB, also when several of the caller's threads make calls at the same time.",
  ["fault_sequences","schedules","inputs"],
  "all interleavings of 1-3 calling threads, each making a sequence of calls of every format, algorithm, size and buffer length, while no memory allocation and no thread creation succeeds",
  "Tests run on a machine where every allocation succeeds, so code that has begun to allocate passes them; on the targets the serial build is for there is no allocator to ask.",
  [LIB,"lib/src/colourset.rs","lib/src/colourfit.rs"],
  [m("#![no_std]; all scratch data lives in fixed-size arrays on the stack", LIB+" and lib/src/*")],
  ["outputs of calls made while the simulated allocator and thread creation refuse everything"])
p("L08","Out of memory or threads, a parallel call never yields a wrong result",
  "If a memory allocation or the creation of a worker thread fails, a compress or decompress call of the parallel build either completes with the correct result or fails visibly, by a panic in its caller or the end of the process. It never returns normally with an incomplete or wrong result, and it never hangs.",
  ["fault_sequences","schedules","inputs"],
  "every allocation and every thread creation as the first to fail, once or from then on x worker counts x interleavings x calling contexts (plain thread, global pool, private pool, nested tasks)",
  "Tests never run out of memory or threads.",
  [LIB],
  [m("all parallel work goes through rayon's global or current pool, whose failure to start is a panic and never an empty result", LIB+": Format::compress, Format::decompress")],
  ["outputs of calls that return normally; the process's end otherwise"])
p("L09","Calls leave neither memory nor threads behind",
  "However many compress and decompress calls a process makes, with whatever arguments, from its global thread pool or from a private one, and however many of them fail for lack of room in a buffer: the heap memory in use does not keep growing with the number of calls, and calls never start a thread besides the workers of the pool they run in.",
  ["histories","schedules","inputs"],
  "histories of hundreds to thousands of calls with changing images, sizes, weights and buffers, good and bad, x worker counts x schedules x global and private pools",
  "Tests make one call per process; what a call leaves behind shows only in the thousandth, and which worker frees what is decided by the scheduler.",
  [LIB],
  [m("no caches, no globals; work goes to the pool of the calling thread", LIB+": Format::compress, Format::decompress")],
  ["heap memory in use and threads created, as counted by the simulated allocator and thread creation, before and after the calls"])

p("L10","The parallel build shares the work among all workers",
  "On a machine with a processor for each worker, a compress or decompress call of the parallel build on an image of at least 16 rows of blocks per worker, whose rows take about equal work, takes at most 1.6/W + 0.12 of the time the same call takes with one worker (plus a constant for waking up), where W is the number of workers of the pool the call runs in, for every format, algorithm, width, height and W.",
  ["schedules","inputs","configurations"],
  "worker counts 2..8 x global and private pools x formats, algorithms, sizes (multiples of four or not), image and block contents x timings of the processors relative to each other",
  "Tests measure no time, and time measured on a real machine depends on its load; in simulated time the duration of a call is exact and repeatable.",
  [LIB],
  [m("one work item per row of blocks in a work-stealing parallel iterator, without anything shared between them", LIB+": Format::compress, Format::decompress")],
  ["simulated time between the start and the return of the call"])

CLI=["cli/src/main.rs","cli/src/image/png.rs","cli/src/image/jpeg.rs"]
p("C01","Exit status 0 means a complete and correct output file",
  "Whenever the command-line tool exits with status 0 after compress, the output file (the given path, or by default the input's base name with extension dds in the current directory) is a complete DDS file with the input's width and height, the requested BCn format, and exactly the block data the library produces for the input's pixels. Whenever it exits with status 0 after decompress, the output file (by default extension png) is a complete, valid 8-bit RGBA PNG holding exactly the pixels that the DDS file's block data defines. Input and output paths may be symbolic links, pipes or files whose length is not known in advance; the output file is then what the path leads to. If any operating-system call fails along the way (read, write, open, close excepted, memory allocation, thread creation), the tool either still achieves this or exits with a non-zero status.",
  ["fault_sequences","inputs","schedules"],
  "every sequence of I/O errors, full disks, short transfers, allocation and thread-creation failures at every operation x PNG colour types, bit depths, interlacing and JPEG inputs, DDS headers, formats, profiles, worker schedules",
  "The CLI has one test, which checks the argument parser's definition; no file is ever read or written by a test.",
  CLI,
  [m("every fallible step is unwrapped", "cli/src/main.rs: compress_file, decompress_file"),
   m("PNG is written through a buffered writer and encoder that must be finished and flushed explicitly for errors to surface", "cli/src/image/png.rs: write"),
   m("pixel layout expansion to RGBA", "cli/src/image/png.rs: read; cli/src/image/jpeg.rs: read")],
  ["exit status and the file tree after the process ends"])
p("C02","The environment never changes the bytes the tool produces",
  "The same command on the same input produces a byte-identical output file regardless of how the operating system splits reads and writes into shorter transfers, of the kind of the files (regular, pipe, unknown length), of the thread schedule and number of worker threads, and of clock, random seeds, memory layout, environment variables, other files that exist, and of where standard output and standard error lead, even if writing to them fails. Short transfers alone never make the command fail; an interrupted system call may at worst make it fail with a non-zero status.",
  ["schedules","fault_sequences","configurations"],
  "all splittings of transfers, EINTR placements, schedules, worker counts (1..9), clock values and jumps, hash seeds, environment variables, broken standard streams x inputs and formats",
  "No test runs the tool on a file at all; real kernels hardly ever return short transfers on regular files, so ordinary runs do not sample this.",
  CLI+[LIB],
  [m("all transfers go through read_exact/read_to_end/write_all-style loops", "cli/src/main.rs, cli/src/image/*.rs and the png, jpeg-decoder and ddsfile crates"),
   m("compressed output depends on the pixels only", LIB)],
  ["output file bytes of many simulated executions of one command"])
p("C03","A failing conversion leaves the output path and all other files alone",
  "If the input cannot be opened, read to its end, recognised or decoded, the tool exits with a non-zero status and does not create, truncate or modify the output path. In no run, successful or not, does it create, modify, rename or delete any path other than the output file it was asked for.",
  ["fault_sequences","inputs"],
  "missing, unreadable, truncated, corrupt, mislabelled or unsupported inputs x read errors at every read x existing or absent output x all fault sequences, also during writing for the second sentence",
  "No test exercises a failing conversion, an existing output file or an I/O error.",
  CLI,
  [m("the output file is created only after the input is fully read, decoded and converted", "cli/src/main.rs: compress_file, decompress_file")],
  ["file tree before and after the process"])
p("C04","A half-written file is never mistaken for a complete picture",
  "If the tool is killed at any point, or its writes fail or are cut short at any byte, whatever it leaves at the output path is never taken for a different picture by the tool itself: using the leftover as input of the opposite command either fails with a non-zero status and leaves that command's output path alone, or yields exactly what the complete file yields. The same holds for an invocation that reads an output file while it is being written for the first time.",
  ["crash_points","fault_sequences","inputs"],
  "kill at every system-call boundary and inside every write (any prefix of the bytes reaches the file), failing and full disks, power loss cutting off an unsynced tail, readers interleaved with the writer call by call x formats, sizes, profiles",
  "Requires stopping the process inside a write and running a second process on what is left; no test starts even one process.",
  CLI+[LIB],
  [m("files are written strictly front to back, so leftovers are prefixes", "cli/src/main.rs: compress_file; cli/src/image/png.rs: write"),
   m("decoding bounds-checks the block data against the header's dimensions; PNG data is checksummed and length-checked", LIB+": Format::decompress; cli/src/image/png.rs: read")],
  ["exit status and file tree of the second process"])
p("C05","Running a command again always repairs the result",
  "After any history of failed, killed or successful runs, and whatever file an earlier run or anybody else left at the output path, running a command once more without faults exits with status 0 and leaves a file byte-identical to the one a first run in an empty directory produces. Compressing a picture and decompressing the result afterwards therefore always gives the same result, of the picture's original size.",
  ["histories","crash_points","fault_sequences"],
  "histories of several compress/decompress runs on the same paths with differing images, formats and sizes, with faults, kills and foreign longer or shorter debris at the output path in between",
  "Needs sequences of process executions sharing one file system; the tests run none.",
  CLI,
  [m("output is created with truncation and written from offset zero; no state is kept between runs", "cli/src/main.rs: compress_file; cli/src/image/png.rs: write")],
  ["output bytes after the final fault-free run of each history"])
p("C06","Concurrent invocations do not disturb one another",
  "Any number of invocations of the tool running at the same time in one directory, with different output paths and possibly the same inputs, each produce exactly the exit status and output file they produce when run alone, for every interleaving of their system calls and whatever happens to the other invocations (failure or being killed).",
  ["schedules","fault_sequences","histories"],
  "all system-call interleavings of 2-4 processes (compress and decompress, same or different inputs, similar output names) x faults and kills hitting some of them",
  "No test runs the tool, let alone two at once.",
  CLI,
  [m("each process touches only its own input and output path; no temporary, lock or cache files", "cli/src/main.rs, cli/src/image/*.rs")],
  ["exit status and output of each process compared with a solo run"])
p("C07","Damaged input is rejected or decoded exactly, never silently altered",
  "A PNG input that is cut off anywhere, or in which a single bit or a burst of up to 32 bits within any one of its chunks (header, palette, transparency, image data or other) is flipped, and a DDS input that is cut off anywhere, either is rejected with a non-zero exit status without touching the output path, or produces exactly the output of the undamaged file. Extra bytes after the image data do not change the result.",
  ["fault_sequences","inputs"],
  "every truncation point, bit flips and burst errors in every chunk, damage that appears in the file or only in what a read returns, appended bytes x image kinds",
  "No test feeds the tool a file.",
  CLI+[LIB],
  [m("chunk checksums and stream length are verified while decoding; DDS block data is bounds-checked", "cli/src/image/png.rs: read; cli/src/main.rs: decompress_file; "+LIB+": Format::decompress")],
  ["exit status and output file"])
p("C08","Every invocation terminates within bounded work, whatever fails",
  "Every invocation of the tool ends by itself after a number of execution steps and system calls bounded by the size of its input and of the picture: it never retries a failing operation for ever, never waits for something that cannot happen and never deadlocks, even if every further operation of some kind fails (persistent errors other than endless interruption by signals, full disk, end of file, no threads, no memory) and for every thread schedule. If no operation fails and the input is valid, it ends with status 0, also if the input is read-only, a symbolic link, a pipe or of unknown length, and however the command line spells its options.",
  ["fault_sequences","schedules","inputs"],
  "persistent and transient faults of every kind starting at every operation x schedules, worker counts 1..9 and starved workers x valid and invalid inputs",
  "No test runs the tool; an endless retry or a deadlock needs a persistent error or a particular schedule.",
  CLI+[LIB],
  [m("errors are propagated by panicking; no retry loops; parallel work has no blocking dependencies", "cli/src/main.rs, cli/src/image/*.rs, "+LIB)],
  ["process end within the step and system-call budget"])

p("C09","Every failure is reported",
  "Whenever a conversion fails, whether because of its input, its command line or a failing operating-system call, the tool ends with a non-zero exit status or a signal and has written an explanation to standard error (as far as standard error can be written to); a failure is never silent, and no failing operation that costs data is followed by exit status 0.",
  ["fault_sequences","inputs","schedules"],
  "every failing operation (opening, reading, writing, memory, threads) at every point x damaged, truncated, mislabelled and missing inputs x broken and working standard streams",
  "No test runs the tool, so no test ever sees a failure reported.",
  CLI,
  [m("every fallible step is unwrapped, and the panic message goes to standard error", "cli/src/main.rs: compress_file, decompress_file; cli/src/image/*.rs")],
  ["exit status and the bytes written to standard error by processes that did not deliver their output"])
p("C10","Memory use is bounded by the size of the picture",
  "The heap memory an invocation uses at its peak is at most 768 KiB plus 48 bytes for each pixel of the picture plus 8 bytes for each byte of the input file, whatever the input contains and whatever fails. For a DDS input, whose header may announce any size, only as many pixels count as its block data actually covers: a DDS file announcing a larger picture is rejected without memory for that picture being taken. (For PNG and JPEG inputs the announced size counts.)",
  ["inputs","fault_sequences","schedules"],
  "valid, damaged, truncated and lying inputs of all kinds x faults and short transfers at every operation x worker counts and schedules",
  "No test runs the tool; tests do not measure memory, and no test has a header that lies.",
  CLI+[LIB],
  [m("decoders are given buffers of the picture's size; the DDS's data is checked against its header before the picture is allocated", "cli/src/main.rs: decompress_file; cli/src/image/*.rs")],
  ["peak of the heap memory in use as counted by the simulated allocator"])

# Properties of pure functions: listed because users rely on them, not decided here.
p("B01","Masked-out pixels never influence a compressed block",
  "The compressed block depends only on the pixels enabled in the mask.",
  ["inputs"],"all blocks x masks x formats x parameters","Tests use the full mask only.",
  ["lib/src/alpha.rs","lib/src/colourset.rs"],[m("mask tests in the gather loops","lib/src/colourset.rs: ColourSet::new; lib/src/alpha.rs")],["Format::compress_block_masked"])
p("B02","Compression error stays within the bounds of the format",
  "Uniform blocks reproduce to within the precision of the endpoints, alpha and single-channel data is encoded no worse than by the straightforward min/max palette, and colour error never exceeds that of a flat mean colour by more than quantisation.",
  ["inputs"],"all blocks x algorithms x weights","Tests compress one grey and one two-colour block.",
  ["lib/src/alpha.rs","lib/src/colourfit/cluster.rs","lib/src/colourfit/range.rs","lib/src/colourfit/single.rs"],
  [m("least-squares and exhaustive ordering searches","lib/src/colourfit/*.rs")],["Format::compress_block_masked then Format::decompress_block"])
p("B03","Better algorithms are not worse",
  "For every block the iterative cluster fit has at most the error of the cluster fit, which has at most the error of the range fit, under the chosen weights.",
  ["inputs"],"all blocks","Tests only use blocks all algorithms encode identically.",
  ["lib/src/colourfit/cluster.rs","lib/src/colourfit/range.rs"],[m("best-error bookkeeping","lib/src/colourfit/cluster.rs")],["Format::compress_block_masked"])
p("B04","Size arithmetic",
  "The compressed size is the block size times the number of 4x4 tiles that cover the image, for all dimensions that fit in memory.",
  ["inputs"],"all widths and heights","Tests check ten size pairs.",[LIB],[m("rounding up to multiples of four",LIB+": num_blocks, compressed_size")],["Format::compressed_size"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
