# What each claimed check runs. mkmanifest.py turns this into MANIFEST.json.
SIMX = "deterministic simulation with fault injection: "
CHECKS = {
 "R01": dict(variant="asan",
   technique=SIMX + "seeded delivery of the same bytes through every source and cut into seeded short reads, judged by a reference codec",
   note="Seeded sampling of streams x interfaces x deliveries; the reference encoder shares no code with odc. Not exhaustive.",
   rule="A run draws a stream of frames (columns, packings, byte order, row markers), a reading interface, a delivery and the size of every read; it counts as distinct by the signature of interface, delivery, options and stream shape."),
 "R02": dict(variant="asan",
   technique=SIMX + "the source is cut at seeded places or fails at a seeded read (error, exception, -1, short, end) in every interface; also failures that pass, with retries",
   note="Places are sampled among the reads a fault-free run of the same stream makes; every run is judged against the reference model of the frames that lie before the failure.",
   rule="A run draws a stream, an interface and delivery, and one truncation or one failing call and its kind; distinct by interface, delivery, options, failure kind and place."),
 "R03": dict(variant="asan",
   technique=SIMX + "seeded damage to stored bytes (bit flips, overwrites, pieces cut, repeated, moved; headers altered with a matching digest) under AddressSanitizer, bounded memory and a progress budget",
   note="Sampled damage. Bytes outside the digest have no redundancy in the format, so for those only containment is decided, not detection.",
   rule="A run draws a stream, an interface and delivery and one or more pieces of damage; distinct by kind and place of damage relative to the frame, and by outcome."),
 "R04": dict(variant="asan",
   technique=SIMX + "seeded histories of operations over several readers, views, copies, table iterators and spans on one source, each operation checked against a model that knows which frame every view points at",
   note="Sampled histories of up to 34 (thorough 66) operations through the C++ and C interfaces and the block index; AddressSanitizer decides use of dropped views.",
   rule="A run draws a stream and a history of operations (open, advance, copy, decode all or some columns, describe, span, stored bytes, filter, drop); distinct by the sequence of operations and the number of frames."),
 "W01": dict(variant="asan",
   technique=SIMX + "seeded histories of writer operations (rows by cell or whole, flushes, header changes with and without pending rows, properties, missing values, buffer sizes, closes) on every kind of sink including the interface below the Fortran one; judged by a reference decoder",
   note="Sampled histories of up to 30 (thorough 60) operations and up to 400 rows; every cell, column description, missing value and property of the output is compared with what the client did.",
   rule="A run draws a sink, buffer sizes, missing-value settings and a history of operations, or a stream to copy; distinct by the sequence of operations, and by packings chosen."),
 "W02": dict(variant="asan",
   technique=SIMX + "seeded tables, array layouts, slicings, settings on both sides and sequences of encoder and decoder uses, through C++ and C to every kind of sink; judged by a reference decoder and guard bytes",
   note="Seeded sampling of tables and layouts; values at the edges of every packing are favoured. Integers beyond 32 bits are a recorded finding.",
   rule="A run draws a table (types, value ranges around every packing limit, missing mixes, special reals), an encoding route and layout, rows per frame, settings on each side and a reading route or a decoder configuration; distinct by route, layout, packings chosen and decoder configuration sequence."),
 "W03": dict(variant="asan",
   technique=SIMX + "seeded histories of writer operations, encodings, filters, imports and copies on every kind of output, run once without failures and again with one or two seeded failures (error, short write, full disk for a while, failing flush, sync, close, open; failing handle or callback; small buffer), then a third time on a working output",
   note="The failure is placed among the operations the fault-free run made. After every flush or close that reports success the output is decoded by the reference codec and compared with the accepted rows.",
   rule="A run draws a sink, a history of operations or a call, a failure and what the client does after it; distinct by sink, operations, failure and outcome."),
 "W04": dict(variant="asan",
   technique=SIMX + "the writing process is killed before, after or in the middle of a seeded system call (open, write, sync, close), in up to three sessions on one file; what is on the simulated disk is judged by the reference decoder and read back",
   note="Process crash: what had been handed to the operating system survives. Loss of power is outside the property.",
   rule="A run draws writing sessions (rows, encodings, filter, import, copy; new file or append), a crash point and kind, and how the rest is read; distinct by writer, crash point, rows left and whether the tail was torn."),
 "W05": dict(variant="asan",
   technique=SIMX + "seeded sequences of writing sessions of every kind on one stream (reference bytes of either byte order, row writer, legacy writer, encoders, copy, empty sessions) with columns equal or differing in one respect at each join; judged by a reference decoder, then read through seeded interfaces and deliveries",
   note="Up to 5 (thorough 7) sessions of up to 7 rows; reading goes through every interface and delivery.",
   rule="A run draws the producers and columns of the sessions and the ways of reading; distinct by the sequence of producers."),
 "W06": dict(variant="asan",
   technique=SIMX + "seeded streams are split (row by row, copied, presorted, by the command) with seeded limits on open files, key types, templates, earlier files and header changes, with and without a seeded failure; every output is decoded by the reference codec and compared with the rows a reference model of the file names assigns to it",
   note="Up to 7 frames of up to 24 rows over up to two key columns with up to 12 values; the number of files open at once is observed.",
   rule="A run draws a stream, keys, template, route, limit and earlier files, possibly a failure; distinct by route, limit and the sequence in which outputs are visited."),
 "T01": dict(variant="sched",
   technique=SIMX + "real threads run one at a time under a seeded scheduler that may switch at every memory access, lock or I/O of the code, with a happens-before race detector; read failures, failing allocations and refused thread creation during the decode; result compared with the model the bytes were encoded from, guard bytes around every array",
   note="Sampled schedules (run until blocked, random gaps, priority change points, switches at synchronisation only) of up to 15 workers over up to 20 frames. eckit is not instrumented; its locks and allocations are seen.",
   rule="A run draws a stream, a source, a target layout and column subset, a thread count, a schedule and possibly a failure; distinct by the sequence of context switches."),
 "T02": dict(variant="sched",
   technique=SIMX + "up to four client threads use frames, copies and iterators of one reader at the same time under a seeded scheduler with a happens-before race detector, with and without one failing read; each operation compared with the model, and only the thread that met the failure may report it",
   note="Sampled schedules and operation histories. The cursor of a reader is advanced by one thread at a time, as its interface has no promise beyond that; table iterators advance freely.",
   rule="A run draws a stream, a source, the operations of every thread, a schedule and possibly a failing read; distinct by the sequence of context switches."),
 "T03": dict(variant="sched",
   technique=SIMX + "two to four unrelated sessions (encode, row writer, legacy writer, filter, text import, copy, every reading interface, some on damaged input) run at the same time from a cold start under a seeded scheduler with a happens-before race detector; what each gives, error messages included, is compared with what it gives alone in a process of its own",
   note="Sampled schedules. eckit is not instrumented: races inside it are seen only through their results, its locks and its allocations.",
   rule="A run draws the sessions, their inputs and a schedule; distinct by the sequence of context switches."),
 "A01": dict(variant="asan",
   technique=SIMX + "seeded histories of C calls, valid and misused, over readers of every kind, frames, decoders and encoders, while callbacks return errors, throw C++ exceptions of several kinds or accept only a part, and opens, reads, writes, seeks and closes of the simulated disk fail; after each call the return code, the message, the failure handler's invocations and the results are judged against a model of the objects",
   note="Histories of up to 72 (thorough 132) steps over up to 5 readers, 12 frames, 6 decoders and 3 encoders. Pointers that are not null point to what they should; null output pointers are outside the property.",
   rule="A run draws the data, a history of calls and the failures; distinct by the sequence of operations."),
 "I01": dict(variant="asan",
   technique=SIMX + "seeded delimited texts over all column types, delimiters and ways of writing a value go through every import interface and the command with seeded cuts into reads and row buffers, with seeded lines that cannot be understood, and with seeded failures of reading and writing; judged by a reference decoder against the values the text was made from",
   note="Up to 60 lines of up to 5 columns. Values containing the delimiter, duplicate column names and integers beyond 32 bits are left out.",
   rule="A run draws a table, how it is written as text, a route, cuts, possibly something malformed or a failure and its place; distinct by route, column types, delimiter, number of rows, and by what is wrong."),
 "S01": dict(variant="asan",
   technique=SIMX + "seeded streams whose columns move, change type or width, appear and disappear, seeded selections (column lists, bitfield members, sums, conditions with missing values) through every select and filter interface with seeded cuts into reads, and seeded failures or truncation of the source and failures of the output; judged by a reference evaluation of the statement over the rows the bytes were encoded from",
   note="Up to 6 frames of up to 7 rows (and some of more than 10000), conditions up to depth 2. SQL functions and joins are outside the property.",
   rule="A run draws a stream, a statement, a route, cuts, possibly a failure and its place; distinct by route, layouts of the frames, kind of condition, number of rows, failure."),
 "X01": dict(variant="asan",
   technique=SIMX + "the command line program's own entry point runs compact, fixrowsize, set, mdset, merge, sql, import, index, count, ls, header, compare and xyv inside the simulator over a simulated disk with seeded inputs; the exit code, the output and the inputs are judged against a reference transformation and decoder; then one open, read, write, seek or close fails, an input is cut, the disk is full or printing fails: success may only be reported with the very same result",
   note="Inputs of up to 4 frames of 8 rows and 5 columns. split is decided by W06, text import in depth by I01. Text may be cut anywhere (no cut of the text to import).",
   rule="A run draws a tool, its arguments and inputs, possibly a failure and its place; distinct by tool, layouts, number of rows, failure."),
 "A02": dict(variant=["asan", "sched"],
   technique=SIMX + "every allocation the library makes while it reads, decodes (also with threads), describes, filters, encodes, writes or copies is counted in a run without failures; then a seeded one of them, or several or all from there on, fails, four times over: error or the very same result, no crash, nothing left behind, and everything as before once there is memory again",
   note="Allocations made by operator new on behalf of library calls (eckit's included). What eckit's SQL engine itself forgets when its own lists cannot grow is left out. Tools are not starved.",
   rule="A run draws an operation or a session of them, its input, and which allocation fails and for how long; distinct by operation and place of the failure."),
}
