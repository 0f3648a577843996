# Generates properties.jsonl (kept in git so statements stay reviewable in one place).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

S="src/odc/"
p("R01","What is read does not depend on how the bytes are delivered",
 "Reading an ODB-2 stream yields the same sequence of frames, column descriptions, properties, row counts and values whichever way the same bytes arrive: from a path, an open handle, a file descriptor, a memory buffer or a POSIX-like read callback, and however the source splits them into short reads. This holds for frame-by-frame and aggregated reading with any row limit, for row-wise reading through the older iterator interface and for SQL, including streams written on machines of either byte order. A source that cannot seek (the callback) supports reading each frame in order; operations that need to look ahead on it may be refused with an error but never give different data.",
 ["schedules","inputs","configurations"],
 "for every stream of frames, every way of cutting its bytes into reads (down to one byte), every kind of source, every aggregation limit and either byte order of the writer",
 "The tests read small fixed files through FileHandle/MemoryHandle, which always deliver the whole requested length; no test delivers a short read, uses the callback stream, or reads a frame from the opposite byte order through the frame interface.",
 [S+"core/ThreadSharedDataHandle.cc",S+"core/Table.cc",S+"core/Header.cc",S+"core/DataStream.h",S+"core/Codec.cc",S+"core/TablesReader.cc",S+"api/Odb.cc",S+"api/odc.cc",S+"ReaderIterator.cc"],
 [("shared handle with per-view position",S+"core/ThreadSharedDataHandle.cc: read/seek"),("frame header and payload reads",S+"core/Table.cc: readEncodedData, readTable; core/Header.cc: readMagic, loadAfterMagic"),("byte-order switching of codecs",S+"core/Codec.cc: clone/setDataStream"),("callback data source",S+"api/odc.cc: odc_open_stream")],
 [("position","offset of one view on the shared source",S+"core/ThreadSharedDataHandle.h"),("tables","frames discovered so far",S+"core/TablesReader.h")],
 ["odc_next_frame / odc_decode","Reader::iterator","SELECT output rows"])

p("R02","A failing or truncated source is never mistaken for the whole data",
 "When the source fails (read error, exception) or ends anywhere other than on a frame boundary, the reader reports an error for the affected operation: it never returns values that were not stored, and never signals a normal end of data before all complete frames were delivered. Frame-by-frame and row-wise reading deliver every frame that lies wholly before the failure unchanged; aggregated reading may report the error in place of the aggregate it was building. Once a failure has passed, retrying on a seekable source gives the right frames.",
 ["fault_sequences","crash_points","inputs"],
 "for every stream, every truncation length, and every read call at which an error, an exception or a premature end of input can occur, in every reading interface",
 "Tests check one or two fixed truncated files opened as files; they inject no read error and no mid-run truncation, so the hundreds of read sites x failure modes x interfaces are not reached.",
 [S+"core/Table.cc",S+"core/Header.cc",S+"core/TablesReader.cc",S+"core/ThreadSharedDataHandle.cc",S+"ReaderIterator.cc",S+"api/Odb.cc",S+"api/odc.cc",S+"sql/TODATableIterator.cc"],
 [("truncation check against source length",S+"core/Table.cc: readTable"),("checked header reads",S+"core/Header.cc"),("bounded data stream",S+"core/DataStream.h"),("payload read",S+"core/Table.cc: readEncodedData; ReaderIterator.cc: loadHeaderAndBufferData")],
 None,["return codes and exceptions of next/decode","values delivered before the error"])

p("R03","Damaged stored bytes are contained",
 "If any stored bytes of a stream are changed (flipped, overwritten, swapped or spliced), reading it still terminates, touches only memory that belongs to the reader or the caller's arrays, and either delivers data or reports an error through the normal error channel; the process is never brought down. This includes headers whose lengths, counts and indices are wrong although the checksum matches. A change inside the part of a frame header that its checksum covers is always reported and never accepted as data, and frames that were not touched are delivered unchanged up to the point where the damage is reported.",
 ["fault_sequences","inputs"],
 "for every stream and every set of flipped, overwritten or spliced bytes anywhere in it, in every reading interface and for frames of either byte order",
 "Tests contain no damaged files at all.",
 [S+"core/Header.cc",S+"core/Header.h",S+"core/DataStream.h",S+"core/Table.cc",S+"core/MetaData.cc",S+"core/Column.cc",S+"codec/String.h",S+"codec/Integer.h",S+"codec/Real.h",S+"codec/Constant.h",S+"ReaderIterator.cc"],
 [("header checksum",S+"core/Header.cc: loadAfterMagic"),("bounded reads",S+"core/DataStream.h"),("string table bound check",S+"codec/String.h"),("row marker handling",S+"core/Table.cc: decode; ReaderIterator.cc: next")],
 None,["process survival (crash, abort, hang, sanitizer report)","error codes","delivered data"])

p("R04","Views on one source are independent in any visiting order",
 "Any number of frame views, copies of views, iterators and spans over one seekable source can be advanced, decoded, re-decoded and dropped in any order: each sees exactly the frame it points at, with the same values every time, unaffected by what the other views do. A span or offset/length reported for a frame, read on its own, contains exactly that frame.",
 ["histories","schedules","inputs"],
 "for every history of advance, copy, decode (whole or column subset), span, seek and drop operations over several views of one source",
 "Tests walk a file front to back once with one view (one test copies a frame); interleavings of several views are not sampled.",
 [S+"core/TablesReader.cc",S+"core/ThreadSharedDataHandle.cc",S+"core/Table.cc",S+"core/Span.cc",S+"api/Odb.cc",S+"api/odc.cc",S+"ODAHandle.cc",S+"Indexer.cc",S+"Block.cc"],
 [("per-view position on a shared handle",S+"core/ThreadSharedDataHandle.cc"),("discovered frame list",S+"core/TablesReader.cc: ensureTable"),("span computation",S+"core/Table.cc: span/decodeSpan; core/Span.cc: extend"),("frame copy",S+"api/Odb.cc: FrameImpl; api/odc.cc: odc_copy_frame")],
 None,["decoded values per view and operation","span offset, length and values"])

p("T01","Threaded decoding equals serial decoding under every schedule",
 "Decoding an aggregated frame with any number of threads fills the target with exactly the values serial decoding produces, whatever the interleaving of the workers, without data races, deadlock or touching memory outside the target. If reading any part fails, the call reports an error after all workers have stopped.",
 ["schedules","fault_sequences","inputs"],
 "for every interleaving of the worker threads, every thread count, every split of rows into frames, every layout of the target, and every read failure during the decode",
 "One test decodes one file with threads under whatever schedule the OS happens to choose and injects no failure.",
 [S+"api/Odb.cc",S+"core/ThreadSharedDataHandle.cc",S+"core/Table.cc",S+"core/DecodeTarget.cc",S+"api/StridedData.h"],
 [("work distribution over frames",S+"api/Odb.cc: FrameImpl::decode"),("slice of the target per frame",S+"core/DecodeTarget.cc: slice"),("lock on the shared source",S+"core/ThreadSharedDataHandle.cc: read"),("error collection through futures",S+"api/Odb.cc: FrameImpl::decode")],
 None,["target arrays","return code","thread completion"])

p("T02","Separate frames of one reader can be used from separate threads",
 "Threads that each hold their own frame view of the same reader (including copies) can advance and decode concurrently, and each obtains exactly what it would have obtained alone, with no data race, deadlock or lost frame. Failures of the source hit only the operations that needed the failed bytes.",
 ["schedules","fault_sequences","histories"],
 "for every interleaving of the operations of two or more threads over views of one source, with and without read failures",
 "No test uses a reader from more than one caller thread.",
 [S+"core/TablesReader.cc",S+"core/ThreadSharedDataHandle.cc",S+"core/Table.cc",S+"api/Odb.cc"],
 [("mutex on frame discovery",S+"core/TablesReader.cc: ensureTable/getTable"),("mutex and per-copy position on the source",S+"core/ThreadSharedDataHandle.cc"),("codec copies per table",S+"core/MetaData.cc, core/Column.cc, core/Codec.cc: clone")],
 [("tables","list of discovered frames shared by all views",S+"core/TablesReader.h")],["values and frame order per thread","race reports"])

p("T03","Independent encoders, writers and readers do not disturb each other",
 "Threads that work on unrelated data at the same time (encoding, row-wise writing, reading, SQL filtering, each with its own objects) each get exactly the bytes and values they would have got running alone, including when they are the first users of the library in the process, with no data race or deadlock.",
 ["schedules","histories"],
 "for every interleaving of two or more threads running independent encode, write, read and filter sessions from a cold start of the library",
 "Tests are single threaded; shared lazily built state (codec factory, codec defaults, settings, missing values) is never exercised concurrently.",
 [S+"codec/CodecOptimizer.cc",S+"core/CodecFactory.cc",S+"ODBAPISettings.cc",S+"MDI.cc",S+"LibOdc.cc",S+"api/odc.cc",S+"core/Encoder.cc",S+"Writer.cc"],
 [("mutex in codec factory",S+"core/CodecFactory.cc"),("per-thread settings",S+"ODBAPISettings.cc: ThreadSingleton"),("default codec table",S+"codec/CodecOptimizer.cc")],
 None,["bytes produced and values read per thread","race reports"])

p("W01","Rows accepted by the row writer are read back exactly, in order",
 "Whatever sequence of rows, explicit flushes, header changes (columns, types, bitfields, missing values, properties) and closes a client performs, and whatever the row-buffer and header-buffer sizes, an orderly closed output contains exactly the accepted rows in order with their values, column descriptions and properties. Each value is preserved at the precision of its declared column type and a missing value stays missing, as judged by an independent reader of the format.",
 ["histories","inputs","configurations"],
 "for every history of writer operations, every buffering configuration and every column/value mix, including values at the limits of each packing range, missing values, constants, NaN/inf and strings of any supported length",
 "Tests write a few fixed tables with default buffering and read them back with the same library, so buffer-boundary histories and errors shared by writer and reader go unseen.",
 [S+"Writer.cc",S+"WriterBufferingIterator.cc",S+"core/MetaData.cc",S+"core/Column.cc",S+"core/Header.cc",S+"core/Header.h",S+"codec/CodecOptimizer.cc",S+"codec/Integer.h",S+"codec/IntegerMissing.h",S+"codec/Real.h",S+"codec/String.h",S+"codec/Constant.h",S+"ODBAPISettings.cc"],
 [("row buffering and flush",S+"WriterBufferingIterator.cc: flush, doWriteRow"),("column statistics and codec choice",S+"core/Column.h, codec/CodecOptimizer.cc"),("row delta encoding",S+"WriterBufferingIterator.cc"),("header growth",S+"core/Header.cc: serializeHeader")],
 [("rowsBuffer","accepted rows not yet encoded",S+"WriterBufferingIterator.h")],["file bytes decoded by a reference reader","values through Reader"])

p("W02","Encoded arrays decode to the same table for any slicing and layout",
 "Encoding a table from caller arrays and decoding it into caller arrays gives back the same rows, column descriptions and properties for any rows-per-frame setting, any row-major, column-major or strided memory layout on either side, any column subset or order requested, and any aggregation limit. Values survive at the precision of the column type, missing values come back as the missing value they were encoded with whatever missing-value and integer-representation settings are in force on each side, and bytes outside the described elements are not touched.",
 ["inputs","histories","configurations"],
 "for every table, slicing, source and target memory layout, column subset, aggregation limit and change of process-wide settings between and during encoding and decoding",
 "Tests use a handful of layouts with one fixed table; they do not vary slicing, strides, subsets and settings together or check guard bytes around the arrays.",
 [S+"api/Odb.cc",S+"api/odc.cc",S+"api/StridedData.h",S+"core/Encoder.cc",S+"core/DecodeTarget.cc",S+"core/Table.cc",S+"MDI.cc",S+"ODBAPISettings.cc"],
 [("slicing into frames",S+"api/Odb.cc: encode"),("strided access",S+"api/StridedData.h"),("frame encoding",S+"core/Encoder.cc: encodeFrame"),("aggregation of compatible frames",S+"api/Odb.cc: ReaderImpl::next"),("settings",S+"ODBAPISettings.cc, MDI.cc")],
 None,["caller arrays and guard bytes","bytes produced decoded by a reference reader"])

p("W03","A write failure is always reported and never damages the process",
 "If storing any part of the output fails at any moment (error, short write, full disk, failure reported only when flushing or closing), the operation that was writing, or the close that ends it, reports an error: success is never reported for data that did not reach the output. The process survives the failure and cleanup, everything already stored stays a readable prefix, and the same data can afterwards be written completely to a working output.",
 ["fault_sequences","crash_points","histories"],
 "for every write, flush, sync and close call at which any storage failure can occur, for the row writer, the dispatching writer, the encoder and the filters, on paths, handles, descriptors, buffers and callbacks",
 "Tests never make a write fail.",
 [S+"Writer.cc",S+"WriterBufferingIterator.cc",S+"WriterDispatchingIterator.cc",S+"core/Encoder.cc",S+"api/odc.cc",S+"api/Odb.cc",S+"sql/ODAOutput.cc",S+"ODBAPISettings.cc"],
 [("checked write lengths",S+"core/Encoder.cc: encodeFrame; WriterBufferingIterator.cc: flush"),("close and destructor of the row writer",S+"WriterBufferingIterator.cc: close"),("error translation",S+"api/odc.cc: wrapApiFunction")],
 None,["exceptions and return codes","bytes on the simulated disk","process exit"])

p("W04","A crash while writing or appending leaves a readable prefix",
 "If the process dies at any moment while writing or appending, every frame whose bytes had been handed to the operating system in full is afterwards read back unchanged and in order, everything that was in the file before an append is intact, and the incomplete tail, if any, is reported as an error rather than returned as data. An orderly close hands over every row accepted so far.",
 ["crash_points","histories","configurations"],
 "for every history of writes, flushes and appends, and every crash point between or inside the writes issued to storage",
 "Tests always run to an orderly close.",
 [S+"WriterBufferingIterator.cc",S+"Writer.cc",S+"core/Encoder.cc",S+"core/Table.cc",S+"core/TablesReader.cc",S+"WriterDispatchingIterator.cc"],
 [("frame written as header then payload",S+"WriterBufferingIterator.cc: flush; core/Encoder.cc: encodeFrame"),("append opening mode",S+"Writer.cc, ODBAPISettings.cc: appendToFile"),("incomplete frame detection",S+"core/Table.cc: readTable")],
 None,["file content after the crash as read by a fresh process"])

p("W05","Concatenating and appending streams only adds frames",
 "Any concatenation of complete ODB-2 streams, whether made by byte concatenation, by appending with a writer, or by re-encoding sessions one after another, reads as the frames of the parts in order, each with its own columns, properties and values. Aggregated reading merges neighbouring frames only when their columns are compatible, and never loses, duplicates or reorders rows across the joins.",
 ["histories","inputs","configurations"],
 "for every sequence of sessions with equal, reordered or different columns, packings, properties and byte orders, and every aggregation limit",
 "Tests concatenate one or two fixed files.",
 [S+"api/Odb.cc",S+"core/TablesReader.cc",S+"core/MetaData.cc",S+"ReaderIterator.cc",S+"Writer.cc",S+"ODBAPISettings.cc",S+"Select.cc",S+"sql/TODATableIterator.cc"],
 [("compatibility test between frames",S+"api/Odb.cc: ReaderImpl::next; core/MetaData.cc"),("header change while iterating rows",S+"ReaderIterator.cc: next"),("append mode",S+"ODBAPISettings.cc: appendToFile")],
 None,["frames and rows read from the concatenation"])

p("W06","Splitting conserves rows whatever the limit on open files",
 "Splitting a stream by column values puts every input row into exactly one output, the one named by its own values, with all columns intact and in input order within each output, for any limit on simultaneously open outputs and any order of the input rows. Existing files of the same name from an earlier run are replaced, not extended, and an output closed and reopened during the run loses nothing.",
 ["histories","inputs","configurations","fault_sequences"],
 "for every sequence of rows and key values, every open-file limit, every set of pre-existing outputs, every flush/evict pattern, and header changes in the middle of the input",
 "One test writes six keys with a limit large or small; eviction orders, pre-existing files and header changes are not explored.",
 [S+"WriterDispatchingIterator.cc",S+"DispatchingWriter.cc",S+"TemplateParameters.cc",S+"tools/SplitTool.cc"],
 [("least-recently-used eviction of open outputs",S+"WriterDispatchingIterator.cc: iteratorIndex, dispatchIndex"),("reopening for append",S+"WriterDispatchingIterator.cc: createIterator"),("file name from values",S+"TemplateParameters.cc")],
 None,["contents of the output files"])

p("A01","Every failure of the C interface is a return code, with its own message",
 "No call of the C interface lets an exception, abort or crash reach the caller, whatever fails underneath or inside a caller's callback: it returns one of the documented codes, the message obtained afterwards describes that failure, and a registered failure handler is invoked once for each failing call with its own context. After a failure every object can still be used for further calls or freed, and end of data is distinguished from failure.",
 ["fault_sequences","histories"],
 "for every history of C calls (valid and misused but type-correct arguments) with failures injected at any I/O call or callback",
 "Tests check a few return codes for fixed misuse; they do not inject failures, check the handler under faults, or continue after an error.",
 [S+"api/odc.cc",S+"api/odc.h",S+"api/Odb.cc"],
 [("exception boundary",S+"api/odc.cc: wrapApiFunction, innerWrapFn"),("error text",S+"api/odc.cc: g_current_error_str"),("failure handler",S+"api/odc.cc: odc_set_failure_handler")],
 None,["return codes, error strings, handler invocations"])

p("A02","Running out of memory is an error, not a corruption",
 "If any single or repeated memory allocation fails during a call, the call reports an error without crashing, hanging, or returning or writing wrong data, and without leaking what it had built. Once memory is available again the same operation on fresh objects succeeds with the correct result.",
 ["fault_sequences","histories"],
 "for every allocation performed by reading, decoding (serial and threaded), encoding, writing and filtering, failing at that allocation",
 "Tests never fail an allocation.",
 [S+"api/odc.cc",S+"api/Odb.cc",S+"core/Table.cc",S+"core/Encoder.cc",S+"core/MetaData.cc",S+"core/Column.cc",S+"WriterBufferingIterator.cc",S+"core/TablesReader.cc"],
 [("exception safety of construction and decode",S+"core/*.cc, api/Odb.cc"),("exception boundary",S+"api/odc.cc: wrapApiFunction")],
 None,["return codes, values after recovery, live allocations after freeing everything"])

p("S01","Filtering a stream returns exactly the matching rows of every frame",
 "A SQL filter or select over a stream of frames returns exactly the rows for which the condition holds, in stream order, each with the values of its own row, even when columns move, change type or width or appear and disappear between frames, and however the bytes arrive. If the source or the destination fails, the operation reports an error instead of a shorter result.",
 ["inputs","histories","fault_sequences","schedules"],
 "for every stream of frames with changing columns, every selection from a family of column lists and conditions, every delivery of the bytes, and every read or write failure",
 "Tests run fixed SQL over fixed files delivered whole; changing layouts between frames and failures are barely sampled.",
 [S+"Select.cc",S+"SelectIterator.cc",S+"sql/TODATable.cc",S+"sql/TODATableIterator.cc",S+"sql/SQLSelectOutput.cc",S+"sql/ODAOutput.cc",S+"api/Odb.cc",S+"ODAHandle.cc"],
 [("rebinding columns on a new frame",S+"sql/TODATableIterator.cc; sql/TODATable.cc"),("row copy into the output",S+"sql/SQLSelectOutput.cc; sql/ODAOutput.cc"),("filter pipeline",S+"api/Odb.cc: filter")],
 None,["rows produced","exceptions and return codes"])

p("X01","A tool that reports success has produced its complete, correct output",
 "When a command line tool that rewrites data (compact, set, mdset, merge, split, import, sql, index) finishes without reporting failure, its output holds exactly the transformed input, and its inputs are unchanged; when reading or writing fails anywhere on the way, or the input is truncated, the tool reports failure. Count, list and compare likewise never report a clean result over an input they could not read completely.",
 ["fault_sequences","inputs","histories"],
 "for every input, tool and option set sampled, and every read, write, flush, close or open failure at any point of the run",
 "The tool tests run on healthy disks with fixed inputs.",
 [S+"tools/CompactTool.cc",S+"tools/SetTool.cc",S+"tools/MDSetTool.cc",S+"tools/MergeTool.cc",S+"tools/SplitTool.cc",S+"tools/ImportTool.cc",S+"tools/SQLTool.cc",S+"tools/IndexTool.cc",S+"tools/CountTool.cc",S+"tools/LSTool.cc",S+"tools/CompareTool.cc",S+"Comparator.cc",S+"Indexer.cc",S+"ConstantSetter.cc",S+"MDSetter.cc"],
 [("row pipeline from reader to writer",S+"tools/*.cc with Writer.cc pass1"),("verification after rewriting",S+"Comparator.cc"),("tool error reporting",S+"tools/ToolRunnerApplication.cc")],
 None,["tool outcome","content of the simulated disk"])

p("I01","Text import takes every row or reports an error",
 "Importing delimited text yields exactly one row per data line with the typed values of that line, however the text is delivered and whatever the row-buffer size, and reports an error instead of success if the text cannot be read to its end or a line cannot be interpreted. An import that fails never looks like a complete import of a shorter text.",
 ["inputs","fault_sequences","schedules"],
 "for every header and data lines over all column types including missing values and bitfields, every cut of the text into reads, and every read or write failure",
 "Tests import a few small literal strings.",
 [S+"csv/TextReader.cc",S+"csv/TextReaderIterator.cc",S+"api/Odb.cc",S+"tools/ImportTool.cc"],
 [("line iteration and value parsing",S+"csv/TextReaderIterator.cc: next"),("import to frames",S+"api/Odb.cc: odbFromCSV")],
 None,["rows of the produced ODB","return value or exception"])

# ---- not claimed (pure functions of their input: no schedule, fault, delivery or history) ----
p("N01","SQL scalar and aggregate functions compute their documented values",
 "Every SQL function, operator and aggregate returns the documented value for every argument combination, including missing values.",
 ["inputs"],"for every argument combination",
 "Tests evaluate a few literals per function.",
 [S+"sql"],[("function table","eckit sql library, "+S+"sql/Types.cc")])
p("N02","Archive requests describe exactly the values present in the data",
 "The request generated from a file lists, for each keyword, exactly the distinct values of the mapped column in the file.",
 ["inputs"],"for every file and keyword mapping","Tests use a few fixed files.",
 [S+"RequestUtils.cc",S+"ODA2RequestTool.cc" if False else S+"tools/ODA2RequestTool.cc"],[("request generation",S+"tools/ODA2RequestTool.cc; RequestUtils.cc")])
p("N03","Compression picks a packing no larger than the plain representation",
 "The packing chosen for each column never stores more bytes per value than the plain 8-byte representation, and constant columns cost nothing per row.",
 ["inputs"],"for every column of values","Tests check a few packings.",
 [S+"codec/CodecOptimizer.cc"],[("codec choice",S+"codec/CodecOptimizer.cc")])
p("N04","The Fortran and Python interfaces give the same results as the C interface",
 "Each Fortran and Python call has the same effect and reports the same outcome as the C call it wraps.",
 ["inputs","programs"],"for every program over the bindings","Binding tests are examples.",
 [S+"api/odc.f90","python_wrapper"],[("bindings",S+"api/odc.f90; python_wrapper")])
p("N05","Command lines are parsed as documented",
 "Each tool recognises exactly its documented options and rejects others with a usage message.",
 ["inputs"],"for every argument vector","Tests parse a few command lines.",
 [S+"CommandLineParser.cc"],[("option parsing",S+"CommandLineParser.cc")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
