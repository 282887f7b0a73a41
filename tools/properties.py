#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

BI = "body-image/src/lib.rs"; BA = "barc/src/lib.rs"; CO = "barc/src/compress.rs"
ST = "body-image-futio/src/stream.rs"; SI = "body-image-futio/src/sink.rs"
DE = "body-image-futio/src/decode.rs"; FE = "body-image-futio/src/fetch.rs"
CLI = "barc-cli/src/main.rs"

p("C01", "Bodies deliver exactly the bytes collected, in every buffering state",
  "Whatever bytes were accepted while a body was being collected are exactly the bytes, in the same order and number, that every way of reading the finished body delivers (incremental reader, write-out, exploded parts, memory map, gathered buffer, any clone), and the reported length always equals that number. "
  "This holds for every sequence of collecting and converting operations, with the body in RAM, moved to a file part way, memory mapped, or built over a whole file or a part of a file, and however the operating system splits or interrupts the underlying reads and writes.",
  ["histories", "inputs", "fault_sequences"],
  "all operation sequences (push, write, move to file, prepare, gather, map, clone, read in any chunk sizes), all content, all short/interrupted read and write patterns",
  "The unit tests walk about a dozen fixed sequences over bodies of a few bytes on a file system that never splits or interrupts an operation.",
  [BI], [("sink to image state machine", BI), ("bounded slice reader", BI)],
  [("buffering state", "RAM buffers / file being written / file being read / file slice / map", BI), ("len", "number of bytes accepted", BI)],
  ["BodySink::push/write_all/write_back/prepare", "BodyImage::reader/write_to/explode/mem_map/gather"])

p("C02", "A storage failure never corrupts or silently shortens a body",
  "If creating, writing, mapping or reading the temporary file behind a body fails at any point, the call that met the failure returns an error and nothing panics. "
  "A body being collected then still holds exactly the bytes accepted before the failed call (or, when moving it to a file failed, is empty and in RAM) and can be used further; a finished body never delivers wrong bytes, and never delivers too few of them without an error.",
  ["fault_sequences", "histories"],
  "every file-system call of every operation sequence may fail (no space after part of a write, I/O error, no descriptors, failed map), any number of times",
  "No unit test makes a file-system call fail, so none of the error paths is executed with a partially completed write behind it.",
  [BI, ST, SI], [("write-back empties self first", BI), ("length advanced only after the write", BI)],
  [("file position", "where the next accepted byte goes", BI)],
  ["results of each call, then the full content of the body"])

p("C03", "Reading a source into a body yields all of it or the source's error",
  "Collecting a body from a byte source produces a body holding exactly the bytes the source supplied up to its end, whatever sizes the source returns them in, however often it is interrupted, whatever length estimate is given and whatever the buffer sizes and limits. "
  "If the source fails, or storage fails, the collection returns an error and never a body made of part of the source.",
  ["inputs", "configurations", "fault_sequences"],
  "all sources (content, chunking, interruptions, failure position), length estimates and tunables",
  "Unit tests use one in-memory source with a handful of lengths and the source never interrupts, fails or returns unusual sizes.",
  [BI], [("RAM fill loop then file loop", BI)],
  [("estimate", "initial choice of RAM or file", BI)],
  ["BodyImage::read_from"])

p("C04", "Configured body size and RAM limits are enforced exactly",
  "No way of collecting a body (from a byte source, by decompression, by an asynchronous sink, from an HTTP response) ever produces a body longer than the configured maximum body size, and none rejects a body of at most that size as too long. "
  "A body produced under limits is held in RAM only if it is no longer than the RAM limit, and while collecting it the memory used stays within about twice the RAM limit plus a small fixed number of configured buffers, however long the source is.",
  ["inputs", "configurations", "schedules"],
  "all tunables (RAM limit, maximum, buffer sizes, estimates), all source lengths around and far beyond the limits, all chunkings",
  "Tests check two or three lengths far from the limits and never measure memory; the interplay of estimate, buffer fill and switch to file is not exercised.",
  [BI, SI, DE, FE], [("size accounting in RAM and file loops", BI), ("check before accepting a chunk", SI)],
  [("size", "bytes collected so far", BI)],
  ["BodyError::BodyTooLong", "BodyImage::is_ram/len", "peak heap of the call"])

p("C05", "Concurrent reads of a shared body are independent and complete",
  "Any number of threads may read the same body, or clones of it, at the same time, through any mixture of readers, write-outs, asynchronous streams and memory maps, while other clones are converted or dropped. "
  "Each of them observes the complete content from its own position, unaffected by the others.",
  ["schedules", "inputs"],
  "all interleavings of the threads' file operations; all body states, numbers of readers and chunk sizes",
  "One unit test starts a few threads and takes whatever interleaving the machine gives; none mixes kinds of access or conversions.",
  [BI, ST], [("positional reads", BI), ("reference counted file, buffers, map", BI)],
  [("position", "per reader, never in the shared file handle", BI)],
  ["bytes seen by each thread"])

p("C06", "Temporary storage is confined, unnamed and released",
  "Temporary files used for bodies are created only in the configured directory, and once no body refers to them nothing remains: no directory entry, no open descriptor and no memory mapping. "
  "This also holds when operations fail part way, when asynchronous operations are abandoned, and when bodies are dropped on other threads.",
  ["histories", "fault_sequences", "schedules"],
  "all sequences of creating, converting, cloning, failing, abandoning and dropping bodies",
  "Tests never look at the directory, the descriptor table or the mappings, and never fail an operation part way.",
  [BI, ST, SI, BA], [("unlinked temporary file", BI), ("drop of file handle and map", BI)],
  None, ["directory listing, descriptors and mappings after every body is dropped"])

p("C07", "Archived records read back identical to what was written",
  "Every record written to an archive reads back with the same type, meta headers, request and response headers (names, values, multiplicity and per-name order) and byte-identical bodies, sequentially in write order or by its returned offset, and again after being copied to another archive; no body read back is held in RAM if longer than the reader's RAM limit. "
  "This holds whatever the compression strategy and level, body sizes and buffering states, header counts and values up to the format's limits, reader limits, and however the operating system splits or interrupts reads and writes; a dialog converted to a record, archived, and converted back is equal to the original.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "all records within format limits, all strategies, all reader tunables, all numbers and orders of records",
  "Tests write a few fixed records and compare lengths; header multiplicity, unusual values, boundary sizes and most combinations of strategy, body state and reader tunables are untested.",
  [BA, CO], [("record head with part lengths", BA), ("encode/decode wrappers", CO), ("header block parser", BA)],
  [("record head", "lengths, type and compression of a record", BA)],
  ["BarcWriter::write", "BarcReader::read/seek/offset", "Dialog/Record conversions"])

p("C08", "One writer and any number of concurrent readers never disagree",
  "While records are being appended, every concurrent reader obtains only records that were completely written, each byte-identical to what was written, in write order and without gaps or duplicates; at a record not yet complete it sees the end of the archive (or an incomplete-record error) and can later continue from there. "
  "Threads competing to write through one archive object are serialised so that every accepted record is intact and readable at its own offset, and bodies already obtained stay correct while the archive grows.",
  ["schedules", "inputs", "fault_sequences"],
  "all interleavings of writers' and readers' file operations, including reads that land between the parts of one write",
  "One unit test runs threads on a quiet machine; a read landing inside the writer's window of a few microseconds is practically never produced.",
  [BA], [("reserved head until the record is complete", BA), ("write lock", BA), ("seek back on reserved head", BA)],
  [("reserved head", "place holder that hides an unfinished record", BA)],
  ["history of (append returned offset) and (read returned record / end)"])

p("C09", "A failed append leaves the archive as if it had not been attempted",
  "If appending a record fails at any point (disk full, I/O error, failing body), the call returns an error; it never reports success for a record that cannot be read back. "
  "All records accepted before it stay readable, the next append through the same or a new writer succeeds once the fault is gone, and readers, sequential or by offset, see exactly the accepted records.",
  ["fault_sequences", "histories"],
  "every write, seek and flush of every append may fail, once or repeatedly, for all strategies and record shapes",
  "No test makes an archive write fail.",
  [BA, CO], [("error propagation and roll-back in the writer", BA), ("finish of the compressed stream", CO)],
  [("end of file", "where the next record starts", BA)],
  ["result of each append, then a full sequential and random read"])

p("C10", "A crash while appending never damages accepted records",
  "If the writing process stops at any instant, including part way through a single write, then after restart every record whose append had returned is readable at its offset and sequentially, byte for byte, and a sequential reader meets nothing else than those records, possibly the complete record being appended, and then the end of the archive or an error. "
  "Records appended after the restart are intact and readable at the offsets returned for them.",
  ["crash_points", "histories"],
  "every point between and inside the system calls of a sequence of appends; repeated crashes and restarts",
  "Tests never stop a writer part way.",
  [BA, CO], [("append only, reserved head written first, final head last", BA)],
  [("file content at the crash", "prefix of the writer's write operations", BA)],
  ["archive read back after restart"])

p("C11", "Damaged archives yield errors, never crashes, and spare intact records",
  "Reading an archive that was truncated, partly overwritten or contains foreign bytes never panics, hangs, aborts the process or allocates memory out of proportion to the file and configured limits; it returns records, the end, or an error, and never a record of which the end is missing or the gzip-compressed content altered. "
  "Records lying before the damage, or reached by offset and untouched by it, still read back intact, and a failed read leaves the reader positioned where it was.",
  ["inputs", "fault_sequences"],
  "all truncation points, byte and block corruptions (record heads included) and read errors, for all archives",
  "Two tests use hand-made files with one kind of damage each.",
  [BA, CO], [("head validation", BA), ("exact length reads", BA)],
  None, ["BarcReader::read/offset", "process exit"])

p("C12", "Asynchronous body streams deliver the exact content and then end",
  "Polled to completion under any executor, any interleaving, any spurious or delayed poll and any split or interrupted read, each kind of asynchronous body stream yields buffers whose concatenation is exactly the body and then ends once; size hints and end-of-stream indications never contradict what is delivered and configured buffer sizes are respected. "
  "A read failure is delivered as an error rather than as an early end, and a stream that returned pending is always woken.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "all stream kinds, item types, body states, buffer sizes, poll orders, contention for permits and pool threads",
  "Tests forward a few bodies on an idle runtime; they take one interleaving and no failures.",
  [ST, "body-image-futio/src/uni_body_buf.rs", "body-image-futio/src/mem_map_buf.rs", "body-image-futio/src/blocking.rs"],
  [("consumed/len accounting", ST), ("permit and dispatch state machines", ST), ("recursion to register the waker", ST)],
  [("arbiter state", "whether blocking is requested or granted", "body-image-futio/src/blocking.rs")],
  ["poll_next/poll_data results, size_hint, is_end_stream"])

p("C13", "Asynchronous body sinks collect exactly what was sent, or fail cleanly",
  "Every buffer accepted by any kind of asynchronous body sink is in the collected body exactly once and in order after a successful flush or close, under any executor, interleaving, spurious poll, contention, and split or interrupted write; the move from RAM to file happens as configured. "
  "An over-long body or storage failure is reported as an error, and a sink that returned pending is always woken.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  "all sink kinds, buffer sizes and sequences, limits, poll orders, flush/close patterns",
  "Tests forward small bodies with one interleaving on an idle runtime.",
  [SI, "body-image-futio/src/blocking.rs"], [("single buffered item", SI), ("permit and dispatch state machines", SI)],
  [("buf", "accepted item not yet stored", SI)],
  ["Sink::poll_ready/start_send/poll_flush/poll_close, into_inner, final body"])

p("C14", "Blocking file operations stay within the configured policy",
  "With the permit policy, a stream or sink performs file operations only while holding a permit, so no more of them run at once than the semaphore has permits; with the dispatch policy they run only on pool threads (or on the caller when the pool queue rejects them) and never overlap for one stream or sink. "
  "Bodies held in RAM need neither a permit nor a pool thread, and every permit is returned after each operation.",
  ["schedules", "configurations"],
  "all interleavings of any number of streams and sinks sharing a semaphore or a pool",
  "Tests cannot observe where or when a file operation runs, nor force contention.",
  [ST, SI, "body-image-futio/src/blocking.rs", "body-image-futio/src/tune.rs"],
  [("one-time blocking allowance", "body-image-futio/src/blocking.rs"), ("permit run", ST), ("dispatch", SI)],
  [("available permits", "semaphore count", "blocking-permit")],
  ["thread and permit count at each file operation"])

p("C15", "Abandoning an asynchronous operation leaks nothing and blocks nobody",
  "A stream or sink dropped at any point (before first poll, while waiting for a permit, while its file operation runs on a pool thread, after an error) returns its permit or place in the queue, releases its temporary file, and does not disturb any other stream or sink. "
  "The remaining operations complete with the right content and later operations can use every permit and pool thread.",
  ["schedules", "histories"],
  "all points of abandonment in all interleavings",
  "No test drops a stream or sink part way.",
  [ST, SI], [("ownership of permit future and dispatched closure", ST)],
  None, ["semaphore count, pool progress, descriptors, other streams' content"])

p("C16", "Response decoding is all or nothing and bounded",
  "Decoding a response body with a supported encoding produces exactly the original content, whatever the state of the body, limits, buffer sizes and split or interrupted reads, and records the encodings removed. "
  "If the encoded body is truncated or corrupt, the encoding unsupported, the decoded size over the limit or storage fails, an error is returned and the dialog's body and decoded list are unchanged.",
  ["inputs", "configurations", "fault_sequences"],
  "all contents, encodings and header combinations, truncation and corruption points, tunables, storage failures",
  "Tests decode empty bodies and parse headers only.",
  [DE, BI], [("replace body only after success", DE), ("bounded collection", BI)],
  [("res_decoded", "list of encodings removed", BI)],
  ["decode_res_body result and dialog content"])

p("C17", "An HTTP exchange ends with the full dialog or an error, in bounded time",
  "A request run to completion returns a dialog whose request parts are what was sent and whose response status, headers and body are exactly what the server sent, or returns an error. "
  "A response cut short, reset, over the size limit or slower than the configured time-outs gives an error no later than the time-outs allow and never a partial body, however the network splits and delays the data. A complete response within the limits and time-outs always gives the dialog.",
  ["schedules", "fault_sequences", "configurations", "inputs"],
  "all responses, splittings, delays, disconnections, time-outs, limits and blocking policies",
  "The HTTP tests need a feature that is not in the baseline build; they use a local socket with one timing.",
  [FE, "body-image-futio/src/lib.rs", "body-image-futio/src/wrappers.rs"],
  [("response and body time-outs", FE), ("limit from content-length, then sink", FE)],
  None, ["request_dialog result, virtual time at completion"])

p("C18", "The command line copies and prints archives faithfully or fails visibly",
  "The copy command appends to the output exactly the selected input records in order, and the print command writes exactly the selected parts of the selected records, whatever the compression and however input and output operations are split or interrupted; both always terminate. "
  "If anything fails (unreadable or damaged input, full output), the exit status says so, the inputs are unchanged, and records already in the output remain readable; killed at any point, a copy leaves a readable archive of a prefix of the records.",
  ["fault_sequences", "crash_points", "inputs", "configurations"],
  "all archives, selections, options, failing or interrupted system calls, kill points",
  "The command line tool has no tests.",
  [CLI, BA], [("read/write loop", CLI), ("exit status from errors", CLI), ("selection by offset, index and count", CLI)],
  None, ["exit status, standard output, output archive"])

p("C19", "The record command archives exactly the exchange it made, or nothing",
  "When the record command succeeds, the archive holds its former records followed by exactly one new record: the request as it was sent, and the response status, headers and body exactly as the server sent them, with the body decoded (and the encodings removed noted) unless that was declined. "
  "When the response is cut short, stalls, can not be decoded or storage fails, the command ends in bounded time with a message and a failure status, and the archive and temporary storage are as before; killed at any point, it leaves the former records readable and never a wrong or partial new record.",
  ["fault_sequences", "schedules", "crash_points", "inputs", "configurations"],
  "all responses, encodings, framings, splittings, delays, disconnections, options, earlier archives, failing storage operations and kill points",
  "The command line tool has no tests, and recording needs a network.",
  ["barc-cli/src/record.rs", CLI, FE, DE, BA],
  [("fetch, decode, then append", "barc-cli/src/record.rs"), ("append with rollback", BA), ("body time-out", FE)],
  None, ["exit status, archive, request at the server, temporary directory"])

p("C20", "Logging never disturbs the work or mixes messages",
  "With the logger installed at any level, everything else behaves as without it: nothing panics, no result changes, whether or not messages can be written and from whatever point of a thread's life they come. "
  "Each enabled message appears exactly once, as one whole line with its level, target and thread name, in order for each thread, however threads interleave and writes are split or interrupted; no disabled message appears.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "all levels, targets, thread names, interleavings of logging threads with each other and with the library, message sizes, split, interrupted and failing writes of standard error, and logging during thread exit",
  "The only test logs two messages from one thread and looks at no output.",
  ["piccolog/src/lib.rs"],
  [("log line", "piccolog/src/lib.rs"), ("thread name kept per thread", "piccolog/src/lib.rs"), ("level and target filter", "piccolog/src/lib.rs")],
  None, ["lines on standard error, results of the concurrent work"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
