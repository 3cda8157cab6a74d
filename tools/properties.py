#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run after editing. A property is claimed when src/props/<id>.cpp exists."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/stdex/"
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[I + f for f in files], mech=mech, state=state, observe=observe, na=na, note=note))


p("C01", "Ring: every element once, in order; quit and sync never strand a thread",
  "Between one producer and one consumer a bounded ring delivers exactly the elements pushed, each once and in order, never offers a span outside of its capacity, and never lets either side wait forever while the other one makes progress. After quit() the producer is refused, the consumer still receives everything pushed before it is told the ring has quit, and nobody stays blocked. sync() returns only when everything pushed has been popped or the ring was quit, and tells which.",
  ["schedules", "histories"], "every interleaving of one producer, one consumer and one quitting thread, every capacity, element size and split of pushes and pops, every spurious wake-up and stall",
  "UnitTests/ring.cpp runs one producer and one consumer once each on the scheduler's whim; a lost wake-up or a wrong wrap-around needs a particular interleaving and fill level.",
  ["ring.hpp"], [("mutex and two condition variables guard head, size and the quit flag", "ring::back/push/front/pop/quit/sync")],
  [("head, size, quit flag", "occupied region and shutdown", "ring")], ["return values of back() and front()", "element values", "threads that end"])

p("C02", "Asynchronous writer: accepted bytes reach the sink; flush and failures are true",
  "Every byte an asynchronous writer accepts reaches its sink exactly once and in order, whatever the interleaving and the sink's short writes, and flush, close and destruction complete only after everything accepted before has been handed to the sink, unless the sink failed. When the sink fails, bytes after the failure are never delivered out of order, the next flush or close reports failure, writing is refused from then on, and no call or destruction hangs.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of the caller and the writer's thread, every sequence of writes, flushes, closes and destruction, every sink that accepts short, fails once, fails for good or stalls",
  "UnitTests/stream.cpp copies one file through the pair once with a sink that always works; nothing fails, stalls or is interleaved on purpose.",
  ["stream.hpp", "ring.hpp"], [("write copies into a ring, a thread drains it to the sink", "async_writer::write/process"), ("flush waits for the ring to drain", "async_writer::flush")],
  observe=["bytes the sink saw", "state after write, flush, close"])

p("C03", "Asynchronous reader: the reader sees exactly the source's bytes, then its end",
  "The bytes read through an asynchronous reader are exactly the source's bytes in order, each once, whatever the interleaving, read sizes and short reads of the source. End of stream or failure of the source is reported only after every byte the source gave has been delivered, and as what it is. Destroying the reader at any moment terminates and leaves nobody using the source.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of the caller and the read-ahead thread, every sequence of read sizes, every source that returns short, ends or fails at any byte, every moment of destruction",
  "The one existing test reads one file once to its end, with a source that never fails and is never abandoned.",
  ["stream.hpp", "ring.hpp"], [("a thread fills a ring from the source", "async_reader::process"), ("read drains the ring and takes the source's state when it has quit", "async_reader::read")],
  observe=["bytes and states returned by read"])

p("C04", "Replicator: every sink gets the same bytes, the worst result is reported",
  "Every write to a replicator is applied exactly once, completely and in order to each sink that was attached when it was made, however the sinks' threads are scheduled, and flush and close reach every attached sink once. The returned count is the smallest number of bytes any sink accepted and the state is ok only if every sink's is. No operation, attaching, detaching or destruction hangs, and no sink is used after it has been detached or after the call has returned.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of the caller and one thread per sink, every sequence of write, flush, close, attach and detach, every set of failing, short or stalling sinks",
  "The one existing test replicates one file to three working sinks under one arbitrary schedule.",
  ["stream.hpp"], [("one thread per sink takes an operation and reports back under a mutex", "replicator::worker::process_op"), ("the caller collects all results", "replicator::write, foreach_worker")],
  observe=["calls each sink received", "count and state returned"])

p("C05", "Watchdog: fires once per missed deadline and only then",
  "A watchdog calls back only when no reset arrived for at least its timeout, and at most once until the next reset re-arms it. When resets stop, the callback comes within the timeout plus scheduling delay. Destruction terminates at any moment without waiting for the timeout, and no callback starts after it has returned.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of resets, timer expiry and destruction on a virtual clock, including spurious wake-ups, stalls and jumps of the wall clock",
  "UnitTests/watchdog.cpp sleeps on the real clock through one fixed sequence with wide margins; races between reset, expiry and destruction are out of reach.",
  ["watchdog.hpp"], [("phase counter compared before and after a timed wait", "watchdog::run"), ("quit flag and join", "watchdog::~watchdog")],
  observe=["virtual time of each callback and reset"])

p("C06", "Spinlock: at most one holder, and a released lock can be taken",
  "At most one thread holds a spinlock at any time, under every interleaving of lock, try_lock and unlock. try_lock never blocks, succeeds on a lock that nobody holds or takes meanwhile, and fails on a held one without disturbing the holder. A thread waiting in lock() gets the lock once holders release it.",
  ["schedules"], "every interleaving of up to four threads at the level of single memory accesses",
  "No test of the repository uses the spinlock directly.",
  ["spinlock.hpp"], [("atomic exchange with a relaxed spin", "spinlock::lock/try_lock/unlock")],
  observe=["holders inside the critical section"])

p("C07", "Pool: items are never lost, duplicated or shared, per NUMA node",
  "An item put into a pool is handed out to exactly one taker, only for the NUMA node it was put in for, or destroyed exactly once by clear() or the pool's destruction, under every interleaving. Taking from a node with no item yields a default value, and taking from a node that holds an item nobody else takes yields an item.",
  ["schedules", "histories", "configurations"], "every interleaving of takers, givers and clear() on one to four NUMA nodes with threads migrating between processors",
  "UnitTests/pool.cpp runs threads that only count; a duplicated or lost item in a rare interleaving would not show, and it runs on one NUMA node.",
  ["pool.hpp", "spinlock.hpp"], [("map of per-node lists, map under a mutex, list under a spinlock", "pool::numa_entry/pop/push/clear")],
  observe=["identity and destruction count of items"])

p("C08", "Aggregate progress: the host sees the sum of all workers, once, and cancels all",
  "The progress and range an aggregate hands to its host always equal the sums over worker reports made so far, in every interleaving of the workers; when all workers are finished the host has been given the exact total. Cancelling the host cancels every worker. Attaching and detaching a host at any time is safe: after detach returns the old host is not used any more.",
  ["schedules", "histories"], "every interleaving of up to four workers reporting ranges and progress, and of attach and detach",
  "No test of the repository exercises progress.hpp.",
  ["progress.hpp"], [("atomic totals and a shared mutex around the host", "aggregate_progress")],
  observe=["calls the host receives"])

p("C09", "Progress timing: rate limit, deadline and range mapping follow the clock",
  "A lazy progress always reports the ends of its range, every other position only when it differs from the last one reported and the interval has passed since, and then without fail, always with the current position. A timeout progress is cancelled exactly when its host is cancelled or its deadline has passed, and passes everything else to the host unchanged. A global progress maps each local position onto its section proportionally (as long as the products fit the type), and a switcher puts itself in the place of a host and restores it. Changes of the wall clock affect none of this.",
  ["histories", "inputs"], "every sequence of ranges, positions, shows and cancels with any virtual time between them",
  "No test of the repository exercises progress.hpp, and real time cannot be steered.",
  ["progress.hpp"], [("steady clock comparison", "lazy_progress, timeout_progress"), ("scaling", "global_progress")],
  observe=["calls the host receives and their virtual time"])

p("C10", "Files: every file stream behaves as one random-access byte sequence",
  "A system file, a cached file, a cache over another file and a memory file all behave as one random-access sequence of bytes: a read returns the bytes most recently written at those positions (zero where nothing was ever written below the end), then end of file, and position, size and truncation follow, for every sequence of reads, writes, seeks, skips, truncations and flushes and every cache size. What the cache holds reaches the underlying file completely on flush, close and destruction. Short transfers by the operating system change nothing of this.",
  ["histories", "inputs", "configurations", "fault_sequences"], "every sequence of file operations, every cache size, every pattern of short system reads and writes",
  "The existing tests open one file and write it once sequentially; overwriting, gaps, reads behind the end, truncation inside a cached block and short transfers are not reached.",
  ["stream.hpp"], [("one block cache with a dirty flag over a seekable source", "cache"), ("system calls in a loop", "basic_sys, file"), ("growing memory block", "memory_file")],
  observe=["bytes, counts, states, positions and sizes returned", "content of the underlying file"])

p("C11", "Cached files: an I/O error is reported and never becomes wrong data",
  "When reads, writes, seeks, truncations or synchronisation of the underlying file fail, or it takes less than it was given or the disk is full, a cached file or a cache over another file never returns bytes that are not the file's, never presents an error as the end of the file, and never overwrites parts of the file that were not written through it with other bytes. Data that could not be stored is reported by the operation, by flush or by close; a flush or close that reports ok means that everything written before has reached the file.",
  ["fault_sequences", "histories"], "every sequence of file operations with every placement of failing system calls and full disks",
  "No existing test makes a system call fail.",
  ["stream.hpp"], [("state propagated from source", "cache::flush_cache/load_cache/write_cache"), ("exception when data cannot be saved", "cache::~cache, cache::close")],
  observe=["states and exceptions", "content of the underlying file"])

p("C12", "Flushed data survives a crash",
  "After flush() of a file or cached file has reported ok, a crash at any later moment leaves every byte written before that flush in the file as it was at the flush or as overwritten since, and the file no shorter than it was then unless truncated since; nothing that was never written appears in the flushed part. A system file opened for write-through has each completed write on disk when the write returns. A failed synchronisation is never reported as ok.",
  ["crash_points", "histories", "fault_sequences"], "every crash point between any two disk operations, every subset and tearing of unsynchronised writes",
  "No test crashes, and without a simulated disk the difference between written and durable is invisible.",
  ["stream.hpp"], [("cache flush followed by fsync", "cache::flush, basic_sys::flush"), ("O_DSYNC for write-through", "file::open")],
  observe=["file image after the crash", "state after flush"])

p("C13", "System and socket streams: counts and states tell what was transferred",
  "For every pattern of short transfers, interruptions, would-block and hard errors of a descriptor or socket, read and write return exactly the number of bytes transferred in order, no byte is lost, repeated or invented, and a failure or end of stream that stopped a transfer short is reported by the state no later than with the next call. A stream that reports ok for a write of n bytes has handed over all n.",
  ["fault_sequences", "inputs"], "every sequence of reads and writes over every pattern of short, interrupted and failing system calls",
  "The existing tests only use regular files, whose system calls neither fail nor transfer short.",
  ["stream.hpp", "socket.hpp"], [("loops around read, write, send and recv", "basic_sys, socket")],
  observe=["bytes on either side of the descriptor", "counts and states"])

p("C14", "System objects: each descriptor is closed exactly once, whatever fails",
  "Every descriptor a system object, file or socket owns is closed exactly once, and no descriptor it does not own is ever closed, for every sequence of construction, copying, moving, assignment, reopening, closing and destruction, also when duplicating, opening or closing fails. A copy refers to the same open file through its own descriptor, and a moved-from object owns nothing.",
  ["histories", "fault_sequences"], "every sequence of ownership operations over several objects with every placement of failing dup, open and close",
  "No existing test copies or assigns objects or makes dup or close fail.",
  ["system.hpp", "stream.hpp", "socket.hpp"], [("constructors, assignment and destructor of the handle owner", "basic_sys_object, socket"), ("reopening closes first", "file::open")],
  observe=["descriptor table of the simulated kernel"])

p("C15", "Buffered streams: bytes pass unchanged; flush, close and destruction deliver all",
  "Reading through a buffered stream yields exactly the source's bytes and writing through it gives the sink exactly the written bytes, in order, for every buffer size (including none), every sequence of operation sizes and every pattern of short transfers. After flush, close or destruction over a working sink nothing is left behind, and when the sink fails the bytes reported as accepted are exactly those already delivered or still kept for a later flush, which reports the failure.",
  ["histories", "inputs", "fault_sequences", "configurations"], "every sequence of operation and buffer sizes over every pattern of short and failing transfers",
  "No existing test uses a buffer whose source transfers short or fails.",
  ["stream.hpp"], [("read and write buffers with head and tail, bypass for large requests", "buffer::read/write/flush/flush_write"), ("pending data is written by close and destructor", "buffer, buffered_sys")],
  observe=["bytes on either side", "counts and states"])

p("C16", "Bulk transfers: copies, remainders, skips and lines are exact or report failure",
  "Copying a stream into another, reading its remainder, reading arrays and lines, detecting a byte order mark and skipping move exactly the bytes they claim, for every source that delivers in arbitrary pieces, ends or fails and every sink that accepts short or fails. A failure of either side or of an allocation is never reported as success: when the result is ok, every byte up to the limit or the source's end was transferred.",
  ["inputs", "fault_sequences"], "every size, every splitting of the source, every failing byte position on either side, every failing allocation",
  "The existing tests copy between files that never fail.",
  ["stream.hpp"], [("loops over read and write in blocks", "basic::write_stream, read_remainder, read_array, skip, readln, write_byte")],
  observe=["bytes, counts and states"])

p("C17", "Limiter and windows: no byte outside of the window is touched, counts are exact",
  "A limiter, a window and a file window pass through exactly the bytes inside of their limits and report end of file or failure at the limit, for every sequence of operations and every pattern of short transfers. A limiter and a file window never read or write the underlying stream outside of the limits; a window skips what lies before it and discards what lies behind it, and nothing outside of it reaches its user or its sink. Positions in a file window are relative to its start, and its read, write, seek, skip, tell and lock agree on them.",
  ["histories", "inputs", "fault_sequences"], "every sequence of operations, window placements, sizes and short transfers",
  "No existing test uses these classes.",
  ["stream.hpp"], [("remaining limits and offsets", "limiter, window"), ("position within a region", "file_window")],
  observe=["bytes and counts", "positions touched in the underlying file"])

p("C18", "FIFO: bytes come out in order, also when allocation fails",
  "A FIFO returns exactly the bytes written to it, in order, each once, for every sequence of writes, reads, flushes and closes, and its size is always the number of bytes written and not read. A write that cannot allocate reports failure and changes nothing, and no memory is leaked or used after release.",
  ["histories", "fault_sequences"], "every sequence of write and read sizes with every placement of failing allocations",
  "No existing test uses the FIFO.",
  ["stream.hpp"], [("linked list of blocks with read offset and total size", "fifo")],
  observe=["bytes, counts, states and size"])

p("C19", "Memory file: a failed allocation loses nothing, copies are independent",
  "When growing, loading, saving or copying a memory file fails because of an allocation or the file it is loaded from or saved to, the failure is reported, the content is the one that was there before, or, after a failed load, a beginning of the file's, and no memory outside of its block is touched. Copies and moves own independent content, and data the object does not manage is neither resized nor released.",
  ["fault_sequences", "histories"], "every sequence of operations on memory files with every placement of failing allocations and failing file I/O",
  "No existing test makes an allocation fail or saves to a failing disk.",
  ["stream.hpp"], [("reallocation in steps", "memory_file::reserve"), ("constructors, assignment, load and save", "memory_file")],
  observe=["content, size, state and memory accesses"])

p("C20", "Compression: what is compressed and decompressed in any pieces is the original",
  "Data written through a compressing stream in any pieces and read back through a decompressing stream in any pieces over any splitting of the compressed bytes is exactly the original followed by end of file. A failing sink is reported by write, flush, close or destruction and never hidden, a failing source is reported as failure and not as the end.",
  ["inputs", "fault_sequences"], "every content, level, write, flush and read size, every splitting by the transport, every failing byte position on either side",
  "UnitTests/zlib.cpp compresses one text once through a memory file that neither splits nor fails.",
  ["zlib.hpp"], [("deflate and inflate loops over fixed buffers", "zlib_writer, zlib_reader"), ("closing and destruction finish the compressed stream", "zlib_writer::finish")],
  observe=["bytes and states"])

p("C21", "Decompression of damaged data ends, and truncated data is never complete",
  "Reading any byte sequence through a decompressing stream terminates within a number of steps bounded by the data, never touches memory outside of the given buffers, and ends with end of file only if a complete compressed stream with a correct checksum was read; truncated or damaged data ends in failure.",
  ["inputs", "fault_sequences"], "every truncation, extension and corruption of compressed streams, arbitrary bytes, every splitting",
  "The existing test only reads an intact stream.",
  ["zlib.hpp"], [("mapping of inflate's return codes", "zlib_reader::read")],
  observe=["bytes and states", "execution steps"])

p("C22", "Base64 and hex streams: encoding then decoding in any pieces is the identity",
  "Bytes written through a Base64 encoding stream in any pieces produce exactly the standard encoding of the whole, and decoding it, in any read sizes and over any splitting of the text by the transport, with or without line breaks, yields exactly the original bytes and then the end; an incremental Base64 or hex coder gives the same result for every splitting. Failures of the transport are reported and the returned counts are the bytes really consumed or produced.",
  ["inputs", "fault_sequences"], "every content and length modulo three, every write, read and transport splitting, every failing position",
  "No existing test feeds the coders in pieces or through failing streams.",
  ["base64.hpp", "hex.hpp"], [("three-byte groups carried between calls", "base64_enc, base64_dec"), ("streams over the coders", "base64_writer, base64_reader"), ("half bytes carried between calls", "hex_enc, hex_dec")],
  observe=["text, bytes, counts and states"])

p("C23", "Hashes: the digest depends on the bytes only, not on how they arrive",
  "Every hash yields the same digest for the same bytes however they are split into pieces, and the digest is the published one of the algorithm. A hashing stream placed before a file or socket passes the bytes unchanged and hashes exactly those the underlying stream transferred, also when it transfers short or fails.",
  ["inputs", "fault_sequences"], "every content and splitting, every pattern of short and failing transfers",
  "UnitTests/hash.cpp hashes a few short strings in one piece.",
  ["hash.hpp"], [("block buffer carried between calls", "block_hash, md5_t, sha1_t, crc32_t"), ("stream hasher", "stream_hasher")],
  observe=["digests and transferred bytes"])

p("C24", "Serialisation: values survive the round trip; short or failed input is reported",
  "Any sequence of numbers, strings, vectors and sets written to a stream reads back equal, whatever pieces the transport delivers, in the documented little-endian format. If the input ends or fails anywhere, the stream is not ok afterwards, later reads in the chain change nothing in the stream, and no value that was not completely read is presented as read; reading never allocates or touches memory out of proportion to the input.",
  ["inputs", "fault_sequences"], "every sequence of values, every truncation and failing position, every splitting and every failing allocation",
  "No existing test reads a truncated or failing stream.",
  ["stream.hpp"], [("chained operators that skip when the state is not ok", "basic::read_data/read_str/operator>>"), ("specialised versions over memory", "memory_file::read_data/read_str")],
  observe=["values, states and stream position"])

p("C25", "Record files: records are found, skipped and sized right, failures reported",
  "Records written one after another, nested and of unknown size at opening, are found again by their identifier with exactly their data, whatever other records surround them and however the transport splits the bytes. A file that ends or fails inside of a record makes searching and reading stop and report it within bounded steps, and a record whose size could not be stored is reported by its closing.",
  ["inputs", "fault_sequences", "histories"], "every sequence of records, alignments, sizes, truncations, failing positions and splittings",
  "No existing test uses idrec.hpp.",
  ["idrec.hpp"], [("identifier, size and alignment padding", "idrec::open/close/find/read_header/read")],
  observe=["records found, data, states"])

p("C26", "WAV files: samples and markers survive the round trip, damage is reported",
  "Format, samples and cue markers (with their labels, notes and lengths) written to a WAV stream read back equal, however the transport splits the bytes, and removing the markers from a file leaves everything else in it unchanged. Damaged or truncated input ends in an error or in the leading part of the samples within bounded steps, without taking memory out of proportion to the input; a failing transport or lack of memory is never reported as success.",
  ["inputs", "fault_sequences"], "every format, marker list, truncation, corruption, failing position and splitting",
  "No existing test uses wav.hpp.",
  ["wav.hpp", "idrec.hpp"], [("stream operators of headers and cues", "wav")],
  observe=["values and states"])

p("C27", "Diagnostic file: differing replies of the underlying files are never hidden",
  "A diagnostic file performs each operation on the underlying files in order until the first one that differs, and reports an error whenever their counts, states, positions, sizes or bytes differ; when they agree its result is theirs. An empty list of files is an empty stream, not a crash.",
  ["histories", "fault_sequences"], "every sequence of file operations with every placement of failures and divergences in one of the files, including an empty list of files",
  "No existing test uses the class.",
  ["stream.hpp"], [("comparison of each result with the first file's", "diag_file")],
  observe=["results and exceptions"])

p("C28", "Sanitising containers leave no secret in released memory",
  "Every heap block a sanitising string or vector (or another container using the sanitising allocator) releases, on growth, assignment, shrinking, exceptions or destruction, and the memory of every sanitising blob destroyed, holds none of the data any more when it is released, in the optimised program. Every block is given back, and a new blob is all zero.",
  ["histories", "fault_sequences"], "every sequence of container operations with every placement of failing allocations",
  "Whether released memory still holds the secret is invisible to a test that uses the interface, and depends on optimisation.",
  ["memory.hpp"], [("block cleared before it is deallocated", "sanitizing_allocator::deallocate"), ("cleared by the destructor", "sanitizing_blob")],
  observe=["content of blocks at the moment of release"])

p("C29", "File locks, times and opening modes act on what they name and report failure",
  "Locking and unlocking a section of a file affects exactly that section, keeps the file position, and reports failure when the system refuses - a refused lock changes nothing. Setting the access or modification time sets that one, leaves the other, and the times read back are those of the file. Each opening mode creates, preserves, truncates or refuses the file as documented, for plain and for cached files, and a failed opening leaves a closed file behind. What was written with write-through is on the disk when the write returns.",
  ["histories", "fault_sequences", "configurations"], "every sequence of lock, time and open operations on files in every mode, with other processes holding locks and with failing system calls",
  "No existing test locks files, sets times or makes these calls fail.",
  ["stream.hpp"], [("seek and lockf", "file::lock/unlock"), ("futimens", "file::set_atime/set_mtime"), ("flags", "file::open")],
  observe=["locks, times, content and position in the simulated kernel"])
p("C30", "Bounded queue: first in first out; a failing push or copy loses nothing",
  "A bounded queue holds the elements a double-ended queue limited to its capacity would hold after the same operations, in the same order: a push onto a full queue drops the element at the other end and nothing else, at any capacity and any position of the head. A push whose element cannot be copied leaves the queue as it was; a copy or assignment that fails leaks nothing, leaves its source whole and its target usable. Access outside of the queue is refused.",
  ["histories", "fault_sequences"], "every sequence of pushes and pops on both ends, copies, moves and assignments, every capacity, every copy and allocation that fails",
  "UnitTests has no test of the queue: nothing wraps around, nothing fails.",
  ["vector_queue.hpp"], [("circular indices in an array", "vector_queue::abs, push_front, push_back, pop_front, pop_back"), ("owned array", "vector_queue::operator=")],
  observe=["elements and their lifetimes", "return values and exceptions"])
p("C31", "Signature files: what the file says is returned; anything else is refused",
  "Reading a minisign signature from a stream returns exactly the algorithm, key identifier and signature of the first line that is neither blank nor an untrusted comment, however the stream delivers it. A signature that is missing, too short, not of this kind, that the stream ends within or that the stream fails to deliver is refused.",
  ["inputs", "fault_sequences"], "every signature file, every way it is cut into reads, every truncation, read failure and shortage of memory",
  "No existing test reads signature files.",
  ["minisign.hpp", "base64.hpp", "stream.hpp"], [("line and base64 reading", "minisign::parse_minisig")],
  observe=["values returned and exceptions"])
p("C32", "Formatted text is complete at any length; a failure changes nothing",
  "Text formatted with a printf template, appended to a string, returned as one or written to a stream, is the complete text whatever its length, the contents before it, the error number left behind by earlier calls and what was formatted or refused before. When memory runs out or the text cannot be formatted, the caller is told by an exception and a string that was appended to is as it was before. A stream that cannot take all of the text reports failure and the number of characters it took.",
  ["inputs", "histories", "fault_sequences"], "every length of text, narrow and wide, every earlier error number and sequence of calls, every allocation and stream write that fails",
  "The tests format one short text; no result fills or exceeds the internal buffer, follows an error or runs out of memory.",
  ["string.hpp", "stream.hpp"], [("stack buffer, then growing string", "vappendf"), ("formatting into a temporary string", "stream::basic::write_vsprintf")],
  observe=["text, returned counts, exceptions", "bytes the stream got and its state"])
p("C33", "Dates and timestamps are the system clock's, in every form",
  "The current date and timestamp are those of the system clock at that moment, to the second, however the clock was set or jumped before. Converting between time_t, timespec, tm, calendar date and time, and timestamp keeps the moment to the millisecond and the order of moments, for every moment of the years 1 to 9999. Formatting a timestamp or a calendar time gives the complete text the C library gives for it in the C locale, of any length including none, appended to what was there where it appends; when memory runs out, this is reported, nothing leaks and the text appended to is as it was.",
  ["inputs", "histories", "fault_sequences"], "every moment of the years 1 to 9999 the clock can show, every jump of the clock, every format and length of the formatted text, every allocation that fails",
  "No existing test reads the clock or formats a timestamp; the clock of a test run shows one moment.",
  ["chrono.hpp", "string.hpp"], [("current time", "aosn_date::now, aosn_timestamp::now"), ("calendar arithmetic", "aosn_date::from_dmy, to_dmy, aosn_timestamp::to_system, from_system"), ("growing buffer", "aosn_timestamp::to_str, strcatftime")],
  observe=["time points, calendar fields, struct tm", "formatted text"])
p("C34", "An HTML document parses the same however it arrives and can be rebuilt",
  "What an HTML document parses into (its tokens with their texts, types, mappings and positions) depends on its source only: not on how the source is cut into chunks, on what the document object held, was given or failed at before, nor on whether an unfinished document was looked at. Every document ends up parsed, whatever is missing or misplaced in it, or is refused by a documented exception. Linking the tokens gives the document back: markup, comments, scripts, style sheets and attributes as they were; texts, URLs and localizable attribute values escaped so that they mean the same; ignored sections dropped. Each character of a text is mapped to its place in the source. Progress never goes back or out of range, cancelling stops the parser at once, running out of memory is reported, nothing leaks, and the document can be parsed again.",
  ["inputs", "histories", "fault_sequences"], "every source and division of it into chunks, every history of the document object, every moment of cancellation, every allocation that fails",
  "No existing test includes html.hpp.",
  ["html.hpp", "parser.hpp", "sgml.hpp"], [("parsing resumed with each chunk", "html::document::append, finalize"), ("recursive tokens referred to by tags in text", "html::parser::parse, link"), ("text position mapping", "sgml2strcat, text_token::mapping"), ("progress and cancellation", "html::parser::parse")],
  observe=["tokens, their texts and mappings", "source rebuilt", "exceptions, progress", "live heap blocks"])
p("C35", "Parsers read only what they were given and forget the previous match",
  "Whatever a text parser is asked to match - any text in the range it was given, ended by the range or by a zero, plain, wide or with SGML entities, with any flags - it ends, reads nothing outside of the range, and either reports a match inside of it or reports none and holds none. The outcome and everything the parser tells about it (its parts, values and their places) depend on the text alone: a parser used over and over, after other matches, failures or a shortage of memory, tells the same as a new one, and the same for the text alone as for the text inside of a bigger one. Searching finds the first match there is. Running out of memory is reported and leaks nothing.",
  ["inputs", "histories", "fault_sequences"], "every text, range and flags, every history of a parser object, every allocation that fails",
  "The tests match a few short, zero-terminated texts once each with a new parser.",
  ["parser.hpp", "sgml.hpp"], [("parts and values of the last match held in the parser object and its shared parts", "parser::basic_parser and derived"), ("recursive descent over a text range", "basic_parser::do_match")],
  observe=["match intervals, parts and values", "memory reads", "exceptions, live heap blocks"])
p("C36", "Network addresses, URLs and e-mails are found whole and taken apart exactly",
  "An IPv4 or IPv6 address, a DNS name, a URL or an e-mail address written by the rules, in plain or wide characters or with SGML entities, is found whole wherever it is in the text, no longer and no shorter; its parts are where they were put and its address is the one written, in network byte order. What breaks the rules is not taken for one. Neither depends on what the parser has matched before.",
  ["inputs", "histories", "fault_sequences"], "every address and its surroundings, every history of the parser objects",
  "The tests match a few fixed addresses and check their ends, not their parts or values.",
  ["parser.hpp"], [("address value and components of the last match", "basic_ipv4_address, basic_ipv6_address, basic_dns_name, basic_url, basic_email_address")],
  observe=["match intervals, parts and values"])
p("C37", "Payment references are found whole, normalised, and valid exactly when they are",
  "An IBAN, a creditor reference or a Slovenian payment reference, however it is spaced and in whichever letter case the flags allow, is found whole and nothing more; its country, check digits, model, parts and normal form are told, and it is called valid exactly when its check digits are right for its country or model. What is too short, too long or not of known form is not taken for one. Neither depends on what the parser has matched before.",
  ["inputs", "histories", "fault_sequences"], "every reference and its surroundings, every history of the parser objects",
  "The tests match a few fixed references.",
  ["parser.hpp"], [("normalised reference and validity of the last match", "basic_iban, basic_creditor_reference, basic_si_reference")],
  observe=["match intervals, parts, normal form and validity"])
p("C38", "An HTTP message is taken apart into exactly what it was put together of",
  "A request line, a header field, a list of values with parameters, factors and quoted strings, a cookie or a URL put together by the HTTP rules, however it is spaced and folded, is found whole and taken apart into the parts and values it was put together of; default values are told where parts are left out. What breaks the rules is not taken for one. Neither depends on what the parser has matched before; running out of memory is reported, leaks nothing, and the parser goes on to work.",
  ["inputs", "histories", "fault_sequences"], "every message, every history of the parser objects, every allocation that fails",
  "The tests parse one request with a few header fields.",
  ["parser.hpp"], [("parts and values of the last match", "http_request, http_header, http_value_collection, http_url, http_cookie and others")],
  observe=["match intervals, parts and values", "exceptions, live heap blocks"])
p("C39", "Numbers, dates, times, phones and JSON strings are found whole and told exactly",
  "An integer, Roman numeral, fraction, score, signed, mixed, scientific or monetary numeral, date, time, angle, phone number, emoticon, chemical formula or JSON string, in plain or wide characters or with SGML entities, is found whole wherever it is in the text, no longer and no shorter; its parts are where they were put and its value is the one written (escapes and surrogate pairs of a JSON string decoded, a date told in a format that is enabled and valid). What is not one is not taken for one. Neither depends on what the parser has matched before; running out of memory is reported and the parser goes on to work.",
  ["inputs", "histories", "fault_sequences"], "every number, date, phone number or string and its surroundings, every set of optional parts, every history of the parser objects, every allocation that fails",
  "The tests match a few fixed texts.",
  ["parser.hpp"], [("parts and values of the last match", "basic_integer and derived, basic_date, basic_time, basic_angle, basic_phone_number, basic_json_string and others")],
  observe=["match intervals, parts and values", "exceptions"])
p("C42", "Character sets: conversion depends on the text only; damage and failure are told",
  "Converting text between character sets gives the same text in the other set whatever its length, the way it is passed or delivered (zero-terminated, counted, line by line through a stream that reads and writes short), and whatever the same converter converted or failed to convert before. Text that is damaged or cannot be represented is refused, running out of memory or space is reported, and what a failed conversion or write leaves behind is at most the beginning of the right result, appended to what was there. The names of character sets are recognised in any case, and a converter the system cannot provide is reported.",
  ["inputs", "histories", "fault_sequences"], "every text in every pair of the supported character sets, every sequence of conversions with one converter, every allocation and stream write that fails",
  "The tests convert a few short texts once each; none exceeds the internal buffer, is damaged, follows a failed conversion or goes through a failing stream.",
  ["unicode.hpp", "stream.hpp"], [("iconv handle with state, fixed size output buffer", "charset_encoder::strcat"), ("conversion into a temporary string", "write_array, readln with encoder")],
  observe=["converted text", "exceptions, counts and stream states"])

p("C41", "SGML, HTML, URL and CSS escaping is exact and stays within text and room",
  "Escaping a text for SGML, HTML, URLs or CSS leaves nothing in it that means anything there, and unescaping it gives the same text back, whatever characters and combinations it is made of; unescaping any text replaces exactly its complete escapes and entities by what they stand for and leaves everything else alone. Whether a text is given by its end or by a length, nothing is read outside of it, and nothing is written outside of the room given: a result that does not fit is reported. Positions in the result map to positions in the original and back. Which entity means which character agrees with the standard's list. A failed allocation is reported, and the destination keeps what it had.",
  ["inputs", "fault_sequences"], "every text, limit, flag, size of the destination and earlier content, every allocation that fails",
  "The tests convert a few complete texts into strings; none limits the text, the room or the memory, or ends in the middle of an escape.",
  ["html.hpp", "sgml.hpp", "mapping.hpp"], [("scanner of escapes with lookahead", "html::url_unescape, html::css_unescape"), ("entity tables searched by halving", "sgml2uni, chr2sgml"), ("growing string or limited buffer", "str2sgmlcat, sgml2strcat"), ("pairs of positions", "mapping, dst2src, src2dst")],
  observe=["resulting text", "exceptions", "map of positions", "accesses outside of the texts"])
p("C44", "Text functions give exact results and stay within text and room",
  "Searching, comparing, measuring, copying, duplicating, changing case and trimming text, and reading numbers, UUIDs and language identifiers from text or writing them as text, give exactly what their documentation says for every combination of character types, whether a text is ended, limited or an array, and whatever its content: numbers out of range become the nearest that is in range, whatever follows a number is left, nothing malformed is taken for a UUID. Nothing behind the end or the limit of a text is read, nothing outside of the room is written, and every result that has room for it is terminated. What is written as text reads back as the same value. A failed allocation is reported and leaks nothing.",
  ["inputs", "fault_sequences"], "every text, limit, room, radix and value in every combination of character types, every allocation that fails",
  "The tests call a few of the functions, mostly on terminated literals; texts without a terminator, full destinations and the limits of numbers do not occur.",
  ["string.hpp", "langid.hpp", "uuid.hpp"], [("loops over limited text", "strnchr, strnstr, strncmp, strncpy, strncat, ltrim, rtrim"), ("accumulation with overflow detection", "strtoint, strtouint, strto32, strtou64"), ("scanner of fields", "strtouuid"), ("two tables to be kept in step", "rfc1766_from_langid, langid_from_rfc1766")],
  observe=["results and values", "contents of destinations", "accesses outside of texts and destinations"])
p("C45", "System information says what the system says, and nothing when it does not",
  "The information about the system and the current user is what the operating system says when it is gathered: the platform of its machine name (in any case; anything else is unknown), elevated exactly for the super user, the effective user's name. When a system call fails, or there is no such user, the item is unknown or empty and the others are still right. Information gathered stays what it was; running out of memory is reported and leaks nothing.",
  ["inputs", "fault_sequences"], "every machine name, user and user name, every combination of failing system calls and allocations",
  "A test sees the one system it runs on, where no call fails.",
  ["sys_info.hpp"], [("system calls in the constructor", "sys_info_t::sys_info_t"), ("table of names", "platform_from_name")],
  observe=["members of sys_info_t"])
p("C46", "Scope ends run exactly once; lent pointers return; library use is balanced",
  "The beginning of a scope guard runs once when it is made, and its end runs exactly once when it goes away, in reverse order, also when an exception leaves the scope, with what it captured unchanged - and not at all when the beginning failed. A pointer lent to a function that gives out through a pointer to pointer comes back to its owner as the function left it, once, whatever the function does or throws. Objects that are only wrapped are never deleted. Initialisations of the CURL library, its handles and lists are released exactly once, a failed initialisation is reported with its code and is not undone.",
  ["histories", "fault_sequences"], "every nesting of guards, every exception thrown at any point, every sequence of lending and of failing initialisations and allocations",
  "No existing test uses these classes; a dangling capture or a double release shows only for some captures, nestings and exceptions.",
  ["scoped_executor.hpp", "memory.hpp", "curl.hpp"], [("constructor and destructor", "scoped_executor"), ("owner is given the pointer back by the destructor", "ref_unique_ptr, get_ptr"), ("deleter that does nothing", "no_delete, make_shared_no_delete"), ("counted library initialisation", "curl_initializer")],
  observe=["order of beginnings and ends", "captured values", "objects alive", "calls to the library"])
p("C47", "What threads do not share needs no locking",
  "Threads that use objects of their own - strings and formatting, character set conversion, time stamps, digests, Base64 and hexadecimal coding, SGML and HTML, parsers, HTTP, memory and buffered streams, compression, records, WAV, signatures, queues - need no locking: each thread gets exactly what it would get alone, in every interleaving, and no memory is accessed by two of them without synchronisation. Nothing behind the interface is shared but constants.",
  ["schedules"], "every interleaving of two or three threads, each using objects of its own of any of thirteen parts of the library",
  "No existing test runs two threads at once outside of the pool and the ring; a buffer made static still passes every test.",
  ["string.hpp", "unicode.hpp", "chrono.hpp", "hash.hpp", "base64.hpp", "hex.hpp", "sgml.hpp", "html.hpp", "parser.hpp", "stream.hpp", "zlib.hpp", "idrec.hpp", "wav.hpp", "minisign.hpp", "vector_queue.hpp", "langid.hpp", "locale.hpp"], [("buffers live on the stack", "vappendf, vstrcatftime, charset_encoder::strcat, basic_time_point::to_str"), ("constants are initialised before the program or once", "locale_C, tables of sgml.hpp, langid.hpp and hash.hpp")],
  observe=["results of every thread", "memory accesses of every thread"])
p("C48", "The elements of an HTML document nest as HTML has them",
  "Each part of an HTML document - text, tag, declaration, comment, instruction, section - is at its place in the source, with its name and attributes at theirs, and its element known by name in either letter case. Its parent is the innermost element open there. A starting tag ends every open element, from the innermost out, that may not hold it by the content model of HTML; elements that are always empty hold nothing. An ending tag ends the innermost open element of its name, with all that are open in it, and is told apart from tags of other names, known or not; one that ends nothing is kept as it is. Start and end refer to each other. The character set is the one the first content-type declaration names. The tokens follow the nesting: contents of blocks apart, contents of scripts, styles, code and the like as they are, titles, bullets, texts, URLs and localizable values marked as such, each at its place. None of it depends on how the source arrived or what the document held or failed at before.",
  ["inputs", "histories", "fault_sequences"], "every sequence of tags of every element, known or not, division into chunks, and history of the document object",
  "No existing test includes html.hpp.",
  ["html.hpp"], [("stack of open elements kept between chunks", "html::document::parse, m_element_stack"), ("content model", "html::element_traits"), ("tree of tokens from the flat list of tags", "html::parser::parse")],
  observe=["intervals, types, parents, starts and ends of sequences", "token tree"])
p("C49", "Text rebuilt from stacks of open tags is well nested",
  "Going from one stack of open tags to another ends the tags the two do not have in common, the last first, each by its own name, then starts the others in order, and the tags open are those asked for; what is common stays open. Tags to be inserted before or after a word are inserted there, once, in order, each inside of the tags it was inside of; the others wait. The document linked from such text is well nested at every point. Merging two lists of tags gives each tag of both, once.",
  ["histories"], "every sequence of stacks of tags and words, every list of tags to insert, every pair of lists to merge",
  "No existing test includes html.hpp.",
  ["html.hpp"], [("stack of active tokens", "html::parser::start_tokens, end_tokens"), ("tokens waiting for their word", "append_inserted_tokens"), ("list union", "merge")],
  observe=["tags open", "document linked", "tags left to insert"])
p("C40", "Pieces of CSS and HTML and MIME types are found whole and taken apart exactly",
  "A CSS comment, string, URI, import directive or legacy comment mark, a MIME type with or without a character set, an HTML name, attribute value, mark of a conditional section or tag - starting, ending, empty, declaration, comment or instruction - written by the rules, with escapes, quotes and spacing as the rules allow, in plain or wide characters, is found whole wherever it is in the text, no longer and no shorter; its content, character set, type, name and the names and values of its attributes are where they were put. What is never closed or breaks the rules is not taken for one and leaves no parts behind. Neither depends on what the parser has matched before; running out of memory is reported and the parser goes on to work.",
  ["inputs", "histories", "fault_sequences"], "every such piece of text, in any place, ended by the range or by a zero, after any history of the parser, every allocation that fails",
  "No existing test uses these parsers.",
  ["parser.hpp"], [("recursive descent over a text range, parts kept in the parser", "basic_css_*, basic_mime_type, basic_html_ident, basic_html_value, basic_html_tag, basic_html_declaration_condition_*")],
  observe=["interval and parts of the match"])
p("C43", "Arithmetic and intervals follow their mathematical models",
  "Overflow-checked arithmetic and interval algebra behave as their models for every input (mappings: C41).",
  ["inputs"], "every value and operation sequence", "The tests sample a few values.",
  ["math.hpp", "interval.hpp"], [("header-only algorithms", "math, interval")],
  na="Single-threaded value types without I/O or time; input enumeration would be property-based testing, not simulation.")


def main():
    head = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                                "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                                "anchors": {"files": x["files"],
                                            "state": [dict(zip(("name", "meaning", "where"), s)) for s in x["state"]],
                                            "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                                            "observe_at": list(x["observe"]), "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for x in P:
        if os.path.exists(os.path.join(V, "src", "props", x["id"] + ".cpp")):
            threads = "SIM: threads" in open(os.path.join(V, "src", "props", x["id"] + ".cpp")).read()
            checks.append({"property": x["id"],
                           "quick_cmd": "python3 tools/check.py %s quick" % x["id"],
                           "thorough_cmd": "python3 tools/check.py %s thorough" % x["id"],
                           "evidence_file": "evidence/%s.json" % x["id"],
                           "technique": "deterministic simulation with fault injection: seeded search over " + ("thread schedules, stalls and faults" if threads else "operation histories, short transfers and injected system call and allocation failures"),
                           "level": "exploration",
                           "level_note": x["note"] or "Seeded search, no exhaustive coverage: the real headers run in the simulator; trusts the simulator's scheduler/kernel model and the reference model in src/props/%s.cpp." % x["id"]})
        else:
            na.append({"property": x["id"], "reason": x["na"] or "Not claimed (yet): the simulation scenario is not built."})
    m = {"version": 1, "setup_cmd": "python3 tools/check.py --build", "checks": checks, "not_applicable": na,
         "notes": "Deterministic simulator in src/sim, scenarios in src/props, driver in tools/check.py; no hooks in /repo are needed: all seams are at the C library, compiler instrumentation and stream interface level."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not claimed")


main()
