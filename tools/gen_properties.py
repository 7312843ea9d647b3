#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(qtext.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

p("A01", "A growable array always equals the sequence its operations describe",
  """After any sequence of add, delete at an index (order preserving or swap-with-last), delete last, clear, sort and
  re-initialisation, the array's length, every element by index, its last element and the order its loop visits are
  exactly those of the plain sequence the operations describe. Growth keeps every element; a refused growth (allocation
  failure or configured maximum) is reported, leaves the sequence as it was, and a later add that can allocate succeeds and
  clears the report. No operation touches memory outside the array's own storage.""",
  ["inputs", "histories", "fault_sequences"], "every element type, length and operation history, with and without refused growth",
  "the tests add a few hundred integers and delete a few fixed positions; histories that interleave deletes, sorts, refused growth and reuse are unbounded",
  ["array/sc_array.h"], [("growth by doubling in the add macro", "array/sc_array.h"), ("memmove in delete", "array/sc_array.h")],
  observe=["element access, size, foreach and oom macros after every operation"])

p("Q01", "A queue is a faithful double-ended sequence across wrap-around and growth",
  """Whatever mixture of adds and deletes at either end, the queue returns its elements in exactly the order a double-ended
  sequence would: its size, emptiness, first and last element, indexed access and loop order all agree with that sequence,
  including while the storage wraps around, while it grows, and when the element added is read from the queue itself. A refused growth is reported and leaves the contents
  unchanged, and as soon as there is room again (after deletes or a clear, or when memory is available) adds succeed and the
  report is withdrawn.""",
  ["inputs", "histories", "fault_sequences"], "every element type and every history of operations at both ends, with refused growth at any point",
  "wrap-around position, growth moment and refused growth combine; the tests fill and drain a queue in a few fixed patterns",
  ["queue/sc_queue.h"], [("power of two ring with masked indexes", "queue/sc_queue.h"), ("re-linearisation on growth", "queue/sc_queue.h")],
  observe=["peek/at/foreach/size/empty/oom after every operation"])

p("L01", "The intrusive list keeps exactly its members, once each, in order, both ways",
  """After any sequence of insertions (at head, tail, before or after a member), removals, pops and clears, walking the list
  forwards visits exactly the current members once each in the order the operations describe, and walking it backwards
  visits them in reverse; count, emptiness, head and tail agree. Inserting an element that is already a member (of this or
  another list) moves it, removing a non-member that is initialised changes nothing, removed elements can be inserted again,
  and the removal-safe loops survive removal of the visited element.""",
  ["inputs", "histories"], "every history over any number of lists and elements",
  "the tests use a handful of nodes in one list; moves between lists, repeated removal and every adjacency (neighbour of itself, head, tail) are not enumerated",
  ["linked-list/sc_list.c", "linked-list/sc_list.h"], [("unlink before every insert", "linked-list/sc_list.c"), ("self-linked removed elements", "linked-list/sc_list.c")],
  observe=["full forward and backward walks after every operation"])

p("H01", "The priority queue always yields a pending entry with the smallest key",
  """After any sequence of adds and removals, peek and pop return one of the pending entries with the smallest key together
  with the data that was added with it, pops return every added entry exactly once, and the size is the number of entries
  added and not yet popped or cleared. This holds for every key value, duplicate keys, every initial capacity and while the
  heap grows; a refused growth is reported and leaves size and contents unchanged.""",
  ["inputs", "histories", "fault_sequences"], "every interleaving of add/pop/peek/clear, every 64-bit key, every capacity, refused growth at any point",
  "heap order bugs show only for particular shapes and duplicates; the tests push one fixed permutation and never use the heap after a failed add",
  ["heap/sc_heap.c", "heap/sc_heap.h"], [("sift up / sift down", "heap/sc_heap.c"), ("growth in add", "heap/sc_heap.c")],
  observe=["peek/pop/size results against a model multiset"])

p("P01", "A map returns exactly the latest value stored under each key",
  """For every key and value type offered, after any sequence of put, get and delete, a lookup finds a key exactly when it was
  put and not deleted since and then returns the last value put; put and delete return the previous value and say whether
  there was one, and the element count is the number of distinct present keys. This holds for the zero or NULL key, for keys
  that collide, for string keys equal by content rather than address (only the text given with the latest put of a key being referred to), for every allowed initial capacity and load factor, and
  across growth.""",
  ["inputs", "histories", "configurations"], "all map types, all keys (zero/NULL, colliding, extreme), all histories, capacities and load factors",
  "displacement chains and back-shift deletion depend on exact collision and wrap patterns; the tests insert sequential or random keys and mostly check presence",
  ["map/sc_map.c", "map/sc_map.h"], [("linear probing with back-shift deletion", "map/sc_map.c"), ("zero key kept in a reserved slot", "map/sc_map.c"), ("rehash on load factor", "map/sc_map.c")],
  observe=["get/put/del results, found flag and size against a model"])

p("P02", "Map iteration visits each entry exactly once; clear and reuse leave nothing",
  """Iteration over keys, values or pairs visits every present entry exactly once, with its own key and current value, and
  nothing else, also for empty, never-filled, cleared and re-used maps and for the zero or NULL key; leaving a loop early is
  allowed. Clearing removes every entry and keeps the map usable, termination releases all its memory and may be repeated, and
  initialisation accepts load factors strictly between 25 and 95 (or zero for the default) together with any capacity it can
  allocate, and refuses load factors below 25 or above 95 and capacities it cannot allocate.""",
  ["inputs", "histories", "configurations"], "all map types, contents, histories of clear/term/reuse, load factors and capacities",
  "tests iterate a few dense maps; zero-key iteration, reuse after clear/term and boundary capacities are sampled at one or two points",
  ["map/sc_map.h", "map/sc_map.c"], [("foreach macros", "map/sc_map.h"), ("clear/term", "map/sc_map.c"), ("shared static empty map", "map/sc_map.c")],
  observe=["visited (key,value) multiset against a model, allocation balance"])

p("B01", "Whatever is encoded into a buffer decodes to the same values, in order",
  """Reading back a buffer with the same sequence of typed operations that filled it yields identical values (integers,
  booleans, doubles bit for bit, strings, absent strings, formatted strings, blobs and raw bytes), consumes exactly the bytes
  written, and raises no error. The encoding is fixed: integers little endian at their width, strings as 8-byte length, bytes
  and a terminator, absent strings as the bare reserved length, blobs as 8-byte length and bytes; the advertised encoded
  lengths equal the bytes actually used, and peeks and positional writes use the same encoding without moving the positions.""",
  ["inputs", "histories"], "every sequence of typed values, buffer size, growth pattern and interleaving of writes, reads, compaction and moves",
  "the tests round-trip single values from an empty buffer; growth boundaries, formatted strings that do not fit first, compaction in the middle and mixed sequences are unbounded",
  ["buffer/sc_buf.c", "buffer/sc_buf.h"], [("explicit byte shifts", "buffer/sc_buf.c"), ("two-pass formatted put", "buffer/sc_buf.c")],
  observe=["decoded values, raw bytes, positions"])

p("B02", "Decoding hostile bytes stays inside the data and reports the corruption",
  """Whatever bytes a buffer holds and whatever read operations, positions and lengths are requested, no read returns or copies
  memory outside the valid data, and returned strings are wholly inside it. A read that asks for more than is available fails:
  it yields zero, nothing or NULL, does not advance the read position (a string read may have consumed its length field), and
  marks the buffer invalid; the buffer then stays invalid,
  with scalar reads yielding zero, until it is cleared.""",
  ["inputs", "histories"], "every byte content, read sequence, position and length including extreme 64-bit values",
  "the tests truncate a few encodings; attacker-chosen 64-bit lengths and positions that overflow the bounds arithmetic are not tried",
  ["buffer/sc_buf.c"], [("bounds checks against the write position", "buffer/sc_buf.c"), ("sticky error flags", "buffer/sc_buf.c")],
  observe=["sanitizer redzones around the data, positions, valid flag and returned pointers"])

p("B03", "Buffer writes stay in bounds, honour the limit and never corrupt earlier data",
  """No write goes outside the buffer's storage, a wrapped fixed buffer is never resized or freed, and a growable buffer's
  capacity never exceeds its configured limit. A write that fits in the space already available always succeeds; one that cannot
  be satisfied (limit, fixed storage, allocation failure, bad position) marks the buffer invalid until cleared, further puts storing nothing, and leaves the bytes
  written before it untouched (an over-long text append instead empties the buffer). Reserving, shrinking, compacting and moving
  between buffers preserve the unread bytes and their order, never lose bytes, and keep 0 <= read position <= write position <= capacity.
  A terminated buffer is empty and can be used again.""",
  ["inputs", "histories", "fault_sequences"], "every sequence of writes, reserves, shrinks, compactions and moves, every limit and size (including huge ones), wrapped and owned buffers, failing allocations",
  "limit, exact-fit and failure paths interact with position and growth rounding; tests check a few of them once each",
  ["buffer/sc_buf.c"], [("reserve with limit check", "buffer/sc_buf.c"), ("compact/shrink/move", "buffer/sc_buf.c")],
  observe=["sanitizer redzones, model bytes after every operation, allocator stand-ins"])

p("R01", "The checksum is CRC-32C for every input, split and implementation",
  """The checksum of any byte string equals the CRC-32C (Castagnoli) of that string as defined bit by bit, for every length
  and memory alignment, whether computed in one call or by chaining calls over any split, and identically in the hardware and
  the table implementation. Only the given bytes are read, and it may be used from several threads after initialisation.""",
  ["inputs", "configurations", "schedules"], "every length, content, alignment, split and initial value; hardware and software paths",
  "the tests compare fixed lengths on aligned buffers; block-size thresholds, tails and chaining from a running value are separate code paths",
  ["crc32/sc_crc32.c", "crc32/sc_crc32.h"], [("slicing table implementation", "crc32/sc_crc32.c"), ("three-way interleaved hardware implementation with shift tables", "crc32/sc_crc32.c")],
  observe=["returned value against a bitwise reference"])

p("I01", "INI parsing reports each entry exactly as written, from file or from memory",
  """For every document of sections, key/value lines (with '=' or ':'), comments, continuation lines, blank lines and optional
  byte order mark, the parser reports exactly the entries of the document in order, each with its line number, section, key and
  value with surrounding blanks and trailing comments removed. Parsing the same content from memory and from a file gives the
  same report, over-long lines being shortened in the same way by both.""",
  ["inputs"], "every document, line ending, nesting of comments and separators, line length and source",
  "the tests parse about a dozen short documents; interactions of blanks, separators, comments, continuation and length limits are combinatorial",
  ["ini/sc_ini.c", "ini/sc_ini.h"], [("shared line parser", "ini/sc_ini.c"), ("file and string line readers", "ini/sc_ini.c")],
  observe=["callback arguments against an independent reference parser"])

p("I02", "Malformed INI input is reported at its line and never read out of bounds",
  """For arbitrary bytes, parsing terminates, stays inside the input and its own storage, and returns zero when every line is
  well formed and otherwise the number of the first malformed line, having reported every entry before it and none after. When the
  user's callback refuses an entry, parsing stops at once and returns that entry's line number; a file that cannot be read gives -1.""",
  ["inputs", "fault_sequences"], "arbitrary byte strings up to and beyond the line limit, callbacks stopping anywhere, unreadable files",
  "hostile inputs at length boundaries and stop/err interplay are not enumerated by a dozen documents",
  ["ini/sc_ini.c"], [("line length cap", "ini/sc_ini.c"), ("error line bookkeeping", "ini/sc_ini.c")],
  observe=["return value, callback sequence, sanitizers"])

p("O01", "Command line options are recognised by exact name and yield the text after '='",
  """An argument is recognised exactly when it is a dash and a known letter, or two dashes and a known long name, followed by
  the end of the argument, or '=' and a value (a short option also accepts a blank); the answer is that option's letter, and '?' for
  anything else. The value handed back is never missing for a recognised option: it is the text following '=' in place, or the
  empty text when there is none.""",
  ["inputs"], "every option table (with missing long names or missing letters, prefixes of one another, duplicate letters) and every argument string",
  "prefix/suffix confusions between names need specific tables and arguments; tests use eight fixed argument vectors",
  ["option/sc_option.c"], [("exact length and content comparison", "option/sc_option.c")],
  observe=["returned letter and value pointer"])

p("U01", "Length-prefixed strings behave as the text they hold under every operation",
  """Create, duplicate, set, format, append, trim, substring, replace and compare give exactly the text their description says
  for every input, with the recorded length always equal to the length of the text (also for text beyond any internal formatting
  buffer and, for byte strings, with embedded zero bytes), always terminated, and never reading or writing outside their storage.
  A refused operation (allocation failure, bad range, absent string) says so and leaves the original string intact, and every
  string is released exactly once. Setting, formatting and appending also work when the text given is (part of) the string itself.""",
  ["inputs", "histories", "fault_sequences"], "every text, pattern, replacement, character list, range and operation history, with allocations failing",
  "overlaps, growth/shrink ratios, boundary lengths and failure in the middle of a replacement are combinatorial; tests use a few literals",
  ["string/sc_str.c", "string/sc_str.h"], [("length header before the text", "string/sc_str.c"), ("build new, then swap", "string/sc_str.c")],
  observe=["content, length and allocation balance against a model"])

p("U02", "Tokenising yields every token between delimiters and restores the string",
  """Tokenising any string with any delimiter set, even changing the set between calls, yields the texts between consecutive
  delimiters from left to right, including empty ones, each terminated while it is current. When the loop ends, or when
  it is abandoned early and closed, the string has exactly its original bytes and length.""",
  ["inputs", "histories"], "every string, delimiter sets varying per call, stop points",
  "the in-place swap depends on which token is current when the loop stops; tests stop at fixed points of a few strings",
  ["string/sc_str.c"], [("delimiter swapped with the terminator", "string/sc_str.c")],
  observe=["tokens and restored bytes against a reference split"])

p("S01", "Size text and byte counts convert without overflow, error or loss",
  """Parsing a size such as '12', '3k', '7mb' or '2G' yields the exact number of bytes and reports an error for anything
  malformed, negative, with trailing text, or not representable, never a wrong number. Formatting a byte count gives a number and a unit
  whose product is within one hundredth of that unit of the count, the number shown being at least 1 and below 1024 (plain bytes below 1 KB are
  exact), never writes beyond the buffer, and reports when the text does not fit.""",
  ["inputs"], "every text and every 64-bit count",
  "overflow thresholds differ per unit and sign; tests check a table of round numbers",
  ["sc/sc.c", "sc/sc.h"], [("checked multiplication per unit", "sc/sc.c"), ("unit selection when formatting", "sc/sc.c")],
  observe=["return values against 128-bit arithmetic"])

p("S02", "Power-of-two, min/max and modular helpers are right for every 64-bit value",
  """The power-of-two test is true exactly for powers of two, and rounding up gives the least power of two not below the value
  for every value that has one (one for zero). Minimum and maximum select the right operand for all signed, unsigned and mixed-size
  arguments.""",
  ["inputs"], "every 64-bit value",
  "bit-smearing errors show at particular widths only; tests try a few values",
  ["sc/sc.c", "sc/sc.h"], [("bit smearing", "sc/sc.c")], observe=["return values"])

p("S03", "The random generator is deterministic per seed and independent of chunking",
  """Generators initialised with the same seed produce the same byte stream however the reads are split, and generators with different
  randomly drawn seeds, be it in a single bit, produce different streams in which every byte value occurs about equally often. Only the requested bytes are written, an empty or
  negative request or a missing destination writes and consumes nothing, and generators never influence each other.""",
  ["inputs", "histories"], "every 256-byte seed and every split of the requested output",
  "stream state bugs appear only at particular split points; the test only draws once",
  ["sc/sc.c", "sc/sc.h"], [("RC4 state", "sc/sc.c")], observe=["output bytes of several generators read in different chunks, byte statistics, redzones around the destination"])

p("Y01", "URI parsing splits exactly the parts the text contains and keeps the text",
  """For every URI built from a scheme, optional authority (user information, host, bracketed IPv6 address, port), path, query and
  fragment, parsing returns exactly those parts as separate texts together with the unchanged whole text, missing parts being
  empty. Text without a colon (so without a scheme), with an unterminated bracket, or with a port that is not a number from 0 to 65535 is refused, no
  input causes access outside it, and everything is released by one destroy.""",
  ["inputs", "fault_sequences"], "every text; every combination and content of the components; allocation failure",
  "delimiters may appear legally inside later components; tests use a couple of dozen fixed URIs",
  ["uri/sc_uri.c", "uri/sc_uri.h"], [("left to right component scan", "uri/sc_uri.c"), ("single allocation holding every part", "uri/sc_uri.c")],
  observe=["all components against a reference splitter"])

p("X01", "Timers fire exactly once, never early, and never after being cancelled",
  """Every timer that is added fires exactly once, with the data and kind it was added with and its due time, at a poll whose time is not before
  its due time, unless it is cancelled or everything is cleared first; after that it never fires, and cancelling one timer affects no other, whatever the number of timers,
  their intervals, the poll spacing, and callbacks that add or cancel timers. The suggested wait never exceeds one tick, a loop that polls exactly as
  suggested fires each timer at most one tick late, and a due timer is fired within sixteen polls spaced at least a tick apart, or at
  the first poll at least sixteen ticks after the one before.""",
  ["histories", "inputs", "fault_sequences"], "every history of add/cancel/poll/clear, all timeouts, poll spacings, and callbacks that modify the wheel",
  "tests use random timers but poll in fixed steps; growth during a callback, wrap of the wheel and cancel/refire interplay are histories",
  ["timer/sc_timer.c", "timer/sc_timer.h"], [("hashed timing wheel", "timer/sc_timer.c"), ("slot and sequence in the timer id", "timer/sc_timer.c"), ("wheel expansion", "timer/sc_timer.c")],
  observe=["callback log against a model"])

p("C01", "A condition hands every signalled value to a waiter, with no lost wake-up",
  """A wait returns only after a signal and returns the value of the most recent signal not yet consumed; a signal sent before the
  wait is not lost, each signal is consumed by at most one wait, and a waiter with a pending signal never blocks. Everything the signaller did
  before signalling is visible to the waiter it wakes, and once its wait has returned the waiter may terminate and free the condition.""",
  ["schedules", "histories", "fault_sequences"], "all interleavings of waiters and signallers, spurious wake-ups included",
  "the test runs three interleavings with sleeps; lost wake-ups and spurious wake-ups need particular schedules",
  ["condition/sc_cond.c"], [("predicate checked under the lock in a loop", "condition/sc_cond.c")],
  state=[("done/data", "pending signal and value", "struct sc_cond")],
  observe=["values received, data-race detector, injected spurious wake-ups and delays"])

p("M01", "A mutex admits one thread at a time and publishes its writes",
  """Between a lock and the matching unlock no other thread is inside the same mutex, and what a thread wrote inside is visible to
  the next one inside; a thread that waits gets in once the holder leaves, and separate mutexes do not block each other. Failure to create the mutex is reported,
  and a mutex can be destroyed and created again.""",
  ["schedules", "fault_sequences"], "all interleavings of any number of threads; failing system primitives",
  "the test never contends the lock",
  ["mutex/sc_mutex.c"], [("pthread mutex wrapper", "mutex/sc_mutex.c")],
  observe=["critical-section overlap monitor, data-race detector, probes that a held mutex blocks"])

p("T01", "A started thread runs once with its argument and join returns its result",
  """Starting a thread runs the given function exactly once with the given argument, concurrently with the starter and on a stack of the system's default size; join (or termination)
  returns only after that function has finished, delivers its return value, and makes its effects visible. Joining or terminating a thread
  that was never started, failed to start or was already joined does nothing and succeeds, the object can be started again, and a failed start is reported with a
  message and leaks nothing.""",
  ["schedules", "histories", "fault_sequences"], "all interleavings, start/join/term histories and failing thread creation",
  "join-before-finish, restart after failure and result delivery depend on timing and faults; the test prints from one thread",
  ["thread/sc_thread.c"], [("join clears the handle", "thread/sc_thread.c")],
  observe=["run counters, results, live thread count, data-race detector"])

p("G01", "Each log message reaches every enabled sink exactly once, if its level passes",
  """A message is delivered exactly once to each enabled sink (standard output, file, callback) when its level is at or above the
  threshold in force, and to none otherwise, with its text, level, local time (YYYY-MM-DD HH:MM:SS) and the thread's name intact (a long name may be cut). Changing the level, sinks
  or thread name takes effect for the messages that follow; an invalid level is refused and changes nothing, and a sink that fails
  reports an error without keeping the message from the others.""",
  ["inputs", "histories", "configurations", "fault_sequences"], "all level, sink and message histories, message lengths, failing sinks",
  "combinations of sinks, level changes, failures and message lengths are many; tests mostly check that nothing crashes",
  ["logger/sc_log.c", "logger/sc_log.h"], [("level check then per-sink write", "logger/sc_log.c")],
  observe=["captured stdout, log files and callback records"])

p("G02", "Concurrent logging loses, duplicates, tears and misattributes nothing",
  """When several threads log at once, while others change level, thread name or file, every message that passes the level arrives exactly once
  and whole in each sink, messages of one thread keep their order, and each carries the name of the thread that logged it. No data race occurs in either the atomic or the lock-based build, and the callback is never entered by two threads at once.""",
  ["schedules", "configurations"], "all interleavings of logging and reconfiguring threads; both synchronisation builds",
  "tearing and races depend on schedules; the threaded test only checks for crashes",
  ["logger/sc_log.c"], [("one lock around sinks", "logger/sc_log.c"), ("atomic or locked level", "logger/sc_log.c"), ("thread-local name", "logger/sc_log.c")],
  observe=["merged sink logs, data-race detector"])

p("G03", "Log rotation bounds both files and keeps the newest messages without gaps",
  """With file logging on, the current file never grows beyond the configured maximum by more than one message, counting everything written to it (also what it held when opened); when it is full it becomes the previous file and a fresh one is
  started. The previous file followed by the current file is always a gap-free tail, in order, of all messages logged, and re-opening an existing log appends to it. A failing rotation
  or open is reported, and logging to other sinks goes on.""",
  ["histories", "inputs", "fault_sequences"], "every message size mix, restart point and rotation count",
  "the rotation test writes one fixed message many times and inspects nothing",
  ["logger/sc_log.c"], [("size accounting and rename", "logger/sc_log.c")],
  observe=["sizes and sequence numbers in both files after every message"])

p("N01", "Signal-safe formatting matches the C library and never overruns its buffer",
  """For formats made of text, %%, %s, %d, %u, %ld, %lu, %lld, %llu and %p, signal-safe formatting gives the same text as the C library for
  every argument (a null pointer as 0x0), truncated at the buffer with a terminator and returning the number of characters written, never
  writing outside the buffer, for every size including zero; an unsupported conversion is refused with -1. It calls nothing unsafe in
  a signal handler. The logging variant writes exactly the formatted text, once, to the given descriptor, and nothing for an unsupported format.""",
  ["inputs"], "every supported format, argument and buffer size",
  "extreme values and truncation points multiply; the test formats a dozen values into a large buffer",
  ["signal/sc_signal.c"], [("own integer conversion", "signal/sc_signal.c"), ("bounded output cursor", "signal/sc_signal.c")],
  observe=["bytes against snprintf, redzones around the buffer"])

p("N02", "Termination signals request shutdown once; fatal signals leave a report and die",
  """After initialisation an interrupt or terminate signal sends one shutdown notice to the configured descriptor and the process
  continues undisturbed (its errno intact); when no descriptor is configured or the notice cannot be sent, or a second such signal arrives,
  at whatever point, the process exits. A fatal signal (segmentation, bus, arithmetic, illegal instruction, abort) writes a report naming it to
  the configured log descriptor (or standard error) and the process dies of that signal instead of continuing; a shutdown request is
  logged by name to the configured log descriptor (or standard output), any open descriptor number serving; hang-up and broken-pipe signals are ignored. A failing initialisation is reported.""",
  ["histories", "configurations", "crash_points"], "every signal sequence, descriptor configuration and arrival point",
  "tests raise each signal in a child and never inspect how the child ended",
  ["signal/sc_signal.c"], [("shutdown handler", "signal/sc_signal.c"), ("fatal handler", "signal/sc_signal.c")],
  observe=["exit status, shutdown pipe and log pipe of child processes"])

p("F01", "A mapping shows the file's own bytes at the requested window, both ways",
  """Mapping a file gives exactly the requested window of it: the bytes read through the mapping are the file's, writes through a
  writable shared mapping appear in the file at the same positions (after a sync request on any sub-range, that range is what is stored), and the
  file is extended, never shortened, to hold the window; a file made by the call is readable for everyone the mask allows, a lock or its release concerns
  the pages of the given range only. Failures (bad path, flags or window) are reported with a message, leave
  no descriptor or mapping behind, and unmapping releases everything and may be repeated.""",
  ["inputs", "histories", "fault_sequences"], "every file size, window, protection, access pattern and failing system call",
  "window/size/fault combinations are many; the test maps one small file",
  ["memory-map/sc_mmap.c"], [("open, extend, map", "memory-map/sc_mmap.c"), ("page alignment of sync ranges", "memory-map/sc_mmap.c")],
  observe=["file content via independent reads, recorded system calls, /proc/self/fd and maps"])

p("E01", "Performance counters report scaled counts of the measured section only",
  """Starting, pausing, resuming and ending measurement opens each counter once, enables and disables them in pairs, and reports for each counter the
  value the kernel counted, scaled up by enabled over running time when it was multiplexed, covering the kernel's work for the section and threads started in it,
  and for the clock the elapsed time between start and pause summed over all
  resumed sections. Every descriptor is closed at the end, and a counter the kernel refuses ends the measurement with a report rather than a wrong number.""",
  ["histories", "fault_sequences", "inputs"], "every start/pause/end history, counter values, multiplexing ratios and refused counters",
  "there are no tests, and the counters do not exist in most test environments",
  ["perf/sc_perf.h", "perf/sc_perf.c"], [("perf_event_open wrapper", "perf/sc_perf.c"), ("scaling on read", "perf/sc_perf.c")],
  observe=["recorded system calls and printed report with the kernel replaced by a stand-in"])

p("K01", "A connected socket or pipe delivers exactly the bytes sent, in order",
  """Bytes sent on a connection (IPv4, IPv6 or local socket) or a pipe arrive at the other side exactly once, in order and unchanged, however sends and receives
  are split and whatever partial transfers, interruptions or full buffers occur; a send or receive reports exactly the number of bytes it moved, would-block as a retryable error
  in non-blocking mode, and orderly close as end of stream only after all bytes were delivered. An accepted connection talks to the client that connected, in both directions at once. Flags given to a send or receive take effect.""",
  ["inputs", "schedules", "fault_sequences"], "every stream content, split, mode and partial-transfer pattern",
  "the tests exchange a few short fixed messages, never fill a buffer and never interrupt a call",
  ["socket/sc_sock.c"], [("send/recv wrappers", "socket/sc_sock.c"), ("listen/accept/connect", "socket/sc_sock.c")],
  observe=["per-direction stream digests and counts with injected short transfers and interruptions"])

p("K02", "A poll reports exactly the registered interests of ready descriptors",
  """A poll returns a descriptor only for events it is currently registered for (or a peer close or error), only when it is ready, at most once per
  poll, with the data given when its registration last changed (adding interest already held changes nothing); a registered descriptor that stays ready is reported, and nothing is reported after its events are removed. Adding and removing read and write
  interest combine without disturbing each other, any number of descriptors can be registered, a descriptor object opened again can be registered again, and waiting ends within its timeout even when signals interrupt it.""",
  ["histories", "schedules", "inputs"], "every history of add/remove/ready changes over any number of descriptors",
  "registration histories and table growth are unbounded; the tests follow one or two scripts",
  ["socket/sc_sock.c"], [("registered op mask per descriptor", "socket/sc_sock.c"), ("epoll interest updates", "socket/sc_sock.c"), ("growing result table", "socket/sc_sock.c")],
  observe=["poll results against model readiness"])

p("K03", "A failing socket or pipe operation reports an error and leaks no descriptor",
  """When any system call fails during creating, listening, connecting, accepting, finishing a connection, pipe or poll setup, the operation returns failure with a non-empty message describing the error (unless it is retryable), whatever other threads' objects run into meanwhile, every
  descriptor it opened is closed once the object is terminated, and no descriptor is closed twice or closed that it does not own. The object can be terminated repeatedly and used again afterwards with success; a failed listen or connect can be tried again at once.""",
  ["fault_sequences", "histories", "configurations"], "every operation, every failing call in it and every error code; all address families",
  "the tests inject one fixed failure at a few calls and do not count descriptors",
  ["socket/sc_sock.c"], [("error paths closing the descriptor", "socket/sc_sock.c")],
  observe=["descriptor table before and after, double-close monitor, error text"])

p("K04", "Socket addresses, modes and timeouts are what was asked for",
  """A socket listens on and connects to exactly the address and port asked for, for every family, refuses an address it cannot represent, prefers its own family when a name has several, comes from the source address or port given, and describes its local and remote endpoints truthfully within a given space of at least one byte.
  An IPv6 listener takes only IPv6, and an address can be listened on again at once after its listener ended. A socket is non-blocking exactly when asked to be (every family), a receive or send timeout of n milliseconds gives up after about n milliseconds, and service-manager notifications reach
  the configured notification socket with exactly the given text, and fail with an error when none is configured, it is malformed or its path is too long.""",
  ["inputs", "configurations"], "every address form and length, mode, timeout and buffer size",
  "tests use a couple of fixed addresses and whole-second behaviour",
  ["socket/sc_sock.c"], [("address set-up per family", "socket/sc_sock.c"), ("timeout options", "socket/sc_sock.c"), ("notify helpers", "socket/sc_sock.c")],
  observe=["getsockname/getsockopt from outside, elapsed times, datagrams received"])

p("W01", "Clock helpers convert exactly and sleep at least as long as asked",
  """The wall and monotonic clock helpers return the operating system's clock value converted exactly to the stated unit, for every clock value, without overflow or rounding beyond truncation, and the monotonic ones never
  go backwards. Sleeping returns success only after at least the requested time has passed, even when signals interrupt it any number of times.""",
  ["inputs", "fault_sequences", "schedules"], "every clock reading and sleep length; any number of interruptions",
  "the tests sleep a second and print; conversions at extreme values and interruptions are not exercised",
  ["time/sc_time.c"], [("unit conversions", "time/sc_time.c"), ("sleep restarted on interruption", "time/sc_time.c")],
  observe=["results with clock and sleep calls replaced by recording stand-ins"])

p("Z01", "Running out of memory is reported, harmless and leaks nothing, in every module",
  """Whichever allocation fails during any operation of any component, the operation reports failure through its documented
  channel, the object keeps the contents it had and stays usable, the same operation succeeds once memory is available, and terminating everything releases every block exactly once. Replacement allocation functions configured by the embedder are used for every allocation and release of the component.""",
  ["fault_sequences", "histories", "configurations"], "every allocation point of every operation history, single and persistent failures",
  "tests fail a few chosen allocations and rarely use the object afterwards",
  ["array/sc_array.h", "queue/sc_queue.h", "heap/sc_heap.c", "map/sc_map.c", "buffer/sc_buf.c", "string/sc_str.c", "timer/sc_timer.c", "uri/sc_uri.c", "socket/sc_sock.c"],
  [("allocation result checks", "every module")], observe=["allocator stand-in that counts, fails the n-th request and tracks live blocks"])

p("Z02", "Independent objects used from different threads never disturb each other",
  """Threads that each use their own containers, buffers, strings, parsers, timers, generators and maps obtain exactly the results they would obtain alone, whatever the interleaving, with no data race between them.""",
  ["schedules"], "all interleavings of threads working on separate objects of every kind",
  "tests are single-threaded; hidden shared state (static scratch space, shared empty objects) shows only under concurrency",
  ["map/sc_map.c", "crc32/sc_crc32.c", "ini/sc_ini.c", "uri/sc_uri.c", "string/sc_str.c", "sc/sc.c", "timer/sc_timer.c", "buffer/sc_buf.c", "logger/sc_log.c"],
  [("absence of mutable shared state", "every module")], observe=["data-race detector and per-thread models"])

p("Z03", "Nothing the process shares is changed by using the library",
  """Whatever work a program does with the library's objects (other than installing its signal handling), and whether it succeeds or fails, everything else
  in the process finds the process-wide state as it was: environment, working directory, locale, umask, signal dispositions and masks, resource limits, random sequences,
  static results of the C library in use by others, standard output, descriptors, threads, children and files, apart from what the objects still alive own.""",
  ["histories", "environments"], "every operation of every component under any settings the application made",
  "tests look at results only, never at what else the call left changed",
  ["logger/sc_log.c", "string/sc_str.c", "socket/sc_sock.c", "memory-map/sc_mmap.c", "option/sc_option.c", "sc/sc.c", "ini/sc_ini.c"],
  [("no process-wide side effects", "every module")], observe=["snapshots of process-wide state around the calls"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
