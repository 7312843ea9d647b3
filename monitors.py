"""Which monitors decide which property, and how they are built."""


def V(name, harness, repo, cases, san="asan", **kw):
    d = {"name": name, "harness": [harness] if isinstance(harness, str) else harness, "repo": repo, "cases": cases, "san": san}
    d.update(kw)
    return d


PROPS = {}
NOT_APPLICABLE = {}

PROPS["A01"] = {
    "level": "exploration",
    "rule": "A case is a random operation history on one array of one of 14 element types (plain and limited builds), with injected "
            "allocation refusals; distinct: different operation sequence (kind, refusals, final size). Giant cases pass 2^24 and 2^32 elements or bytes.",
    "must_see": ["add.refused", "grew", "deleted", "refused-then-used", "past-65536", "past-4-gib", "past-2-to-24", "past-2-to-32"],
    "variants": [
        V("asan", "h_array.c", [], (6000, 120000), inc=["array"]),
        V("limited", "h_array.c", [], (2000, 30000), inc=["array"], defs=["LIMITED"], salt=1),
        V("giant", "h_giant.c", [], (3, 9), san="none", opt="-O2", inc=["array"], defs=["ARRAY"], shards=3, case_limit=120, salt=2),
    ],
}

PROPS["Q01"] = {
    "level": "exploration",
    "rule": "A case is a random history of operations at both ends of one queue of one of 13 element types (plain and limited builds), with "
            "injected allocation refusals; distinct: different operation sequence (kind, refusals, final size). Giant cases pass 2^24 and 2^32 elements or bytes.",
    "must_see": ["add.refused", "grew", "used-after-refusal", "rotated", "add.own", "init.refused", "past-65536", "past-4-gib", "past-2-to-24", "past-2-to-32"],
    "variants": [
        V("asan", "h_queue.c", [], (6000, 120000), inc=["queue"]),
        V("limited", "h_queue.c", [], (2000, 30000), inc=["queue"], defs=["LIMITED"], salt=1),
        V("giant", "h_giant.c", [], (3, 9), san="none", opt="-O2", inc=["queue"], defs=["QUEUE"], shards=3, case_limit=120, salt=2),
    ],
}

PROPS["L01"] = {
    "level": "exploration",
    "rule": "A case is a random history over 1-4 lists and up to 3000 elements, all lists walked both ways after every operation; distinct: "
            "different sequence of (operation, list, element).",
    "must_see": ["moved-member", "reinserted-next-to-member", "deleted", "safe-loop-removal", "past-65536"],
    "variants": [V("asan", "h_list.c", ["linked-list/sc_list.c"], (100000, 3000000))],
}

PROPS["H01"] = {
    "level": "exploration",
    "rule": "A case is a random add/pop/peek/clear/term history on one heap with one of seven key styles (duplicates, extremes, sorted, random) "
            "and injected allocation refusals; distinct: different operation sequence and capacity.",
    "must_see": ["duplicate-keys", "grew", "used-after-refusal", "drained", "init.refused", "init.huge", "past-65536", "past-4-gib", "past-2-to-24"],
    "variants": [
        V("asan", "h_heap.c", ["heap/sc_heap.c"], (60000, 2000000)),
        V("limited", "h_heap.c", ["heap/sc_heap.c"], (20000, 300000), defs=["LIMITED"], repo_defs=["SC_HEAP_MAX=100"], salt=1),
        V("giant", "h_giant.c", ["heap/sc_heap.c"], (4, 16), san="none", opt="-O2", defs=["HEAP"], shards=1, case_limit=120, salt=2),
    ],
}

_map_types = ["type." + t for t in "int intv ints ll llv lls 32 64 64v 64s str sv s64 sll".split()]
PROPS["P01"] = {
    "level": "exploration",
    "rule": "A case is a random put/get/del history over a pool of distinct keys in one of eight key styles (dense, equal low bits, extremes, "
            "folding to equal hashes, negative, wrapping slots, strings with equal hashes, prefixes...) on one of the 14 map types, any capacity and load "
            "factor, with injected allocation refusals; distinct: different operation/key sequence, capacity and load factor.",
    "must_see": _map_types + ["past-65536", "override+delete+miss", "zero-key", "put.refused"] + ["keys.%d" % i for i in range(8)] + ["roomy", "past-4-gib", "past-2-to-24"],
    "variants": [V("asan", "h_map.c", ["map/sc_map.c"], (16000, 300000)),
                 V("giant", "h_giant.c", ["map/sc_map.c"], (4, 16), san="none", opt="-O2", defs=["MAP"], shards=2, case_limit=120, salt=1)],
}
PROPS["P02"] = {
    "level": "exploration",
    "rule": "As P01, with all three iterations (complete, early exit, nested) after many operations, clears, terminations, refused and impossible "
            "initialisations; distinct: different operation/key sequence, capacity and load factor.",
    "must_see": _map_types + ["past-65536", "zero-key", "cleared", "init.huge", "init.refused", "roomy", "past-4-gib", "past-2-to-24"],
    "variants": [V("asan", "h_map.c", ["map/sc_map.c"], (16000, 300000), defs=["ITER"], salt=1),
                 V("giant", "h_giant.c", ["map/sc_map.c"], (4, 16), san="none", opt="-O2", defs=["MAP"], shards=2, case_limit=120, salt=2)],
}

_buf = ["buffer/sc_buf.c"]
PROPS["B01"] = {
    "level": "exploration",
    "rule": "A case is a random interleaving of typed writes, reads, peeks, positional writes, compactions, shrinks and moves between two "
            "buffers (growable or wrapped), every byte compared with an independent encoder; distinct: different sequence of kinds and sizes.",
    "must_see": ["8", "16", "32", "64", "bool", "double", "str", "null", "str_len", "fmt", "blob", "raw", "patched", "moved", "compacted", "shrunk", "grew",
                 "fixed-storage", "growable", "past-65536", "past-4-gib"],
    "variants": [V("asan", "h_buf.c", _buf, (50000, 1500000), defs=["MODE=1"]),
                 V("giant", "h_buf.c", _buf, (64, 2000), san="none", defs=["MODE=1", "GIANT"], salt=1)],
}
PROPS["B02"] = {
    "level": "exploration",
    "rule": "A case is a block of hostile bytes (exactly sized heap block) and up to 40 reads with hostile positions and lengths; distinct: different "
            "sequence of operations and verdicts and size.",
    "must_see": ["rejected", "rejected-after-clear", "hostile-string", "valid-data-smaller-than-storage", "past-65536", "past-4-gib"],
    "variants": [V("asan", "h_buf.c", _buf, (800000, 20000000), defs=["MODE=2"])],
}
PROPS["B03"] = {
    "level": "exploration",
    "rule": "A case is a random history of writes, reserves, shrinks, moves, position changes and limit changes over two buffers (or text appends to "
            "one), with refused allocations, exact fits and huge lengths; distinct: different sequence of operations and verdicts.",
    "must_see": ["refused-write", "grew", "refused-allocation", "exact-fit", "huge-length", "moved", "shrunk", "text.mixed",
                 "past-65536", "past-4-gib"],
    "variants": [V("asan", "h_buf.c", _buf, (300000, 8000000), defs=["MODE=3"]),
                 V("giant", "h_buf.c", _buf, (64, 2000), san="none", defs=["MODE=1", "GIANT"], salt=1)],
}

_crc = ["crc32/sc_crc32.c"]
PROPS["R01"] = {
    "level": "exploration",
    "rule": "A case is one byte string (length biased to block boundaries, any alignment, any running value) summed in one call and in three random "
            "splits, by the hardware build, the table build, and by four threads; distinct: different length, alignment and content style.",
    "must_see": ["chained", "long-blocks", "short-blocks", "words", "tail-only", "unaligned", "aligned", "threads", "past-65536", "past-4-gib"],
    "variants": [
        V("hw", "h_crc.c", _crc, (30000, 600000), repo_flags=["-msse4.2"], repo_defs=["HAVE_CRC32C"]),
        V("sw", "h_crc.c", _crc, (30000, 600000), salt=1),
        V("hw-tsan", "h_crc.c", _crc, (600, 10000), san="tsan", defs=["THREADS"], repo_flags=["-msse4.2"], repo_defs=["HAVE_CRC32C"], salt=2),
        V("sw-tsan", "h_crc.c", _crc, (600, 10000), san="tsan", defs=["THREADS"], salt=3),
        V("hw-giant", "h_crc.c", _crc, (3, 60), san="none", opt="-O2", defs=["GIANT"], repo_flags=["-msse4.2"], repo_defs=["HAVE_CRC32C"], salt=4),
        V("sw-giant", "h_crc.c", _crc, (3, 60), san="none", opt="-O2", defs=["GIANT"], salt=5),
    ],
}

_ini = ["ini/sc_ini.c"]
PROPS["I01"] = {
    "level": "exploration",
    "rule": "A case is a generated document (sections, entries, comments, continuations, blanks, byte order mark, CR/LF, over-long lines) whose entries are "
            "known by construction, parsed from memory and from a file or a short-reading stream; distinct: different document.",
    "must_see": ["parsed-inside-a-callback", "control-character", "entry", "empty-value", "empty-key", "continuation", "section", "comment", "trailing-comment", "bom", "mark-inside", "long-line", "past-65536", "past-2-to-24", "past-2-to-32", "vast-line"],
    "variants": [V("asan", "h_ini.c", _ini, (40000, 800000), defs=["MODE=1"], wraps=["fopen"]),
                 V("giant", "h_giant.c", _ini, (6, 24), san="none", opt="-O2", defs=["INI"], shards=1, case_limit=120, salt=1)],
}
PROPS["I02"] = {
    "level": "exploration",
    "rule": "A case is an arbitrary byte string (structured fragments, separators, zero bytes, lines at the length limit) parsed from exactly sized "
            "memory and from files, with callbacks that stop anywhere and read errors anywhere, against a reference parser; distinct: different document.",
    "must_see": ["malformed", "well-formed", "entries-before-error", "callback-stopped", "line-at-limit", "zero-bytes", "read-error", "missing-file", "malformed-late", "refused-late", "vast-line"],
    "variants": [
        V("asan", "h_ini.c", _ini, (60000, 1200000), defs=["MODE=2"], wraps=["fopen"]),
        V("msan", "h_ini.c", _ini, (15000, 300000), san="msan", defs=["MODE=2"], wraps=["fopen"], salt=1),
        V("giant", "h_giant.c", _ini, (6, 24), san="none", opt="-O2", defs=["INI", "REFUSALS=1"], shards=1, case_limit=120, salt=2),
    ],
}

_str = ["string/sc_str.c"]
PROPS["U01"] = {
    "level": "exploration",
    "rule": "A case is a random history of create/dup/set/format/append/trim/substring/replace/compare over four strings in one of five alphabets, with "
            "refused allocations; all strings, lengths and the allocation balance checked after each; distinct: different sequence of operations and lengths.",
    "must_see": ["refused", "append-of-itself", "long-format", "zero-bytes", "replace-grows", "replace-shrinks", "replace-in-place", "several-replaced", "replace-empty",
                 "bad-range", "set-from-itself", "past-65536", "replace-in-bytes", "past-2-to-24", "past-2-to-31", "up-to-2-to-32"],
    "variants": [
        V("asan", "h_str.c", _str, (100000, 2500000)),
        V("limited", "h_str.c", _str, (30000, 500000), defs=["MAXLEN=300"], repo_defs=["SC_STR_MAX=300"], salt=1),
        V("giant", "h_str.c", _str, (4, 12), san="none", opt="-O2", defs=["GIANT"], salt=2),
    ],
}
PROPS["U02"] = {
    "level": "exploration",
    "rule": "A case is one string over a tiny alphabet tokenised up to four times with delimiter sets that may change per call, completed or abandoned "
            "anywhere; distinct: different string and token boundaries.",
    "must_see": ["abandoned", "delimiters-changed", "empty-token", "empty-string", "past-65536", "many-tokens", "past-2-to-24", "past-2-to-31", "up-to-2-to-32"],
    "variants": [V("asan", "h_str.c", _str, (300000, 6000000), defs=["TOKEN"]),
                 V("giant", "h_giant.c", _str, (3, 12), san="none", opt="-O2", defs=["TOKEN"], shards=1, case_limit=120, salt=1)],
}

PROPS["O01"] = {
    "level": "exploration",
    "rule": "A case is an option table (near-miss names, missing names, duplicates) with up to ten exactly sized arguments; distinct: different letters and "
            "arguments.",
    "must_see": ["long", "short", "value", "value-with-equals", "empty-value", "no-value", "blank-after-letter", "unknown-long", "unknown-short", "no-dash", "long-name", "no-letter", "past-255-arguments", "past-65536-arguments", "past-255-options"],
    "variants": [V("asan", "h_option.c", ["option/sc_option.c"], (150000, 4000000))],
}
PROPS["Y01"] = {
    "level": "exploration",
    "rule": "A case is one URI built from known components (delimiters allowed in later ones, bad ports) or one arbitrary text against a reference splitter, "
            "with refused allocations; distinct: different text.",
    "must_see": ["built", "arbitrary", "refused", "refused-allocation", "unspecified-split", "scheme", "userinfo", "host", "port", "path", "query", "fragment", "past-65536", "past-2-to-24", "past-2-to-30", "past-2-to-31", "past-2-to-32"],
    "variants": [V("asan", "h_uri.c", ["uri/sc_uri.c"], (200000, 5000000)),
                 V("giant", "h_giant.c", ["uri/sc_uri.c"], (8, 48), san="none", opt="-O2", defs=["URI"], shards=1, case_limit=120, salt=1)],
}

_sc = ["sc/sc.c"]
PROPS["S01"] = {
    "level": "exploration",
    "rule": "A case parses 20 size texts (edge values times every unit, around the representable limit, malformed variants) and formats 20 counts (edge "
            "values, around unit changes) into exactly sized buffers of every length; distinct: different text or count.",
    "must_see": ["plain", "with-unit", "near-limit", "negative", "refused-number", "refused-text", "does-not-fit", "fits-exactly", "B", "KB", "MB", "GB", "TB", "PB", "EB", "long-suffix",
                 "long-number", "past-2-to-31", "past-2-to-32"],
    "variants": [V("asan", "h_sc.c", _sc, (30000, 1000000), defs=["MODE=1"]),
                 V("giant", "h_sc.c", _sc, (2, 14), san="none", opt="-O2", defs=["MODE=1", "GIANT"], shards=1, case_limit=120, salt=1)],
}
PROPS["S02"] = {
    "level": "exploration",
    "rule": "A case tries 60 boundary-biased pairs of 64-bit values against bit by bit references; distinct: different pair.",
    "must_see": ["exact", "zero", "to-top-bit", "rounded-up", "has-none"],
    "variants": [V("asan", "h_sc.c", _sc, (20000, 800000), defs=["MODE=2"])],
}
PROPS["S03"] = {
    "level": "exploration",
    "rule": "A case reads up to four generators (zero, ordered, constant or random seeds, some equal) once in one read and once in interleaved random "
            "pieces, and gathers byte statistics for random seeds; distinct: different seed, count and output.",
    "must_see": ["empty-request", "equal-seeds", "different-seeds", "random-seed", "long-run-statistics", "past-65536", "single-bit-seeds", "past-2-to-24", "up-to-2-to-31"],
    "variants": [V("asan", "h_sc.c", _sc, (4000, 100000), defs=["MODE=3"]),
                 V("giant", "h_giant.c", _sc, (2, 8), san="none", opt="-O2", defs=["RAND"], shards=2, case_limit=120, salt=1)],
}

PROPS["X01"] = {
    "level": "exploration",
    "rule": "A case is a history of add/cancel/clear/term/poll on one wheel in virtual time (polled as suggested, at ticks, or at any spacing), with callbacks "
            "that add, cancel and clear, and refused allocations; distinct: different operations, times and firing order.",
    "must_see": ["add.refused", "beyond-range", "cancelled", "cancelled-in-callback", "cleared", "cleared-in-callback", "suggested-loop-fire", "added-in-callback",
                 "poll-fires-several", "reused-after-term", "drained", "grown-wheel", "limit-reached", "past-65536", "far-poll-fires", "vast-cleared"],
    "variants": [
        V("asan", "h_timer.c", ["timer/sc_timer.c"], (8000, 300000)),
        V("limited", "h_timer.c", ["timer/sc_timer.c"], (2000, 50000), repo_defs=["SC_TIMER_MAX=40"], defs=["MAXED"], salt=1),
        V("vast", "h_timer.c", ["timer/sc_timer.c"], (8, 64), san="none", opt="-O2", defs=["VAST"], salt=2),
    ],
}

_tw = ["clock_gettime", "gettimeofday", "nanosleep", "clock_nanosleep", "usleep", "poll"]
PROPS["W01"] = {
    "level": "exploration",
    "rule": "A case converts eight pairs of edge-biased clock readings and sleeps six times on virtual time with any number of interruptions (second monitor: "
            "real clocks, real sleeps, real interval-timer signals); distinct: different reading, or sleep length and interruptions.",
    "must_see": ["interrupted", "slept", "slept-interrupted", "sleep-refused", "real-sleep", "really-interrupted"],
    "variants": [
        V("asan", "h_time.c", ["time/sc_time.c"], (60000, 1500000), wraps=_tw),
        V("real", "h_time.c", ["time/sc_time.c"], (160, 4000), defs=["REALTIME"], wraps=_tw, salt=1),
    ],
}

_mw = ["clock_gettime", "gettimeofday", "time", "nanosleep", "usleep", "pthread_mutexattr_init", "pthread_mutexattr_destroy", "pthread_mutex_init", "pthread_mutex_destroy"]
_cw = _mw + ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_init", "pthread_cond_destroy"]
_cond = ["condition/sc_cond.c"]
PROPS["C01"] = {
    "level": "exploration",
    "rule": "A case runs 2-7 threads that signal and wait on one condition (or hand over through two) with random delays around every primitive and "
            "spurious wake-ups, and searches an order of a one-place slot explaining the recorded history; distinct: different history (values and overlap).",
    "must_see": ["several-waiters", "spurious-wakeups", "blocked-waits", "history-explained", "hand-over", "init.refused", "term.refused", "flushed",
                 "waited-over-a-second", "waited-past-any-deadline", "created-at-once",
                 "terminated-by-the-waiter"],
    "variants": [
        V("asan", "h_cond.c", _cond, (12000, 400000), wraps=_cw),
        V("tsan", "h_cond.c", _cond, (4000, 120000), san="tsan", wraps=_cw, salt=1),
    ],
}
PROPS["M01"] = {
    "level": "exploration",
    "rule": "A case runs 2-8 threads over 1-3 mutexes (nested, with random delays around every primitive) counting plainly inside, or probes that a held "
            "mutex keeps a second thread out; distinct: different thread counts, sections and contention.",
    "must_see": ["contended", "held-mutex-blocks", "created-again", "init.refused",
                 "held-over-a-second", "held-past-any-deadline", "created-at-once"],
    "variants": [
        V("asan", "h_mutex.c", ["mutex/sc_mutex.c"], (6000, 200000), wraps=_mw + ["pthread_mutex_lock", "pthread_mutex_unlock"]),
        V("tsan", "h_mutex.c", ["mutex/sc_mutex.c"], (2500, 60000), san="tsan", wraps=_mw + ["pthread_mutex_lock", "pthread_mutex_unlock"], salt=1),
    ],
}
_thw = _mw + ["pthread_attr_init", "pthread_attr_destroy", "pthread_create", "pthread_join"]
PROPS["T01"] = {
    "level": "exploration",
    "rule": "A case is a history of starts (some failing), joins and terminations over up to six thread objects, whose functions record what they saw; "
            "distinct: different sequence of operations and objects.",
    "must_see": ["join-not-started", "join.failed", "result-delivered", "start.refused", "join-after-failed-start", "concurrent-with-starter",
                 "several-running", "joined-after-over-a-second", "joined-past-any-deadline", "created-at-once", "deep-stack"],
    "variants": [
        V("asan", "h_thread.c", ["thread/sc_thread.c"], (10000, 300000), wraps=_thw),
        V("tsan", "h_thread.c", ["thread/sc_thread.c"], (4000, 100000), san="tsan", wraps=_thw, salt=1),
    ],
}

_lw = ["fopen", "rename", "fclose", "localtime_r", "time", "clock_gettime", "gettimeofday", "pthread_mutex_lock", "pthread_mutex_unlock"]
_log = ["logger/sc_log.c"]
PROPS["G01"] = {
    "level": "exploration",
    "rule": "A case is a history of messages (arbitrary text, formats and lengths), level, sink, file, callback and name changes, restarts and failing sinks "
            "(full streams and files, failing opens, clocks, callbacks), all sinks read back after every message; distinct: different history.",
    "must_see": ["to-standard-streams", "empty-message", "to-file", "to-callback", "below-level", "no-sink", "long-text", "level-refused", "path-refused", "open-refused", "file-off",
                 "failing-stream", "failing-callback", "others-after-failure", "long-name", "restarted", "time-zone", "far-future",
                 "first-write-fails", "position-fails"],
    "variants": [
        V("asan", "h_log.c", _log, (20000, 600000), defs=["MODE=1"], wraps=_lw, alloc=False),
        V("atomic", "h_log.c", _log, (5000, 150000), defs=["MODE=1", "SC_LOG_PRINT_FILE_NAME"], std="-std=c11", wraps=_lw, alloc=False, salt=1),
    ],
}
PROPS["G02"] = {
    "level": "exploration",
    "rule": "A case runs 2-6 logging threads against up to two threads that change level, file, callback, standard output and names, with random delays around "
            "the lock and in the callback; all sinks are merged afterwards; distinct: different delivery order of threads.",
    "must_see": ["interleaved", "level-changes", "file-changes", "callback-changes", "stdout-changes", "name-changes", "rotated"],
    "variants": [
        V("lock", "h_log.c", _log, (800, 20000), defs=["MODE=2"], wraps=_lw, alloc=False),
        V("lock-tsan", "h_log.c", _log, (600, 15000), san="tsan", defs=["MODE=2"], wraps=_lw, alloc=False, salt=1),
        V("atomic-tsan", "h_log.c", _log, (600, 15000), san="tsan", defs=["MODE=2"], std="-std=c11", wraps=_lw, alloc=False, salt=2),
    ],
}
PROPS["G03"] = {
    "level": "exploration",
    "rule": "A case logs 2-10 MB of numbered messages (tiny, medium or huge) through several rotations with re-opens, restarts, earlier content and failing "
            "renames, opens and closes, both files parsed after every message; distinct: different count, rotations and sizes.",
    "must_see": ["rotated", "rotated-again", "re-opened", "restarted", "existing-content", "failed-rename", "failed-open-at-rotation", "open-refused",
                 "small-messages", "huge-messages", "past-32-bits", "long-path", "elsewhere-before", "larger-than-the-limit"],
    "variants": [V("asan", "h_log.c", _log, (300, 12000), defs=["MODE=3"], wraps=_lw, alloc=False)],
}

_sig = ["signal/sc_signal.c"]
PROPS["N01"] = {
    "level": "exploration",
    "rule": "A case formats one random format (all supported conversions, edge values, any bytes, unsupported or cut-short conversions) into a buffer of a chosen "
            "size (zero, exact, too small) ending at a poisoned byte, or logs it to a pipe; distinct: different format and size.",
    "must_see": ["%%", "%s", "d", "u", "ld", "lu", "lld", "llu", "p", "smallest", "null-string", "unsupported", "cut-short", "size-zero", "truncated",
                 "fits-exactly", "log", "log.unsupported", "past-65536"],
    "variants": [V("asan", "h_signal.c", _sig, (400000, 12000000), defs=["MODE=1"],
                   wraps=["vsnprintf", "snprintf", "vsprintf", "vfprintf", "vdprintf", "fwrite", "write"])],
}
PROPS["N02"] = {
    "level": "exploration",
    "rule": "A case forks a process that receives up to six signals (raised, sent, in a thread, real faults) under one notice and log configuration; a second "
            "monitor delivers a second signal before any chosen instruction of the shutdown handler; distinct: different signals, configuration or instruction.",
    "must_see": ["continued", "log-unusable", "second-signal", "no-handler", "notice-failed", "notice", "SIGSEGV", "SIGABRT", "SIGBUS", "SIGFPE", "SIGILL", "real fault",
                 "raised in a thread", "sent by another process", "init-refused", "notice-to-descriptor-0", "log-to-descriptor-0", "other-signal-inside", "same-signal-inside", "fault-inside", "request-logged",
                 "fault-inside-report", "request-inside-report", "ignored-inside-report"],
    "variants": [
        V("asan", "h_signal.c", _sig, (2500, 60000), defs=["MODE=2"], wraps=["signal", "sigaction", "write"], alloc=False),
        V("plain", "h_signal.c", _sig, (2500, 60000), san="none", repo_flags=["-UHAVE_BACKTRACE"], defs=["MODE=2"], wraps=["signal", "sigaction", "write"], alloc=False, salt=1),
        V("step", "h_signal.c", _sig, (12000, 200000), san="none", opt="-O2", defs=["MODE=3"], wraps=["signal", "sigaction"], alloc=False, salt=2),
        V("fatal-step", "h_signal.c", _sig, (8000, 100000), san="none", opt="-O2", repo_flags=["-UHAVE_BACKTRACE"], defs=["MODE=3", "FATAL"],
          wraps=["signal", "sigaction"], alloc=False, salt=3),
    ],
}
PROPS["F01"] = {
    "level": "exploration",
    "rule": "A case is a history of map, write through, write the file, sync, lock and unmap over two mappings of one file of any size, with failing system "
            "calls and impossible arguments; file and windows compared with a model after each; distinct: different operations, windows and size.",
    "must_see": ["impossible", "open", "extension", "map", "extension-interrupted", "extended", "private", "writable", "read-only", "offset",
                 "rest-of-file", "failing-unmap", "term-again", "msync", "mlock", "munlock", "unaligned-range", "failing-sync-or-lock", "written-through",
                 "file-written", "two-mappings", "past-4-gib", "symbolic-link", "created-file"],
    "variants": [V("asan", "h_mmap.c", ["memory-map/sc_mmap.c"], (16000, 500000), alloc=False,
                   wraps=["open", "open64", "openat", "openat64", "close", "stat", "stat64", "fstat", "fstat64", "posix_fallocate", "posix_fallocate64", "ftruncate", "ftruncate64", "mmap",
                          "mmap64", "munmap", "msync", "mlock", "munlock", "sysconf"])],
}
PROPS["E01"] = {
    "level": "exploration",
    "rule": "A case is one to three measurements with random starts, pauses and resumptions over virtual work, counters multiplexed at random, read back from the "
            "printed report, or one failing system call; distinct: different operations and counts.",
    "must_see": ["multiplexed", "never-counted", "resumed", "with-threads", "with-system-calls", "days", "pause-again", "start-again", "measured-again", "open", "enable/disable", "read", "short read", "clock"],
    "assumptions": ["perf_event_open, its reads and the clock are replaced by a stand-in with the documented semantics; no real counter is opened."],
    "variants": [V("asan", "h_perf.c", ["perf/sc_perf.c"], (20000, 600000), alloc=False, wraps=["syscall", "read", "close", "prctl", "clock_gettime"])],
}

_kw = ["socket", "bind", "listen", "accept", "accept4", "connect", "send", "recv", "sendto", "recvfrom", "read", "write", "sendmsg", "recvmsg", "readv", "writev", "ioctl", "pipe", "pipe2", "close", "fcntl", "fcntl64",
       "setsockopt", "getsockopt", "getsockname", "getpeername", "getaddrinfo", "freeaddrinfo", "epoll_create1", "epoll_create", "epoll_ctl", "epoll_wait", "epoll_pwait"]
_sock = ["socket/sc_sock.c"]
PROPS["K01"] = {
    "level": "exploration",
    "rule": "A case moves position-keyed bytes both ways over 1-4 connections (all families) or a pipe, with random splits, short transfers, interruptions, full "
            "buffers, peeks and a close with bytes on the way; a second monitor uses four blocking threads and real signals; distinct: different transfer sizes.",
    "must_see": ["ipv4", "local", "send.would-block", "send.full", "send.partial", "send.interrupted", "recv.would-block", "recv.empty", "recv.interrupted",
                 "end-of-stream", "several-clients", "closed-with-bytes-on-the-way", "accept.would-block", "finish-connect", "peek", "pipe", "pipe.full",
                 "pipe.partial", "pipe.interrupted", "blocking.both-directions", "blocking.pipe", "blocking.interrupted",
                 "flag.dont-wait", "flag.dont-wait-send", "flag.wait-all", "flag.no-signal"],
    "variants": [
        V("asan", "h_sock.c", _sock, (3000, 100000), defs=["MODE=1"], wraps=_kw, alloc=False),
        V("threads", "h_sock.c", _sock, (500, 15000), defs=["MODE=1", "THREADS"], wraps=_kw, alloc=False, salt=1),
        V("tsan", "h_sock.c", _sock, (300, 9000), san="tsan", defs=["MODE=1", "THREADS"], wraps=_kw, alloc=False, salt=2),
    ],
}
_pw = _kw + ["clock_gettime"]
PROPS["K02"] = {
    "level": "exploration",
    "rule": "A case is a history of adds, removes, readiness changes, closes, re-opens and waits over 1-12 (or over a thousand) pipes and sockets, each wait "
            "compared with poll(2) and a registration model, waiting on virtual time; further monitors register from other threads and wait in real time.",
    "must_see": ["edge", "edge.reported", "unchanged", "refused", "removed", "partly-removed", "peer-close", "peer-half-close", "closed-while-registered",
                 "reopened", "opened-again", "more-than-fit", "many", "timeout", "timeout.interrupted", "found", "woken-for-ever",
                 "registered-by-other-thread", "woken", "real-timeout", "real-timeout.interrupted"],
    "variants": [
        V("asan", "h_poll.c", _sock, (6000, 200000), defs=["MODE=1"], wraps=_pw),
        V("small", "h_poll.c", _sock, (4000, 100000), defs=["MODE=1", "SC_SOCK_POLL_MAX_EVENTS=3"], repo_defs=["SC_SOCK_POLL_MAX_EVENTS=3"], wraps=_pw, salt=1),
        V("threads", "h_poll.c", _sock, (300, 9000), defs=["MODE=2"], wraps=_pw, alloc=False, salt=2),
        V("tsan", "h_poll.c", _sock, (300, 9000), san="tsan", defs=["MODE=2"], wraps=_pw, alloc=False, salt=3),
        V("real", "h_poll.c", _sock, (160, 4000), defs=["MODE=3"], wraps=_pw, alloc=False, confirm="repeat", salt=4),
    ],
}
PROPS["K03"] = {
    "level": "exploration",
    "rule": "A case runs one operation (listen, connect to one or several addresses, accept, options, transfers, pipe, poll, names, notification) with the n-th "
            "system call failing with some error, or a real failure, terminates twice and uses the object again; distinct: operation, call, position and error.",
    "must_see": ["listen." + c for c in ("socket", "bind", "listen", "setsockopt")] +
                ["connect." + c for c in ("socket", "bind", "connect", "setsockopt")] +
                ["accept.accept", "accept.setsockopt", "receive-timeout.setsockopt", "send-timeout.setsockopt",
                 "finish-connect.getsockopt", "finish-connect.failed-attempt", "io.send", "io.recv", "pipe.close", "poll-add.epoll_ctl", "poll-del.epoll_ctl",
                 "poll-wait.epoll_wait", "poll.close", "poll.refused-memory", "name.getsockname", "name.getpeername", "notify.socket",
                 "notify.send", "term.close-fails", "listen.after-failure", "connect.after-failure", "accept.after-failure", "accept.retryable", "in-progress",
                 "connect-many", "connect-many.none-lives", "real.refused", "real.in-use", "real.no-name", "real.no-service", "real.no-directory",
                 "real.not-ours", "real.no-descriptors", "send.peer-gone", "listen.retried", "connect.retried", "failures-of-two-threads"],
    "variants": [V("asan", "h_sock.c", _sock, (24000, 600000), defs=["MODE=3"], wraps=_kw)],
}
PROPS["K04"] = {
    "level": "exploration",
    "rule": "A case listens on, connects to and describes one network or local address (any loopback address, source, path length, buffer size, mode), sets "
            "timeouts, or sends a notification of any text to any address; a second monitor measures real timeouts; distinct: addresses, lengths, sizes.",
    "must_see": ["given-port", "source-address", "source-port", "any-address", "ipv4", "listened-again", "mode-changed", "timeout.fraction", "timeout.whole",
                 "described", "described.cut", "described.exact", "described.unnamed", "path", "path.longest", "path.too-long", "path.left-over", "notify.none",
                 "notify.malformed", "notify.abstract", "notify.path", "notify.too-long", "name.ipv4", "name.ipv6", "name.local", "real-send-timeout", "real-receive-timeout",
                 "source-port-alone"],
    "variants": [
        V("asan", "h_sock.c", _sock, (12000, 300000), defs=["MODE=4"], wraps=_kw, alloc=False),
        V("real", "h_sock.c", _sock, (120, 3000), defs=["MODE=4", "REALTIME"], wraps=_kw, alloc=False, confirm="repeat", salt=1),
    ],
}

import os as _os
_cfg = _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "harness", "cfg")
_all = ["heap/sc_heap.c", "map/sc_map.c", "buffer/sc_buf.c", "string/sc_str.c", "timer/sc_timer.c", "uri/sc_uri.c", "socket/sc_sock.c"]
_comps = ["array", "queue", "heap", "map", "buffer", "string", "timer", "uri", "poll"]
_zw = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "vasprintf"]
PROPS["Z01"] = {
    "level": "exploration",
    "rule": "A case is one history over objects of every component that allocates, run undisturbed and again with each of its allocations (at most 40) refused "
            "once, a few times or persistently, contents compared after every operation; built with malloc and with replacement functions; distinct: "
            "different (component, verdict) sequence and refused allocation.",
    "must_see": ["refused." + c for c in _comps if c != "timer"] + ["refused.timer", "every-allocation-refused"] + ["again." + c for c in _comps],
    "variants": [
        V("asan", "h_oom.c", _all, (4000, 150000), inc=["array", "queue"], wraps=_zw, alloc=False),
        V("custom", "h_oom.c", _all, (4000, 150000), inc=["array", "queue", _cfg], wraps=_zw, alloc=False, defs=["CUSTOM", "SC_HAVE_CONFIG_H"],
          repo_defs=["SC_HAVE_CONFIG_H"], salt=1),
    ],
}

_every = _all + ["linked-list/sc_list.c", "ini/sc_ini.c", "crc32/sc_crc32.c", "sc/sc.c", "option/sc_option.c", "memory-map/sc_mmap.c", "mutex/sc_mutex.c",
                 "condition/sc_cond.c", "thread/sc_thread.c", "time/sc_time.c"]
_kinds = ["array", "queue", "heap", "list", "map", "buffer", "string", "timer", "uri", "ini", "crc32", "sc", "option", "mmap", "pipe-poll", "socket", "sync"]
PROPS["Z02"] = {
    "level": "exploration",
    "rule": "A case runs 2-6 threads, each doing seeded work on objects of its own (one kind or mixed) with random delays, and compares every result with that "
            "of the same work done alone; under ThreadSanitizer and under AddressSanitizer; distinct: assignment of kinds to threads.",
    "must_see": _kinds + ["same-kind", "mixed-kinds"],
    "technique": "runtime monitoring: ThreadSanitizer and comparison with single-threaded results under injected delays",
    "variants": [
        V("tsan", "h_indep.c", _every, (1500, 60000), san="tsan", inc=["array", "queue"], alloc=False),
        V("asan", "h_indep.c", _every, (3000, 100000), inc=["array", "queue"], alloc=False, salt=1),
    ],
}

PROPS["Z03"] = {
    "level": "exploration",
    "rule": "A case makes settings an application may make (signals, masks, locale, time zone, rounding), then does 1-6 pieces of seeded work with one component each, "
            "some of it failing, and compares everything the process shares before and after: environment, directories, files, descriptors and their flags, signal "
            "handling, limits, threads, children, output, static results of the C library in use; calls that change such state are watched; distinct: kinds of work and results.",
    "must_see": _kinds + ["log", "log-shown", "inet", "failures", "inet-connected", "signals-blocked", "output-watched"],
    "technique": "runtime monitoring: snapshots of the process-wide state around the work, calls that change it watched",
    "variants": [
        V("asan", "h_state.c", _every + ["logger/sc_log.c"], (12000, 300000), inc=["array", "queue"], alloc=False,
          wraps=["umask", "chdir", "fchdir", "setenv", "unsetenv", "putenv", "clearenv", "alarm", "setitimer", "fork", "system", "popen", "setrlimit", "srand", "srandom",
                 "signal", "setlocale", "sigaction"]),
    ],
}

# The same harnesses once more where every use of an uninitialised value is reported.
for _p, _n in (("A01", 300), ("Q01", 300), ("H01", 6000), ("L01", 5000), ("P01", 1000), ("P02", 1000), ("B01", 4000), ("B02", 40000), ("B03", 20000),
               ("U01", 10000), ("Y01", 30000), ("O01", 20000), ("X01", 600), ("S01", 3000), ("S02", 2000)):
    _v = dict([v for v in PROPS[_p]["variants"] if v["name"] == "asan"][0])
    _v.update(name="msan", san="msan", cases=(_n, _n * 20), salt=7)
    PROPS[_p]["variants"].append(_v)
