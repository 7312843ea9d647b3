#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# not caught when they were planted; what was added to the check
FIRST_MISSED = {
    "x01-clear-short-count": "a clear of more than 65 536 slots",
    "o01-short-index": "arguments behind 65 536 others",
    "i02-short-line": "malformed lines far into a document",
    "g01-stream-kept": "opens that fail after the file was opened",
    "g01-midnight-hour": "a wall clock of the monitor's own",
    "k04-source-port": "source ports without an address",
    "k04-family-order": "names with addresses of both families",
    "k01-send-flags": "flags on blocking sockets",
    "k03-listen-retry": "retries without terminating",
    "c01-signal-after-unlock": "conditions released by the waiter",
    "f01-unlock-all": "exact range of a lock and an unlock",
    "x01-whole-turn": "polls more than a turn apart",
    "e01-own-thread-only": "work done by other threads",
    "a01-foreach-short": "large cases past 65 536 elements",
    "b03-limit-before-rounding": "limits that are no multiple of the growth step",
    "c01-empty-value": "the signal that ends a wait may carry no value",
    "f01-sparse-window": "holes and allocated blocks",
    "g03-long-path": "paths up to PATH_MAX",
    "g03-stale-name": "files named in a process that has named others before",
    "i01-bom-any-line": "byte order marks inside documents",
    "k01-send-gives-up": "long runs of interruptions",
    "k02-del-not-registered": "objects moved between poll objects; refusals compared with the kernel's own registration",
    "k03-finish-success": "connects that end late, in each way",
    "k03-pipe-close-hidden": "n-th close refused, for every object",
    "k04-remote-is-local": "both ends' texts compared",
    "m01-gives-up": "holders that keep the mutex past any deadline (virtual and real)",
    "m01-shared-attr": "storms: objects created by several threads in the same instant",
    "n01-len-16-bit": "texts past 65 536 bytes",
    "n02-descriptor-0": "notices and logs to descriptor 0",
    "n02-errno": "system calls of the handler that change errno",
    "n02-notice-interrupted": "interrupted notices",
    "o01-name-length": "names of lengths 256 and 65 536 apart",
    "p01-old-key-text": "texts the map may not refer to any more are released and overwritten",
    "s03-init-sign": "seeds that differ in one bit",
    "t01-small-stack": "functions that use half a megabyte of stack",
    "w01-gives-up": "long runs of interruptions",
    "x01-id-width": "more than 65 536 timers in one tick",
}


def main():
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
    rows = ["| planted bug | caught by | manifests with | first missed; added |", "|---|---|---|---|"]
    d = os.path.join(ROOT, "seeded")
    for k in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, k, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (k, m["property"], m["needs"], FIRST_MISSED.get(k, "")))
    i, j = s.index(a) + len(a), s.index(b)
    open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
    print(len(rows) - 2, "planted bugs")


main()
