#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the Go source (VC generation over go/ssa, SMT)"
NOTE = {
 "C16": "Every access to the four pools is proved against the pool invariants (size class, cleared contents, one owner at a time through fresh-ownership of pooled values) for all inputs; trusts sync.Pool semantics and that option callbacks leave usable sizes.",
}
NOTE.update({
 "C01": "The encoder functions and writeToWriter are proved to append exactly the specified encoding (decimal digits, flags, values spliced at their offsets) for all inputs; the connection's writer is the trusted io.Writer contract.",
 "C02": "The key check is proved to accept exactly the keys of the statement for every byte string.",
 "C07": "The ring buffer is proved against a monitor invariant (ghost history of all batches ever written) under any interleaving of one writer and one reader; assumes fewer than 2^62 batches per connection.",
 "C08": "The submission queue is proved against a monitor invariant (ghost sequence of accepted pipelines) for any number of publishers and closers and one drainer; refusal completes every batch of the pipeline.",
 "C12": "The error latch is proved with a rely/guarantee argument (the latch only changes from unset to set, under the connection lock) for every interleaving; writer, reader and closer are trusted interface contracts.",
 "C17": "Batch splitting is proved on the builder's representation invariant for every number of commands and every maximum.",
})
NOTE.update({
 "C03": "The incremental reader is proved to follow a byte-at-a-time framing automaton over the ghost stream of all bytes fed to it (reply text, value bytes and kept rest), so framing is independent of the split; holds for every stream and every cut.",
 "C04": "Each decoding function is proved against a flag/number automaton over the reply's bytes (kind, flags, CAS modulo 2^64, value, version, error message, bytes and values consumed), for all inputs; strings.TrimSpace is a trusted contract.",
 "C05": "Every index, slice, conversion and allocation of the reader and the decoder is proved in range and every loop consumes input (variants), for all byte sequences; values are limited to the accepted maximum before a buffer is reserved.",
 "C09": "The per-pipeline queue and the fairness helpers of the scheduler are proved against ghost sequences for all inputs.",
 "C14": "Every lock is proved released on every path, every wait is in a loop whose condition is re-tested, and every state change that could unblock a waiter is proved to be followed by a signal before the lock is released (monitor obligations).",
 "C15": "Every access to a protected field is proved to happen under the lock that protects it, or on an object not yet shared (monitor obligations on all functions of the package).",
})
NOTE.update({
 "C10": "The limiter is proved against a monitor invariant (ghost count of credited commands) for every interleaving, selection within the limit and counted once, and the receiver credits each batch exactly once on every path of recvSingleCommandData; assumes fewer than 2^62 commands per connection.",
 "C11": "The receiver loop is proved to complete every batch of the ghost history of written batches exactly once and in order, with success only after as many complete replies as the batch has commands; refused pipelines are completed by publish. Progress of the goroutines themselves (liveness) is not expressed; recorded errors other than the one of shutdown are assumed not to be ErrConnClosed.",
 "C13": "Replies of a batch are proved to be read through the batch's own connection, the bytes given to the reader are exactly those of that read, and the reader is proved empty whenever the connection changes; the reconnector is proved to replace a connection only after its error was recorded.",
 "C20": "Every statistics function is proved against recursive definitions over the ghost sequence of reply lines (last value per name and class, classes listed once, error on malformed line, read error or missing end) for all inputs; bufio.Scanner, strings and strconv are trusted contracts.",
 "C21": "Dialing, the deadline wrappers and the authenticating dialer are proved for all inputs and all failure points; net.Conn and time are trusted interface contracts.",
})
NA = {
 "C22": "Termination of Close is a liveness property over unbounded schedules of several goroutines and of the network; contracts of partial correctness cannot express it. Its safety parts (no lost wake-up, no lock held while waiting) are C14.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: contracts for this property are still being written")})
m = {"version": 1, "setup_cmd": "cd govc && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o govc . && cd /repo && go build ./memcache/...",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: contracts are kept in /verif/contracts and matched to functions of /repo by name; nothing in /repo is instrumented."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
