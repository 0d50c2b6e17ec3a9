#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: seeded search over %s, against %s"
NOTE = "Sampled, not exhaustive: assurance grows with the number of seeds (evidence says how many). Real static-xml, derive output and xml-rs run; source, sink, store, clock, scheduler, hash keys and user code are simulated. "
C = {
 "C01": ("deliveries of the source (chunking, interruptions, latency)", "the run that delivers everything at once", ""),
 "C02": ("truncation points, deliveries and user-code behaviour", "an invariant (never Ok before the root's end tag was delivered)", "Completeness of a prefix is told by xml-rs."),
 "C03": ("failure points and kinds of the source, with error-swallowing user code", "an invariant on the result and on the calls the source saw", ""),
 "C04": ("failure points, damage and user-code histories", "the reference model's element stack", "Positions come from xml-rs."),
 "C05": ("per-child decisions of user code, with source faults", "a reference reader over the same event stream (full callback log)", ""),
 "C06": ("failures, damage and panics at drawn points", "a construction/drop register and allocation accounting", ""),
 "C07": ("damaged and garbage bytes, source faults and user code", "no panic, bounded reads, no polling of a dead source, and stack use independent of the depth of skipped content", "xml-rs's own panics would be reported by location."),
 "C08": ("short, interrupted and buffered writes and flush failures", "the bytes of to_string and an independent parser", ""),
 "C09": ("failure points and kinds of the sink, with error-ignoring user code", "the fault-free run's bytes (prefix) and the injected error", ""),
 "C10": ("abandonment, error and panic points in trees of builder calls", "a model of which serializations are spoiled", ""),
 "C11": ("values, sink faults, crash points of the store, re-read deliveries", "the original value", ""),
 "C12": ("interleavings at I/O and callback points, nesting, failing histories", "each operation's outcome alone in a fresh thread and in a process without a past", "Preemption happens only at I/O and callbacks."),
 "C13": ("take/pass/skip/fail decisions of visitors and flattened fields, with damage", "a reference reader's log of offers", ""),
 "C14": ("element-level and byte-level damage and renderings of values", "a reference interpretation of the bytes and the original value", "Lexical analysis of the bytes is xml-rs's."),
 "C15": ("trees of builder calls with clashing namespaces, rejected calls and slow sinks", "an independent parser and the tree described", ""),
 "C16": ("hash keys, threads and histories", "the same operation under other keys, threads and histories, and in a process without a past", ""),
 "C20": ("deliveries in chunks with waits between them, user code and failures", "the bytes the reference reader needed for each callback and for the error", "Which bytes settle an event is told by xml-rs."),
 "C21": ("amounts of passing content, failures, abandonment and panics", "the global allocator's account of what is held, with n and 8n pieces, and afterwards", ""),
}
NA = {
 "C17": "`normalize` is a pure function of a string and a mode: no I/O, time, schedule, fault or history reaches it, so there is nothing for a simulator to decide.",
 "C18": "Parsing and formatting of built-in text types are pure functions of one string or value; only their use inside reads and writes meets faults, which C11 and C14 decide.",
 "C19": "Decided at compile time by rustc; nothing runs, so there is no execution to simulate.",
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [
  {
   "property": k,
   "quick_cmd": f"./check.sh {k} quick",
   "thorough_cmd": f"./check.sh {k} thorough",
   "technique": TECH % v[:2],
   "level": "exploration",
   "level_note": (NOTE + v[2]).strip(),
  } for k, v in C.items()
 ],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "No hooks in /repo: the library's seams (Read and Write arguments, visitors, Serialize/Deserialize implementations) and the getrandom symbol suffice. Replay a reported run with ./check.sh replay FILE.",
}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
