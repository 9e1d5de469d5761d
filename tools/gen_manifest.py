#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
RACE = "deterministic simulation: seeded scheduler over an instrumented build (race detector on), reference model"
FAULT = "deterministic simulation: seeded stream faults, chunkings and schedules, reference model"
claimed = {
 "P01": (RACE, "Seeded search over interleavings at statement granularity, each judged against a sequence model and the race detector; sampled, not exhaustive. Trusts the source instrumenter and the simulated sync primitives."),
 "P02": (RACE + ", injected callback faults", "As P01, with panics, goroutine exits, delays and re-entrance injected at seeded calls of the callbacks."),
 "P06": (FAULT, "Every decoding entry point for numbers over simulated readers with seeded chunking, truncation, I/O errors, damage and stalls, several streams interleaved; judged byte by byte against an independent decoder. Sampled."),
 "P07": (FAULT, "Every encoding entry point for numbers over simulated writers with seeded torn writes and I/O errors; judged byte by byte against an independent encoder. Sampled."),
 "P08": (FAULT, "All point formats of the package (two exported, three reached through a registry file added to the build) over simulated readers with seeded chunking, truncation, I/O errors, damage and stalls; judged against an independent implementation of the curve, the subgroup and the formats on big integers. Sampled."),
 "P10": (FAULT, "As P08 for batches and slices of all point types and containers; position, counts, error data, destinations before and after the failing point. Sampled."),
 "P09": (FAULT, "All point formats of the package over simulated writers with seeded torn writes, I/O errors and stalls, points of all types, representations and kinds (finite, infinite, invalid, outside of the subgroup); judged byte by byte against an independent encoder. Sampled."),
 "P11": (FAULT, "As P09 for batches and slices of all containers; position, counts, error data and points after the call. Sampled."),
 "P13": ("deterministic simulation: nodes with simulated disks and connections, seeded crashes, torn tails, lost writes and cuts, reference history", "Writers, relays and readers of logs of points in one process; only durable bytes and an arbitrary part of the rest survive a crash; readers' histories are compared with what was written. Sampled. The node logic (log framing, recovery, resuming) is part of the harness and uses nothing but the byte counts and errors that the serializers report."),
 "P04": (RACE, "Histories of creating, deriving, querying, printing and validating errors by several threads at statement granularity, from a cold start; every error is compared with its own model (text, data, ancestry, validity) whenever it is touched and at the end; memory passed in or handed out is overwritten; race detector. Sampled."),
 "P03": (RACE + ", linearizability check of the register's history", "Threads register, read and trigger handlers that answer, panic, end their goroutine, are slow, or use the register and points themselves; the history of registrations, reads and calls is checked for linearizability, results and operands against a big-integer model. Sampled."),
 "P05": (RACE, "First uses of some 60 struct types by several threads at statement granularity from an empty lookup table, judged against an independent description of each type, with rejected types panicking in some callers; race detector. Sampled."),
 "P14": (RACE, "Histories of deriving, querying, copying and using serializers of all kinds by several threads at statement granularity, each object compared with its own model whenever it is touched and at the end; memory passed in or handed out is overwritten; race detector. Sampled."),
 "P15": (RACE, "Programs of 130 kinds of operations on private registers (field elements, points of all types, exponents), aliased or not, by several threads at statement granularity from a cold start, next to readers of the library's constants; every register is compared with its own big-integer model after every operation. Sampled; arithmetic itself is checked against the model as a by-product."),
 "P16": ("deterministic simulation: seeded histories and schedules of registrations, permuted map iteration, reference model", "Histories of registering, linking, incrementing, resetting and reporting counters in any order, with the iteration order of maps permuted before each call, judged against a model; the library built with call counters on programs of operations. Sampled."),
 "P17": (FAULT.replace("stream faults", "histories"), "Histories of reads, writes, resets and content changes of all sizes by several threads taking turns, each call judged against a model of thresholds and contents. Sampled."),
 "P18": (RACE + ", crafted, slow and failing sources of randomness", "Sampling by several threads at statement granularity from equal, crafted, slow or failing sources, compared with a single thread at another time with other state of all global sources; samples validated by an independent implementation of the curve; race detector. Sampled."),
 "P19": (RACE + ", seeded stream faults, each operation repeated under another delivery", "Decoding and encoding of numbers, points, batches and slices in all formats, each done twice with the same bytes and failure but another delivery and another copy of the object; reports are compared with each other, errors validated, handed to other threads and extended there, memory overwritten; race detector. Sampled."),
 "P12": (FAULT, "As P08 and P10 with mostly damaged untrusted data; membership in curve and subgroup decided by an independent implementation. Sampled."),
}
NA = {
 "P50": "pure function of its input: no concurrency, time, I/O or party to simulate (isolation between goroutines is P15)",
 "P51": "pure function of its input: no concurrency, time, I/O or party to simulate (isolation between goroutines is P15)",
 "P52": "pure function of its input: no concurrency, time, I/O or party to simulate",
 "P53": "pure function of its input: no concurrency, time, I/O or party to simulate (concurrent printing of shared errors is P04)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        t, note = claimed[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i, "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./check.sh setup",
 "hooks": {"guard": "none in /repo: instrumentation is generated into a scratch directory", "enable": "go build -overlay with instrumented copies of /repo's current source files (see DESIGN.md)", "source_commits": []},
 "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
