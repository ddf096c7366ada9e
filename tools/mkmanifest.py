#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after changing the list below; the output is committed."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing (rapid): "
FAULT = {"C05", "C09", "C13", "C17"}
TECH = {
 "C01": (PBT + "random builder programs, independent X Protocol decoder as oracle", "Every generated program's bytes are decoded by a decoder written for this check (protowire only) and compared one to one with the program."),
 "C02": (PBT + "random statement arguments, independent decoder, exact value comparison; enumeration of every 8- and 16-bit integer", "All argument types over generated values and lengths biased to encoding boundaries."),
 "C03": (PBT + "random CRUD messages, independent decoder", "Random tables, columns, rows, assignments and criteria."),
 "C04": (PBT + "random expression trees, independent decoder; every operator enumerated", "Random trees, deep chains, wide lists, operand sizes at the length-encoding boundaries."),
 "C05": (PBT + "fault injection at every position of random programs, recording sender", "Each generated program is failed at each point in turn; the oracle is the first injected failure and a recorder that must stay silent."),
 "C06": (PBT + "metamorphic: same calls on buffers of every capacity, with prefixes and after reuse", "Byte equality between runs that must agree, plus aliasing probes on every argument."),
 "C07": (PBT + "random programs with out-of-scope uses, compared with the same program without them", "Every kind of builder call on every enclosing or stale handle, at random points."),
 "C08": (PBT + "generated server streams over an in-memory transport with drawn chunking", "Explicit list of answers as oracle; several Sends in a row on one connection."),
 "C09": (PBT + "fault enumeration: every truncation point, every failure kind, mutated and fuzzed streams", "Each generated stream is cut at every byte, or corrupted; the oracle counts complete answers independently."),
 "C10": (PBT + "recorded transport calls over random units, contexts and failures", "The complete call log of the transport is the observed behaviour."),
 "C11": (PBT + "random credentials and challenges, independent server-side verification", "The verifier implements the server's side of the three mechanisms from their definition."),
 "C12": (PBT + "random server behaviours over real sockets and TLS, byte log of what was sent in clear", "Runs the real connector against scripted servers on loopback TCP and unix sockets."),
 "C13": (PBT + "fault enumeration over every step of connection establishment, real sockets", "Scripted servers failing at each step; result and socket state compared with a model of the exchange."),
 "C14": (PBT + "stateful model of the pool over controlled schedules, and free-running goroutines under the race detector", "Controlled histories decide every interleaving at the level of connector, connection and pool calls; the stress runs sample the interleavings inside the pool."),
 "C15": (PBT + "stateful model with Close at any point, and free-running goroutines under the race detector", "As C14, with closers."),
 "C16": (PBT + "stateful model with failing units, real connections over a scripted transport, goroutines under the race detector", "As C14, with half of the units failing in every way a unit can."),
 "C17": (PBT + "histories of units against a model server with transactions and expectation blocks; every fault at every message and byte", "Durable state of the model server compared with what Send told the caller."),
 "C18": (PBT + "random times and durations, exact comparison of the decoded text; enumeration of MySQL's TIME range", "All places a value can take."),
 "C19": (PBT + "random decimals and 256-bit numbers against math/big; small decimals enumerated", "Exact integer arithmetic as oracle."),
 "C20": (PBT + "enumeration of all constants and ids against an independently assembled table; random ids", "The table is put together from the server's regularities (tools/mkcollations.py)."),
 "C21": (PBT + "random messages and fields, independent decoder", "Every encoder of xproto that builds a whole message or expression field, any length and buffer."),
 "C22": (PBT + "random messages of every type of the protocol definition, independent encoder and decoder driven by the definition; all fields, enum constants and message ids enumerated", "The definition (harness/c22/proto) is read by a parser written for this check; the bindings are used through getters, struct fields, Marshal and Unmarshal."),
 "C23": (PBT + "random server errors through connection and pool; all exported codes enumerated", "The oracle for the codes is a table of the server's sequentially numbered errors."),
 "C24": (PBT + "goroutines with drawn tasks on shared values under the race detector, each result compared with its model", "Samples schedules; what happens in each is decided by the decoder, the model of the server and the race detector."),
}
m = {
 "version": 1,
 "setup_cmd": "./setup",
 "checks": [{
   "property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
   "technique": t, "level": "fault_enumeration" if p in FAULT else "exploration",
   "level_note": n + " Assurance is that of search: no counterexample in the cases counted in the evidence. Trusts the Go toolchain, rapid, and the harness's own decoder and models.",
 } for p, (t, n) in sorted(TECH.items())],
 "not_applicable": [],
 "notes": "No hooks in /repo: the harness is a module of its own (harness/) that imports /repo's packages from their current source. Defects found and repaired are in known-findings.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
