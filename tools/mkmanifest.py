#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
T = {
 "C01": ("end-to-end agreement monitor over enumerated delivery orders", "Both ends' event records are compared with what was written, for all interleavings of the four negotiation messages x levels x pinning and random configurations and custom data."),
 "C02": ("attack catalogue with an independent acceptance oracle", "Forged, altered, replayed, reflected and mixed CONNECT/ACK at every stage; an independent implementation decides what may be accepted. Computational assumptions on Ed25519/SHA-256."),
 "C03": ("delivered-was-sent monitor under active tampering", "Every delivered message is looked up in the record of what the peer wrote on this connection; tampering by bit flips, cuts, splices, foreign sessions, reflection. Known finding: a reflected own message is delivered."),
 "C04": ("at-most-once monitor over recorded number histories", "An independent set model of delivered numbers judges adversarial replay histories built by the reference peer."),
 "C05": ("reorder-window monitor against an independent set model", "Random and boundary permutations up to and beyond the 10,000 limit, real pairs under reordering networks."),
 "C06": ("set-aside order and exactly-once monitor", "Arrival-order log of early messages compared with what is handed out, over all interleavings with early messages and duplicates."),
 "C07": ("lock-step reference automaton over call/message histories", "Each call and authentic message has a predicted outcome class; enumerated short and random long histories at both levels."),
 "C08": ("absorbing-failure monitor (lock-step automaton)", "Fatal causes x states x follow-ups; nothing may succeed or be delivered after the first failure."),
 "C09": ("hostile-input stress under checked arithmetic, CPU watchdog and AddressSanitizer", "Structure-aware hostile bytes incl. signed/encrypted by a malicious peer and deserialization; unwinds, aborts, hangs are events. Known finding: endless recursion inside bincode."),
 "C10": ("twin-history monitor: refused messages leave no trace", "The lock-step automaton ignores refused messages; continuation after them must be accepted with the same results."),
 "C11": ("byte-exact conformance monitor against an independent implementation", "Every emitted frame is compared with, and every accepted frame built by, an independent implementation of protocol version 1."),
 "C12": ("freshness and exposure monitor over thousands of connections and processes", "Ephemeral keys, session keys, random seeds and identities drawn for layers without seed are recorded and searched for repeats and bias; emitted bytes are searched for user data. Known finding: one key stream per session."),
 "C13": ("payload round-trip monitor", "Payload sizes and contents around thresholds x compression configurations that differ at both ends, through all three message types, real pairs and reference peer."),
 "C14": ("value round-trip monitor", "Generated values through all formats and message types with switches, unserializable values, wrong types, reference decoding of what was emitted."),
 "C15": ("fault injection at every output byte with a completeness oracle", "The output sink fails, is interrupted, or accepts parts at every byte position; success is believed only if sink plus buffer hold exactly the reference message."),
 "C16": ("differential monitor of split clones, also across threads and under ThreadSanitizer", "A split connection is judged by the same oracle as an unsplit one; failures and configuration of the copies are kept apart."),
 "C17": ("message-number monitor at the reference peer", "The reference peer decrypts every emitted user message and reads its number; operations of every kind in between. Known finding: two writing copies repeat numbers."),
 "C18": ("memory search after drop, heap-release hook, debug output search", "The memory of dropped layers is searched at the places where the type keeps keys, every byte buffer released to the heap is searched for the session key, Debug output for all secrets. Known finding: keys inside ring."),
 "C19": ("per-connection oracles under heavy concurrency, ThreadSanitizer", "Many connections over many threads with layers moving and foreign traffic; every connection is judged by its own single-connection oracle; race detector on a smaller run."),
 "C20": ("live-memory monitor in the allocator", "Bytes retained per layer are read before and after long streams of refused, repeated and accepted messages; whole connections must give everything back."),
 "C21": ("the other properties' oracles over processes built with different feature selections", "The case generators and oracles of C01, C04-C07, C10, C11, C13 drive layers that live in processes built with ten feature selections; typed values between every pair of selections. A selection that no longer builds is a violation."),
 "C22": ("monitor of the error named for every single cause", "Each case makes exactly one thing wrong (34 kinds of cause) at a random moment of a connection at which nothing else is wrong, and compares the error returned with the one documented in errors.rs; where several describe the cause any of them is accepted."),
}
checks = []
for p in sorted(T):
    t, n = T[p]
    checks.append({
        "property": p,
        "quick_cmd": "./check %s" % p,
        "thorough_cmd": "./check %s --tier thorough" % p,
        "technique": "runtime monitoring: " + t,
        "level": "fault_enumeration" if p == "C15" else "exploration",
        "level_note": n + " Holds on the executions observed; see evidence for how many and of what kind.",
    })
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: all observation is at the public API, in the allocator, in the output sink and by sanitizers. Findings: known_findings.txt. Replay one case: ./check <id> --seed N --case K."}
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
