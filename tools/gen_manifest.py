#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json from the lists below."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]

PAIR = "two real endpoints over a simulated transport with generated operations, fragmentation, stalls, clock and poll order, polled only when woken; history and wire checked against counters, the byte pattern and a per-side frame monitor"
RAW = "one real endpoint against generated frames and local operations, every observation compared with a step-wise reference model of the protocol"
THR = "real threads driven through a generated preemption schedule at every lock operation"
FLOOD = "generated floods against a stalled or slow transport with memory and frame counting"
LEAK = "generated stream life cycles repeated hundreds of times with live heap bytes compared"
SOUP = "arbitrary, mutated and truncated byte strings under two generated fragmentations, compared with each other and with a small decoder"
FAIR = "several streams kept full, floods of inbound frames, pings and due probes competing for a transport that takes a few bytes at a time, with the frames between two turns counted"
CONF = "generated sequences of configuration setters compared with 128-bit arithmetic, then used by a real connection"
W = {
 "C01": [PAIR, RAW, THR], "C02": [PAIR, RAW, THR], "C03": [PAIR, RAW], "C04": [PAIR, RAW, FLOOD], "C05": [RAW, PAIR], "C06": [RAW], "C07": [RAW, CONF],
 "C08": [RAW, PAIR], "C09": [PAIR, RAW, FLOOD, THR], "C10": [THR], "C11": [FLOOD, PAIR, RAW], "C12": [RAW, PAIR], "C13": [RAW, PAIR, SOUP], "C14": [RAW, LEAK, CONF],
 "C15": [PAIR, RAW], "C16": [PAIR, RAW], "C17": [PAIR, RAW, FLOOD], "C18": [SOUP], "C19": [RAW, FLOOD, PAIR], "C20": [PAIR, RAW, THR], "C21": [PAIR, RAW, SOUP],
 "C22": [RAW, FLOOD, PAIR], "C23": [CONF], "C24": [LEAK, FLOOD], "C25": [FAIR],
}
NOTE = {
 "C10": " Preemption only at mutex operations, transport calls and operation boundaries; one thread runs at a time, so races inside the futures mpsc channel and weak-memory effects are not explored.",
 "C12": " The end of the id space is reached through the one hook (cfg yamux_verif), which sets the next outbound id.",
 "C18": " Inputs up to a few tens of kilobytes, plus announced lengths up to 2^32-1.",
 "C24": " Memory is what the library allocates (counting allocator), with virtual time.",
 "C08": " Time is a virtual clock standing in for web-time.",
 "C19": " Time is a virtual clock standing in for web-time.",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "property-based testing (proptest, shrinking): " + "; ".join(W[i]),
        "level": "exploration",
        "level_note": "A fixed number of random cases per run (seeded by VERIF_SEED): the property held on every case generated, nothing is proved beyond them. Trusted: the harness, its reference model and its stand-ins for the clock and parking_lot's mutex." + NOTE.get(i, ""),
    })
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "hooks": {
        "guard": "cfg(yamux_verif)",
        "enable": "RUSTFLAGS='--cfg yamux_verif' (check.sh sets it)",
        "source_commits": ["241748e"],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check rebuilds the harness against /repo/yamux (path dependency) and runs generated cases on 8 worker processes; a failure is shrunk and written to evidence/replay-<id>.json (target/release/yv replay FILE shows it step by step).",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")

FIXED = [
 ("C16", "f8c5545", "a stream closed before its first write put a FIN without SYN on the wire; the peer ignored it and never saw the stream end (also C02)"),
 ("C16", "133f9f5", "closing a write-closed stream again sent a second FIN (also C03)"),
 ("C15", "6402f25", "an acknowledgement carried by a window update did not acknowledge the stream"),
 ("C13", "33467e4", "a client accepted an inbound stream with the session id 0"),
 ("C17", "8b19b0e", "with a split size above 1 MiB data frames longer than an endpoint accepts were sent"),
 ("C21", "06f8538", "errors of writing a frame to the socket were not reported as the cause of the end"),
 ("C14", "7c5e249", "an open beyond the stream limit ended the whole connection"),
 ("C15", "1d9e879", "an open waiting for the acknowledgement backlog was not woken when it shrank by a close, reset or drop, or when the connection ended (also C09)"),
 ("C20", "46eeac7", "streams of a connection being closed were not ended: readers and writers waited forever"),
 ("C09", "0f94e8c", "the connection task was not woken for an outbound stream added next to existing ones"),
 ("C09", "d8fb122", "reading and writing one stream from different tasks overwrote each other's waker"),
 ("C09", "2ebb29f", "the endpoint stopped reading while a reply waited to be sent: two such endpoints deadlocked (also C11)"),
 ("C20", "2c9e665", "two connections closing at the same time blocked each other over a small transport"),
 ("C23", "e2bc570", "extreme stream limits overflowed in the configuration check"),
 ("C21", "d8f62ae", "a closing connection went on writing after reading its transport had failed (left by 2c9e665)"),
 ("C04", "09da9c9", "a write waiting for queue room hung when the stream was reset"),
 ("C09", "cc4c00e", "a read into an empty buffer waited although data had been received"),
]
k = {"findings": [], "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]}
json.dump(k, open(root + "/known_findings.json", "w"), indent=1)
open(root + "/known_findings.json", "a").write("\n")
print(len(checks), "checks")
