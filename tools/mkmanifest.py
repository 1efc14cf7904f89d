#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the workloads present in harness/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "C01": "runtime monitoring: round-trip oracle with an independent byte-level codec over generated and hostile messages, on the real packer",
 "C02": "runtime monitoring: every-cut fault enumeration of byte streams through the real reader, compared with an independent parser",
 "C03": "runtime monitoring: enumeration and mutation of hostile blocks against the real decoders and servers; crash, hang and allocation monitors",
 "C04": "runtime monitoring: size-limit boundary probes on real connections; allocation monitor",
 "C05": "runtime monitoring: exactly-once and routing trace checker over live servers",
 "C06": "runtime monitoring: handler-chain trace compared online with a reference model of the registration rules",
 "C07": "runtime monitoring: executed-chain traces compared with a reference interpreter of Next/Abort scripts",
 "C08": "runtime monitoring: per-request and per-connection storage histories checked against a model; cross-talk detector",
 "C09": "runtime monitoring: conservation and frame-integrity checker over concurrently written streams, with injected delays",
 "C10": "runtime monitoring: offline order checker over pipe handling logs, with truncated and malformed pipes",
 "C11": "runtime monitoring: lifecycle trace automaton (connect, messages, close) over many ways of ending a connection",
 "C12": "runtime monitoring: concurrent pool histories checked against a sequential pool model with interval reasoning; Go race detector",
 "C13": "runtime monitoring: timed trace checker of heartbeat histories with reference timers",
 "C14": "runtime monitoring: timed trace checker of auth verdict histories with reference timers",
 "C15": "runtime monitoring: door and connection probes around Stop under every network and option mix",
 "C16": "runtime monitoring: probes of every address, mode and kept connection over stop/start histories",
 "C17": "Go race detector over a generated concurrent workload of the whole framework, with injected delays",
 "C18": "runtime monitoring: goroutine and descriptor scans attributed to the framework after each generation of connections",
 "C19": "runtime monitoring: byte-stream equality and lifecycle checker on raw servers",
 "C20": "runtime monitoring: exactly-once datagram ledger over valid and hostile datagrams",
 "C21": "runtime monitoring: wire recorder and handler monitor on TLS servers under plaintext, broken and stalled handshakes",
 "C22": "runtime monitoring: deadline matrix probes on real connections with definitive past/future instants",
 "C23": "runtime monitoring: signalled child processes whose hook log and exit status are checked",
 "C25": "runtime monitoring: progress probes of every address, connection and operation while handlers, callbacks and peers are held up",
 "C26": "runtime monitoring: recording and failing connections under the client helpers, streams judged by an independent decoder, live delivery ledger",
 "C27": "runtime monitoring: complete probes of every server of a process after each operation on another one, with background traffic",
 "C28": "runtime monitoring: fault injection into listening (unusable and taken addresses, exhausted file descriptors) with probes of everything that must be left alone",
 "C24": "runtime monitoring: peer identity reported by contexts compared with the peer's own view",
}
NOTE = {
 "C12": "Every history generated is judged; interleavings are sampled (stress plus injected delays), not enumerated.",
 "C17": "Races are reported on the executed interleavings' happens-before order; code paths not driven are not judged.",
}
DEF = "Holds on every execution observed; inputs, schedules and faults are generated and seeded, not exhausted. Trusts the Go runtime, the kernel's loopback and the harness's independent model."
LEVEL = {"C02": "fault_enumeration", "C03": "fault_enumeration"}
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: instrumentation is generated at build time through go build -overlay by tools/instrument, so the tree itself carries only fix: commits."}
for p in props:
    i = p["id"]
    if os.path.exists("%s/harness/%s.go" % (V, i.lower())):
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": LEVEL.get(i, "exploration"), "level_note": NOTE.get(i, DEF)})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
