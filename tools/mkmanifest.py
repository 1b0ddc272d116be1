#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
BUILT = set(os.environ.get("BUILT", " ".join(p["id"] for p in P)).split())
PBT = "property-based testing: "
T = {
 "C01": (PBT + "random message histories, writer-to-reader round trip against the list of messages written", "exploration"),
 "C02": (PBT + "streams from a reference RTMP sender with random compression and interleaving, compared with the messages sent", "exploration"),
 "C03": (PBT + "random message histories, emitted bytes decoded by an independent strict reference decoder", "exploration"),
 "C04": (PBT + "all basic headers, random headers with truncation and write faults, round trip and differential against a reference codec", "exploration"),
 "C05": (PBT + "stateful histories of messages and chunk-size changes against a model of the size in force", "exploration"),
 "C06": (PBT + "structured and mutation fuzzing of every parser, oracles for crash, hang, fabricated data and undisturbed prefixes", "exploration"),
 "C07": (PBT + "metamorphic relation: random segmentations of one byte stream give one outcome", "exploration"),
 "C08": (PBT + "stateful subscription and delivery histories against a model of per-stream queues", "exploration"),
 "C09": (PBT + "closing at random points of random histories, deadlock and goroutine-leak oracles", "exploration"),
 "C10": (PBT + "a scripted handshake peer with random contents and faults at every offset, model of the exchange", "exploration"),
 "C11": (PBT + "random control messages, round trip and differential against the RTMP layout", "exploration"),
 "C12": (PBT + "two-direction histories with faults and delays against a reference relay", "exploration"),
 "C13": (PBT + "write-fault injection at every byte offset of random messages; concurrent producers with contiguity oracle", "fault_enumeration"),
 "C14": (PBT + "all routes against a reference routing table; random dispatch histories", "exploration"),
 "C15": (PBT + "all control bytes and random frames against the FLV layout, round trip", "exploration"),
 "C16": (PBT + "random command and response histories against an independent AMF0 codec", "exploration"),
 "C17": (PBT + "random session scripts, model of what each side must receive", "exploration"),
 "C18": (PBT + "random connect, accept, exchange and close histories over loopback sockets against a model", "exploration"),
 "C19": (PBT + "random mixes of concurrent operations under the race detector, values read checked against values set", "exploration"),
 "C20": (PBT + "random user-supplied factories, parsers, chunkers, normalizers, readers and sequences with prescribed results and errors, compared with what is delivered, written and asked", "exploration"),
}
NOTE = ("Every case generated for the seed and tier passed the stated oracle; nothing is claimed about inputs not generated. "
        "Failures are shrunk and saved as a replay file (run.py --replay FILE). ")
X = {
 "C13": "Every byte offset of every generated message is a fault point. ",
 "C18": "Uses real sockets on loopback addresses. ",
 "C19": "Finds the races that happen in the schedules run; the race detector has no false positives. ",
}
AMF = "The module amf0 is not available offline: a stand-in written for this harness takes its place. "
checks, na = [], []
for p in P:
    i = p["id"]
    if i not in BUILT:
        na.append({"property": i, "reason": "check under construction"})
        continue
    note = NOTE + X.get(i, "")
    if i in ("C06", "C07", "C09", "C14", "C15", "C16", "C17", "C18", "C19", "C20"):
        note += AMF
    checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": T[i][1], "level_note": note.strip()})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Known findings and fixed defects: known-findings.json. See DESIGN.md."}
with open(ROOT + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
