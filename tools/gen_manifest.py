#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
codec = "bounded-exhaustive enumeration of executions of the real codec against an independent reference model of the wire format (harness/ref)"
srv = "bounded-exhaustive enumeration of event histories of the real server in a controlled environment (fake clock, stepped listener, connections and stores), compared with a reference model of the server"
T = {
 "C01": codec, "C02": codec, "C03": codec, "C04": "bounded-exhaustive enumeration of inputs (all short byte strings, all single and pair mutations and truncations of seed packets) on the real decoders with crash and hang attribution",
 "C05": "exhaustive fault enumeration: every bit-error pattern within the bounds applied to valid packets and decoded by the real code", "C06": codec, "C07": codec,
 "C08": "bounded-exhaustive enumeration of packets x stub ciphers x failure points on the real codec against a reference model",
 "C09": srv, "C10": srv, "C11": srv, "C12": "exhaustive enumeration of all segmentations (and pauses) of bounded byte streams fed to the real server, compared with a reference model",
 "C13": "stateless model checking: exhaustive event-level interleavings of connections of the real server, and preemption-bounded exhaustive statement-level schedules of the real codec under a controlled scheduler",
 "C14": srv, "C15": srv + " in virtual time", "C16": srv,
 "C17": "exhaustive fault enumeration of the real store plugins against scripted protocol servers on loopback",
 "C18": "bounded-exhaustive enumeration of configurations through the real configuration, repository and receiver code, end to end over loopback",
 "C19": "bounded-exhaustive enumeration of arguments and server answers on the real packet-gen binary over loopback",
 "C20": codec, "C21": "bounded-exhaustive enumeration of record values through the real serialiser, compared with an independent exact reader",
 "C23": "bounded-exhaustive enumeration of packet objects with values that do not fit, through the real encoders, compared with the reference's verdict", "C24": "bounded-exhaustive enumeration of sequences of contents decoded by the real code into one object, compared with decoding into a fresh one",
 "C25": "bounded-exhaustive enumeration of packets through the real JSON conversion, compared key by key with an independent reader",
 "C26": "exhaustive exploration of all bounded life cycles (initialise, save, close, broken connections) of the real store plugins against scripted protocol servers on loopback",
 "C27": "bounded-exhaustive enumeration of packets, sections and damaged packets through the real codec from and into lent memory, with every byte of that memory compared afterwards",
 "C22": "bounded-exhaustive enumeration of malformed packets, checked by an independent staged reference decoder, through the real codec and server",
}
note = {
 "codec": "Every execution inside the stated finite spaces is run on the real code built from /repo's working tree; nothing is said about values outside the spaces. Trusts the reference codec in harness/ref (written from the standard) and the Go toolchain.",
 "srv": "Every history inside the stated bounds is run on the real server.Run/handleConn; listener, connections, clock and stores are stand-ins (only net.Listen is redirected through a toolchain overlay). Trusts the reference model in harness/srv/model.go, the stand-ins, and testing/synctest.",
 "proc": "Real binaries or plugins against scripted peers on loopback; every script in the bounds is executed; a violation is reported only if it reproduces in every replay. Trusts the scripted peers to speak their protocol.",
}
kind = {c: "codec" for c in T}
for c in "C09 C10 C11 C12 C13 C14 C15 C16 C22".split(): kind[c] = "srv"
for c in "C17 C18 C19 C26".split(): kind[c] = "proc"
NA = {}
for l in open(os.path.join(os.path.dirname(__file__), "not_yet.txt")) if os.path.exists(os.path.join(os.path.dirname(__file__), "not_yet.txt")) else []:
    k, v = l.strip().split(" ", 1); NA[k] = v
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "check.sh ID quick|thorough builds from /repo's working tree; check.sh ID replay FILE shows a recorded violation. /repo needs no hooks; its commits are fix: commits only (KNOWN_FINDINGS.txt)."}
for c in sorted(T):
    if c in NA: continue
    m["checks"].append({"property": c, "quick_cmd": f"./check.sh {c} quick", "thorough_cmd": f"./check.sh {c} thorough", "evidence_file": f"evidence/{c}.json",
        "technique": T[c], "level": "model_checking", "level_note": note[kind[c]]})
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "a").write("\n")
