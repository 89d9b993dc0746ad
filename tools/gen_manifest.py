#!/usr/bin/env python3
# writes /verif/MANIFEST.json: one check per rule of the checker
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "path-sensitive abstract interpretation of the Go SSA form to a fixpoint"
checks = {
 "C01": (AI + "; JSON encode/decode summaries compared with the published schemas", "Every path of every encoder and decoder of the message types, for every value; trusts the model of encoding/json."),
 "C02": (AI + "; the written byte terms are parsed as JSON templates", "Every path of every encoder, for every value; trusts the model of encoding/json."),
 "C03": (AI + "; accepting paths must have required every property and seen every decode succeed", "Every path of every decoder, for every payload; trusts the model of encoding/json."),
 "C04": (AI + "; omitempty/optional analysis of the written templates", "Every path of every encoder with unset optional fields."),
 "C05": (AI + "; name/type tables of all paths compared with the OCPP operations", "Every path of the action tables, for every action name."),
 "C06": (AI + "; element/type pairs of the body decoder compared with the WSDL", "Every path of the body decoder over an arbitrary token stream; known findings are listed in known_findings.txt."),
 "C07": ("type-level comparison of the XML field declarations with the WSDL", "All declarations of all message types; known findings are listed in known_findings.txt."),
 "C08": (AI + "; panic obligations with the provenance of the value", "Every path from received bytes, all inputs; trusts that the models of library calls do not panic."),
 "C09": (AI + " with a typestate monitor: answers per received call", "Compositional: reading of a frame, session loops, reply; every path of each part."),
 "C10": (AI + " with a typestate monitor of the pending-request tables", "Every path of sending and of reading, with other goroutines changing shared tables whenever the lock is taken."),
 "C11": (AI + " with a typestate monitor of the pending-request tables and wait alternatives", "Every path of sending a request; an operation ends if each of its waits has a timer or a close alternative."),
 "C12": ("blocking-operation analysis on " + AI, "Every channel operation reachable from a goroutine that reads a connection is classified."),
 "C13": ("lockset analysis of the WebSocket write sites on " + AI, "Every path to every write of the underlying connection."),
 "C14": ("lockset analysis with ownership (thread escape) on " + AI, "Every access to a field or map that several goroutines can reach, on every path."),
 "C15": ("lock typestate and lock-order analysis on " + AI, "Every path that takes a lock."),
 "C16": (AI + " with a typestate monitor of one session", "Every path of the session goroutine with arbitrary results of network and handler."),
 "C17": ("closed-world abstract interpretation of interleaved sessions of one identity to a fixpoint", "Up to three sessions, all interleavings at lock and channel operations."),
 "C18": ("closed-world abstract interpretation of interleaved sessions and waiters to a fixpoint", "Up to three sessions, all interleavings at lock and channel operations."),
 "C19": (AI + " with a monitor of handler arguments and results", "Every path from a received request to the reply, on each transport."),
 "C20": (AI + "; result terms per version and transport", "Every path of the constructors, followed through the returned service's Send."),
 "C21": (AI + " of the charge point's goroutine with an environment-driven select", "Every path of the reconnect loop to a fixpoint."),
 "C22": (AI + " of the charge point's goroutines with cancellation at every point", "Every path after the context was cancelled."),
 "C23": (AI + " with a monitor of the response writer; XML paths of Fault text compared", "Every path of the SOAP server."),
 "C24": (AI + " with a monitor of the HTTP exchange", "Every path of the SOAP client call."),
 "C25": (AI + "; exactly one of response and error on every return", "Every path of every typed send."),
 "C26": (AI + "; frame terms compared with the OCPP-J layout", "Every path that builds or reads a frame."),
 "C27": ("format-string provenance and nil-logger analysis on " + AI, "Every call of the logger and every path of the log package."),
 "C28": (AI + "; subprotocol, URL and path terms", "Every path of dial and upgrade."),
 "C30": (AI + " with a taint on generic JSON decodes; exactness of numeric encodings", "Every path of the reader, of both sends and of every JSON encoder and decoder with numeric fields."),
 "C29": (AI + " with a typestate monitor of reader, hand-over and handler", "Every path of the session loops and the reader."),
}
na = {
 "C31": "a bound on elapsed real time after an event in the environment; the retry interval is a timer value, scheduling and dial time are not in the source",
 "C32": "a statement about crash points of two processes and the network between them; the source of one side does not determine it, and the library keeps no persistent state",
}
go = open(os.path.join(here, "checker", "main.go")).read()
have = set()
d = os.path.join(here, "checker")
for f in os.listdir(d):
    if f.endswith(".go"):
        have |= set(re.findall(r'rules\["(C\d+)"\] = ', open(os.path.join(d, f)).read()))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for i in ids:
    if i in have:
        t, n = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i, "technique": "static analysis: " + t, "level": "other", "level_note": n + " Code the analysis cannot decide is reported as a violation."})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "the static check for this property is not built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
