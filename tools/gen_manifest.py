"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "default": "runtime monitoring: the real code runs under generated hostile workloads while an oracle compares what it observes with a model of the property",
 "C01": "runtime monitoring of a live application: online exact-model checker over stepwise histories, offline conservation checker over recorded concurrent histories",
 "C02": "runtime monitoring with injected signals and failures: conservation checker over recorded histories across orderly stops and restarts",
 "C03": "runtime monitoring with SIGKILL injected at random moments and at chosen database statements and commits: loss-bound checker over recorded histories",
 "C04": "runtime monitoring: every return value of the real queue compared online with a reference list, over generated histories with reopening",
 "C05": "runtime monitoring: overlap and order checkers over handler events, online (stepwise) and offline (recorded concurrent histories)",
 "C06": "runtime monitoring: attempt counting against the retry limit, online model and offline history checker",
 "C07": "runtime monitoring: online exact-model checker over histories of pauses, requests and operator actions",
 "C08": "runtime monitoring: online exact-model checker of the error queues over histories of operator actions",
 "C09": "runtime monitoring: senders of a live application against a fault-scripted target; delivery, retry and order checkers",
 "C10": "runtime monitoring: exactly-one-own-response checker over concurrent pipelined connections with byte-level fragmentation",
 "C11": "runtime monitoring: generated malformed and hostile requests on all transports, status oracle, liveness probe after each",
 "C12": "runtime monitoring: clients on a controlled event loop against fault-scripted servers; correlation checker",
 "C13": "runtime monitoring: clients on a controlled event loop against fault-scripted servers; attempt, delay and exception checker",
 "C14": "runtime monitoring: span-key context and log records of concurrent requests checked against the requests that caused them",
 "C15": "runtime monitoring: trace checker of middleware events against handler events, messages and metadata",
 "C16": "runtime monitoring: statistics of a live application on a virtual clock compared with independently computed ones",
 "C17": "runtime monitoring: log files of concurrent, rotating, interrupted runs checked record by record",
 "C18": "runtime monitoring: the shipper (AddressSanitizer, UndefinedBehaviorSanitizer build) against scripted log files and a fault-scripted collector; delivery checker",
 "C19": "runtime monitoring: the shipper (AddressSanitizer, UndefinedBehaviorSanitizer build) fed with generated records; fidelity oracle on what the collector receives",
 "C20": "runtime monitoring: real start-ups under generated environments, files and arguments compared with a precedence model",
 "C21": "runtime monitoring: concurrent starts, kills and hostile lock files; at-most-one-running and always-startable oracle",
 "C22": "runtime monitoring: return values compared online with a reference cache over generated histories",
 "C23": "runtime monitoring: round-trip, order-freedom and rejection oracles over generated span keys and texts",
 "C24": "runtime monitoring: the exporter application against fake services and a fake Pushgateway; pushed text compared with the statistics served",
 "C25": "runtime monitoring: an instrumented application against a fake OTLP collector; exported spans compared with the requests made",
 "C26": "runtime monitoring: error states compared online with a counter model over generated histories",
 "C27": "runtime monitoring: the command-line tools run against a recording server; requests sent and output compared with what was asked for",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick checks/run {i}", "thorough_cmd": f"VERIF_TIER=thorough checks/run {i}",
                       "technique": TECH.get(i, TECH["default"]), "level": "exploration",
                       "level_note": "held on every execution explored; no claim beyond them"})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "tools/setup", "checks": checks, "not_applicable": na,
     "notes": "Run from /verif. Checks import and run the code of /repo's working tree; the log shipper is built from it into a scratch directory on each run. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "without")
