#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "C01": "sanitizer-monitored (ASan+UBSan, red-zoned arena) execution of generated hostile programs, with state invariant monitors",
    "C02": "sanitizer-monitored translation of generated and mutated source texts in exactly sized buffers",
    "C22": "ThreadSanitizer and an exactly-once/order monitor over concurrent producer, timer and program threads",
    "C35": "the real main() and its two threads run (ASan+UBSan build) on a scripted software window; monitor compares what the running program reports with a model of the window events, with a watchdog on shutdown",
    "C38": "resource monitor: sanitizer heap counter, wrapped block allocator and descriptor count of the ASan+UBSan build compared between repetitions of the same work",
    "C33": "per-dot monitor of every frame the real PC display draws (ASan+UBSan build) onto a software stand-in for CSFML which runs the real fragment shader",
}
DEF = "runtime monitoring: Python reference model judging recorded executions of the ASan+UBSan-instrumented interpreter"
NOTE = ("Held on every execution explored (generated by a seeded generator, judged by an independent reference model); says nothing about "
        "inputs not generated. Trusts the reference model, the driver and the compiler's sanitizers.")
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, DEF), "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness links /repo's sources unchanged and observes public state; arena red zones come from the linker's --wrap. /repo carries only fix: commits."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
