#!/usr/bin/env python3
"""writes MANIFEST.json from budgets.json and properties.jsonl"""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
B = json.load(open(H + "/budgets.json"))
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
NOTE = ("Searches generated programs and generated schedules of the real library code (built from /repo's sources); evidence counts them. "
        "Shows absence only for what was explored. Trusts rt/xs.cpp (scheduler, virtual clock, modelled system calls) and the oracle in props/%s.cpp; "
        "interleavings are sequentially consistent at the granularity of synchronisation operations (sampled at plain accesses), weak memory is covered by happens-before race detection.")
QT = ("Searches generated programs and generated schedules of the Qt backend on the real Qt event loop and thread pool; happens-before race detection is off because Qt itself is not instrumented. "
      "Trusts rt/xs.cpp and the oracle in props/%s.cpp.")
m = {"version": 1, "setup_cmd": "python3 check.py all",
     "checks": [], "not_applicable": [],
     "notes": "check.py builds /repo's sources and the property's module into build/, runs generated cases under the controlled scheduler of rt/, shrinks failures and writes replays/. "
              "No hooks are needed in /repo. Replay: python3 check.py <ID> --replay <path>."}
for p in P:
    i = p["id"]
    if i in B:
        b = B[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": b.get("technique", "property-based testing: generated programs and schedules on a controlled scheduler, shrinking, executable oracle"),
                            "level": "exploration", "level_note": (QT if b["variant"] == "qt" else NOTE) % b["module"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: the check is being built"})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
