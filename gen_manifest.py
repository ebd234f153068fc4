#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl (run by hand after editing them)."""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks = []
for i in ids:
    if i in PROPS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection (seeded search)",
                       "level": "exploration", "level_note": PROPS[i]["note"]})
na = [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i not in PROPS]
assert not set(PROPS) - set(ids) and not set(NOT_APPLICABLE) - set(ids)
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none (no hooks in /repo: the simulator takes over pthreads, clocks, allocation and file I/O at link time)",
               "enable": "harnesses in /verif/harness include /repo's headers and link with /verif/sim/detsim.cpp", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Replay a violation: python3 check.py --replay evidence/replay/<file>. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
