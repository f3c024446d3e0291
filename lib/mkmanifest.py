#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks  # noqa: E402
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {"version": 1, "setup_cmd": "python3 lib/selftest.py", "checks": [], "not_applicable": []}
for line in open(V + "/properties.jsonl"):
    i = json.loads(line)["id"]
    if i in checks.CHECKS:
        tech, note = checks.META[i]
        out["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                              "technique": tech, "level": "exploration", "level_note": note})
    else:
        out["not_applicable"].append({"property": i, "reason": "no check built yet"})
out["notes"] = "No hooks in /repo are needed: every monitor observes the public API, memory protection, interposed libc calls or sanitizers."
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
