#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present and tools/notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C18": ("ASan/UBSan runtime monitoring of hostile and mutated programs",
         "Every run is the real interpreter under AddressSanitizer and UndefinedBehaviorSanitizer; detects violations on the executions made, not their absence elsewhere. pointer-overflow, alignment and function-type groups are off."),
}
try:
    T.update(json.load(open(os.path.join(V, "tools", "techniques.json"))))
except OSError:
    pass
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    if i in T and os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i,
                       "thorough_cmd": "python3 run.py %s --thorough" % i,
                       "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "No hooks: the unmodified sources of /repo are compiled out of tree with sanitizers and linked with harnesses; malloc family is wrapped at link time.", "source_commits": []},
     "notes": "See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
