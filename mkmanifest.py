#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json
from plan import PLAN, NOTE, NOT_APPLICABLE, TITLE
checks = []
for pid in TITLE:
    if pid in PLAN:
        checks.append({
            "property": pid,
            "quick_cmd": "python3 verify.py %s --tier quick" % pid,
            "thorough_cmd": "python3 verify.py %s --tier thorough" % pid,
            "technique": "TLA+ specification checked with TLC; its behaviours replayed into the code and recorded behaviour validated against it",
            "level": "model_checking",
            "level_note": NOTE.get(pid, NOTE["*"]),
        })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": NOT_APPLICABLE[p]} for p in TITLE if p not in PLAN],
     "notes": "No hooks are needed in /repo: the public API shows the abstract state. KNOWN_FINDINGS.txt lists the repaired defects."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
