"""Writes MANIFEST.json from jobs.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from jobs import JOBS, NA
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in props.P]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 lib/check.py %s quick" % i, "thorough_cmd": "python3 lib/check.py %s thorough" % i,
                 "technique": JOBS[i]["technique"], "level": "exploration", "level_note": JOBS[i]["note"]} for i in ids if i in JOBS],
     "not_applicable": [{"property": i, "reason": NA.get(i, "the monitor for this property is not built yet")} for i in ids if i not in JOBS],
     "notes": "No hooks are needed in /repo: all monitors observe the public API, sanitizers and interposed library calls. fix: commits and known findings are listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
