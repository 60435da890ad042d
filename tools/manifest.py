"""Rewrite MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
import notes
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(here, "checks", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": "./check %s --tier quick" % pid,
            "thorough_cmd": "./check %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "model checking: " + notes.T[pid],
            "level": "model_checking",
            "level_note": "Every execution in the stated bounded space was run on the real code and compared with an independent reference model; nothing is claimed outside the alphabets and bounds listed in DESIGN.md." + (" Left unjudged: " + notes.N[pid] if pid in notes.N else ""),
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness drives the public API only. ./check <id> [--tier quick|thorough] [--replay FILE]."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
