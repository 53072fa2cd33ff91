"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = json.load(open(R + "/harness/rules.json"))
checks, na = [], []
for line in open(R + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    r = rules.get(i, {})
    if os.path.exists(R + "/harness/checks/%s.py" % i.lower()) and r:
        checks.append({"property": i, "quick_cmd": "python3 harness/main.py %s --tier quick" % i, "thorough_cmd": "python3 harness/main.py %s --tier thorough" % i,
                       "technique": r["technique"], "level": "exploration", "level_note": r["level_note"]})
    else:
        na.append({"property": i, "reason": "check not built yet (property-based testing applies)"})
json.dump({"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na}, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
