"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    f = "checks/%s.py" % pid.lower()
    if os.path.exists(os.path.join(V, f)):
        checks.append({"property": pid, "quick_cmd": "python3 %s quick" % f, "thorough_cmd": "python3 %s thorough" % f,
          "technique": "TLA+ specification checked with TLC; traces recorded from the real code validated against it",
          "level": "model_checking", "level_note": NOTES.get(pid, NOTES["default"])})
    else:
        na.append({"property": pid, "reason": NOTES.get("na-" + pid, "the specification and its binding are not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
  "hooks": {"guard": "none", "enable": "no hooks are needed: every observation is made through the public interface", "source_commits": []},
  "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
