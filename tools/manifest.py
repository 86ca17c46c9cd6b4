"""Writes MANIFEST.json from plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN

m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "The checks need no hooks: they drive /repo's exported API and the xgotext binary from a separate Go module.", "source_commits": []},
    "checks": [], "not_applicable": [],
}
for pid, s in sorted(PLAN.items()):
    m["checks"].append({
        "property": pid,
        "quick_cmd": "./check.sh " + pid,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": s["technique"],
        "level": "exploration",
        "level_note": s["note"],
    })
for line in open(os.path.join(HERE, "..", "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid not in PLAN:
        m["not_applicable"].append({"property": pid, "reason": "Not built yet: the check for this property is still being written."})
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
