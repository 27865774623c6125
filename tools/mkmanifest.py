"""Writes MANIFEST.json from bin/plan.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from plan import PLAN, TOPICS
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PLAN:
        continue
    p = PLAN[i]
    mods = [m["module"] for m in p["mc"]]
    trs = [TOPICS[t]["module"] for t in p["topics"]]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 bin/check.py {i} --tier quick",
        "thorough_cmd": f"python3 bin/check.py {i} --tier thorough",
        "technique": "TLA+ specification model-checked with TLC (" + ", ".join(mods) + "), bound to the code by "
                     "replay of its behaviours and TLC trace validation (" + ", ".join(trs) + ")",
        "level": "model_checking",
        "level_note": p.get("note", "the specification is checked exhaustively within its constants; the code is "
                     "checked on the recorded and replayed behaviours, each of which TLC accepts or rejects as a whole"),
    })
na = [{"property": i, "reason": "the check is being built"} for i in ids if i not in PLAN]
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
