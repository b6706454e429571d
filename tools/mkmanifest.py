#!/opt/venv/bin/python
"""Writes MANIFEST.json from the plans and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "lib"))
import plans
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.CLAIMED:
        checks.append({
            "property": i, "quick_cmd": f"./check.py {i} --tier quick", "thorough_cmd": f"./check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": plans.TECHNIQUE.get(i, "TLA+ model checked with TLC; TLC-generated behaviours replayed in the real code and validated by TLC against the specification"),
            "level": "model_checking", "level_note": plans.LEVEL_NOTE.get(i, plans.NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the drivers observe through the public interfaces and by wrapping functions at run time. fix: commits in /repo are listed in KNOWN_FINDINGS.txt."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
