#!/opt/venv/bin/python
"""DESIGN.md = tools/design.md + tables of findings and planted bugs."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = lambda *a: os.path.join(R, *a)
out = [open(J("tools", "design.md")).read(), "## Genuine defects found and repaired (KNOWN_FINDINGS.txt)\n", "| property | commit | what failed |", "|---|---|---|"]
for l in open(J("KNOWN_FINDINGS.txt")):
    if l.startswith("fixed:"):
        _, p, h, w = l.strip().split(" ", 3)
        out.append(f"| {p[9:]} | {h} | {w} |")
caught = json.load(open(J("tools", "caught.json")))
out += ["", "## Planted bugs (seeded/) and the checks that catch them", "",
        "Quick tier, seed 1.  Each was written from the text of its property and the code; the demonstration is independent of the checks.", "",
        "| bug | property | manifests with | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(J("seeded", "*", "meta.json"))):
    i, d = m.split("/")[-2], json.load(open(m))
    out.append(f"| {i} | {d['property']} | {d['needs']} | {', '.join(caught.get(i, [])) or 'not measured'} |")
open(J("DESIGN.md"), "w").write("\n".join(out) + "\n" + open(J("tools", "design_tail.md")).read())
