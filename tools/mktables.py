"""Rewrites the tables at the end of DESIGN.md: repaired defects and planted bugs."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- tables -->\n"
t = open(V + "/DESIGN.md").read().split(MARK)[0]
out = [MARK, "## Defects found and repaired\n\nEach was shown by its check on the original tree; the check passes on the repaired tree and reports\n"
       "it again if it returns. No finding is left open (`known_findings.json`: `findings` is empty).\n\n| commit | properties | what failed |\n|---|---|---|\n"]
fixed = {}
for x in json.load(open(V + "/known_findings.json"))["fixed"]:
    _, p, c, *w = x.split(" ")
    fixed.setdefault((c, " ".join(w)), []).append(p.split("=")[1])
out += [f"| {c} | {', '.join(p)} | {w} |\n" for (c, w), p in fixed.items()]
missed = json.load(open(V + "/tools/missed_first.json"))
out += ["\n## Planted bugs\n\nEvery one is caught by the quick check of its property. The last column says what had to be added when it was\n"
        "missed at first.\n\n| change | property | shows only with | strengthened |\n|---|---|---|---|\n"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    out.append(f"| {i} | {m['property']} | {m['needs']} | {missed.get(i, '')} |\n")
open(V + "/DESIGN.md", "w").write(t + "".join(out))
