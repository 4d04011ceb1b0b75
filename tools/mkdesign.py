#!/usr/bin/env python3
"""Development tool: DESIGN.md = its general part + design_sections.md + tables of findings and planted bugs (results: seedrun log)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "\n<!-- generated below by tools/mkdesign.py -->\n"
head = open(V + "/DESIGN.md").read().split(MARK)[0].rstrip("\n") + "\n"
out = [open(V + "/tools/design_sections.md").read()]
out.append("\n## Defects found in scikit-multiflow\n\nKnown, not repaired (each is pinned by a stored expectation of the tests, or its repair would change documented results):\n\n")
K = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
for k in sorted((k for k in K if k["status"] == "known"), key=lambda k: k["id"]):
    out.append("- %s (%s): %s\n" % (k["id"], k["property"], k["what"]))
out.append("\nRepaired by `fix:` commits in /repo:\n\n")
for k in K:
    if k["status"] == "fixed":
        out.append("- %s (%s) %s %s\n" % (k["id"], k["property"], k["commit"], k["what"].replace(" (before this commit it did not)", "")))
out.append("\n## Planted bugs and the checks that catch them\n\n| id | property | needs | caught |\n|---|---|---|---|\n")
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for a in sys.argv[1:]:
    for l in open(a):
        m = re.match(r"(\S+) (C\d\d) (caught|MISSED)(?: rc=\d+)? ?(.*)", l)
        if m:
            w = re.findall(r"x (\w+ [^:'\"]+: [^'\"]+)", m.group(4))
            res[m.group(1)] = [m.group(3), w[0] if w else ""]
json.dump(res, open(V + "/tools/seed_results.json", "w"), indent=0, sort_keys=True)
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    r = res.get(i, ["?", ""])
    out.append("| %s | %s | %s | %s %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), r[0], ("(" + r[1].strip() + ")") if r[1] else ""))
open(V + "/DESIGN.md", "w").write(head + MARK + "".join(out))
