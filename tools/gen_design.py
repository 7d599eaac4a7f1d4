#!/usr/bin/env python3
"""DESIGN.md = tools/design/*.md + tables of findings and planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = [open(f).read().rstrip() for f in sorted(glob.glob(V + "/tools/design/[1-5]*.md"))]
fx, kn = [], []
for l in open(V + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m: fx.append(m.groups())
    m = re.match(r"known: property=(\w+) (\S+) :: (.*)", l)
    if m: kn.append(m.groups())
t = ["## 3. Genuine defects found", "", "### Repaired (`fix:` commits in /repo)", "", "| property | commit | what failed |", "|---|---|---|"] + [f"| {a} | {b} | {c.replace('|', chr(92) + '|')} |" for a, b, c in fx]
t += ["", "### Recorded, not repaired (`known_findings.txt`)", "", "| property | key | what fails |", "|---|---|---|"] + [f"| {a} | {b} | {c} |" for a, b, c in kn]
o.append("\n".join(t))
c = json.load(open(V + "/tools/design/caught.json")) if os.path.exists(V + "/tools/design/caught.json") else {}
t = ["## 4. Planted bugs (`seeded/`)", "", "Every one builds, passes the stable tests and is told apart by its demonstration. The check named is the property's quick check; the last column is the first failing space it reports.", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]; m = json.load(open(d)); t.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | {c.get(i, '?')} |")
o.append("\n".join(t))
o += [open(f).read().rstrip() for f in sorted(glob.glob(V + "/tools/design/[6-9]*.md"))]
open(V + "/DESIGN.md", "w").write("\n\n".join(o) + "\n")
