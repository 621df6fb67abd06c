#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl: fills in the number of repairs, the planted bugs and the other findings."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.tmpl").read()
MISSED = {"c03-cpow": "missed at first: complex powers were only run with integer exponents >= 0; negative ones added",
          "c08-builtin-middle": "missed at first: redefinitions were used in the same routine only; nested uses added",
          "c14-leading-zeros": "missed at first: texts were too short; leading zeros added",
          "c16-subrange-skip": "missed at first: index variables had the declared type; shifted subranges added"}
MISSED.update(json.load(open(V + "/tools/missed.json")) if os.path.exists(V + "/tools/missed.json") else {})
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s (%s): %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), MISSED.get(i, "caught at once")))
k = open(V + "/known_findings.txt").read()
fx = re.findall(r"^fixed: property=(\S+) (\S+)", k, re.M)
t = t.replace("@@NFIX@@", str(len(set(h for _, h in fx)))).replace("@@SEEDS@@", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
