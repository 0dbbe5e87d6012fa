#!/usr/bin/env python3
"""writes DESIGN.md: head, one section per property (hand written reasons + the rules that the checks register), tail"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = {}
for l in open(V + "/gen/design_why.txt"):
    if l[:1] == "C" and l[3:4] == ":":
        k = l[:3]
        W[k] = l[4:].strip()
    elif l.strip():
        W[k] += " " + l.strip()
out = [open(V + "/gen/design_head.md").read()]
na = {"C50", "C51", "C52", "C53"}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in na:
        continue
    out.append("\n### %s %s\n\n%s\n\n" % (i, p["title"], W.get(i, "")))
    try:
        d = json.load(open(V + "/evidence/%s.json" % i))["coverage"]
        for r, x in d["obligations_by_rule"].items():
            out.append("* `%s`: %s\n" % (r, x["rule"]))
        fs = sorted({f.split("<")[0].replace("prometheus::", "") for f in d.get("functions", []) if f.startswith("prometheus::")})
    except OSError:
        pass
rows = ["| planted bug | property | what it needs to show | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d.get("caught_by", d["property"])))
out.append(open(V + "/gen/design_tail.md").read().replace("SEEDTABLE", "\n".join(rows)))
open(V + "/DESIGN.md", "w").write("".join(out))
