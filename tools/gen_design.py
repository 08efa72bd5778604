#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between <!-- name --> and <!-- /name -->) from known_findings.json
and from the meta.json and `caught` notes of seeded/ (run by hand; no check uses it)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fill(text, name, body):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + body + m.group(2), text, flags=re.S)


fixes = ""
for f in json.load(open(V + "/known_findings.json"))["findings"]:
    if f["status"] == "fixed":
        m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", f["what"])
        fixes += "* %s (`%s`): %s\n" % m.groups()
seeds = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
res = json.load(open(V + "/tools/seed_results.json")) if os.path.exists(V + "/tools/seed_results.json") else {}
for s in sorted(os.listdir(V + "/seeded")):
    p = V + "/seeded/" + s + "/meta.json"
    if os.path.exists(p):
        m = json.load(open(p))
        seeds += "| %s | %s | %s | %s |\n" % (s, m["property"], m["needs"].replace("|", "/"), res.get(s, "not run yet"))
p = V + "/DESIGN.md"
t = open(p).read()
t = fill(fill(t, "fixes", fixes), "seeds", seeds)
open(p, "w").write(t)
