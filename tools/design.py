#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design/*.md, MANIFEST.json, known-findings.jsonl and the descriptions of the planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(V, p)).read()
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in rd("properties.jsonl").splitlines()}
na = "\n".join(f"* **{x['property']}** ({titles[x['property']]}): {x['reason']}." for x in json.loads(rd("MANIFEST.json"))["not_applicable"])
fix = "| property | commit | what failed |\n|---|---|---|\n"
for l in rd("known-findings.jsonl").splitlines():
    k = json.loads(l)
    if k["status"] == "fixed":
        fix += f"| {k['property']} | {k['commit']} | {k['what'].split(k['commit'], 1)[1].strip()} |\n"
bugs = "| bug | property | needs | breaks | caught |\n|---|---|---|---|---|\n"
missed = set(rd("tools/design/missed.txt").split()) if os.path.exists(os.path.join(V, "tools/design/missed.txt")) else set()
n = 0
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m)); n += 1
    bugs += f"| {i} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | {'no' if i in missed else 'yes'} |\n"
count = 0
for f in glob.glob(os.path.join(V, "tools", "refactorings", "?.py")):
    g = {}
    exec(open(f).read(), g)
    count += len(g["CASES"])
t = rd("tools/design/head.md") + rd("tools/design/tail.md")
t = t.replace("NA_TABLE", na).replace("FIX_TABLE", fix.strip()).replace("BUG_TABLE", f"{n} bugs:\n\n" + bugs.strip()).replace("REF_COUNT", str(count))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
