#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (property list, fixes, seeded changes) from DESIGN.in.md."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + "/DESIGN.in.md").read()
ps = [json.loads(l) for l in open(H + "/properties.jsonl")]
na = {x["property"]: x["reason"] for x in json.load(open(H + "/MANIFEST.json"))["not_applicable"]}
how = {}
exec(open(H + "/tools/how.py").read(), how)
out = []
for p in ps:
    i = p["id"]
    out.append(f"### {i} — {p['title']}\n\n{p['statement']}\n\n" + (f"*Not applicable*: {na[i]}\n" if i in na else f"*Decided by*: {how['HOW'][i]}\n"))
t = t.replace("@@PROPS@@", "\n".join(out))
fx = [l.strip() for l in open(H + "/known_findings.jsonl") if l.startswith("fixed:")]
t = t.replace("@@FIXED@@", "\n".join("* " + l[len("fixed: property="):] for l in fx))
caught = json.load(open(H + "/tools/caught.json"))
rows = []
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(os.path.basename(os.path.dirname(d)), '?')} |")
t = t.replace("@@SEEDED@@", "| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) if rows else "(none yet)")
open(H + "/DESIGN.md", "w").write(t)
