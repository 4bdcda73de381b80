#!/usr/bin/env python3
"""Assembles /verif/DESIGN.md from tools/design/*.md, MANIFEST.json, known-findings.json and seeded/*/meta.json."""
import json,glob,os
V="/verif/"
rd=lambda p:open(V+p).read().rstrip()+"\n"
out=[rd("tools/design/head.md"),rd("tools/design/props.md")]
m=json.load(open(V+"MANIFEST.json"))
out.append("## Not applicable or not built\n\n"+"\n".join(f"* **{x['property']}** {x['reason']}" for x in m["not_applicable"])+"\n")
out.append(rd("tools/design/tail.md"))
rows=[]
for f in sorted(glob.glob(V+"seeded/*/meta.json")):
    d=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |")
out.append("## Planted bugs and the checks that catch them\n\nEach is caught by the check of its property (`tools/mkseed.py` confirms build, tests, demonstration and detection).\n\n| change | caught by | what breaks | needs |\n|---|---|---|---|\n"+"\n".join(rows)+"\n")
k=json.load(open(V+"known-findings.json"))
fx=[x for x in k if x.get("status")=="fixed"]; kn=[x for x in k if x.get("status")!="fixed"]
out.append(f"## Genuine defects\n\nRepaired in /repo ({len(fx)} entries of `known-findings.json`), recorded and not repaired ({len(kn)}).\n")
open(V+"DESIGN.md","w").write("\n".join(out))
