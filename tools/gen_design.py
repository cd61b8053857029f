#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl.md, props.json and seeded/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + "/props.json"))
T = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
out = []
used, owned = set(), set()
for p in sorted(P):
    c = P[p]
    out.append(f"**{p} — {T[p]}.** Level `{c['level']}`.")
    if c.get("targets"):
        by = {}
        for t in c["targets"]:
            m, k = t.split("::", 1)
            by.setdefault(m, []).append(k)
        out.append("Discharged functions: " + "; ".join(f"`{m}`: " + ", ".join(k) for m, k in by.items()) + ".")
    out.append(c["note"])
    if c.get("bounded"):
        out.append("Bounded stand-in: " + c["bounded"])
    if c.get("why_bounded"):
        out.append("Why not (all) by proof: " + c["why_bounded"])
    out.append("")
seeds = ["| seed | property | breaks | needs |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    d = json.load(open(f"{V}/seeded/{s}/meta.json"))
    seeds.append(f"| {s} | {d['property']} | {d['what_it_breaks']} | {d['needs']} |".replace("\n", " "))
t = open(V + "/tools/design.tmpl.md").read()
open(V + "/DESIGN.md", "w").write(t.replace("@@TABLE@@", "\n".join(out).rstrip()).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@EXC@@", open(V + "/tools/seeds/exceptions.txt").read().strip()))
