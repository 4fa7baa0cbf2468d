#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then one section per property from
properties.jsonl, `mc list -v`, known-findings.jsonl, tools/oracles.py and the seeds table."""
import json, os, subprocess, glob, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
props = [json.loads(l) for l in open("properties.jsonl")]
man = json.load(open("MANIFEST.json"))
checks = {c["property"]: c for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
lst = {p["ID"]: p for p in json.loads(subprocess.run(["build/mc", "list", "-v"], stdout=subprocess.PIPE, check=True).stdout)}
kf = [json.loads(l) for l in open("known-findings.jsonl") if l.strip()]
ORACLE = {}; COST = {}; CAUGHT = {}
exec(open("tools/oracles.py").read())
out = [open("tools/design_head.md").read().rstrip(), "", "## The properties", ""]
for p in props:
    i = p["id"]
    out += [f"### {i}: {p['title']}", ""]
    if i not in checks:
        out += [f"Not applicable: {na[i]}", ""]
        continue
    c = checks[i]
    out += [p["statement"], "", f"*Technique.* {c['technique']}.", ""]
    L = lst[i]
    out += [f"*Enumerated.* {L['Rule']}.", ""]
    for h in L["Harnesses"]:
        b = ""
        if h["Quick"] or h["Thorough"]:
            b = f" (deviation bound quick {h['Quick']}, thorough {h['Thorough']})"
        if h["ThoroughOnly"]:
            b += " (thorough only)"
        out.append(f"* `{h['Name']}`{b}: {h['Doc']}")
    out.append("")
    out += [f"*Oracle.* {ORACLE[i]}", ""]
    if L["Assumptions"]:
        out += ["*Assumes.* " + "; ".join(L["Assumptions"]) + ".", ""]
    out += [f"*What the tests cannot reach.* {p['why_tests_cant']}", ""]
    if i in COST: out += [f"*Cost.* quick about {COST[i]} s on 8 cores including the build; thorough up to 780 s (then it reports how far it got).", ""]
    ks = [k for k in kf if k["property"] == i]
    if ks:
        out.append("*Defects this found.*")
        out.append("")
        for k in ks:
            if k["status"] == "fixed":
                out.append("* " + k["what"].replace(f"fixed: property={i} ", "fixed in ") )
            else:
                out.append(f"* known finding (signature `{k['sig']}`): {k['what']}")
        out.append("")
out += ["## Planted bugs", "", "Each is in seeded/ID (patch, demonstration, what it needs). Every check runs its quick tier.", "",
  "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f)); s = f.split("/")[1]
    out.append(f"| {s} | {m['property']} | {m['needs']} | {CAUGHT.get(s, m['property'])} |")
out += ["", open("tools/design_tail.md").read().rstrip(), ""]
open("DESIGN.md", "w").write("\n".join(out))
