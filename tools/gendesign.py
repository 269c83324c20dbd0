#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.head.md, properties.jsonl, the checks, the mutants and the seeds."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = {c["property"]: c for c in json.load(open(root + "/MANIFEST.json"))["checks"]}
bug, ok = {}, {}
for f in sorted(glob.glob(root + "/mutants/*.mut")):
    for line in open(f):
        m = re.match(r"=== (\S+) \| ([^|]*) \| (bug|ok)", line)
        if m:
            for p in re.findall(r"C\d\d", m.group(2)):
                (bug if m.group(3) == "bug" else ok).setdefault(p, []).append(m.group(1))
seeds = {}
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    seeds.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
known = json.load(open(root + "/known-findings.json"))
out = [open(root + "/tools/DESIGN.head.md").read()]
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    c = man.get(i)
    out.append(f"### {i} {p['title']}\n\n")
    if not c:
        out.append("Not claimed, see not_applicable in MANIFEST.json.\n\n")
        continue
    out.append(f"*Decided by:* {c['technique']}.\n\n*Analysed:* {c['level_note']}\n\n")
    out.append(f"*Quantifier:* {p['quantifier']['text']}. *Beyond tests:* {p['why_tests_cant']}\n\n")
    out.append(f"*Tested with:* caught {len(bug.get(i, []))}, quiet {len(ok.get(i, []))} variants.")
    if seeds.get(i):
        out.append(" Seeds caught: " + ", ".join(seeds[i]) + ".")
    fx = [x.split(" ", 3)[2] for x in known["fixed"] if f"property={i} " in x]
    if fx:
        out.append(" Found and repaired: " + ", ".join(fx) + ".")
    out.append("\n\n")
open(root + "/DESIGN.md", "w").write("".join(out))
