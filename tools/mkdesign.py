#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, the level notes, the harnesses, MANIFEST.json and the planted bugs."""
import json, glob, os, re
H = os.path.dirname(os.path.abspath(__file__)) + "/.."
exec(open(H + "/tools/level_notes.py").read()); exec(open(H + "/tools/design_text.py").read())
props = [json.loads(l) for l in open(H + "/properties.jsonl")]; man = json.load(open(H + "/MANIFEST.json")); claimed = {c["property"] for c in man["checks"]}
out = [HEAD, "## Properties\n"]
for p in props:
    i = p["id"]; out.append("### %s %s\n" % (i, p["title"]))
    if i not in claimed: out.append("Not claimed: %s\n" % [n["reason"] for n in man["not_applicable"] if n["property"] == i][0]); continue
    sc = [s for f in sorted(glob.glob(H + "/harness/%s_*.cxx" % i.lower())) for s in re.findall(r'MC_SCENARIO\("([^"]*)"', open(f).read())]
    out.append("* Enumerated: %s. %s" % (NOTES[i][0], NOTES[i][1])); out.append("* Compared with: %s." % ORACLE[i])
    out.append("* Scenarios: %s." % ", ".join(sc))
    d = EXTRA.get(i) if "EXTRA" in globals() else None
    if d: out.append("* " + d)
    out.append("")
out.append(CORRECTIONS)
out.append("\n## Planted bugs\n\nEach was written from the text of a property and the code, confirmed to build and to pass the stable tests, and has a demonstration\nthat fails with it. 'caught' names the check that reports it.\n")
out.append("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d)); out.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), CAUGHT.get(n, m["property"]) if "CAUGHT" in globals() else m["property"]))
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
