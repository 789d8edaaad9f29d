#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness, the rest under not_applicable."""
import json, glob, os
H = os.path.dirname(os.path.abspath(__file__)) + "/.."
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
notes = {}
exec(open(H + "/tools/level_notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob(H + "/harness/%s_*.cxx" % i.lower()):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
            technique="stateless model checking: exhaustive enumeration of bounded %s executed on the real code, compared step by step with a reference model" % NOTES[i][0],
            level="model_checking", level_note=NOTES[i][1]))
    else: na.append(dict(property=i, reason=NA.get(i, "not yet covered: no harness has been built for it")))
m = dict(version=1, setup_cmd="python3 -c \"print('checks compile their harnesses themselves')\"", checks=checks, not_applicable=na,
    notes="All checks compile /verif/harness/<id>_*.cxx against /repo/include at the time of the run. No hooks in /repo.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
