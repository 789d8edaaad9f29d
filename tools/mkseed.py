#!/usr/bin/env python3
"""Plant a bug: mkseed.py SPEC.py [--nocheck].  SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, demo (C++ source), and optionally flags.
Writes seeded/<id>/, runs the demonstration on the unchanged and changed tree and the property's check on the changed tree (in a scratch worktree)."""
import sys, os, subprocess, json, shutil, hashlib
REPO = os.environ.get("OPENGM_REPO", "/repo")
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
W = "/tmp/seedwt_%d" % os.getpid()
subprocess.check_call(["git", "-C", REPO, "worktree", "add", "-q", "--detach", W, "HEAD"])
try:
    for f, old, new in ns["edits"]:
        p = W + "/" + f; s = open(p, newline="").read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", W, "diff"])
    D = H + "/seeded/" + ns["id"]; os.makedirs(D, exist_ok=True)
    open(D + "/patch.diff", "wb").write(diff)
    open(D + "/demo.cxx", "w").write(ns["demo"].lstrip())
    fl = ns.get("flags", "")
    open(D + "/demo.sh", "w").write("""#!/bin/bash
# run in the root of the repository; 0 on the unchanged tree
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
g++ -std=gnu++17 -O1 -w -I include %s "$d/demo.cxx" -o "$t/demo" %s || exit 2
cd "$t" && timeout 100 ./demo
""" % (fl, ns.get("libs", "")))
    json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(D + "/meta.json", "w"), indent=1)
    for name, tree in (("unchanged", REPO), ("changed", W)):
        r = subprocess.run(["bash", D + "/demo.sh"], cwd=tree, capture_output=True, text=True); print(name, "demo rc", r.returncode, (r.stdout + r.stderr)[-300:].strip())
    if "--nocheck" not in sys.argv:
        r = subprocess.run([sys.executable, H + "/check.py", ns["prop"]], cwd=H, capture_output=True, text=True, env=dict(os.environ, OPENGM_REPO=W)); print("check rc", r.returncode); print("\n".join(l for l in r.stdout.split("\n") if "VIOLATION" in l or "what" in l)[:600])
finally:
    subprocess.call(["git", "-C", REPO, "worktree", "remove", "--force", W])
