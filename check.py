#!/usr/bin/env python3
"""check.py ID [--thorough] [--only SUBSTR] [--replay FILE] [--keep]
Builds /verif/harness/<id>_*.cxx against the current /repo tree, explores every scenario exhaustively
within its bounds, writes evidence/<ID>.json and prints VIOLATION / KNOWN-FINDING lines.
exit 0 held, 1 violated, 2 the check itself could not run."""
import sys, os, glob, json, subprocess, tempfile, time, shutil, hashlib, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OPENGM_REPO", "/repo")
CXX = "g++"
BASE = ["-std=gnu++17", "-w", "-pipe", "-DNDEBUG", "-ftrivial-auto-var-init=pattern",
        "-I" + HERE + "/mc", "-I" + HERE + "/harness", "-I" + REPO + "/include", "-I" + REPO + "/", "-DVERIF_REPO=\"%s\"" % REPO]
HDF5I = ["-I/usr/include/hdf5/serial"]
HDF5L = ["/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so", "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5_hl.so"]

def known_findings(pid):
    """known: property=<id> sig=<sig> <text>   |   fixed: property=<id> <commit> <text>"""
    out = {}
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def main():
    a = sys.argv[1:]
    pid = a[0]
    thorough = "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    only = a[a.index("--only") + 1] if "--only" in a else ""
    rep = os.path.abspath(a[a.index("--replay") + 1]) if "--replay" in a else ""
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(HERE + "/evidence", exist_ok=True)
    srcs = sorted(glob.glob(HERE + "/harness/%s_*.cxx" % pid.lower()))
    if not srcs: print("no harness for", pid); return 2
    tmp = tempfile.mkdtemp(prefix="mc_%s_" % pid)
    try:
        groups = {}     # flags -> sources
        for s in srcs:
            flags = ["-O1"]; 
            with open(s) as f:
                for l in f:
                    if l.startswith("// FLAGS:"): flags = l[9:].split()
                    if not l.startswith("//"): break
            groups.setdefault(tuple(flags), []).append(s)
        jobs = []
        bins = []
        for gi, (fl, ss) in enumerate(groups.items()):
            fl = list(fl); hdf = "HDF5" in fl; fl = [x for x in fl if x != "HDF5"]
            inc = HDF5I if hdf else []
            objs = []
            for s in ss + [HERE + "/mc/mc_main.cxx"]:
                o = "%s/%d_%s.o" % (tmp, gi, os.path.basename(s)); objs.append(o)
                jobs.append([CXX] + BASE + inc + fl + ["-c", s, "-o", o])
            link = [CXX] + [x for x in fl if x.startswith("-fsan") or x.startswith("-l")] + objs + (HDF5L if hdf else []) + [x for x in fl if x.startswith("-l")] + ["-o", "%s/bin%d" % (tmp, gi)]
            bins.append((link, "%s/bin%d" % (tmp, gi), any("sanitize" in x for x in fl)))
        def run(c):
            p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)
            return c, p.returncode, p.stdout
        jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(run, jobs))
        res += [run(b[0]) for b in bins if not any(r[1] for r in res)]
        bad = [r for r in res if r[1]]
        if bad:
            for c, rc, o in bad: print("BUILD FAILED:", " ".join(c[-3:])); print(o[-3000:])
            return 2
        t_build = time.time() - t0
        known = known_findings(pid)
        with open(tmp + "/known", "w") as f: f.write("".join(k + "\n" for k in known))
        env = dict(os.environ, MALLOC_PERTURB_="165", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", MC_TMP=tmp)
        scen = []; rc_all = 0; err = ""
        for _, b, san in bins:
            if rep:
                names = subprocess.run([b, "--list"], stdout=subprocess.PIPE, text=True, env=env).stdout.split("\n")
                if open(rep).readline().strip() in names:
                    return subprocess.run([b, "--replay", rep, "--known", tmp + "/known"], env=env, cwd=tmp).returncode
                continue
            cmd = [b, "--out", b + ".json", "--known", tmp + "/known"] + (["--thorough"] if thorough else []) + (["--only", only] if only else [])
            p = subprocess.run(cmd, env=env, cwd=tmp, stderr=subprocess.PIPE, text=True, errors="replace")
            sys.stderr.write(p.stderr)
            if p.returncode not in (0, 1) or not os.path.exists(b + ".json"): rc_all = 2; err += p.stderr[-1500:]
            if os.path.exists(b + ".json"): scen += json.load(open(b + ".json"))
        if rep: print("no such scenario"); return 2
        viol = [s for s in scen if s["violation"]]
        tot = lambda k: sum(s[k] for s in scen)
        samples = []
        for s in scen: samples += [x[:500] for x in s["samples"][:2]]
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2),
            coverage=dict(states=tot("states"), transitions=tot("points"), traces_validated_against_impl=tot("paths"),
                samples=samples[:60],
                comparisons_with_reference=tot("steps"), distinct_outcomes=tot("outcomes"), paths_outside_space=tot("pruned"),
                state_table_saturated=tot("saturated"), build_s=round(t_build, 2),
                explanation="states: distinct reference-model states/inputs visited (hash set); transitions: distinct choice-tree edges executed; traces_validated_against_impl: complete paths, each executed on the real OpenGM code and compared with the reference at every step. Every scenario's choice tree was enumerated completely unless a violation stopped it.",
                scenarios=[{k: s[k] for k in ("scenario", "paths", "pruned", "points", "steps", "states", "outcomes", "wall")} for s in scen]),
            violations=[dict(scenario=s["scenario"], message=s["violation"]["msg"][:600], path=s["violation"]["path"][:200]) for s in viol][:20])
        with open(HERE + "/evidence/%s.json" % pid, "w") as f: json.dump(ev, f, indent=1)
        hit = {k for s in scen for k in s["known"]}
        for k in sorted(known):
            if k in hit or not only: 
                if k in hit: print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
        if viol:
            for s in viol:
                h = hashlib.sha1((s["scenario"] + str(s["violation"]["path"])).encode()).hexdigest()[:10]
                rp = "evidence/replay_%s_%s.txt" % (pid, h)
                with open(os.path.join(HERE, rp), "w") as f:
                    f.write("%s\n%s\n%s\n%d\n# %s\n" % (s["scenario"], tier, " ".join(map(str, s["violation"]["path"])), s["violation"]["from"], s["violation"]["msg"].replace("\n", " ")[:500]))
                print("  %s: %s\n    %s" % (s["scenario"], s["violation"]["msg"][:500], s["violation"]["trace"][:1500].replace("\n", "\n    ")))
                print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if rc_all: print("MACHINERY ERROR", err); return 2
        print("%s %s: held; %d states, %d transitions, %d paths on the implementation, %d comparisons, build %.1fs, total %.1fs" %
              (pid, tier, tot("states"), tot("points"), tot("paths"), tot("steps"), t_build, time.time() - t0))
        return 0
    finally:
        if "--keep" in a: print("kept", tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)
sys.exit(main())
