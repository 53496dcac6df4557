#!/usr/bin/env python3
"""trybugs.py [-a] [ID...]: runs the quick check of each planted bug's property (-a: of every property)
against a scratch copy of /repo with the bug in it; prints what catches what."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/mut/repo"
a = sys.argv[1:]
allp = "-a" in a
a = [x for x in a if x != "-a"]
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
ids = a or sorted(os.listdir(V + "/seeded"))
env = dict(os.environ, VSIM_REPO=S, VSIM_KNOWN="same-second-seed", LC_ALL="C")
seed = os.environ.get("SEED", "1")
def sh(*c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
missed = []
for b in ids:
    d = V + "/seeded/" + b
    m = json.load(open(d + "/meta.json"))
    sh("git", "-C", S, "checkout", "-q", "--", ".")
    r = sh("git", "-C", S, "apply", d + "/patch.diff")
    if r.returncode: print(b, "does not apply", r.stdout); continue
    r = subprocess.run([sys.executable, V + "/sim/build.py"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    if r.returncode: print(b, "build failed", r.stderr[-300:]); continue
    vsim = r.stdout.strip().splitlines()[-1]
    hit = []
    for p in ([m["property"]] + [x for x in props if x != m["property"]] if allp else [m["property"]]):
        os.makedirs("/tmp/o", exist_ok=True)
        r = subprocess.run([vsim, "run", "--prop", p, "--seed", seed, "--workers", "8", "--out", "/tmp/o", "--budget", "420", "--shrink", "5" if allp else "30"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        try: j = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception: hit.append(p + ":ERROR " + (r.stdout + r.stderr)[-200:]); continue
        if "error" in j: hit.append(p + ":ERROR " + j["error"][:200])
        elif j.get("violation"):
            v = j["violation"]
            q = subprocess.run([vsim, "replay", v["replay"], "-q"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            hit.append("%s:run %d %s%s" % (p, v["run"], v["kind"], "" if q.returncode == 1 else " REPLAY-FAILS"))
            if p == m["property"] and not allp: hit[-1] += " | " + v["what"][:140]
    ok = any(h.startswith(m["property"] + ":run") for h in hit)
    if not ok: missed.append(b)
    print("%-24s %s %s" % (b, "caught" if ok else "MISSED", "; ".join(hit)), flush=True)
    # the build of a planted bug is of no further use
    bd = os.path.dirname(vsim)
    if os.path.basename(os.path.dirname(bd)) == ".build": sh("rm", "-rf", bd)
sh("git", "-C", S, "checkout", "-q", "--", ".")
print("missed:", missed)
