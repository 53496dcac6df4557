#!/usr/bin/env python3
"""selftest.py [PROP...]: is one seed one execution?  Every property's runs are done
with 8 workers, with 1 worker (a part of them), and once more with 8 workers and another
environment (size, directory); the history hashes of all runs must be equal."""
import os, re, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
vsim = subprocess.run([sys.executable, H + "/sim/build.py"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip().splitlines()[-1]
props = sys.argv[1:] or [l.split()[0] for l in subprocess.run([vsim, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
def hashes(p, n, w, env={}, cwd=H):
    o = subprocess.run([vsim, "run", "--prop", p, "--seed", "5", "--runs", str(n), "--workers", str(w), "--hashes", "--out", "/tmp"],
                       stdout=subprocess.PIPE, text=True, env=dict(os.environ, VSIM_KNOWN="same-second-seed", **env), cwd=cwd).stdout
    return dict(re.findall(r"^HASH (\d+) (\w+)$", o, re.M))
bad = 0
for p in props:
    a = hashes(p, 2000, 8)
    b = hashes(p, 300, 1)
    c = hashes(p, 2000, 8, {"PADDING": "x" * 5000, "TZ": "Asia/Tokyo"}, "/tmp")
    d1 = [k for k in b if a.get(k) != b[k]]; d2 = [k for k in a if c.get(k) != a[k]]
    ok = len(a) == 2000 and len(b) == 300 and not d1 and not d2
    bad += not ok
    print(p, "ok" if ok else "DIFFERENT", len(a), len(b), len(c), len(set(a.values())), "distinct histories", d1[:3], d2[:3])
    sys.stdout.flush()
sys.exit(bad > 0)
