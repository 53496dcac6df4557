#!/usr/bin/env python3
"""mk.py [ID...]: writes seeded/<id>/ from tools/bugs/list_*.py and confirms each bug in a
scratch copy of /repo: applies, builds, the tests pass, the demonstration fails with it and passes without."""
import glob, json, os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
S = "/tmp/mut/repo"
BUGS = []
def bug(id, prop, edits, needs, breaks, demo="demo_stub.sh", **files):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for f in sorted(glob.glob(H + "/list_*.py")):
    exec(compile(open(f).read(), f, "exec"))
assert len({b["id"] for b in BUGS}) == len(BUGS)
want = sys.argv[1:]
BUILD = ("export CC=/usr/bin/gcc CXX=/usr/bin/g++; cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo "
         "-DCMAKE_C_STANDARD_LIBRARIES=-lm >/dev/null && ninja -C %s/_build 2>&1" % (S, S, S))
if not os.path.isdir(S):
    sh("mkdir -p /tmp/mut && git clone -q /repo " + S)
base = json.load(open("/opt/vp/BASELINE.json"))
sh("git -C %s checkout -q -- . && git -C %s fetch -q && git -C %s reset -q --hard origin/HEAD" % (S, S, S))
def build():
    r = sh(BUILD)
    return None if r.returncode == 0 else r.stdout[-800:]
def tests():
    out = ""
    for t in ("test_dtrm0", "test_crc", "test_ca_polar_scl"):
        r = sh("timeout 60 ./_build/" + t, cwd=S)
        if r.returncode: out += "%s exit %d %s\n" % (t, r.returncode, r.stdout[-300:])
    return out
bad = 0
todo = [b for b in BUGS if not want or b["id"] in want]
r = build(); assert r is None, r
assert tests() == "", tests()
for b in todo:
    d = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f, t in b["files"].items():
        open(os.path.join(d, f.replace("__", ".")), "w").write(t.replace("@DTRM0@", "RM_m 4\nRM_r 2\nborder_node_mask 111111\nres_file out.srf\nrandom_codeword on\nml_lb on\nSNR_val_trn { 1 20 2 30 }\n"))
    t = open(os.path.join(H, b["demo"])).read() if b["demo"].endswith(".sh") and "\n" not in b["demo"] else b["demo"]
    open(d + "/demo.sh", "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    if "d__c" in b["files"] and "stub.h" in b["files"]["d__c"]: shutil.copy(H + "/stub.h", d)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "@HASH@" in b["files"].get("d__c", ""): # the right decisions, taken from the unchanged tree
        src = open(d + "/d.c").read()
        open(d + "/d.c", "w").write(src.replace("@HASH@", "0"))
        o = sh("bash %s/demo.sh" % d, cwd=S).stdout
        h = re.search(r"\b[0-9a-f]{16}\b", o)
        if not h: print(b["id"], "BAD: no hash:", o[-400:]); bad += 1; continue
        h = "0x" + h.group(0) + "ull"
        open(d + "/d.c", "w").write(src.replace("@HASH@", h))
    r = sh("bash %s/demo.sh" % d, cwd=S)
    b["clean"] = r.returncode
    if r.returncode: print(b["id"], "BAD: clean demo", r.returncode, r.stdout[-600:]); bad += 1
for b in todo:
    d = os.path.join(V, "seeded", b["id"])
    msg = ""
    for e in b["edits"]:
        f, old, new = e[:3]
        p = os.path.join(S, f); t = open(p, newline="").read()
        crlf = "\r\n" in t
        if crlf: t = t.replace("\r\n", "\n")
        n = t.count(old)
        if len(e) > 3:  # which occurrence
            i = -1
            for _ in range(e[3]): i = t.find(old, i + 1)
            if i < 0: msg = "edit not found: " + old; break
            t = t[:i] + new + t[i + len(old):]
        elif n != 1: msg = "edit matches %d times: %s" % (n, old); break
        else: t = t.replace(old, new)
        if crlf: t = t.replace("\n", "\r\n")
        open(p, "w", newline="").write(t)
    if not msg:
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", S, "diff"], stdout=subprocess.PIPE, text=True).stdout)
        # are the lines it removes or changes original ones?
        orig = 0
        r = sh("git -C %s diff -U0 | grep -E '^(---|@@)'" % S).stdout.splitlines()
        cur = None
        for l in r:
            if l.startswith("--- "): cur = l[6:]
            else:
                a = l.split()[1][1:]; st, _, n = a.partition(","); n = int(n or 1) if n != "0" else 0
                if n:
                    bl = sh("git -C %s blame -s -L %s,+%d HEAD -- %s" % (S, st, n, cur)).stdout
                    orig += sum(1 for x in bl.splitlines() if x.startswith("^"))
        r = build()
        if r: msg = "build: " + r
        else:
            t = tests()
            if t: msg = "tests: " + t
            else:
                r = sh("bash %s/demo.sh" % d, cwd=S)
                if r.returncode == 0: msg = "demo passes with the bug"
                elif r.returncode == 3: msg = "demo does not work: " + r.stdout[-400:]
                else: print(b["id"], b["prop"], "ok: demo exit %d, %d original lines touched; %s" % (r.returncode, orig, r.stdout.strip().splitlines()[0][:100] if r.stdout.strip() else ""))
                if orig == 0: msg += " NO ORIGINAL LINE"
    if msg: print(b["id"], "BAD:", msg); bad += 1
    sh("git -C %s checkout -q -- ." % S)
build()
sys.exit(bad > 0)
