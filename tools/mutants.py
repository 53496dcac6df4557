#!/usr/bin/env python3
"""mutants.py OUT.jsonl N SEED FILE...: plants N random small changes (operators, constants, deleted
statements) in FILE of a scratch copy of /repo; those that compile to different code and pass the
repository's tests are given to the checks (with a share of their runs) until one reports them."""
import json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("MUT_DIR", "/tmp/mut2") + "/repo"
MULT = os.environ.get("MUT_MULT", "0.3")
SIM = "S03 R01 S06 S02 S10 R08 R05 R02 S08 R06 R07 S05 R04 R03 S01 S04 S07 S09 P01 P02".split()
COD = "C02 C01 P02 C07 S03 S06".split()
PROPS = {"simulators/sim_bg.c": SIM, "simulators/main_txt.c": SIM, "common/ui_txt.c": "P01 S10 S06 R06".split(),
         "common/spf_par.c": "P01 S07 P02 S06 R02 R07 R09 R10".split(), "common/spf_par.h": "P01 P02 R07 R09 R02 S07".split(), "Octave/loadsrf.c": "R10 R09 S07".split(), "Octave/ui_octave_txt.c": "R10 R09 S07".split(),
         "dtrm/dtrm0.c": ["C06"] + COD, "dtrm/dtrm1.c": ["C06"] + COD, "rm1_ml/rm1_ml.c": ["C06"] + COD,
         "dtrm_glp/dtrm_glp_main.c": ["C04"] + COD, "dtrm_glp/dtrm_glp_inner.c": ["C04"] + COD,
         "polar_scl/ca_polar_scl_main.c": ["C05", "C03"] + COD, "polar_scl/polar_scl_inner.c": ["C05", "C03"] + COD,
         "common/crc.c": ["C03"] + COD, "common/srm_utils.c": ["C06", "C04", "C05"] + COD, "formats/format_eps5.h": ["C06", "C04", "C05"] + COD}
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def sites(text):
    out = []  # (start, end, new, what)
    pos, skip = 0, False
    for ln, line in enumerate(text.split("\n"), 1):
        raw = line; code = line.split("//")[0]
        st = code.strip()
        if skip:
            if "*/" in line or st.startswith("#endif") or st.startswith("#else"): skip = False
            pos += len(raw) + 1; continue
        if st.startswith("/*") or re.match(r"#if(def)? *(0|DBG|FORMAT_|.*DEBUG|USE_STDLIB|COUNT_OPS)", st): skip = "*/" not in line; pos += len(raw) + 1; continue
        if not st or (st.startswith("#") and not st.startswith("#define")) or "msg_printf" in st and "//" in raw.split("msg_printf")[0]: pos += len(raw) + 1; continue
        nos = re.sub(r'"(\\.|[^"\\])*"|\'(\\.|[^\'\\])*\'', lambda m: "\0" * len(m.group(0)), code)
        def add(m, new, what): out.append((pos + m.start(), pos + m.end(), new, "%d: %s" % (ln, what)))
        for m in re.finditer(r"(?<![<>=!-])(<=|>=|==|!=|<|>)(?![<>=])", nos):
            if st.startswith("#"): break
            for new in {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="]}[m.group(1)]: add(m, new, m.group(1) + " -> " + new)
        for m in re.finditer(r"&&|\|\|", nos): add(m, "||" if m.group(0) == "&&" else "&&", m.group(0) + " swapped")
        for m in re.finditer(r"(?<= )[-+*/](?= )", nos): add(m, {"+": "-", "-": "+", "*": "+", "/": "*"}[m.group(0)], m.group(0) + " changed")
        for m in re.finditer(r"\+=|-=", nos): add(m, "-=" if m.group(0) == "+=" else "+=", m.group(0) + " swapped")
        for m in re.finditer(r"\+\+|--", nos): add(m, "--" if m.group(0) == "++" else "++", m.group(0) + " swapped")
        for m in re.finditer(r"(?<![\w.\"%])(\d+)(?![\w.x])", nos):
            v = int(m.group(1)); add(m, str(v + 1), "%d -> %d" % (v, v + 1))
            if v > 1: add(m, str(v - 1), "%d -> %d" % (v, v - 1))
        if re.match(r"^[\w()*\[\].>-]+.*;$", st) and not re.match(r"(return|goto|int|char|double|FILE|time_t|struct|typedef|extern|static|const|long|unsigned|case|else|for|while|if|do|break;$)\b", st) and "{" not in st:
            m = re.match(r"\s*(.*;)", nos)
            out.append((pos + m.start(1), pos + m.end(1), ";", "%d: deleted %s" % (ln, st[:60])))
        m = re.match(r"\s*(break;|continue;)", nos)
        if m: out.append((pos + m.start(1), pos + m.end(1), ";", "%d: deleted %s" % (ln, st)))
        m = re.match(r"\s*(?:else )?if \((.*)\) *([{;]|\w.*;|goto.*)?\\?$", nos)
        if m and m.group(1).count("(") == m.group(1).count(")"):
            for c in "01": out.append((pos + m.start(1), pos + m.end(1), c, "%d: if (%s)" % (ln, c)))
        pos += len(raw) + 1
    return out
def build():
    r = sh("export CC=/usr/bin/gcc CXX=/usr/bin/g++; cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_STANDARD_LIBRARIES=-lm >/dev/null && ninja -C %s/_build 2>&1" % (S, S, S))
    return r.returncode == 0
def objs():
    return sh("cd %s/_build && for f in $(find . -name '*.o' | sort); do objcopy --strip-debug $f /tmp/mo.o && md5sum < /tmp/mo.o; done | md5sum" % S).stdout
def tests():
    return all(sh("timeout 60 ./_build/" + t, cwd=S).returncode == 0 for t in ("test_dtrm0", "test_crc", "test_ca_polar_scl"))
def main():
    outf, n, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    if not os.path.isdir(S): sh("mkdir -p %s && git clone -q /repo %s" % (os.path.dirname(S), S))
    sh("git -C %s checkout -q -- . && git -C %s pull -q" % (S, S))
    out = open(outf, "a")
    for f in files:
        rng = random.Random("%d %s" % (seed, f))
        p = os.path.join(S, f); text = open(p, newline="").read()
        crlf = "\r\n" in text
        t = text.replace("\r\n", "\n")
        ss = sites(t); rng.shuffle(ss)
        assert build() and tests(); h0 = objs()
        for a, b, new, what in ss[:n]:
            m = t[:a] + new + t[b:]
            open(p, "w", newline="").write(m.replace("\n", "\r\n") if crlf else m)
            r = dict(file=f, what=what, line=t[:a].count("\n") + 1, text=t.split("\n")[t[:a].count("\n")].strip()[:120])
            if not build(): r["res"] = "no build"
            elif f != "Octave/loadsrf.c" and not f.startswith("Octave") and objs() == h0: r["res"] = "equivalent"
            elif not tests(): r["res"] = "tests"
            else:
                v = subprocess.run([sys.executable, V + "/sim/build.py"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VSIM_REPO=S))
                if v.returncode: r["res"] = "vsim: " + v.stdout[-300:]
                else:
                    r["res"] = "SURVIVED"; vs = v.stdout.strip().split("\n")[-1]
                    for pr in PROPS[f]:
                        q = subprocess.run([vs, "run", "--prop", pr, "--seed", "1", "--workers", "8", "--out", "/tmp/mut_o", "--budget", "100", "--shrink", "0", "--mult", MULT], stdout=subprocess.PIPE, text=True, env=dict(os.environ, VSIM_KNOWN="same-second-seed"))
                        try: d = json.loads(q.stdout.strip().split("\n")[-1])
                        except Exception: d = {"error": q.stdout[-200:]}
                        if "violation" in d: r["res"] = pr + ": " + d["violation"]["what"][:150]; break
                        if "error" in d: r["err"] = r.get("err", "") + pr + ": " + d["error"][:200]
            out.write(json.dumps(r) + "\n"); out.flush()
        open(p, "w", newline="").write(text)
main()
