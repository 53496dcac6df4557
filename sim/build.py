#!/usr/bin/env python3
"""Builds the simulator (vsim) from /repo's current working tree, offline.

Every program of the repository is compiled from the sources and with the
definitions its own CMakeLists.txt gives it, relocatably linked into one object
per program, its references to libc's nondeterministic services are renamed to
simw_* (objcopy), everything but its entry points is made local, and several
independently prefixed copies of it are linked into one process: one copy is
one (simulated) process life with its own globals.
Result: <build dir>/vsim; prints the path.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shlex
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VSIM_REPO", "/repo")
BASE = os.path.join(VERIF, ".build")
ENV = dict(os.environ, LC_ALL="C.UTF-8")
for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "MAKEFLAGS", "CPATH"):
    ENV.pop(v, None)

CFLAGS = ["-O1", "-g", "-w", "-fsanitize=address", "-fno-omit-frame-pointer",
          "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-pie", "-fno-common",
          "-ffunction-sections"]
HFLAGS = ["-std=c++17", "-O1", "-g1", "-fno-pie", "-Wall", "-Wno-unused-function"]

# entry points of the programs that the simulator calls or watches
API = ["main", "sim_init", "sim_close", "sim_run", "sim_state_str", "sim_cur_res_str",
       "sim_save_res", "sim_control", "cdc_init", "cdc_get_n", "cdc_get_k",
       "cdc_set_csnrn", "cdc_set_sg", "enc_bpsk", "dec_bpsk", "cdc_close",
       "mexFunction", "spf_read_preparse"]
# calls between main / simulator / codec that go through a hook
HOOKED = ["sim_init", "sim_close", "sim_run", "sim_state_str", "sim_cur_res_str",
          "sim_save_res", "sim_control", "cdc_init", "cdc_get_n", "cdc_get_k",
          "cdc_set_csnrn", "cdc_set_sg", "enc_bpsk", "dec_bpsk", "cdc_close"]
SEAMS = """fopen fopen64 fdopen fclose freopen fflush fileno remove unlink rename link symlink open open64 creat read
write close fsync fdatasync sync ftruncate truncate lseek access stat lstat fstat mkstemp mkdir rmdir flock lockf fcntl
time clock clock_gettime gettimeofday nanosleep usleep sleep sched_yield alarm times
rand srand random srandom drand48 srand48 lrand48 mrand48 getrandom arc4random getpid getppid getuid gethostname
malloc calloc realloc free reallocarray aligned_alloc posix_memalign strdup strndup strtok
printf vprintf puts putchar fputs_unlocked getchar scanf system fork execvp popen
exit _exit _Exit abort atexit signal sigaction raise kill
__assert_fail getenv tmpfile tmpnam secure_getenv _kbhit _getch kbhit getch
open_memstream fmemopen""".split()
DATA_SEAMS = ["stdout", "stderr", "stdin"]

IMAGES = [("stub", "P", 8), ("d0", "A", 3), ("d1", "B", 3), ("glp", "G", 3), ("polar", "C", 3), ("load", "L", 2)]
# The same programs with another line of formats.h active, as it is documented.
FORMATS = {"rho1": "R", "rho5": "M"}


def run(cmd, **kw):
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(map(str, cmd)), p.stdout[-4000:]))
    return p.stdout


def tree_hash():
    h = hashlib.sha256()
    roots = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "_build", "build", "work", "tests"))
        for f in sorted(fs):
            if f.endswith((".c", ".h", ".inc", ".def", ".txt", ".cmake")) or f == "Makefile":
                roots.append(os.path.join(d, f))
    for d, ds, fs in os.walk(HERE):
        ds[:] = sorted(x for x in ds if not x.startswith("__"))
        for f in sorted(fs):
            roots.append(os.path.join(d, f))
    for f in roots:
        if f.endswith((".pyc", ".swp")):
            continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:20]


def sources(tmp):
    """{target: [(source, [flags])]} as the project's own CMakeLists.txt says."""
    out = {}
    bd = os.path.join(tmp, "cm")
    try:
        run(["cmake", "-S", REPO, "-B", bd, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
             "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
             "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"])
        for e in json.load(open(os.path.join(bd, "compile_commands.json"))):
            t = e["output"].split("CMakeFiles/")[1].split(".dir/")[0]
            fl = [a for a in shlex.split(e["command"]) if a.startswith(("-D", "-I", "-U", "-std"))]
            out.setdefault(t, []).append((e["file"], fl))
    finally:
        shutil.rmtree(bd, ignore_errors=True)
    return out


def image_sources(cm):
    def tgt(name):
        return cm[name]
    img = {"d0": tgt("dtrm0_bg"), "d1": tgt("dtrm1_bg"), "glp": tgt("dtrm_glp_bg"), "polar": tgt("ca_polar_scl_bg")}
    img["stub"] = [s for s in img["glp"] if os.path.basename(os.path.dirname(s[0])) != "dtrm_glp"]
    spf = [s for s in img["glp"] if os.path.basename(s[0]) == "spf_par.c"]
    img["load"] = [(f, ["-I" + os.path.join(HERE, "mexstub"), "-I" + os.path.join(REPO, "lib")])
                   for f in sorted(glob.glob(os.path.join(REPO, "Octave", "*.c")))] + spf
    return img


def other_format(tmp, fmt, img):
    """Image sources in a copy of the sources whose formats.h has another format active; {} if there is no such choice."""
    top = os.path.join(tmp, "fmt_" + fmt)
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "_build", "build", "work", "tests")]
        for f in fs:
            if f.endswith((".c", ".h", ".inc", ".def")):
                t = os.path.join(top, os.path.relpath(d, REPO))
                os.makedirs(t, exist_ok=True)
                shutil.copy(os.path.join(d, f), t)
    h = os.path.join(top, "formats", "formats.h")
    if not os.path.exists(h):
        return {}
    t = open(h).read()
    inc = r'(?m)^([ \t]*)%s(#[ \t]*include[ \t]*"(?:[^"]*/)?format_%s\.h")'
    t, a = re.subn(inc % (r'//[ \t]*', fmt), r'\1\2', t)
    t, b = re.subn(inc % ('', r'(?!%s\.)\w+' % fmt), r'\1//\2', t)
    if a != 1 or b != 1:
        return {}
    open(h, "w").write(t)
    def there(x):
        return x.replace(REPO + "/", top + "/")
    return {k + fmt: [(there(f), [there(a) for a in fl]) for f, fl in img[k]] for k in ("d0", "glp", "polar")}


def nm(path):
    und, dfn = set(), set()
    for line in run(["nm", path]).splitlines():
        p = line.split()
        if len(p) == 2 and p[0] in "Uw":
            und.add(p[1])
        elif len(p) == 3 and p[1].isupper():
            dfn.add(p[2])
    return und, dfn


def build():
    os.makedirs(BASE, exist_ok=True)
    with open(os.path.join(BASE, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(BASE, key)
        exe = os.path.join(out, "vsim")
        if os.path.exists(exe):
            os.utime(out)
            return exe
        # keep the cache small
        old = sorted((d for d in glob.glob(os.path.join(BASE, "*")) if os.path.isdir(d)
                      and os.path.basename(d) != "h"), key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        try:
            do_build(tmp)
            os.rename(tmp, out)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        return exe


def harness_objs(pool):
    """Compile the harness; cached by its own content."""
    h = hashlib.sha256()
    files = sorted(glob.glob(os.path.join(HERE, "*.cpp")) + glob.glob(os.path.join(HERE, "*.h"))
                   + glob.glob(os.path.join(HERE, "mexstub", "*.h")))
    hdr = hashlib.sha256(" ".join(HFLAGS).encode())
    for f in files:
        if f.endswith(".h"):
            hdr.update(open(f, "rb").read())
    hd = os.path.join(BASE, "h")
    os.makedirs(hd, exist_ok=True)
    jobs, objs, keep = [], [], set()
    for f in files:
        if not f.endswith(".cpp"):
            continue
        k = hdr.copy()
        k.update(open(f, "rb").read())
        o = os.path.join(hd, os.path.basename(f)[:-4] + "-" + k.hexdigest()[:16] + ".o")
        keep.add(o)
        objs.append(o)
        if not os.path.exists(o):
            def job(f=f, o=o):
                run(["g++"] + HFLAGS + ["-I" + HERE, "-I" + os.path.join(HERE, "mexstub"), "-c", f, "-o", o + ".tmp"])
                os.rename(o + ".tmp", o)
            jobs.append(pool.submit(job))
    for o in glob.glob(os.path.join(hd, "*.o")):
        if o not in keep:
            os.unlink(o)
    return jobs, objs


def do_build(tmp):
    pool = cf.ThreadPoolExecutor(16)
    hjobs, hobjs = harness_objs(pool)
    imgs = image_sources(sources(tmp))
    images = list(IMAGES)
    optional = {}
    for fmt, prefix in FORMATS.items():
        o = other_format(tmp, fmt, imgs)
        for i, (k, v) in enumerate(sorted(o.items())):
            optional[k] = v
            images.append((k, prefix + "abc"[i], 1))
    # The simulation program with its Windows parts (keyboard, priority) and a simulated console.
    optional["win"] = [(f, fl + ["-DWIN32", "-I" + os.path.join(HERE, "winstub")]) for f, fl in imgs["stub"]]
    images.append(("win", "W", 3))
    # The same program with the simulator's own random generator, its default without USE_STDLIB_RND.
    optional["own"] = [(f, [a for a in fl if a != "-DUSE_STDLIB_RND"]) for f, fl in imgs["stub"]]
    images.append(("own", "U", 4))
    seam = os.path.join(tmp, "seam.txt")
    with open(seam, "w") as f:
        for s in SEAMS + DATA_SEAMS:
            f.write("%s simw_%s\n" % (s, s))
    # compile each distinct (source, flags) once
    objs = {}
    def comp(src, fl):
        o = os.path.join(tmp, hashlib.sha256((src + " ".join(fl)).encode()).hexdigest()[:12] + ".o")
        run(["gcc"] + CFLAGS + fl + ["-c", src, "-o", o])
        und, dfn = nm(o)
        cmd = ["objcopy", "--redefine-syms=" + seam]
        for s in HOOKED:
            if s in und and s not in dfn:
                cmd.append("--redefine-sym=%s=hook_%s" % (s, s))
        run(cmd + [o])
        return o
    imgs.update(optional)
    for lst in imgs.values():
        for src, fl in lst:
            if (src, tuple(fl)) not in objs:
                objs[(src, tuple(fl))] = pool.submit(comp, src, fl)
    decl, rows, final = [], [], []
    def mk(name, prefix, copies):
        parts = [objs[(s, tuple(f))].result() for s, f in imgs[name]]
        comb = os.path.join(tmp, name + ".o")
        run(["ld", "-r", "-o", comb] + parts)
        _, dfn = nm(comb)
        have = [a for a in API if a in dfn]
        res = []
        for c in range(copies):
            p = "%s%d_" % (prefix, c)
            o = os.path.join(tmp, "%s%d.o" % (name, c))
            cmd = ["objcopy"]
            for a in have:
                cmd += ["--redefine-sym=%s=%s%s" % (a, p, a), "--keep-global-symbol=%s%s" % (p, a)]
            if not have:
                cmd += ["--keep-global-symbol=__none__"]
            run(cmd + [comb, o])
            res.append((p, o, have))
        return res
    for name, prefix, copies in images:
        if name in optional and any(objs[(s, tuple(f))].exception() for s, f in imgs[name]):
            continue  # the program cannot be built with this format
        for p, o, have in mk(name, prefix, copies):
            final.append(o)
            for a in have:
                decl.append("extern void %s%s(void);" % (p, a))
            rows.append('{"%s"%s}' % (name, "".join(", (void*)%s" % (p + a if a in have else "0") for a in API)))
    src = os.path.join(tmp, "images.c")
    with open(src, "w") as f:
        f.write("\n".join(decl) + "\nstruct row { const char *n; void *f[%d]; };\n" % len(API))
        f.write("struct row vsim_images[] = {\n%s,\n{0}};\n" % ",\n".join(rows))
    run(["gcc", "-c", "-fno-pie", src, "-o", os.path.join(tmp, "images.o")])
    for j in hjobs:
        j.result()
    run(["g++", "-fsanitize=address", "-no-pie", "-o", os.path.join(tmp, "vsim"), os.path.join(tmp, "images.o")]
        + final + hobjs + ["-lm"])
    for f in os.listdir(tmp):
        if f.endswith(".o") or f in ("images.c", "seam.txt"):
            os.unlink(os.path.join(tmp, f))
        elif f.startswith("fmt_"):
            shutil.rmtree(os.path.join(tmp, f))


if __name__ == "__main__":
    try:
        print(build())
    except RuntimeError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(3)
