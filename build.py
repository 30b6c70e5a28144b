#!/usr/bin/env python3
"""Builds the harness against /repo's current working tree (content-addressed cache in /verif/build)."""
import hashlib, os, time, subprocess, sys, shutil, fcntl, glob, concurrent.futures, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(REPO, "src")
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=shift,nonnull-attribute,alignment,function,vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
TSAN = ["-fsanitize=thread", "-fno-omit-frame-pointer"]
FUZZ = ["-fsanitize=fuzzer-no-link"]
MODES = {"quick": dict(cov=[]), "fuzz": dict(cov=FUZZ), "tsan": dict(cov=[])}

def read(p):
    with open(p, "rb") as f: return f.read()

def sha(parts):
    h = hashlib.sha256()
    for p in parts: h.update(len(p).to_bytes(8, "big")); h.update(p)
    return h.hexdigest()[:24]

def repo_files():
    out = []
    for d in ("libiff", "iffpp", "iffjoin"):
        for n in sorted(os.listdir(os.path.join(SRC, d))):
            if n.endswith((".c", ".h", ".in")) and not (d == "libiff" and n == "ifftypes.h"): out.append((d, n))
    return out

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout)); sys.exit(3)

def prune(keep):
    """keep the cache small: at most 12 most recently used entries per kind"""
    for kind in ("lib", "obj", "bin"):
        d = os.path.join(BUILD, kind)
        if not os.path.isdir(d): continue
        es = sorted((os.path.getmtime(os.path.join(d, e)), e) for e in os.listdir(d))
        for t, e in es[:-(80 if kind == "obj" else 8)]:
            if e not in keep and t < time.time() - 1800: shutil.rmtree(os.path.join(d, e), ignore_errors=True)

def build(mode="quick"):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    cov = MODES[mode]["cov"]; SAN = TSAN if mode == "tsan" else ASAN
    files = repo_files()
    blobs = {(d, n): read(os.path.join(SRC, d, n)) for d, n in files}
    hfiles = sorted(glob.glob(os.path.join(VERIF, "harness", "*")))
    hblobs = {p: read(p) for p in hfiles}
    me = read(os.path.abspath(__file__))
    libkey = sha([me, mode.encode()] + [x for k in files for x in ((k[0] + "/" + k[1]).encode(), blobs[k])])
    hdrs = [x for k in files if not k[1].endswith(".c") for x in ((k[0] + "/" + k[1]).encode(), blobs[k])]
    bindir = os.path.join(BUILD, "bin", sha([libkey.encode()] + [x for p in hfiles for x in (os.path.basename(p).encode(), hblobs[p])]))
    if os.path.exists(os.path.join(bindir, "ok")):
        os.utime(bindir); return bindir
    work = tempfile.mkdtemp(prefix="work.", dir=BUILD)
    try:
        for (d, n), b in blobs.items():
            os.makedirs(os.path.join(work, d), exist_ok=True)
            with open(os.path.join(work, d, n), "wb") as f: f.write(b)
        tin = os.path.join(work, "libiff", "ifftypes.h.in")
        with open(tin) as f: t = f.read().replace("@IFF_BIG_ENDIAN@", "0")
        with open(os.path.join(work, "libiff", "ifftypes.h"), "w") as f: f.write(t)
        inc = ["-I" + os.path.join(work, "libiff")]
        cdefs = ["-DHAVE_GETOPT_H=1", '-DPACKAGE_NAME="libiff"', '-DPACKAGE_VERSION="0.0"', "-w", "-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion", "-Wno-error=incompatible-function-pointer-types"]
        jobs = []
        libdir = os.path.join(BUILD, "lib", libkey); os.makedirs(libdir, exist_ok=True)
        libobjs, appobjs, toolsrc = [], {"iffpp": [], "iffjoin": []}, {"iffpp": [], "iffjoin": []}
        redef = []
        for s in ("malloc", "calloc", "realloc", "free"): redef += ["--redefine-sym", "%s=vpw_%s" % (s, s)]
        def cc(src, obj, tracked, tool=None):
            cmd = ["clang", "-std=gnu99", "-g1", "-O1", "-ftrivial-auto-var-init=pattern"] + SAN + (cov if tracked else []) + cdefs + (["-Dmain=vp_main_" + tool] if tool else []) + inc + ["-I" + os.path.dirname(src), "-c", src, "-o", obj + ".tmp.o"]
            run(cmd)
            if tracked: run(["objcopy"] + redef + [obj + ".tmp.o"])
            os.rename(obj + ".tmp.o", obj)
        for d, n in files:
            if not n.endswith(".c"): continue
            src = os.path.join(work, d, n)
            if d == "libiff":
                o = os.path.join(libdir, n[:-2] + ".o"); libobjs.append(o)
                if not os.path.exists(o): jobs.append((cc, src, o, True))
                o = os.path.join(libdir, "plain-" + n[:-2] + ".o")
                for a in appobjs.values(): a.append(o)
                if not os.path.exists(o): jobs.append((cc, src, o, False))
            else:
                o = os.path.join(libdir, d + "-" + n[:-2] + ".o"); appobjs[d].append(o)
                if not os.path.exists(o): jobs.append((cc, src, o, False))
                o = os.path.join(libdir, "tool-" + d + "-" + n[:-2] + ".o"); toolsrc[d].append(o)
                if not os.path.exists(o): jobs.append((cc, src, o, False, d))
        hobjs = []
        def cxx(src, obj):
            run(["clang++", "-std=c++17", "-g1", "-O1", "-Wall", "-Wno-unused-function"] + (["-DWITH_LIBFUZZER"] if mode == "fuzz" else []) + SAN[:1] + (["-fno-sanitize=undefined"] if mode != "tsan" else []) + ["-fno-omit-frame-pointer", "-pthread"] + inc + ["-I" + os.path.join(VERIF, "harness"), "-c", src, "-o", obj + ".tmp.o"])
            os.rename(obj + ".tmp.o", obj)
        hh = [x for p in hfiles if p.endswith(".h") for x in (os.path.basename(p).encode(), hblobs[p])]
        for p in hfiles:
            if not p.endswith(".cpp"): continue
            k = sha([me, mode.encode(), hblobs[p]] + hh + hdrs)
            od = os.path.join(BUILD, "obj", k); os.makedirs(od, exist_ok=True); os.utime(od)
            o = os.path.join(od, os.path.basename(p)[:-4] + ".o"); hobjs.append(o)
            if not os.path.exists(o): jobs.insert(0, (cxx, p, o))
        with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 8)) as ex:
            for f in [ex.submit(j[0], *j[1:]) for j in jobs]: f.result()
        tmp = tempfile.mkdtemp(prefix="bin.", dir=BUILD)
        extra = []
        if mode == "fuzz":
            rt = subprocess.check_output(["clang", "-print-resource-dir"], text=True).strip()
            c = glob.glob(rt + "/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a") + glob.glob(rt + "/lib/*/libclang_rt.fuzzer_no_main.a")
            if not c: sys.stderr.write("no libFuzzer runtime\n"); sys.exit(3)
            extra = [c[0], "-lstdc++", "-lpthread", "-ldl", "-lm"]
        # the tools' main functions, callable from the harness: allocations tracked, exit() intercepted
        toolobjs = []
        for a in ("iffpp", "iffjoin"):
            o = os.path.join(tmp, a + "-tool.o")
            run(["ld", "-r", "-o", o] + toolsrc[a])
            run(["objcopy"] + redef + ["--redefine-sym", "exit=vpw_exit", o])
            run(["objcopy", "--keep-global-symbol", "vp_main_" + a, o])
            toolobjs.append(o)
        run(["clang++", "-pthread"] + SAN[:1] + hobjs + toolobjs + libobjs + extra + ["-o", os.path.join(tmp, "harness")] + SAN[1:])
        for a in ("iffpp", "iffjoin"):
            run(["clang"] + SAN + appobjs[a] + ["-o", os.path.join(tmp, a)])
        open(os.path.join(tmp, "ok"), "w").close()
        os.makedirs(os.path.dirname(bindir), exist_ok=True)
        shutil.rmtree(bindir, ignore_errors=True)
        os.rename(tmp, bindir)
        prune({os.path.basename(bindir), libkey} | {os.path.basename(os.path.dirname(o)) for o in hobjs})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return bindir

if __name__ == "__main__":
    for m in (sys.argv[1:] or ["quick"]): print(build(m))
