"""Builds libvl and harnesses from /repo's working tree into /verif/build."""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = ROOT + "/build"
class BuildError(Exception): pass
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
BASE = ["-std=c99", "-DNDEBUG", "-D_GNU_SOURCE", "-DVL_DISABLE_OPENMP", "-fno-stack-protector", "-w", "-pthread", "-I" + REPO]

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def pmap(f, xs):
    with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 8)) as ex:
        return list(ex.map(f, xs))

class lock:
    def __init__(self, name): os.makedirs(BUILD, exist_ok=True); self.p = BUILD + "/." + name + ".lock"
    def __enter__(self): self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def simd(src):
    b = os.path.basename(src)
    return ["-msse2"] if b.endswith("_sse2.c") else ["-mavx"] if b.endswith("_avx.c") else []

def vl_inputs():
    return [f for f in glob.glob(REPO + "/vl/*") if re.search(r"\.(c|h|tc|th|def)$", f)]

def trim(keep):
    """keep only the most recent build trees"""
    ds = sorted((d for d in glob.glob(BUILD + "/lib-*") + glob.glob(BUILD + "/so-*")), key=os.path.getmtime)
    for d in ds[:-6]:
        if d != keep: shutil.rmtree(d, ignore_errors=True)

def build_lib(variant="asan"):
    """static library; variants: asan, plain, tsan, cov"""
    flags = {"asan": ["-O2", "-g1"] + SAN, "plain": ["-O3", "-g1"], "tsan": ["-O1", "-g1", "-fsanitize=thread"]}[variant]
    cc = "gcc"
    srcs = sorted(glob.glob(REPO + "/vl/*.c"))
    d = BUILD + "/lib-%s-%s" % (variant, digest(vl_inputs(), " ".join(flags + BASE)))
    lib = d + "/libvl.a"
    with lock("lib-" + variant):
        if not os.path.exists(lib):
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            objs = [(s, d + "/" + os.path.basename(s)[:-2] + ".o") for s in srcs]
            pmap(lambda so: sh([cc] + BASE + flags + simd(so[0]) + ["-c", so[0], "-o", so[1]]), objs)
            sh(["ar", "rcs", lib + ".tmp"] + [o for _, o in objs]); os.rename(lib + ".tmp", lib)
            for _, o in objs: os.unlink(o)
            trim(d)
        os.utime(d)
    return lib, flags

def build_cc(id, src):
    text = open(src).read()
    m = re.search(r"//\s*VT-VARIANT:\s*(\w+)", text); variant = m.group(1) if m else "asan"
    m = re.search(r"//\s*VT-LDFLAGS:\s*(.*)", text); ld = m.group(1).split() if m else []
    lib, flags = build_lib(variant)
    hdrs = glob.glob(ROOT + "/engine/*.h") + glob.glob(ROOT + "/checks/*.h") + vl_inputs()
    out = os.path.dirname(lib) + "/%s-%s" % (id, digest([src] + hdrs))
    with lock("cc-" + id):
        if not os.path.exists(out):
            for o in glob.glob(os.path.dirname(lib) + "/%s-*" % id): os.unlink(o)
            opt = [f for f in flags if not f.startswith("-O")] + ["-O1"]
            sh(["g++", "-std=c++17", "-D_GNU_SOURCE", "-DVL_DISABLE_OPENMP", "-w", "-pthread", "-I" + ROOT + "/engine", "-I" + ROOT + "/checks", "-I" + REPO]
               + opt + [src, lib, "-o", out + ".tmp", "-lm"] + ld)
            os.rename(out + ".tmp", out)
    return out, text

def build_programs(names, variant="asan"):
    """programs of /repo/src linked with the library"""
    lib, flags = build_lib(variant); res = {}
    for n in names:
        src = REPO + "/src/%s.c" % n
        out = os.path.dirname(lib) + "/prog-%s-%s" % (n, digest([src] + glob.glob(REPO + "/src/*.h") + vl_inputs()))
        with lock("prog-" + n):
            if not os.path.exists(out):
                sh(["gcc"] + BASE + flags + [src, lib, "-o", out + ".tmp", "-lm"]); os.rename(out + ".tmp", out)
        res[n] = out
    return res

def build_shim(name, d):
    """a small C file that calls the library directly, for checks in Python"""
    src = ROOT + "/checks/" + name; out = d + "/shim-" + digest([src], "") + ".so"
    with lock("shim"):
        if not os.path.exists(out):
            sh(["gcc", "-std=c99", "-w", "-O2", "-fPIC", "-shared", "-DVL_DISABLE_OPENMP", "-D_GNU_SOURCE", "-I" + REPO, src, "-L" + d, "-lvl", "-lm", "-o", out + ".tmp"]); os.rename(out + ".tmp", out)
    return out

def toolbox_inputs():
    fs = []
    for w, ds, ns in os.walk(REPO + "/toolbox"):
        ds[:] = [x for x in ds if x not in ("mex", "noprefix", "xtest", "demo")]
        fs += [os.path.join(w, n) for n in ns if n.endswith((".c", ".h", ".def", ".tc", ".th"))]
    return fs

def build_mex(names, asan=False):
    """shared libvl.so and the named MEX files, as the project's own build makes them, or (asan) with AddressSanitizer"""
    d = BUILD + ("/asan-so-" if asan else "/so-") + digest(vl_inputs(), REPO)
    opt = ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"] if asan else ["-O3"]
    with lock("so"):
        if not os.path.exists(d + "/libvl.so"):
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            objs = [(s, d + "/" + os.path.basename(s)[:-2] + ".o") for s in sorted(glob.glob(REPO + "/vl/*.c"))]
            pmap(lambda so: sh(["gcc"] + BASE + opt + ["-fvisibility=hidden", "-fPIC", "-DVL_BUILD_DLL"] + simd(so[0]) + ["-c", so[0], "-o", so[1]]), objs)
            sh(["gcc", "-shared"] + opt + [o for _, o in objs] + ["-lm", "-lpthread", "-o", d + "/libvl.so.tmp"]); os.rename(d + "/libvl.so.tmp", d + "/libvl.so")
            for _, o in objs: os.unlink(o)
            trim(d)
        os.utime(d)
    src = {os.path.basename(f)[:-2]: f for f in toolbox_inputs() if f.endswith(".c")}
    inc = [f for f in toolbox_inputs() if not f.endswith(".c")]
    hi = digest(inc)
    env = dict(os.environ, CC="gcc", CXX="g++", OCT_LINK_OPTS="-Wl,-Bsymbolic", HOME=os.environ.get("HOME", "/root"))
    md = d + "/mex"; os.makedirs(md, exist_ok=True)
    def one(n):
        if n not in src: raise BuildError("no MEX source for " + n)
        tag = md + "/." + n + "-" + digest([src[n]], hi)
        with lock("mex-" + n):
            if os.path.exists(tag) and os.path.exists(md + "/" + n + ".mex"): return
            w = md + "/w-" + n; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
            e = dict(env, CFLAGS="-std=c99 -w -DNDEBUG -m64 -D_GNU_SOURCE -fno-stack-protector -fPIC " + " ".join(opt), LDFLAGS="-m64 " + " ".join(opt))
            r = subprocess.run(["mkoctfile", "--mex", "--output", w + "/" + n + ".mex", "-DVL_DISABLE_OPENMP", "-I" + REPO, "-I" + REPO + "/toolbox",
                                "-DMWSIZE_MAX=2147483647", src[n], "-L" + d, "-lvl", "-lm"], env=e, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or not os.path.exists(w + "/" + n + ".mex"): raise BuildError("mkoctfile " + n + "\n" + r.stdout[-3000:])
            os.rename(w + "/" + n + ".mex", md + "/" + n + ".mex"); shutil.rmtree(w)
            for t in glob.glob(md + "/." + n + "-*"): os.unlink(t)
            open(tag, "w").close()
    pmap(one, names)
    return d, md

ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=24:max_malloc_fill_size=1048576:malloc_fill_byte=203:handle_abort=1:detect_stack_use_after_return=0"
def prepare(id, kind, src):
    env = dict(os.environ, ASAN_OPTIONS=ASAN, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LC_ALL="C.UTF-8", VT_REPO=REPO, TSAN_OPTIONS="exitcode=98:halt_on_error=1")
    if kind == "cc":
        out, text = build_cc(id, src)
        m = re.search(r"//\s*VT-PROGRAMS:\s*(.+)", text)
        if m:
            for n, pth in build_programs(m.group(1).split()).items(): env["VT_PROG_" + n.upper()] = pth
        return [out], env
    text = open(src).read()
    m = re.search(r"#\s*VT-MEX:\s*(.+)", text); names = m.group(1).split() if m else []
    if re.search(r"#\s*VT-ASAN", text):
        d, md = build_mex(names, True); env["VT_ASAN"] = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
    else: d, md = build_mex(names)
    env["VT_SO"] = d; env["VT_MEX"] = md
    m = re.search(r"#\s*VT-SHIM:\s*(\S+)", text)
    if m: env["VT_SHIM"] = build_shim(m.group(1), d)
    env["LD_LIBRARY_PATH"] = d; env["PYTHONPATH"] = ROOT + "/engine"; env["PYTHONDONTWRITEBYTECODE"] = "1"
    return ["python3-vt", src], env
