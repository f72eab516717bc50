#!/usr/bin/env python3
"""Compiles the library (from the given repository tree) and the simulator."""
import hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

here, repo, out = sys.argv[1:4]
lib = os.path.join(repo, "src", "pe_lib")
CXX = "clang++-18" if subprocess.call(["which", "clang++-18"], stdout=subprocess.DEVNULL) == 0 else "clang++"
COMMON = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize-address-use-after-return=never", "-w", "-pthread", "-I" + lib]
LIBF = COMMON + ["-std=c++11", "-fsanitize-coverage=trace-pc-guard", "-fno-builtin-memcmp"]
# The library is built twice: automatic variables it does not initialise hold a pattern in pesim and
# zeros in its twin pesim-zero, which C13 asks for the same saves.
VARIANTS = {"pesim": ["-ftrivial-auto-var-init=pattern"], "pesim-zero": ["-ftrivial-auto-var-init=zero"]}
HARF = COMMON + ["-std=c++17", f'-DSIM_REPO="{repo}"']
WRAP = ["iconv_open", "iconv", "pthread_mutex_lock", "pthread_once", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
objs = os.path.join(out, "obj")
os.makedirs(objs, exist_ok=True)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as s:
            h.update(s.read())
        h.update(b"\0")
    return h.hexdigest()


lib_src = sorted(glob.glob(lib + "/**/*.cpp", recursive=True) + glob.glob(lib + "/**/*.cc", recursive=True))
lib_hdr = [f for f in glob.glob(lib + "/**/*", recursive=True) if os.path.isfile(f) and f.endswith((".h", ".hpp", ".inl", ".ipp"))]
sim_src = sorted(glob.glob(here + "/sim/*.cpp"))
sim_hdr = glob.glob(here + "/sim/*.h")
lh = tree_hash(lib_hdr)
sh = tree_hash(sim_hdr)
jobs = []
objects = {v: [] for v in VARIANTS}
for f in lib_src:
    with open(f, "rb") as s:
        text = s.read()
    for v, extra in VARIANTS.items():
        o = os.path.join(objs, digest("lib", lh, " ".join(LIBF + extra), os.path.relpath(f, repo), repo, text) + ".o")
        jobs.append((f, LIBF + extra, o))
        objects[v].append(o)
for f in sim_src:
    with open(f, "rb") as s:
        k = digest("sim", lh, sh, " ".join(HARF), os.path.basename(f), here, s.read())
    o = os.path.join(objs, k + ".o")
    jobs.append((f, HARF, o))
    for v in VARIANTS:
        objects[v].append(o)


def compile_one(j):
    src, flags, obj = j
    if os.path.exists(obj):
        os.utime(obj)
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], stderr=subprocess.PIPE)
    if p.returncode:
        return f"{src}:\n" + p.stderr.decode(errors="replace")[-6000:]
    os.rename(tmp, obj)
    return None


with ThreadPoolExecutor(8) as ex:
    errs = [e for e in ex.map(compile_one, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))) if e]
if errs:
    sys.stderr.write("\n".join(errs))
    sys.exit(3)


def link(name):
    binary = os.path.join(out, name)
    stamp = binary + ".key"
    key = digest(*objects[name], " ".join(WRAP))
    if os.path.exists(binary) and os.path.exists(stamp) and open(stamp).read() == key:
        return None
    cmd = [CXX, "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard", "-pthread", *objects[name], "-ldl", "-o", binary + ".new"]
    for w in WRAP:
        cmd.append("-Wl,--wrap=" + w)
    p = subprocess.run(cmd, stderr=subprocess.PIPE)
    if p.returncode:
        return p.stderr.decode(errors="replace")[-6000:]
    os.rename(binary + ".new", binary)
    with open(stamp, "w") as s:
        s.write(key)
    return None


with ThreadPoolExecutor(2) as ex:
    errs = [e for e in ex.map(link, VARIANTS) if e]
if errs:
    sys.stderr.write("\n".join(errs))
    sys.exit(3)
# drop old objects
keep = {o for _, _, o in jobs}
old = sorted((f for f in glob.glob(objs + "/*.o") if f not in keep), key=os.path.getmtime)
for f in old[:-400] if len(old) > 400 else []:
    os.unlink(f)
