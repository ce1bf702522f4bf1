#!/usr/bin/env python3
"""Builds harness binaries from /repo's current working tree.

Objects are keyed by the content of everything that can affect them (source,
every header of /repo and of the harness, compiler, flags), never by time
stamps, so a copy of the tree with odd mtimes is rebuilt exactly when needed.
  build.py CONFIG NAME...   prints the path of each binary
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

COMMON = ["-std=c++20", "-g1", "-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-pthread", "-w"]
CONFIGS = {
    "plain": ("g++", ["-O1"]),
    "ndebug": ("g++", ["-O2", "-DNDEBUG"]),
    "asan": ("g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]),
    "tsan": ("g++", ["-O1", "-fsanitize=thread", "-Wno-tsan"]),
    "fuzz": ("clang++", ["-O1", "-fsanitize=fuzzer-no-link,address", "-DVP_FUZZ"]),
}
NEEDS_SHARED = {"simple"}  # tools that use apps/collection.cc and apps/walk.cc
LIBS = ["-lz", "-pthread", "-ldl"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:] + "\n")
        raise SystemExit(3)

def build(config, names):
    cxx, flags = CONFIGS[config]
    os.makedirs(os.path.join(BUILD, config), exist_ok=True)
    with open(os.path.join(BUILD, config, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build_locked(config, cxx, flags, names)

def build_locked(config, cxx, flags, names):
    odir = os.path.join(BUILD, config, "obj")
    os.makedirs(odir, exist_ok=True)
    ver = subprocess.run([cxx, "--version"], stdout=subprocess.PIPE).stdout
    hdrs = sorted(sum((glob.glob(os.path.join(REPO, d, "*.h")) for d in ("src", "gcl", "meadowlark")), []))
    inline_cc = []  # .cc files that are #included by other files count as headers
    hh = sha(ver, " ".join(COMMON + flags), *[os.path.relpath(h, REPO).encode() + b"\0" + read(h) for h in hdrs])
    vh = sha(hh, *[read(h) for h in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))])
    srcs = sorted(sum((glob.glob(os.path.join(REPO, d, "*.cc")) for d in ("src", "gcl", "meadowlark")), []))
    jobs, objs = [], []
    def obj(path, base, rel):
        key = sha(base, rel, read(path))
        o = os.path.join(odir, rel.replace("/", "_") + "-" + key + ".o")
        if not os.path.exists(o):
            for old in glob.glob(os.path.join(odir, glob.escape(rel.replace("/", "_")) + "-*.o")):
                os.unlink(old)
            jobs.append((path, o))
        return o
    for s in srcs:
        objs.append(obj(s, hh, os.path.relpath(s, REPO)))
    common = [obj(os.path.join(VERIF, "harness", c), vh, "harness/" + c) for c in ("vp.cc",)]
    mains = {n: obj(os.path.join(VERIF, "harness", n + ".cc"), vh, "harness/" + n + ".cc") for n in names}
    def compile1(j):
        path, o = j
        tmp = o + ".tmp%d.o" % os.getpid()
        run([cxx] + COMMON + flags + ["-c", path, "-o", tmp])
        os.rename(tmp, o)
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(compile1, jobs))
    lib = os.path.join(BUILD, config, "lib-" + sha(*objs) + ".a")
    if not os.path.exists(lib):
        for old in glob.glob(os.path.join(BUILD, config, "lib-*.a")):
            os.unlink(old)
        tmp = lib + ".tmp%d" % os.getpid()
        if os.path.exists(tmp): os.unlink(tmp)
        run(["ar", "rcsT" if False else "rcs", tmp] + objs)
        os.rename(tmp, lib)
    out = []
    links = []
    for n in names:
        extra = []
        if config == "fuzz":
            extra = ["-fsanitize=fuzzer,address"]
        b = os.path.join(BUILD, config, n + "-" + sha(lib, mains[n], *common, " ".join(LIBS)))
        if not os.path.exists(b):
            for old in glob.glob(os.path.join(BUILD, config, n + "-*")):
                os.unlink(old)
            links.append((b, [cxx] + flags + extra + ["-fuse-ld=gold", mains[n]] + common + [lib] + LIBS))
        out.append(b)
    def link1(l):
        tmp = l[0] + ".tmp%d" % os.getpid()
        run(l[1] + ["-o", tmp])
        os.rename(tmp, l[0])
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(link1, links))
    return out

def build_apps(config, names):
    """Builds the command-line tools NAMES; returns the directory they are in."""
    build(config, [])  # the library
    cxx, flags = CONFIGS[config]
    with open(os.path.join(BUILD, config, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        (lib,) = glob.glob(os.path.join(BUILD, config, "lib-*.a"))
        hdrs = sorted(sum((glob.glob(os.path.join(REPO, d, "*.h")) for d in ("src", "gcl", "meadowlark", "apps")), []))
        shared = [os.path.join(REPO, "apps", n) for n in ("collection.cc", "walk.cc")]
        shared = [f for f in shared if os.path.exists(f)]
        mains = [os.path.join(REPO, "apps", n + ".cc") for n in names]
        key = sha(os.path.basename(lib), " ".join(COMMON + flags), *[os.path.relpath(f, REPO).encode() + b"\0" + read(f) for f in hdrs + shared + mains])
        out = os.path.join(BUILD, config, "apps-" + key)
        if os.path.isdir(out):
            return out
        for old in glob.glob(os.path.join(BUILD, config, "apps-*")):
            shutil.rmtree(old)
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp)
        def comp(f):
            run([cxx] + COMMON + flags + ["-c", f, "-o", os.path.join(tmp, os.path.basename(f) + ".o")])
        def link(n):
            run([cxx] + flags + ["-fuse-ld=gold", os.path.join(tmp, n + ".cc.o")]
                + [os.path.join(tmp, os.path.basename(f) + ".o") for f in (shared if n in NEEDS_SHARED else [])]
                + [lib] + LIBS + (["-lboost_filesystem", "-lboost_system"] if n in NEEDS_SHARED else []) + ["-o", os.path.join(tmp, n)])
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            list(ex.map(comp, shared + mains))
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            list(ex.map(link, names))
        for f in glob.glob(os.path.join(tmp, "*.o")):
            os.unlink(f)
        os.rename(tmp, out)
        return out

if __name__ == "__main__":
    for b in build(sys.argv[1], sys.argv[2:]):
        print(b)
