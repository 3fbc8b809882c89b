#!/usr/bin/env python3
"""Builds the harness from /repo's current working tree into /verif/.build (git-ignored), offline.
Objects are cached by the content of every file they were made from; anything changed in /repo is rebuilt."""
import hashlib, json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DELYNOI_REPO", "/repo")
COMMON = ["-g1", "-fno-omit-frame-pointer", "-w", "-D_GLIBCXX_ASSERTIONS"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow,shift,function,vptr,alignment", "-fno-sanitize-recover=all"]
INC = ["-I%s/delynoi/include" % REPO, "-I%s/lib/utilities/include" % REPO]
FLAVORS = {
    "asan": dict(cc="clang", cxx="clang++", opt=["-O1"] + SAN + ["-ftrivial-auto-var-init=pattern"], cext=["-fsanitize=address", "-mllvm", "-asan-stack=0"], link=["-lrapidcheck"], main="main_rc.cpp"),
    "fuzz": dict(cc="clang", cxx="clang++", opt=["-O1"] + SAN, cext=["-fsanitize=address", "-mllvm", "-asan-stack=0"], link=["-fsanitize=fuzzer"], main="main_fuzz.cpp", fuzz=True),
}
def sha(path):
    try:
        with open(path, "rb") as f: return hashlib.sha256(f.read()).hexdigest()
    except OSError: return "missing"
def sources(flavor):
    F = FLAVORS[flavor]; out = []
    fz = ["-fsanitize=fuzzer-no-link"] if F.get("fuzz") else []
    for base in ("delynoi", "lib"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith(".cpp"):
                    out.append((p, [F["cxx"], "-std=gnu++11"] + COMMON + F["opt"] + fz + INC))
                elif f == "triangle.c":
                    out.append((p, [F["cc"]] + COMMON + ["-O1"] + F["cext"] + fz + ["-DTRILIBRARY", "-DANSI_DECLARATORS"] + INC))
    h = os.path.join(HERE, "harness")
    for f in sorted(os.listdir(h)):
        if f.endswith(".cpp") and (not f.startswith("main_") or f == F["main"]):
            out.append((os.path.join(h, f), [F["cxx"], "-std=c++17"] + COMMON + F["opt"] + fz + INC))
    return out
def build(flavor="asan", quiet=True):
    bdir = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build")), flavor); os.makedirs(bdir, exist_ok=True)
    jobs = []; objs = []
    for src, cmd in sources(flavor):
        key = hashlib.sha256((src + "\0" + "\0".join(cmd)).encode()).hexdigest()[:16]
        obj = os.path.join(bdir, os.path.basename(src) + "." + key + ".o"); objs.append(obj)
        jobs.append((src, cmd, obj))
    def one(job):
        src, cmd, obj = job; meta = obj + ".json"
        try:
            m = json.load(open(meta))
            if os.path.exists(obj) and m and all(sha(p) == h for p, h in m.items()): return None
        except (OSError, ValueError): pass
        dep = obj + ".d"
        r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", obj + ".tmp"], capture_output=True, text=True)
        if r.returncode != 0: return "%s\n%s" % (src, r.stderr[-3000:])
        txt = open(dep).read().replace("\\\n", " "); deps = txt.split(": ", 1)[1].split()
        os.replace(obj + ".tmp", obj)
        json.dump({p: sha(p) for p in deps if not p.startswith("/usr/")}, open(meta, "w"))
        return ""
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex: res = list(ex.map(one, jobs))
    errs = [r for r in res if r]
    if errs:
        sys.stderr.write("BUILD FAILED\n" + "\n".join(errs) + "\n"); return None
    exe = os.path.join(bdir, "harness"); F = FLAVORS[flavor]
    stamp = hashlib.sha256("".join(o + sha(o) for o in objs).encode()).hexdigest()
    try: old = open(exe + ".stamp").read()
    except OSError: old = ""
    if old != stamp or not os.path.exists(exe):
        # library objects in an archive-like order: harness first; duplicates (functions.cpp includes FunctorClasses.cpp) resolve as inline members
        r = subprocess.run([F["cxx"]] + SAN + objs + F["link"] + ["-o", exe], capture_output=True, text=True)
        if r.returncode != 0:
            sys.stderr.write("LINK FAILED\n" + r.stderr[-4000:] + "\n"); return None
        open(exe + ".stamp", "w").write(stamp)
    return exe
if __name__ == "__main__":
    fl = sys.argv[1:] or ["asan"]
    for f in fl:
        e = build(f)
        if not e: sys.exit(1)
        print(e)
