#!/usr/bin/env python3
"""Builds the simulator executable(s) from /repo's current working tree.

usage: build.py VARIANT...   (asan, sched)
Output: /verif/build/<variant>/odcsim.  Writes only below /verif/build.
"""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ECKIT = "/opt/odc-deps/lib/python3.12/site-packages/eckitlib"
SRC = REPO + "/src/odc"

def cmake_list(path, name):
    txt = open(path).read()
    out = []
    for m in re.finditer(r"list\(\s*APPEND\s+%s\b(.*?)\n\)" % name, txt, re.S):
        for line in m.group(1).splitlines():
            line = line.split("#")[0]
            out += [w for w in line.split() if w.endswith(".cc")]
    return out

def sources(gen):
    s = []
    for f in cmake_list(SRC + "/CMakeLists.txt", "odclib_src_files"):
        if f.startswith("${"):
            f = gen + "/" + os.path.basename(f)
        else:
            f = SRC + "/" + f
        s.append(f)
    templates = {SRC + "/" + f for f in cmake_list(SRC + "/CMakeLists.txt", "odclib_templates")}
    s = [f for f in s if f not in templates]
    t = [SRC + "/tools/" + f for f in cmake_list(SRC + "/tools/CMakeLists.txt", "odctools_src_files")]
    t.append(SRC + "/tools/odc.cc")
    return s, t

def generated(gen):
    os.makedirs(gen, exist_ok=True)
    version = open(REPO + "/VERSION").read().strip()
    v = version.split(".")
    def sub(src, dst):
        txt = open(src).read()
        for k, x in {"odc_VERSION_STR": version, "odc_VERSION": version, "odc_VERSION_MAJOR": v[0], "odc_VERSION_MINOR": v[1],
                     "odc_VERSION_PATCH": v[2], "CMAKE_INSTALL_PREFIX": "/usr/local", "CMAKE_BINARY_DIR": "/repo/_build",
                     "odc_GIT_SHA1": "simulated"}.items():
            txt = txt.replace("@%s@" % k, x)
        write(dst, txt)
    sub(REPO + "/src/odc_config.h.in", gen + "/odc_config.h")
    sub(SRC + "/ODBAPIVersionSHA1.cc.in", gen + "/ODBAPIVersionSHA1.cc")
    write(gen + "/odc_ecbuild_config.h", "#pragma once\n")

def write(path, txt):
    if not os.path.exists(path) or open(path).read() != txt:
        open(path, "w").write(txt)

COMMON = ["-std=gnu++17", "-DNDEBUG", "-fno-omit-frame-pointer", "-Wno-everything", "-pthread"]
VARIANTS = {
    "asan":  {"odc": ["-O1", "-gline-tables-only", "-fsanitize=address", "-DSIM_ASAN"],
              "sim": ["-O1", "-gline-tables-only", "-fsanitize=address", "-DSIM_ASAN"],
              "link": ["-fsanitize=address"]},
    "sched": {"odc": ["-O1", "-gline-tables-only", "-fsanitize=thread", "-DSIM_SCHED"],
              "sim": ["-O1", "-gline-tables-only", "-DSIM_SCHED"],
              "link": []},
}

def newest_dep(dep):
    try:
        txt = open(dep).read().replace("\\\n", " ")
    except OSError:
        return None
    files = txt.split(":", 1)[1].split()
    try:
        return max(os.stat(f).st_mtime_ns for f in files)
    except OSError:
        return None

def build(variant):
    out = os.path.join(VERIF, "build", variant)
    gen = os.path.join(VERIF, "build", "gen")
    os.makedirs(out, exist_ok=True)
    generated(gen)
    cfg = VARIANTS[variant]
    inc = ["-I" + SRC + "/..", "-I" + gen, "-I" + ECKIT + "/include"]
    lib, tools = sources(gen)
    jobs = []
    def add(src, flags, tag):
        obj = os.path.join(out, tag + "_" + re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/"))) + ".o"
        cmd = ["clang++"] + COMMON + flags + inc + ["-MMD", "-c", src, "-o", obj]
        jobs.append((src, obj, cmd))
        return obj
    objs = [add(s, cfg["odc"], "odc") for s in lib]
    for s in tools:
        objs.append(add(s, cfg["odc"] + (["-Dmain=odc_tool_main"] if s.endswith("/odc.cc") else []), "tool"))
    simdir = VERIF + "/sim"
    for f in sorted(os.listdir(simdir)):
        if f.endswith(".cc"):
            objs.append(add(simdir + "/" + f, cfg["sim"], "sim"))
    def size(j):
        try: return -os.stat(j[0]).st_size - (10**6 if "/api/" in j[0] or "scn_" in j[0] else 0)
        except OSError: return 0
    jobs.sort(key=size)
    def run(j):
        src, obj, cmd = j
        stamp = obj + ".cmd"
        dep = obj[:-2] + ".d"
        try:
            t = os.stat(obj).st_mtime_ns
            n = newest_dep(dep)
            if n is not None and n < t and open(stamp).read() == " ".join(cmd):
                return None
        except OSError:
            pass
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return (src, p.stdout)
        open(stamp, "w").write(" ".join(cmd))
        return None
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        bad = [r for r in ex.map(run, jobs) if r]
    if bad:
        for s, o in bad[:3]:
            sys.stderr.write("compile failed: %s\n%s\n" % (s, o[:2500]))
        return 1
    exe = os.path.join(out, "odcsim")
    try:
        t = os.stat(exe).st_mtime_ns
        if all(os.stat(o).st_mtime_ns < t for o in objs):
            return 0
    except OSError:
        pass
    L = ECKIT + "/lib64"
    cmd = ["clang++"] + cfg["link"] + ["-rdynamic", "-pthread", "-o", exe] + objs + \
          ["-L" + L, "-Wl,-rpath," + L, "-leckit", "-leckit_sql", "-ldl"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout[:6000])
        return 1
    return 0

if __name__ == "__main__":
    for v in sys.argv[1:]:
        if build(v):
            sys.exit(2)
