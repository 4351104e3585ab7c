"""Extraction of resolved-program facts from /repo's current working tree.

prepare() -> Program.  Everything is rebuilt from /repo/src unless a cache entry
whose key is the hash of every input file is present under /verif/.cache.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import pickle
import shlex
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JPP_REPO", "/repo")
CACHE = os.environ.get("JPP_CACHE", os.path.join(VERIF, ".cache"))
LLVM = "/usr/lib/llvm-18"


class Broken(Exception):
    """The analysis itself cannot give an answer (error exit, never a verdict)."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise Broken("command failed: %s\n%s" % (cmd if isinstance(cmd, str) else " ".join(cmd[:6]), r.stdout[-3000:]))
    return r.stdout


def hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_inputs():
    res = []
    for base in ("src", "cmake", "libs"):
        for dp, dn, fn in os.walk(os.path.join(REPO, base)):
            if base == "libs" and "eigen3" in dp:
                continue
            for f in fn:
                if f.endswith((".h", ".hpp", ".cc", ".cpp", ".c", ".proto", ".cmake", ".txt", ".in", ".inc")):
                    res.append(os.path.join(dp, f))
    for f in ("CMakeLists.txt", "version.cmake"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            res.append(p)
    return res


def build_tool():
    src = os.path.join(VERIF, "tool", "jppfacts.cc")
    h = hash_files([src])
    out = os.path.join(CACHE, "bin", "jppfacts-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    sh(["g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
        "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-I" + LLVM + "/include", src, "-o", tmp,
        "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"])
    os.rename(tmp, out)
    return out


# flow analyses of the compiler front end whose results are facts (see rules D01, M01)
WARN = ["-Wno-everything"] + ["-W" + w for w in (
    "uninitialized", "sometimes-uninitialized", "dangling", "dangling-gsl", "return-stack-address", "return-type",
    "mismatched-new-delete", "delete-non-abstract-non-virtual-dtor", "delete-abstract-non-virtual-dtor",
    "sizeof-pointer-memaccess", "infinite-recursion", "unsequenced")]


def is_test_file(f):
    b = os.path.basename(f)
    return ("_test." in b or "/tests/" in f or "/testing/" in f or "/benchmarks/" in f
            or "_test_" in b)


def extract(dst):
    tool = build_tool()
    incr = os.environ.get("JPP_INCR")   # mutation testing only: keep the build tree and unit outputs
    bld = os.path.join(incr or dst, "build")
    os.makedirs(bld, exist_ok=True)
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", LANG="C.UTF-8")
    eig = os.path.join(REPO, "libs", "eigen3")
    if not os.path.lexists(eig):
        os.symlink("/usr/include/eigen3", eig)
    cm = ["cmake", "-S", REPO, "-B", bld, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
          "-DCMAKE_CXX_FLAGS=-Wno-error -O0 -DNDEBUG", "-DJPP_ENABLE_TESTS=ON", "-DJPP_ENABLE_BENCHMARKS=ON",
          "-DJPP_ENABLE_DEV_TOOLS=ON", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"]
    off = "/opt/vp/support/offline.cmake"
    if os.path.exists(off):
        cm.append("-DCMAKE_PROJECT_INCLUDE=" + off)
    sh(cm, env=env)
    # Generated sources (protobuf classes, static feature code) are part of what the build covers.
    tg = sh(["ninja", "-C", bld, "-t", "targets", "all"])
    gens = []
    for ln in tg.splitlines():
        n = ln.split(":")[0].strip()
        if ln.endswith("CUSTOM_COMMAND") and n.endswith((".pb.h", ".pb.cc")) or (
                ln.endswith("CUSTOM_COMMAND") and "/gen/" in n and n.endswith((".cc", ".h"))):
            if not os.path.isabs(n):
                gens.append(n)
    if not any(g.endswith("jpp_jumandic_cg.cc") for g in gens):
        raise Broken("static feature generation target not found in the build graph")
    sh(["ninja", "-C", bld] + gens, env=env)
    db = json.load(open(os.path.join(bld, "compile_commands.json")))
    jobs = []
    seen = set()
    roots = REPO + "/src:" + bld + "/src"
    for x in db:
        f = x["file"]
        if is_test_file(f) or "/libs/" in f or f.endswith("_codegen_main.cc") or "cgtest" in f or f in seen:
            continue
        if f.endswith(".pb.cc"):
            continue
        seen.add(f)
        c = shlex.split(x["command"])[1:]
        args = []
        skip = False
        for a in c:
            if skip:
                skip = False
                continue
            if a == "-o":
                skip = True
                continue
            if a == "-c" or a == f:
                continue
            args.append(a)
        jobs.append((f, x["directory"], [a for a in args if not a.startswith("-W")] + WARN + ["-resource-dir", LLVM + "/lib/clang/18"]))
    out = os.path.join(dst, "tu")
    os.makedirs(out, exist_ok=True)

    def run(i):
        f, d, a = jobs[i]
        o = os.path.join(out, "%03d" % i)
        if incr:
            o = os.path.join(incr, "tu", hashlib.sha256(f.encode()).hexdigest()[:16])
            os.makedirs(os.path.dirname(o), exist_ok=True)
            try:
                deps, key = json.load(open(o + ".key"))
                if key == hash_files(deps) + str(a) + tool:
                    return f, o, 0, ""
            except (OSError, ValueError):
                pass
        r = subprocess.run([tool, o, roots, d, f] + a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if incr and r.returncode == 0:
            deps = [ln.split("\t")[1] for ln in open(o) if ln.startswith("D\t")]
            json.dump([deps, hash_files(deps) + str(a) + tool], open(o + ".key", "w"))
        return f, o, r.returncode, r.stdout

    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]))
    recs = {}
    tus = []
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, order))
    res.sort()
    for f, o, rc, log in res:
        if rc != 0:
            raise Broken("cannot parse %s:\n%s" % (f, log[-2000:]))
        tus.append(f.replace(REPO + "/", "").replace(bld + "/src/", "gen/"))
        with open(o) as fh:
            for line in fh:
                kind, key, js = line.split("\t", 2)
                if kind == "D":
                    continue
                if kind == "F":
                    # same mangled entity in one header is one function; the same name in two
                    # source files (main, parseArgs of different executables) is two functions
                    fp = js[:4000].find('"file":"')
                    k = (kind, key, js[fp + 8:js.find('"', fp + 8)])
                else:
                    k = (kind, key)
                if k not in recs:
                    recs[k] = js
    shutil.rmtree(out)
    objs = [json.loads(v) for v in recs.values()]

    def norm(p):
        if p.startswith(REPO + "/"):
            return p[len(REPO) + 1:]
        if p.startswith(bld + "/src/"):
            return "gen/" + p[len(bld) + 5:]
        return p
    for o in objs:
        o["file"] = norm(o["file"])
    gen = {}
    for dp, dn, fn in os.walk(bld + "/src"):
        for f in fn:
            p = os.path.join(dp, f)
            if f.endswith((".cc", ".h")):
                gen["gen/" + p[len(bld) + 5:]] = open(p, errors="replace").read()
    if not incr:
        shutil.rmtree(bld)
    return {"objs": objs, "tus": tus, "gen": gen}


def prepare(verbose=False):
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    tool_src = [os.path.join(VERIF, "tool", "jppfacts.cc"), os.path.abspath(__file__)]
    h = hash_files(repo_inputs() + tool_src)
    pk = os.path.join(CACHE, "facts-%s.pickle" % h)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(pk):
            with open(pk, "rb") as f:
                data = pickle.load(f)
        else:
            import tempfile
            dst = tempfile.mkdtemp(prefix="x-", dir=CACHE)
            try:
                data = extract(dst)
            finally:
                shutil.rmtree(dst, ignore_errors=True)
            data["hash"] = h
            olds = sorted((os.path.getmtime(os.path.join(CACHE, f)), f) for f in os.listdir(CACHE)
                          if f.startswith("facts-"))
            for _, f in olds[:-4]:
                os.unlink(os.path.join(CACHE, f))
            with open(pk + ".tmp", "wb") as f:
                pickle.dump(data, f, protocol=5)
            os.rename(pk + ".tmp", pk)
    from model import Program
    P = Program(data)
    P.extract_s = time.time() - t0
    return P
