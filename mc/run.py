#!/usr/bin/env python3
"""Build the current /repo sources together with one check program and run it.

usage: run.py CHECK [--replay FILE] [--case DESC] [--tier quick|thorough]

The library is compiled from /repo/src into a scratch folder under
/verif/build.  Object files are keyed by the content of every source and
header they can see, so a reused object always belongs to the same sources.
"""

import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
GEN = os.path.join(BUILD, "gen")
CXX = "g++"
CXXFLAGS = ("-std=c++14 -O1 -g1 -w -fPIC -D_GLIBCXX_ASSERTIONS").split()
# memory errors and undefined behavior end the process
SANITIZE = ("-fsanitize=address,undefined,float-cast-overflow "
            "-fno-sanitize-recover=all -fno-omit-frame-pointer").split()
NGROUPS = 8


def log(*args):
    print(*args, file=sys.stderr, flush=True)


def filehash(h, fn):
    with open(fn, "rb") as fp:
        data = fp.read()
    h.update(("%s %i\n" % (fn, len(data))).encode())
    h.update(data)


def headers():
    rv = []
    for root, dirs, files in os.walk(os.path.join(SRC, "diffpy")):
        dirs.sort()
        rv += [os.path.join(root, f) for f in sorted(files)
               if f.endswith((".hpp", ".ipp", ".h"))]
    return rv


def gen_headers():
    """version.hpp and features.hpp are normally written by the build."""
    d = os.path.join(GEN, "diffpy")
    os.makedirs(d, exist_ok=True)

    def put(name, text):
        fn = os.path.join(d, name)
        try:
            with open(fn) as fp:
                if fp.read() == text:
                    return
        except OSError:
            pass
        tmp = "%s.%i" % (fn, os.getpid())
        with open(tmp, "w") as fp:
            fp.write(text)
        os.rename(tmp, fn)

    from string import Template
    subst = dict(
        DIFFPY_VERSION="1004001001LL", DIFFPY_VERSION_MAJOR=1,
        DIFFPY_VERSION_MINOR=4, DIFFPY_VERSION_MICRO=1,
        DIFFPY_VERSION_PATCH=1, DIFFPY_VERSION_STR="1.4.1",
        DIFFPY_VERSION_DATE="unknown", DIFFPY_GIT_SHA="unknown",
        DIFFPY_HAS_OBJCRYST=1)
    tpls = [("version.tpl", "version.hpp"), ("features.tpl", "features.hpp")]
    for tpl, hpp in tpls:
        fn = os.path.join(SRC, "diffpy", tpl)
        if os.path.exists(fn):
            with open(fn) as fp:
                put(hpp, Template(fp.read()).safe_substitute(subst))


def compile_one(src, extra, key, out):
    if os.path.exists(out):
        return None
    tmp = "%s.%i.tmp.o" % (out, os.getpid())
    cmd = [CXX] + CXXFLAGS + extra + ["-I" + SRC, "-I" + GEN,
           "-I" + os.path.join(VERIF, "mc"), "-c", src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True)
    if p.returncode:
        return p.stdout
    os.rename(tmp, out)
    return None


def build(check, objcryst, sharedlib=False):
    os.makedirs(CACHE, exist_ok=True)
    gen_headers()
    h = hashlib.sha256()
    h.update(" ".join([CXX] + CXXFLAGS).encode())
    for f in headers():
        filehash(h, f)
    for f in sorted(glob.glob(os.path.join(GEN, "diffpy", "*"))):
        filehash(h, f)
    hdrhash = h.hexdigest()
    sources = sorted(
        glob.glob(os.path.join(SRC, "diffpy", "*.cpp")) +
        glob.glob(os.path.join(SRC, "diffpy", "srreal", "*.cpp")))
    oc = [s for s in sources if "objcryst" in os.path.basename(s).lower()]
    sources = [s for s in sources if s not in oc]
    # balance groups by size
    groups = [[] for i in range(NGROUPS)]
    for i, s in enumerate(sorted(sources, key=lambda s: (-os.path.getsize(s), s))):
        k = i % (2 * NGROUPS)
        k = k if k < NGROUPS else 2 * NGROUPS - 1 - k
        groups[k].append(s)
    rtdef = ['-DDIFFPYRUNTIMERELPATH=%s' % os.path.join(
        "..", "share", "diffpy", "libdiffpy-1.4")]

    def obj(srcs, salt=""):
        h = hashlib.sha256((hdrhash + salt).encode())
        for s in srcs:
            filehash(h, s)
        return os.path.join(CACHE, h.hexdigest()[:40] + ".o")

    checksrc = os.path.join(VERIF, "checks", check.lower() + ".cpp")
    h = hashlib.sha256(hdrhash.encode())
    for f in sorted(glob.glob(os.path.join(VERIF, "mc", "*.hpp"))) + [checksrc]:
        filehash(h, f)
    checkobj = os.path.join(CACHE, h.hexdigest()[:40] + ".o")

    def do_group(srcs):
        """Compile several sources as one unit, one by one if that fails."""
        o = obj(srcs, "unity")
        if os.path.exists(o):
            return [o], None
        unit = o[:-2] + ".cpp"
        with open(unit, "w") as fp:
            for s in srcs:
                fp.write('#include "%s"\n' % s)
        err = compile_one(unit, rtdef, None, o)
        os.unlink(unit)
        if err is None:
            return [o], None
        objs = []
        for s in srcs:
            o = obj([s])
            err = compile_one(s, rtdef, None, o)
            if err:
                return objs, err
            objs.append(o)
        return objs, None

    with ThreadPoolExecutor(NGROUPS + 1) as ex:
        fc = ex.submit(compile_one, checksrc, [], None, checkobj)
        futures = [ex.submit(do_group, g) for g in groups]
        if objcryst:
            futures += [ex.submit(do_group, [s]) for s in oc]
        objs = []
        errors = []
        for f in futures:
            o, err = f.result()
            objs += o
            if err:
                errors.append(err)
        err = fc.result()
        if err:
            errors.append(err)
    if errors:
        for e in errors:
            lines = [l for l in e.splitlines() if "rror" in l]
            log("\n".join(lines[:20]) or e[-3000:])
        log("build failed")
        sys.exit(2)
    libso = None
    if sharedlib:
        # the check loads the library by itself from a shared object
        h = hashlib.sha256(("so %s" % objs).encode()).hexdigest()[:16]
        libso = os.path.join(CACHE, "libdiffpy-%s.so" % h)
        link(libso, ["-shared", "-Wl,-Bsymbolic"] + objs, objcryst)
        objs = []
    h = hashlib.sha256(("%s %s" % (checkobj, objs)).encode()).hexdigest()[:16]
    exe = os.path.join(CACHE, "%s-%s" % (check.lower(), h))
    link(exe, [checkobj] + objs + ["-rdynamic"], objcryst)
    return exe, libso


def link(out, args, objcryst):
    if os.path.exists(out):
        return
    tmp = "%s.%i" % (out, os.getpid())
    cmd = [CXX, "-o", tmp] + [a for a in SANITIZE if a in CXXFLAGS] + args
    if objcryst:
        cmd += ["-lObjCryst"]
    cmd += ["-lboost_serialization", "-lgsl", "-lgslcblas", "-lm", "-ldl"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        log(p.stdout[-6000:])
        log("link failed")
        sys.exit(2)
    os.rename(tmp, out)


def main():
    args = sys.argv[1:]
    check = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    passargs = []
    buildonly = False
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--build":
            buildonly = True
        else:
            passargs += [a, args.pop(0)]
    with open(os.path.join(VERIF, "checks", "checks.json")) as fp:
        conf = json.load(fp).get(check, {})
    if conf.get("sanitize"):
        CXXFLAGS.extend(SANITIZE)
    exe, libso = build(check, conf.get("objcryst", False),
                       conf.get("sharedlib", False))
    if buildonly:
        return 0
    budget = conf.get("budget", {}).get(tier, 300 if tier == "quick" else 780)
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    evfile = os.path.join(VERIF, "evidence", check + ".json")
    env = {k: v for k, v in os.environ.items()
           if k in ("HOME", "PATH", "VERIF_SEED", "VERIF_TIER", "TMPDIR", "MC_DEV")}
    env["LC_ALL"] = "C"
    env["DIFFPYRUNTIME"] = os.path.join(SRC, "runtime")
    env["DIFFPY_SRC"] = SRC
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % check)
    env["MC_TMP"] = tmp
    env["MC_EXE"] = exe
    env["ASAN_OPTIONS"] = ("abort_on_error=1:detect_leaks=0:"
                           "detect_stack_use_after_return=1:"
                           "strict_string_checks=1:"
                           "quarantine_size_mb=64:malloc_context_size=6")
    env["UBSAN_OPTIONS"] = "abort_on_error=1:print_stacktrace=1"
    if libso:
        env["MC_LIB"] = libso
    try:
        cmd = [exe, "--tmp", tmp, "--evidence", evfile,
               "--replaydir", os.path.join(VERIF, "replays"),
               "--known", os.path.join(VERIF, "known_findings.txt"),
               "--tier", tier, "--budget", str(budget)] + passargs
        rc = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())
