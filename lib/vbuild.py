#!/usr/bin/env python3
"""Builds the code under test (/repo/src, current working tree) plus the verification driver.

Every variant has its own object directory under /verif/build/<variant>.  An object is reused only if the
contents of its source, of every header the compiler reported for it and the flags are unchanged
(content hashes, not time stamps).  Nothing is written in /repo.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import fcntl
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src")
SUBDIRS = ["", "Common", "Feedback", "GradhSph", "Headers", "Hydrodynamics", "Ic", "MeshlessFV", "Nbody",
           "Radiation", "SM2013", "Thermal", "Tree"]
MPIDIRS = ["Mpi"]

BASE = ["-w", "-DDEBUG1", "-DGANDALF_DOUBLE_PRECISION", "-DGANDALF_GSL", "-DGANDALF_VERIF_HOOKS", "-fno-rtti", "-std=gnu++14",
        "-I" + os.path.join(SRC, "Headers"), "-I" + SRC]
VARIANTS = {
    # the reference build: asserts on, like the baseline build (STANDARD mode), lower optimisation for speed
    "plain": dict(cc="g++", flags=["-O1"], slow=["-Og"], link=[]),
    # memory-safety and UB monitor
    "asan": dict(cc="/usr/bin/clang++",
                 flags=["-O1", "-gline-tables-only", "-fno-omit-frame-pointer",
                        "-fsanitize=address,undefined,float-cast-overflow",
                        "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"],
                 slow=None, link=["-fsanitize=address,undefined"]),
    # for valgrind memcheck (uninitialised reads)
    "vg": dict(cc="g++", flags=["-O1", "-g1"], slow=["-Og", "-g1"], link=[]),
    # automatic variables start with a pattern: results that depend on them differ from the plain build's
    "pat": dict(cc="g++", flags=["-O1", "-ftrivial-auto-var-init=pattern"], slow=["-Og", "-ftrivial-auto-var-init=pattern"], link=[]),
    "omp": dict(cc="g++", flags=["-O1", "-fopenmp"], slow=["-Og", "-fopenmp"], link=["-fopenmp"]),
    "mpi": dict(cc="mpic++", flags=["-O1", "-DMPI_PARALLEL"], slow=["-Og", "-DMPI_PARALLEL"], link=[]),
}
SLOW = {"Dust.cpp"}


class BuildError(Exception):
    pass


def sha(path):
    h = hashlib.sha1()
    try:
        with open(path, "rb") as f:
            h.update(f.read())
    except OSError:
        return "missing"
    return h.hexdigest()


class Hashes(dict):
    def __missing__(self, k):
        v = self[k] = sha(k)
        return v


def object_names():
    """Stems that src/Makefile links into the code (OBJ)."""
    mk = open(os.path.join(SRC, "Makefile")).read()
    stems = set()
    for line in re.findall(r"^(?:WRAP_OBJ|TEST_OBJ|OBJ)\s*\+?=\s*(.*)$", mk, re.M):
        stems |= set(re.findall(r"([\w.]+)\.o\b", line))
    return stems


def sources(variant):
    stems = object_names()
    out = []
    for d in SUBDIRS + (MPIDIRS if variant == "mpi" else []):
        p = os.path.join(SRC, d)
        for f in sorted(os.listdir(p)):
            stem, ext = os.path.splitext(f)
            if ext in (".cpp", ".c") and (stem in stems or stem in ("Exception", "Render")) and \
               not stem.startswith("Test") and not stem.endswith("_wrap"):
                out.append(os.path.join(p, f))
    return out


def compile_one(variant, src, objdir, hashes):
    v = VARIANTS[variant]
    name = os.path.basename(src)
    flags = list(v["flags"])
    if name in SLOW and v["slow"]:
        flags = list(v["slow"])
    own = src.startswith(VERIF)
    exc = ["-fexceptions"] if (name == "Exception.cpp" or own) else ["-fno-exceptions"]
    cmd = [v["cc"]] + BASE + flags + exc
    if own:
        cmd += ["-I" + os.path.join(VERIF, "cpp")]
    if src.endswith(".c"):
        cmd += ["-x", "c++"]
    obj = os.path.join(objdir, name + ".o")
    man = obj + ".json"
    key = " ".join(cmd)
    if os.path.exists(obj) and os.path.exists(man):
        try:
            m = json.load(open(man))
            if m["key"] == key and all(hashes[p] == h for p, h in m["deps"].items()):
                return obj, False
        except (ValueError, KeyError):
            pass
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj + ".tmp"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compilation of %s failed\n%s\n%s" % (src, " ".join(cmd), r.stdout[-4000:]))
    txt = open(dep).read().replace("\\\n", " ")
    deps = [p for p in txt.split(":", 1)[1].split() if p.startswith((REPO, VERIF))]
    deps = sorted(set(os.path.realpath(p) for p in deps + [src]))
    os.replace(obj + ".tmp", obj)
    json.dump({"key": key, "deps": {p: sha(p) for p in deps}}, open(man, "w"))
    return obj, True


def build(variant, drivers=("gdrv",), jobs=None, quiet=False):
    """Build the variant; returns {driver: path}."""
    t0 = time.time()
    objdir = os.path.join(BUILD, variant)
    os.makedirs(objdir, exist_ok=True)
    lock = open(os.path.join(objdir, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hashes = Hashes()
    srcs = sources(variant)
    dsrc = {d: os.path.join(VERIF, "cpp", d + ".cpp") for d in drivers}
    order = sorted(srcs + list(dsrc.values()), key=lambda p: (os.path.basename(p) not in SLOW,
                                                             not p.startswith(VERIF), -os.path.getsize(p)))
    jobs = jobs or os.cpu_count() or 4
    objs, n = {}, 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(compile_one, variant, s, objdir, hashes): s for s in order}
        err = None
        for f in cf.as_completed(futs):
            try:
                o, fresh = f.result()
                objs[futs[f]] = o
                n += fresh
            except BuildError as e:
                if err is None:
                    err = e
                    for g in futs:
                        g.cancel()
            except cf.CancelledError:
                pass
        if err:
            raise err
    res = {}
    lib = [objs[s] for s in sorted(srcs)]
    for d, s in dsrc.items():
        exe = os.path.join(objdir, d)
        sig = hashlib.sha1()
        for o in lib + [objs[s]]:
            sig.update(open(o + ".json", "rb").read())
        sigf = exe + ".sig"
        if not (os.path.exists(exe) and os.path.exists(sigf) and open(sigf).read() == sig.hexdigest()):
            r = subprocess.run([VARIANTS[variant]["cc"], "-o", exe + ".tmp", objs[s]] + lib +
                               VARIANTS[variant]["link"] + ["-lgsl", "-lgslcblas", "-lm", "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildError("link of %s failed\n%s" % (exe, r.stdout[-4000:]))
            os.replace(exe + ".tmp", exe)
            open(sigf, "w").write(sig.hexdigest())
        res[d] = exe
    if not quiet:
        print("[build] %s: %d of %d objects compiled, %.1f s" % (variant, n, len(objs), time.time() - t0), flush=True)
    lock.close()
    return res


if __name__ == "__main__":
    try:
        for v in sys.argv[1:] or ["plain", "asan"]:
            build(v, ("gdrv", "gunit"))
    except BuildError as e:
        print(e)
        sys.exit(2)
