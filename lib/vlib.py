"""Shared machinery: running the driver on a case, loading state dumps, deciding verdicts, writing evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import vbuild  # noqa: E402

WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "work"))
OUT = os.path.join(VERIF, "out")
NPROC = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))


class HarnessError(Exception):
    """The machinery itself failed: an error of the check, never a verdict."""


# ------------------------------------------------------------------------------------------------ driver
class Run(object):
    """Outcome of one driver execution."""

    def __init__(self, rc, out, events, wd, timed_out):
        self.rc, self.out, self.events, self.wd, self.timed_out = rc, out, events, wd, timed_out

    @property
    def ok(self):
        return self.rc == 0 and any(e.get("ev") == "done" for e in self.events)

    def failure(self):
        """Short normalised signature of an abnormal end, None if the run was fine."""
        if self.ok:
            return None
        if self.timed_out:
            return "hang"
        return crash_signature(self.rc, self.out)

    def ev(self, name):
        return [e for e in self.events if e.get("ev") == name]


def crash_signature(rc, out):
    m = re.search(r"AddressSanitizer: ([\w-]+)", out)
    if m:
        f = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S*?/src/\S+?):\d+", out)
        w = (re.sub(r"<.*?>|\(.*", "", f[0][0]), os.path.basename(f[0][1])) if f else ("?", "?")
        return "asan:%s:%s:%s" % (m.group(1), w[1], w[0])
    m = re.search(r"(\S+?):\d+:\d+: runtime error: (.*)", out)
    if m:
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"[-+]?\d[\d.e+-]*|0x[0-9a-f]+", "#", m.group(2))[:80])
    m = re.search(r"([\w./]+):\d+: .*?Assertion `(.*?)' failed", out)
    if m:
        return "assert:%s:%s" % (os.path.basename(m.group(1)), m.group(2)[:100])
    if rc is not None and rc < 0:
        return "signal:%s" % signal.Signals(-rc).name
    tail = [l.strip() for l in out.strip().splitlines() if l.strip()]
    return "exit%s:%s" % (rc, (tail[-1] if tail else "")[:120])


_built = {}


def driver(variant="plain", name="gdrv"):
    k = (variant, name)
    if k not in _built:
        _built[k] = vbuild.build(variant, (name,))[name]
    return _built[k]


ASAN_ENV = {"ASAN_OPTIONS": "abort_on_error=0:halt_on_error=1:detect_leaks=0:exitcode=99:allocator_may_return_null=1",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}


def run_driver(script, wd, variant="plain", timeout=120, arrays=None, name="case", wrapper=None, exe="gdrv", env=None, retry=True):
    """script: list of lines.  arrays: {file: ndarray} written as raw doubles."""
    os.makedirs(wd, exist_ok=True)
    for fn, a in (arrays or {}).items():
        np.ascontiguousarray(a, dtype=np.float64).tofile(os.path.join(wd, fn))
    sf = os.path.join(wd, name + ".script")
    with open(sf, "w") as f:
        f.write("\n".join(script) + "\n")
    rf = os.path.join(wd, name + ".res")
    e = dict(os.environ)
    e.update(ASAN_ENV)
    e["OMP_NUM_THREADS"] = e.get("OMP_NUM_THREADS", "1")
    if env:
        e.update(env)
    cmd = (wrapper or []) + [driver(variant, exe), os.path.basename(sf), os.path.basename(rf)]
    to = False
    for fn in os.listdir(wd):                 # states of an earlier attempt in the same directory
        if fn.endswith(".dmp"):
            os.unlink(os.path.join(wd, fn))
    with open(os.path.join(wd, name + ".log"), "wb") as log:
        p = subprocess.Popen(cmd, cwd=wd, stdout=log, stderr=subprocess.STDOUT, env=e, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            rc = p.wait()
    if to and retry:
        return run_driver(script, wd, variant, timeout*2, arrays, name, wrapper, exe, env, retry=False)
    size = os.path.getsize(os.path.join(wd, name + ".log"))
    with open(os.path.join(wd, name + ".log"), "rb") as f:
        if size > 200000:
            f.seek(size - 200000)
        out = f.read().decode("utf-8", "replace")
    events = []
    if os.path.exists(rf):
        for l in open(rf, errors="replace"):
            try:
                events.append(json.loads(l))
            except ValueError:
                pass
    if rc == 97:
        raise HarnessError("driver rejected script %s: %s" % (sf, out[-500:]))
    return Run(rc, out, events, wd, to)


def params_script(params):
    lines = []
    for k, v in params.items():
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, float):
            lines.append("fparam %s %r" % (k, v))
        else:
            lines.append("param %s %s" % (k, v))
    return lines


# ------------------------------------------------------------------------------------------------ dumps
class Tab(object):
    def __init__(self, cols, data):
        self.cols, self.data = cols, data
        self.ix = {c: i for i, c in enumerate(cols)}
        self.n = data.shape[0]

    def __getitem__(self, c):
        return self.data[:, self.ix[c]]

    def __contains__(self, c):
        return c in self.ix

    def vec(self, pre, nd):
        return np.stack([self[pre + a] for a in "xyz"[:nd]], axis=1)

    def sel(self, mask):
        return Tab(self.cols, self.data[mask])


class Dump(object):
    def __init__(self, path):
        with open(path, "rb") as f:
            h = json.loads(f.readline())
            self.s = h["scalars"]
            self.t = {}
            for t in h["tables"]:
                nc = len(t["cols"])
                a = np.frombuffer(f.read(8*nc*t["n"]), dtype=np.float64)
                if a.size != nc*t["n"]:
                    raise HarnessError("truncated dump %s" % path)
                self.t[t["name"]] = Tab(t["cols"], a.reshape(t["n"], nc))

    def __getattr__(self, k):
        if k in ("part", "ghost", "star", "sink", "cell", "leafpart"):
            return self.t[k]
        raise AttributeError(k)


# ------------------------------------------------------------------------------------------------ results
class CaseResult(object):
    """What one case observed."""

    def __init__(self):
        self.viol = []           # (key, detail)
        self.obs = {}            # counters summed over cases
        self.nontrivial = False
        self.sig = None          # distinctness signature
        self.inconclusive = None
        self.maxima = {}         # largest observed deviation per quantity (reported in the evidence)

    def count(self, k, n=1):
        self.obs[k] = self.obs.get(k, 0) + int(n)

    def fail(self, key, detail):
        if len(self.viol) < 20:
            self.viol.append((key, str(detail)[:1500]))

    def mx(self, k, v):
        v = float(v)
        if not (v <= self.maxima.get(k, -1e300)):
            self.maxima[k] = v

    def check(self, cond, key, detail):
        self.count("assertions")
        if not cond:
            self.fail(key, detail() if callable(detail) else detail)
        return bool(cond)

    def bound(self, key, value, limit, detail=""):
        """value <= limit (NaN fails)."""
        self.count("assertions")
        value = float(value)
        self.mx(key + "/limit", value/limit if limit else (0 if value == 0 else float("inf")))
        if not value <= limit:
            self.fail(key, "%.6g > %.6g %s" % (value, limit, detail() if callable(detail) else detail))
            return False
        return True


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def _exec_case(args):
    modname, case, wd = args
    import importlib
    mod = importlib.import_module(modname)
    res = CaseResult()
    t0 = time.time()
    try:
        os.makedirs(wd, exist_ok=True)
        mod.run_case(case, wd, res)
        err = None
    except HarnessError as e:
        err = "harness: %s" % e
    except vbuild.BuildError as e:
        err = "build: %s" % e
    except Exception:
        err = traceback.format_exc()
    if not res.viol and err is None and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(wd, ignore_errors=True)
    return dict(viol=res.viol, obs=res.obs, nontrivial=res.nontrivial, sig=res.sig, inc=res.inconclusive, mx=res.maxima, err=err,
                wall=time.time() - t0)


class Rng(np.random.RandomState):
    pass


def rng_for(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.RandomState(np.frombuffer(h[:16], dtype=np.uint32))


def main(prop, mod, level="exploration", assumptions=(), rule=""):
    """Entry point of every check."""
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args(sys.argv[2:] if len(sys.argv) > 1 and re.match(r"[A-Z]\d+$", sys.argv[1]) else sys.argv[1:])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    wroot = os.path.join(WORK, "%s.%d" % (prop, os.getpid()))
    if a.list:
        for i, c in enumerate(mod.cases(tier, seed)):
            print(i, json.dumps(c, default=str)[:400])
        return 0
    shutil.rmtree(wroot, ignore_errors=True)
    os.makedirs(wroot)
    try:
        for v in getattr(mod, "VARIANTS", ["plain"]):
            for drv in getattr(mod, "DRIVERS", ["gdrv"]):
                if (v, drv) in getattr(mod, "NOBUILD", ()):
                    continue
                driver(v, drv)
        if hasattr(mod, "prepare"):
            mod.prepare()
    except vbuild.BuildError as e:
        print("ERROR: build failed: %s" % e)
        return 2
    if a.replay:
        cases = [json.load(open(a.replay))["case"]]
    else:
        cases = mod.cases(tier, seed)
        if a.case is not None:
            cases = [cases[a.case]]
    jobs = [(mod.__name__, c, os.path.join(wroot, "c%04d" % i)) for i, c in enumerate(cases)]
    results = [None]*len(jobs)
    nproc = getattr(mod, "NPROC", NPROC)
    order = sorted(range(len(jobs)), key=lambda i: -cases[i].get("cost", 1))
    with cf.ProcessPoolExecutor(nproc) as ex:
        futs = {ex.submit(_exec_case, jobs[i]): i for i in order}
        for f in cf.as_completed(futs):
            results[futs[f]] = f.result()
    errs = [(i, r["err"]) for i, r in enumerate(results) if r["err"]]
    obs, mx, sigs, nontriv, inc = {}, {}, set(), 0, []
    viols = []
    for i, r in enumerate(results):
        for k, v in r["obs"].items():
            obs[k] = obs.get(k, 0) + v
        for k, v in r["mx"].items():
            if not (v <= mx.get(k, -1e300)):
                mx[k] = v
        if r["nontrivial"]:
            s = json.dumps(r["sig"] if r["sig"] is not None else cases[i], sort_keys=True, default=str)
            if s not in sigs:
                sigs.add(s)
                nontriv += 1
        if r["inc"]:
            inc.append((i, r["inc"]))
        for k, d in r["viol"]:
            viols.append((k, d, i))
    if hasattr(mod, "post") and not errs:
        # campaign-level oracle over the collected counters (e.g. required coverage)
        msg = mod.post(obs, tier) if not (a.replay or a.case is not None) else None
        if msg:
            errs.append((-1, "coverage: " + msg))
    known = known_findings(prop)
    new, old = [], {}
    for k, d, i in viols:
        for pat, what in known:
            if re.fullmatch(pat, k):
                old.setdefault((pat, what), []).append((k, d, i))
                break
        else:
            new.append((k, d, i))
    samples = []
    for i in sorted(set([0, len(cases)//3, 2*len(cases)//3, len(cases)-1])):
        if 0 <= i < len(cases):
            samples.append({"case": json.loads(json.dumps(cases[i], default=str)), "observed": results[i]["obs"],
                            "deviation_over_limit": {k: (v if np.isfinite(v) else str(v)) for k, v in results[i]["mx"].items()}})
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": {"evaluations": len(cases), "distinct_nontrivial": nontriv,
                       "rule": rule or getattr(mod, "RULE", "cases are generated from VERIF_SEED"),
                       "observed": obs, "max_deviation_over_limit": {k: (v if np.isfinite(v) else str(v)) for k, v in sorted(mx.items())},
                       "inconclusive": len(inc), "samples": samples,
                       "known_findings_seen": [{"key": k[0], "what": k[1], "times": len(v)} for k, v in old.items()]},
          "assumptions": list(assumptions or getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not (a.replay or a.case is not None):
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("[%s] %d cases, %d distinct non-trivial, observed %s, inconclusive %d, %.1f s" %
          (prop, len(cases), nontriv, json.dumps(obs), len(inc), time.time() - t0))
    top = sorted(((v, k) for k, v in mx.items()), reverse=True)[:12]
    print("[%s] largest deviation/limit: %s" % (prop, ", ".join("%s %.3g" % (k, v) for v, k in top)))
    for (pat, what), l in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s [key %s, seen %d times, e.g. case %d: %s]" % (prop, what, l[0][0], len(l), l[0][2], l[0][1][:160]))
    for i, m in inc[:5]:
        print("inconclusive case %d: %s" % (i, m))
    rc = 0
    if new:
        os.makedirs(os.path.join(OUT, prop), exist_ok=True)
        seen = set()
        for k, d, i in new:
            if k in seen:
                continue
            seen.add(k)
            fn = os.path.join(OUT, prop, re.sub(r"[^\w.-]+", "_", k)[:80] + ".json")
            json.dump({"property": prop, "key": k, "detail": d, "case": cases[i], "workdir": jobs[i][2],
                       "how": "bin/check %s --replay %s" % (prop, fn)}, open(fn, "w"), indent=1, default=str)
            if len(seen) <= 15:
                print("  key=%s case=%d: %s" % (k, i, d[:600]))
                print("VIOLATION property=%s replay=%s" % (prop, fn))
        rc = 1
    elif errs:
        for i, e in errs[:5]:
            print("ERROR in case %d: %s" % (i, e[-2500:]))
        rc = 2
    elif len(inc) > max(2, 0.2*len(cases)):
        print("ERROR: too many inconclusive cases")
        rc = 3
    elif nontriv < getattr(mod, "MIN_NONTRIVIAL", 2) and not (a.replay or a.case is not None):
        print("ERROR: the workload observed nothing (%d distinct non-trivial cases)" % nontriv)
        rc = 3
    if rc == 0 and not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(wroot, ignore_errors=True)
    return rc
