"""C25: memory safety and undefined behaviour (AddressSanitizer + UndefinedBehaviorSanitizer, Valgrind memcheck for uninitialised data, over the workloads of all the other checks and over damaged input files)."""
import importlib
import os
import re
import shutil
import numpy as np
import vlib, vgen

DRIVERS = ["gdrv"]
VARIANTS = ["asan", "vg"]
RULE = ("cases = 'run': workloads drawn from the generators of the other checks (all simulation types, boundaries, trees, block steps, sinks, dust, Ewald, snapshots, restarts, units, initial conditions, options), run in the "
        "sanitized build; 'vg': the same under Valgrind memcheck (conditions and addresses that depend on uninitialised data); 'damaged': snapshots and parameter files truncated or overwritten; "
        "non-trivial when at least one sanitized process ran to its end or reported an error of its own; distinct = case")
ASSUMPTIONS = ["x86-64", "arithmetic on assert limits of the code (positivity, box size) is a reported error, not undefined behaviour", "leaks are not reported by the sanitizer"]
MODS = {"c01": 3, "c02": 3, "c03": 2, "c04": 3, "c05": 4, "c06": 4, "c07": 2, "c08": 4, "c09": 0, "c10": 3, "c12": 5, "c13": 5, "c14": 3, "c15": 3, "c16": 4, "c17": 3, "c19": 2, "c20": 1, "c21": 4, "c22": 3, "c23": 4, "c29": 2}
VG = {"c02": 1, "c04": 1, "c06": 2, "c08": 2, "c10": 1, "c12": 2, "c13": 1, "c14": 1, "c21": 1, "c23": 1}


def cases(tier, seed):
    q = tier == "quick"
    g = vlib.rng_for("C25", seed)
    out = []
    for job, T in (("run", MODS), ("vg", VG)):
        for m in sorted(T):
            M = importlib.import_module(m)
            cs = M.cases("quick", seed + 1000)
            n = T[m]*(1 if q else 8)
            idx = sorted(range(len(cs)), key=lambda i: cs[i].get("cost", 1))
            # the expensive ones are left out in the quick tier
            idx = idx[:max(n, int(len(idx)*(.7 if job == "run" else .4)))] if q else idx
            for i in g.choice(idx, min(n, len(idx)), replace=False):
                out.append({"job": job, "mod": m, "case": cs[int(i)], "cost": 10 + 4*cs[int(i)].get("cost", 1) if job == "run" else 60})
    for i in range(40 if q else 600):
        out.append({"job": "damaged", "form": ["column", "su", "sf", "param", "slite"][i % 5], "how": str(g.choice(["truncate", "bytes", "number", "empty", "swap"])), "seed": int(g.randint(1 << 30)), "cost": 3})
    return out


# conditions on data that was never set, but whose outcome does not matter
BENIGN = {"Tree.cpp:ComputeGatherNeighbourList": "extent of the root of an empty tree (no ghosts): skipped because it holds no particles whichever way the comparison goes"}


class Enough(Exception):
    pass


def quiet(script):
    """the script without the driver's own output of the state (which prints every field, set or not)"""
    out = []
    for q in script:
        w = q.split()
        if w[0] in ("hookdump", "hooktree", "tree", "trace"):
            continue
        out.append("steps " + w[1] if w[0] in ("stepdump", "steptree", "steptrace") else q)
    return out


def valgrind_sites(out):
    """(kind, first frame in the code under test) of every memcheck report"""
    hits = []
    for blk in re.split(r"\n==\d+== *\n", out):
        m = re.search(r"==\d+== (Conditional jump or move depends|Use of uninitialised value|Invalid (?:read|write)|Invalid free|Mismatched free|Source and destination overlap)", blk)
        if not m:
            continue
        fr = re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \(([\w.]+):\d+\)", blk)
        fr = [f for f in fr if f[1].endswith((".cpp", ".h")) and f[1] not in ("gdrv.cpp", "stl_algo.h", "stl_heap.h")]
        if any(f[1] == "gdrv.cpp" and "run_script" not in f[0] and "main" not in f[0] for f in re.findall(r"(?:at|by) 0x[0-9A-F]+: (.+?) \(([\w.]+):\d+\)", blk)):
            continue
        site = ["%s:%s" % (q[1], re.sub(r"<.*?>|\(.*", "", q[0]).split("::")[-1]) for q in fr]
        # a benign site may have been split over several functions
        hits.append((m.group(1).split()[0], next((q for q in site if q in BENIGN), site[0] if site else "?"), blk))
    return hits


def run_case(c, wd, res):
    if c["job"] == "damaged":
        return damaged(c, wd, res)
    M = importlib.import_module(c["mod"])
    real = vlib.run_driver
    vg = c["job"] == "vg"
    n = [0, 0]

    def run(script, wd2, variant="plain", timeout=120, arrays=None, name="case", wrapper=None, exe="gdrv", env=None, retry=True):
        if exe != "gdrv" or variant in ("mpi", "omp"):
            return real(script, wd2, variant, timeout, arrays, name, wrapper, exe, env, retry)
        if n[0] >= (2 if vg else 6):
            raise Enough()
        n[0] += 1
        if vg:
            script = quiet(script)
            f = real(script, wd2, "vg", 170, arrays, name, ["valgrind", "-q", "--track-origins=yes", "--num-callers=8", "--error-limit=no"], exe, env, False)
            if f.timed_out:
                res.count("valgrind_time_outs")
                raise Enough()
            seen = set()
            for kind, site, blk in valgrind_sites(f.out):
                if site == "?":
                    res.count("reports_outside_the_code")
                    continue
                if site in BENIGN:
                    res.count("benign_reports")
                    continue
                if (kind, site) not in seen:
                    seen.add((kind, site))
                    res.fail("valgrind:%s:%s" % (kind, site), blk[:600])
            res.count("valgrind_runs")
        else:
            f = real(script, wd2, "asan", 400, arrays, name, wrapper, exe, env, False)
            fl = f.failure() or ""
            if fl.startswith(("asan:", "ubsan:", "signal:")):
                res.fail(fl, f.out[-1500:])
            if f.timed_out:
                res.count("sanitizer_time_outs")
                raise Enough()
            res.count("sanitized_runs")
            res.count("sanitized_runs_with_reported_error" if fl else "sanitized_runs_complete")
        n[1] += 1
        if not f.ok:
            raise Enough()
        return f

    probe = vlib.CaseResult()
    vlib.run_driver = run
    try:
        M.run_case(dict(c["case"]), wd, probe)
    except Enough:
        pass
    except (vlib.HarnessError, ValueError, IndexError, KeyError, OSError, ZeroDivisionError):
        res.count("driver_workload_cut_short")
    finally:
        vlib.run_driver = real
    res.count("assertions", n[1])
    res.nontrivial = n[1] > 0
    res.sig = {"mod": c["mod"], "case": str(sorted(c["case"].items())), "job": c["job"]}


def damaged(c, wd, res):
    """a damaged input file ends in success or in an error the program reports, never in a crash"""
    g = np.random.RandomState(c["seed"])
    nd = int(g.choice([1, 2, 3]))
    N = {1: 40, 2: 60, 3: 80}[nd]
    r = g.uniform(0, 1, (N, nd))
    p = dict(vgen.BASE)
    p.update(ndim=nd, sim=str(g.choice(["sph", "mfvmuscl"])), Nhydro=N, gas_eos="energy_eqn", zero_mass_flux=1, **vgen.box_params(nd, -np.ones(nd), 2*np.ones(nd), ["open"]*nd, ["open"]*nd))
    lines, arr = vgen.hydro_arrays(nd, r, 0*r, np.ones(N)/N, np.ones(N))
    form = c["form"]
    if form == "param":
        txt = "".join("%s = %s\n" % kv for kv in p.items()) + "sim = sph\nrun_id = X\n"
        with open(os.path.join(wd, "S"), "w") as f:
            f.write(txt)
    else:
        f = vlib.run_driver(vlib.params_script(p) + ["sim", "prepython"] + lines + ["setup", "writesnap S %s" % form], wd, arrays=arr, name="w", variant="asan")
        if f.failure():
            raise vlib.HarnessError("write: " + f.failure())
    b = bytearray(open(os.path.join(wd, "S"), "rb").read())
    n0 = len(b)
    how = c["how"]
    if how == "truncate":
        b = b[:g.randint(len(b))]
    elif how == "empty":
        b = bytearray()
    elif how == "bytes":
        for _ in range(g.randint(1, 6)):
            b[g.randint(len(b))] = g.randint(256)
    elif how == "swap":
        i, j, w = g.randint(len(b)), g.randint(len(b)), g.randint(1, 60)
        x, y = b[i:i + w], b[j:j + w]
        b[i:i + w], b[j:j + w] = y, x
    else:
        if form in ("su", "slite"):
            i = g.randint(max(1, min(len(b), 1200)))
            b[i:i + 4] = np.array([int(g.choice([-1, 0, 1 << 30, 7, -(1 << 31)]))], dtype=np.int32).tobytes()
        else:
            t = bytes(b).split()
            w = t[g.randint(min(len(t), 60))]
            b = bytearray(bytes(b).replace(w, str(g.choice(["-1", "0", "nan", "1e400", "999999", "x", "3.5"])).encode(), 1))
    with open(os.path.join(wd, "D"), "wb") as f:
        f.write(bytes(b))
    if form == "param":
        s = ["paramfile D"]
    else:
        p2 = dict(p, ic="file", in_file="D", in_file_form=form)
        s = vlib.params_script(p2) + ["sim", "header D %s" % form, "setup", "steps 1"]
    f = vlib.run_driver(s, wd, variant="asan", name="r", timeout=60, retry=False)
    fl = f.failure() or ""
    key = None
    if fl.startswith(("asan:", "ubsan:", "signal:")) or fl == "hang":
        key = "damaged:%s:%s" % (form, fl)
        res.fail(key, "%s %s (%d bytes)\n%s" % (form, how, n0, f.out[-1200:]))
    res.count("damaged_files")
    res.count("damaged_files_refused" if fl else "damaged_files_tolerated")
    res.nontrivial = True
    res.sig = {"form": form, "how": how, "seed": c["seed"]}
