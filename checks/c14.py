"""C14: a restarted run continues the interrupted one (monitor over pairs of runs: uninterrupted, and stopped / restarted in new processes)."""
import glob
import hashlib
import os
import shutil
import numpy as np
import vlib, vgen, vgas
from c13 import parse_su, parse_sf

DRIVERS = ["gdrv"]
RULE = ("cases = runs (SPH with stars, meshless, N-body) x block levels x units x su/sf format x place of the stop (after a snapshot, at a temporary restart dump, before the first snapshot, wall-clock kill) x lite snapshots x number of restarts; the run is stopped, "
        "continued by a new process from the restart file and followed to the end; judged: clock, counters and schedule right after the restart, every particle against the state at the stop, the set of snapshots against the uninterrupted run (none missing, none rewritten), "
        "and the final state against the uninterrupted run and against a fresh run started from the same state; non-trivial when the restarted run made >=10 steps; distinct = configuration")
ASSUMPTIONS = ["lite files are not a restart format", "spins and histories of sinks, time-dependent viscosity and accelerations are not in the files: runs with constant viscosity and without accretion are compared, and the agreement with the uninterrupted run is limited by the re-initialised steps"]


def cases(tier, seed):
    g = vlib.rng_for("C14", seed)
    out = []
    for i in range(40 if tier == "quick" else 600):
        if g.uniform() < .3:
            c = {"sim": "nbody", "nd": 3, "levels": int(g.choice([1, 5])), "n": int(g.choice([2, 5])), "seed": int(g.randint(1 << 30)), "nbody": str(g.choice(["hermite4", "lfkdk", "hermite4ts"]))}
        else:
            c = vgas.gen(g, sims=("sph", "mfvmuscl"), p_sim=(.7, .3), bcs=("open", "periodic"), nds=(1, 2, 3), p_nd=(.3, .5, .2), grav=.4, ics=("smooth",), levels=(1, 4, 8), stars=.4, dkd=0)
            c.update(kind="jitter", kernel="m4", scale=1.0, avisc=str(g.choice(["none", "mon97"])), acond="none", vel=.3)
            if c["grav"]:
                c["avisc"] = "mon97"        # (gas without viscosity that falls together is chaotic)
            if c["sim"] == "mfvmuscl":
                c.update(bc="periodic", grav=0, stars=0, nd=min(c["nd"], 2), tsl="conservative")
        c.update(job="restart", dim=int(g.uniform() < .3), form=str(g.choice(["su", "su", "sf"])), stop=str(g.choice(["snap", "snap", "tmp", "wall", "first"])), k=int(g.choice([1, 2, 4])), every=float(g.choice([3.3, 5.7, 8.1])), lite=int(g.uniform() < .4), levery=float(g.choice([2.2, 9])),
                 twice=int(g.uniform() < .4), first=float(g.choice([0, 0, 6.3])), tu=str(g.choice(["yr", "myr", "s"])), cost=3)
        if c["dim"] and c["sim"] != "nbody":
            c["bc"] = "open"
            if c["sim"] == "mfvmuscl":
                c.update(dim=0, bc="periodic")
        if c["stop"] == "first":
            c["levels"] = 1
            c["first"] = 12.3
        out.append(c)
    out.append({"sim": "nbody", "nd": 3, "levels": 1, "n": 3, "seed": 7, "nbody": "hermite4", "job": "column", "every": 3.3, "cost": 1})
    return out


def base(c):
    if c["sim"] == "nbody":
        g = np.random.RandomState(c["seed"])
        p = dict(vgen.BASE)
        p.update(sim="nbody", ndim=3, nbody=c["nbody"], nbody_softening=0, Nlevels=c["levels"], Nstar=c["n"], nbody_mult=.05)
        lines, arr = vgen.hydro_arrays(3, g.normal(0, 1, (c["n"], 3)), g.normal(0, .3, (c["n"], 3)), g.uniform(.2, 1, c["n"]), h=np.full(c["n"], .01), typ="star")
        return p, lines, arr
    sc, arr, p = vgas.build(c, N={1: 80, 2: 700 if c["bc"] != "open" else 200, 3: 2197 if c["bc"] != "open" else 300}[c["nd"]])
    return p, [x for x in sc if x.startswith("array ")], arr


def start(p, lines):
    return vlib.params_script(p) + ["sim", "prepython"] + lines + ["setup"]


def files(wd):
    return {os.path.basename(f): hashlib.md5(open(f, "rb").read()).hexdigest() for f in glob.glob(os.path.join(wd, "OUT.*.?????")) if f[-5:].isdigit()}


def ordered(tab):
    """(particles sorted by their original number, stars as they are)"""
    return np.argsort(tab["iorig"], kind="stable") if "iorig" in tab.ix else np.arange(tab.n)


def get(d, nd, name):
    if name not in d.t or not d.t[name].n:
        return None
    t = d.t[name]
    if name == "part":
        live = np.nonzero(t["dead"] == 0)[0]
        o = live[np.argsort(t["iorig"][live], kind="stable")]
    else:
        o = np.arange(t.n)
    q = {k: t.vec(k, nd)[o] for k in ("r", "v", "a")}
    q["m"], q["h"] = t["m"][o], t["h"][o]
    if name == "part":
        q["u"], q["rho"], q["id"], q["type"] = t["u"][o], t["rho"][o], t["iorig"][o], t["ptype"][o]
    else:
        q["radius"] = t["radius"][o]
    return q


def column(c, wd, res):
    """restart from column files (which hold no counters)"""
    p, lines, arr = base(c)
    p.update(run_id="OUT", dt_snap=.1, tsnapfirst=0, out_file_form="column", tend=1)
    f = vlib.run_driver(start(p, lines) + ["outloop 1 1000 4"], wd, arrays=arr, timeout=60, name="b")
    fb = files(wd)
    g = vlib.run_driver(vlib.params_script(p) + ["sim", "process", "restart", "setup", "run"], wd, arrays={}, timeout=60, name="r")
    for z in (f, g):
        if z.failure():
            res.fail("column:" + z.failure(), z.out[-300:])
            return
    h = files(wd)
    res.check(len(fb) == 4 and all(h.get(k) == fb[k] for k in fb), "column-restart:overwritten", "%s" % [k for k in fb if h.get(k) != fb[k]])


def run_case(c, wd, res):
    if c["job"] == "column":
        return column(c, wd, res)
    p, lines, arr = base(c)
    nd = p["ndim"]
    tu = 1.0
    if c["dim"]:
        p.update(dimensionless=0, toutunit=c["tu"], routunit="pc", moutunit="m_sun", voutunit="km_s")
    f = vlib.run_driver(start(p, lines)[:-1] + ["units", "setup", "steps 3", "dump s.dmp"], wd, arrays=arr, timeout=60, name="probe")
    if f.failure():
        res.inconclusive = "probe run: " + f.failure()
        return
    tu = [e for e in f.events if e.get("unit") == "t"][0]["outscale"]
    dt = vlib.Dump(os.path.join(wd, "s.dmp")).s["t"]/3
    q = dict(p)
    every = c["every"]*dt
    end = (c["first"] + (c["k"] + 4.4)*c["every"])*dt
    tend = float("%.7g" % (end*tu))/tu
    q.update(run_id="OUT", tend="%.7g" % (end*tu), dt_snap="%.7g" % (every*tu), tsnapfirst="%.7g" % (c["first"]*dt*tu), litesnap=c["lite"], dt_litesnap="%.7g" % (c["levery"]*dt*tu), tlitesnapfirst=0, out_file_form=c["form"], Nstepsmax=500, nrestartstep=1 if c["stop"] in ("tmp", "first") else 10**8)
    A, B = os.path.join(wd, "A"), os.path.join(wd, "B")
    for x in (A, B):
        os.makedirs(x, exist_ok=True)

    def failed(f, what):
        fl = f.failure()
        if fl and any(z in fl for z in ("part.u > ", "press", "Wleft", "Wright", "Smoothing length too large")):
            res.inconclusive = "limit of the code reached: " + fl
        elif fl:
            res.fail(what + ":" + fl, f.out[-400:])
        return bool(fl)
    f = vlib.run_driver(start(q, lines) + ["outloop %.17g 500 99999999" % tend, "run", "dump a.dmp"], A, arrays=arr, timeout=150, name="a")
    if failed(f, "uninterrupted"):
        return
    stepsA = [e for e in f.events if e.get("ev") == "step"]
    a = vlib.Dump(os.path.join(A, "a.dmp"))
    fa = files(A)
    if a.s["Nsteps"] >= 500:
        res.count("steps became much shorter: not judged")
        return
    # the interrupted run
    if c["stop"] == "snap":
        go = ["outloop 1e300 100000 %d" % (c["k"] + 1)]
    elif c["stop"] == "tmp":
        go = ["outloop 1e300 %d 99999999" % int(c["every"]*c["k"] + 2.5)]
    elif c["stop"] == "first":
        go = ["outloop 1e300 5 99999999"]
    else:
        go = ["outloop 1e300 %d 99999999" % int(c["every"]*c["k"] + 2.5), "restartsnap"]
    f = vlib.run_driver(start(q, lines) + go + ["dump b.dmp"], B, arrays=arr, timeout=150, name="b")
    if failed(f, "interrupted"):
        return
    b = vlib.Dump(os.path.join(B, "b.dmp"))
    fb = files(B)
    steps = [e for e in f.events if e.get("ev") == "step"]
    # with temporary dumps: the state of the last dump is that of the last synchronised step
    if not os.path.exists(os.path.join(B, "OUT.restart")):
        res.check(not any(x["n"] % x["nresync"] == 0 for x in steps) or c["stop"] not in ("tmp", "first"), "no-restart-file", "")
        res.count("stopped before anything was written")
        return
    last = open(os.path.join(B, "OUT.restart")).read().split()
    P = parse_su(open(os.path.join(B, last[1]), "rb").read(), False) if c["form"] == "su" else parse_sf(open(os.path.join(B, last[1])).read())
    res.check(P.left == 0, "restart-file:length", "")
    tstop, nstop = P.ddata[0]/tu, P.ilp[1]
    atstop = nstop == b.s["Nsteps"]
    if c["stop"] in ("snap", "wall"):
        res.check(atstop, "restart-file:step", "holds step %d, stopped at %d" % (nstop, b.s["Nsteps"]))
    else:
        res.check(nstop >= b.s["Nsteps"] - b.s["nresync"] - 1, "restart-file:old", "holds step %d, stopped at %d, block of %d" % (nstop, b.s["Nsteps"], b.s["nresync"]))
    ref = b.s if atstop else next((dict(e) for e in steps if e["Nsteps"] == nstop), None) if nstop else None
    tolt = 1e-13 if c["form"] == "su" else 1e-9
    cur, n_before = B, len(fb)
    for rnd in range(1 + c["twice"]):
        # a restart that is itself killed before it gets anywhere (rnd 0 of 2), then one that runs on
        R = os.path.join(wd, "R%d" % rnd)
        shutil.copytree(B, R)
        cont = ["outloop 1e300 2 99999999", "dump c2.dmp"] if c["twice"] and rnd == 0 else ["outloop 1e300 5 99999999", "dump c5.dmp", "outloop %.17g 500 99999999" % tend, "run", "dump e.dmp"]
        f = vlib.run_driver(vlib.params_script(q) + ["sim", "process", "restart", "setup", "dump c.dmp"] + cont, R, arrays={}, timeout=150, name="r")
        if failed(f, "restarted"):
            return
        d = vlib.Dump(os.path.join(R, "c.dmp"))
        res.bound("resume:time", abs(d.s["t"] - tstop)/(tolt*(tstop + dt)), 1.0, "t=%.15g, stopped at %.15g" % (d.s["t"], tstop))
        res.check(d.s["Nsteps"] == nstop, "resume:Nsteps", "%d, stopped at %d" % (d.s["Nsteps"], nstop))
        if ref is not None:
            for k in ("Noutsnap", "Noutlitesnap"):
                res.check(d.s[k] == ref[k], "resume:" + k, "%d, was %d" % (d.s[k], ref[k]))
            for k in ["tsnapnext"] + (["tlitesnapnext"] if c["lite"] else []):
                res.bound("resume:" + k, abs(d.s[k] - ref[k])/(1e3*tolt*(ref[k] + dt)), 1.0, "%.12g, was %.12g" % (d.s[k], ref[k]))
        if atstop:
            res.bound("resume:mmean", abs(d.s["mmean"] - b.s["mmean"])/(1e-9*abs(b.s["mmean"]) + 1e-300), 1.0, "%r, was %r" % (d.s["mmean"], b.s["mmean"])) if c["sim"] != "nbody" else None
            for tb in ("part", "star"):
                x, y = get(d, nd, tb), get(b, nd, tb)
                if not res.check((x is None) == (y is None) and (x is None or len(x["m"]) == len(y["m"])), "resume:%s:count" % tb, "") or x is None:
                    continue
                rt = 1e-12 if c["form"] == "su" else 1e-8
                for k in ("r", "v", "m", "u") if tb == "part" else ("r", "v", "m", "h", "radius"):
                    sc = np.sqrt(np.mean(y[k]**2)) + (1.0 if k == "r" else 0)
                    res.bound("resume:%s:%s" % (tb, k), np.max(abs(x[k] - y[k]))/(rt*sc + 1e-300), 1.0, lambda: "largest difference %.3g of %.3g" % (np.max(abs(x[k] - y[k])), sc))
                if tb == "part":
                    res.check(np.array_equal(x["id"], y["id"]) and np.array_equal(x["type"], y["type"]), "resume:identity", "")
                    # (mid-step the density of the file is that of the last force evaluation)
                    if c["stop"] == "snap" and c["levels"] == 1:
                        res.bound("resume:rho", np.max(abs(x["rho"]/y["rho"] - 1))/.06, 1.0, "")
        h = files(R)
        changed = [k for k in fb if h.get(k) != fb[k] and not ("slite" in k and int(k[-5:]) > P.ilp[10])]      # (those after the dump are made again)
        res.check(not changed, "overwritten", "%s" % changed)
        cur = R
    # the restarted run against the uninterrupted one
    e = vlib.Dump(os.path.join(cur, "e.dmp"))
    stepsB = steps + [z for z in f.events if z.get("ev") == "step"]
    fr = files(cur)
    miss, extra = sorted(set(fa) - set(fr)), sorted(set(fr) - set(fa))
    # (the last step of the two runs may end on either side of a request)
    span = 1.001*max(s["timestep"] for s in stepsA + stepsB)
    dues = lambda nm: (int(nm[-5:]) - 1)*c["levery"]*dt if "slite" in nm else (c["first"] + (int(nm[-5:]) - 1)*c["every"])*dt       # noqa
    miss, extra = [[x for x in y if dues(x) < end*(1 - 1e-6)] for y in (miss, extra)]
    res.check(not miss and not extra, "snapshots", "missing %s, additional %s (stopped at t=%.4g of %.4g, %d files then)" % (miss, extra, tstop, end, n_before))
    for nm in sorted(set(fa) & set(fr)):
        if "slite" in nm and not c["lite"]:
            continue
        ps = [parse_su(open(os.path.join(x, nm), "rb").read(), "slite" in nm) if c["form"] == "su" or "slite" in nm else parse_sf(open(os.path.join(x, nm)).read()) for x in (A, cur)]
        k = int(nm[-5:])
        due = dues(nm)
        for w, x in zip(("uninterrupted", "restarted"), ps):
            t = x.ddata[0]/tu
            res.check(due*(1 - 1e-6) - 1e-9*dt <= t and (t <= due + span or span > .9*(c['levery'] if 'slite' in nm else c['every'])*dt), "snapshot-time", lambda: "%s of the %s run at %.6g, due at %.6g" % (nm, w, t, due))
            res.check(x.ilp[0] == k or "slite" in nm, "snapshot-number", "%s holds %s" % (nm, x.ilp[0]))
    n = e.s["Nsteps"] - nstop
    res.nontrivial = n >= 10
    res.count("restarted steps", n)
    res.check(e.s["t"] >= end*(1 - 1e-6), "end", "%.6g of %.6g" % (e.s["t"], end))
    for tb in ("part", "star"):
        x, y = get(e, nd, tb), get(a, nd, tb)
        if x is None or len(x["m"]) != len(y["m"]):
            res.check((x is None) == (y is None), "final:count", "")
            continue
        T = e.s["t"] - a.s["t"]
        L = vgas.boxlen(p, nd) if c["sim"] != "nbody" and c["bc"] == "periodic" else np.zeros(nd)
        dr = vgas.wrap(x["r"] - y["r"] - y["v"]*T - .5*y["a"]*T*T, L)
        move = np.sqrt(np.mean(y["v"]**2))*(end - tstop)
        res.bound("final:%s:r" % tb, np.sqrt(np.mean(dr**2))/move, .05, "rms difference %.3g, path %.3g" % (np.sqrt(np.mean(dr**2)), move))
        dv = x["v"] - y["v"] - y["a"]*T
        w = get(b, nd, tb)
        kick = np.sqrt(np.mean((y["v"] - w["v"])**2)) + 1e-2*np.sqrt(np.mean(y["v"]**2))
        res.bound("final:%s:v" % tb, np.sqrt(np.mean(dv**2))/kick, .2, "rms difference %.3g, change %.3g" % (np.sqrt(np.mean(dv**2)), kick))
        if tb == "part":
            res.bound("final:u", np.sqrt(np.mean((x["u"]/y["u"] - 1)**2)), .05, "")
    # and against a fresh run from the state at the stop
    if atstop:
        l2, a2 = [], {}
        for tb, typ in (("part", "sph"), ("star", "star")):
            y = get(b, nd, tb)
            if y is not None:
                l, z = vgen.hydro_arrays(nd, y["r"], y["v"], y["m"], y.get("u"), y["h"], typ=typ)
                l2 += l
                a2.update(z)
        s = vlib.run_driver(start(p, l2) + ["steps 5", "dump f.dmp"], wd, arrays=a2, timeout=100, name="fresh")
        if failed(s, "fresh"):
            return
        g5, c5 = vlib.Dump(os.path.join(wd, "f.dmp")), vlib.Dump(os.path.join(cur, "c5.dmp"))
        T = g5.s["t"]
        res.bound("fresh:time", abs(c5.s["t"] - tstop - T)/T, .01 if c["sim"] != "nbody" else 1e-6, "5 steps of the restarted run %.9g, of a fresh run %.9g" % (c5.s["t"] - tstop, T))
        for tb in ("part", "star"):
            x, y, z = get(c5, nd, tb), get(g5, nd, tb), get(b, nd, tb)
            if x is None:
                continue
            # fresh runs number the particles in the order given
            L = vgas.boxlen(p, nd) if c["sim"] != "nbody" and c["bc"] == "periodic" else np.zeros(nd)
            dr = vgas.wrap(x["r"] - y["r"], L)
            res.bound("fresh:%s:r" % tb, np.sqrt(np.mean(dr**2))/(np.sqrt(np.mean(z["v"]**2))*T + 1e-300), .01, "")
            res.bound("fresh:%s:v" % tb, np.sqrt(np.mean((x["v"] - y["v"])**2))/(np.sqrt(np.mean((y["v"] - z["v"])**2)) + 1e-4*np.sqrt(np.mean(z["v"]**2))), .05, "")
    res.sig = str(sorted((k, str(v)) for k, v in c.items() if k not in ("seed", "cost")))
