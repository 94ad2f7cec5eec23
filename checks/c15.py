"""C15: every requested output is produced exactly once at its time (offline monitor of the files a run leaves, against the step times of a run that writes nothing)."""
import glob
import json
import os
import numpy as np
import vlib, vgen, vgas
from c13 import parse_su, parse_sf, parse_column

DRIVERS = ["gdrv"]
RULE = ("cases = runs (SPH, meshless MUSCL/RK, N-body) x block levels x units x first snapshot time x interval (several steps to a fraction of a step) x lite snapshots x file format x diagnostics interval x end by time or by number of steps, "
        "done in one call, in pieces, step by step or interactively; a silent run gives the step boundaries, from which the set of files, their times, numbers and the rows of the diagnostics file are predicted; "
        "non-trivial when >=3 snapshots were predicted; distinct = configuration")
ASSUMPTIONS = ["at most one snapshot is written per step, so when steps are longer than the interval the later ones lag behind: then only number, order and 'not before its time' are judged"]


def cases(tier, seed):
    g = vlib.rng_for("C15", seed)
    out = []
    for i in range(60 if tier == "quick" else 900):
        if g.uniform() < .25:
            c = {"sim": "nbody", "nd": 3, "levels": int(g.choice([1, 5])), "n": int(g.choice([2, 5])), "seed": int(g.randint(1 << 30)), "nbody": str(g.choice(["hermite4", "lfkdk"]))}
        else:
            c = vgas.gen(g, sims=("sph", "mfvmuscl", "mfvrk"), p_sim=(.6, .37, .03), bcs=("open", "periodic"), nds=(1, 2), p_nd=(.7, .3), grav=.2, ics=("smooth",), levels=(1, 4, 8))
            c["kind"] = "jitter"
            c["kernel"] = "m4"
            c["scale"] = 1.0
            if c["sim"] != "sph":
                c.update(vel=.3, tsl="conservative")
        c.update(job="out", dim=int(g.uniform() < .3), form=str(g.choice(["su", "su", "sf", "column"])), mode=str(g.choice(["run", "pieces", "steps", "inter"])), nst=int(g.choice([30, 60])),
                 every=float(g.choice([12.3, 6.1, 2.7, 1.6, 1.0, .45], p=[.2, .2, .25, .2, .1, .05])), first=float(g.choice([0, 0, 3.3, 100])), lite=int(g.uniform() < .5), levery=float(g.choice([1.7, 4.2, 9])), lfirst=float(g.choice([0, 2.2])),
                 ndiag=int(g.choice([1, 2, 5, 1000])), nrest=int(g.choice([7, 100000])), end=str(g.choice(["time", "steps", "both"])), tu=str(g.choice(["yr", "myr", "s"])), cost=2)
        if c["sim"].startswith("mfv"):
            c.update(bc="periodic", dim=0, grav=0)
        if c["dim"] and c["sim"] != "nbody":
            c["bc"] = "open"
        out.append(c)
    return out


def base(c):
    if c["sim"] == "nbody":
        g = np.random.RandomState(c["seed"])
        p = dict(vgen.BASE)
        p.update(sim="nbody", ndim=3, nbody=c["nbody"], nbody_softening=0, Nlevels=c["levels"], Nstar=c["n"], nbody_mult=.1)
        lines, arr = vgen.hydro_arrays(3, g.normal(0, 1, (c["n"], 3)), g.normal(0, .3, (c["n"], 3)), g.uniform(.2, 1, c["n"]), h=np.full(c["n"], .01), typ="star")
        return p, lines, arr
    sc, arr, p = vgas.build(c, N={1: 80, 2: 700 if c["bc"] != "open" else 150}[c["nd"]])
    return p, [x for x in sc if x.startswith("array ")], arr


def script(c, p, lines):
    return vlib.params_script(p) + ["sim", "prepython"] + lines


def predict(times, first, every, end):
    """step boundaries (index, time) at which numbered outputs are due; at most one per step, the start included"""
    out, k, lag = [], 0, False
    for i, t in enumerate(times[:end + 1]):
        if t >= first + k*every - 1e-9*every:
            near = abs(t - (first + k*every)) < 1e-9*every
            out.append((i, k + 1, near))
            k += 1
            if t >= first + k*every - 1e-9*every:
                lag = True
    return out, lag


def run_case(c, wd, res):
    p, lines, arr = base(c)
    ts = {"yr": 3.15576e7, "myr": 3.15576e13, "s": 1.0}
    if c["dim"]:
        p.update(dimensionless=0, toutunit=c["tu"], routunit="pc", moutunit="m_sun", voutunit="km_s")
    f = vlib.run_driver(script(c, p, lines) + ["units", "setup", "steptrace %d s.trace" % (c["nst"] + 60), "dump s.dmp"], wd, arrays=arr, timeout=100, name="silent")
    fl = f.failure()
    if fl:
        res.inconclusive = "silent run: " + fl
        return
    rows = [json.loads(l) for l in open(os.path.join(wd, "s.trace"))]
    times, nb, ful = [r["t"] for r in rows], [r["Nblocksteps"] for r in rows], [r["n"] % r["nresync"] == 0 for r in rows]
    ut = [e for e in f.events if e.get("unit") == "t"][0]["outscale"]
    tt = np.array(times)
    dt0 = float(np.median(np.diff(tt)))
    E = c["nst"]
    first, every = c["first"]*dt0, c["every"]*dt0
    lfirst, levery = c["lfirst"]*dt0, c["levery"]*dt0
    tend, nmax = 1e30, 99999999
    if c["end"] in ("time", "both"):
        tend = .5*(tt[E - 1] + tt[E])
        tend = float("%.5g" % (tend*ut))/ut
        E = int(np.nonzero(tt >= tend)[0][0])
    if c["end"] in ("steps", "both"):
        k = E if c["end"] == "steps" else E + int(np.random.RandomState(c["seed"] % 1000).randint(-8, 9))
        nmax, E = k, min(E, k) if c["end"] == "both" else k
    six = lambda x: float("%.6g" % (x*ut))/ut          # noqa: parameters are passed with limited precision
    first, every, lfirst, levery = six(first), six(every), six(lfirst), six(levery)
    q = dict(p)
    q.update(run_id="OUT", tend="%.17g" % (tend*ut if tend < 1e29 else 1e30), Nstepsmax=nmax, dt_snap="%.6g" % (every*ut), tsnapfirst="%.6g" % (first*ut), litesnap=c["lite"], dt_litesnap="%.6g" % (levery*ut), tlitesnapfirst="%.6g" % (lfirst*ut), out_file_form=c["form"],
             ndiagstep=c["ndiag"], nrestartstep=c["nrest"])
    for x in glob.glob(os.path.join(wd, "OUT.*")):
        os.remove(x)
    go = {"run": ["run"], "pieces": ["run 7", "run 1", "run 11", "run 0", "run"], "steps": ["outloop %.17g %d 99999999" % (tend, nmax)], "inter": ["irun 5", "irun 9", "irun"]}[c["mode"]]
    if c["mode"] in ("pieces", "inter") and c["end"] != "time":
        # Nstepsmax only bounds the last call
        pass
    f = vlib.run_driver(script(c, q, lines) + ["setup"] + go + ["dump e.dmp"], wd, arrays=arr, timeout=100, name="out")
    key = ""
    fl = f.failure()
    if fl:
        res.fail("run:" + fl, f.out[-400:])
        return
    e = vlib.Dump(os.path.join(wd, "e.dmp"))
    res.check(e.s["Nsteps"] == E, key + "end-step", "%d steps, wanted %d (t %.6g of %.6g)" % (e.s["Nsteps"], E, e.s["t"], tend))
    res.check(abs(e.s["t"] - tt[min(E, len(tt) - 1)]) <= 1e-12*tt[E], key + "end-time", "%.12g, wanted %.12g" % (e.s["t"], tt[E]))
    if e.s["Nsteps"] != E:
        return
    for nm, ext, fr, ev, on in (("snapshot", c["form"], first, every, 1), ("lite", "slite", lfirst, levery, c["lite"])):
        want, lag = predict(tt, fr, ev, E) if on else ([], False)
        edge = any(w[2] and w[0] > 0 for w in want)         # a step boundary exactly on a request: rounding decides
        have = sorted(glob.glob(os.path.join(wd, "OUT.%s.?????" % ext)))
        nums = [int(h[-5:]) for h in have]
        res.check(nums == list(range(1, len(nums) + 1)), key + nm + ":numbers", "%s" % nums)
        if edge:
            res.count("cases with a boundary exactly on a request")
            continue
        res.check(len(have) == len(want), key + nm + ":count", "%d files, wanted %d (interval %.4g, step %.4g, end %.4g)" % (len(have), len(want), ev, dt0, tt[E]))
        for h, (i, k, _) in zip(have, want):
            raw = open(h, "rb").read()
            P = parse_column(raw.decode(), p["ndim"]) if ext == "column" else parse_sf(raw.decode()) if ext == "sf" else parse_su(raw, ext == "slite")
            t = (P.t if ext == "column" else P.ddata[0])/ut
            tol = {"column": 1e-5, "sf": 1e-9}.get(ext, 1e-13)*tt[E]
            res.check(abs(t - tt[i]) <= tol, key + nm + ":time", lambda: "number %d at t=%.8g (step %d), wanted step %d t=%.8g, requested %.8g" % (k, t, int(np.argmin(abs(tt - t))), i, tt[i], fr + (k - 1)*ev))
            if ext not in ("column", "slite"):
                res.check(P.ilp[0] == k and P.ilp[1] == i, key + nm + ":header", "%s, wanted %d %d" % (P.ilp[:2], k, i))
            res.check(P.left == 0, key + nm + ":length", "")
        res.count(nm + "s", len(have))
        if nm == "snapshot":
            res.nontrivial = len(want) >= 3
            if lag:
                res.count("lagging cases")
            if have:
                last = open(os.path.join(wd, "OUT.restart")).read().split()
                tmp = c["nrest"] < 1000 and os.path.exists(os.path.join(wd, "OUT.%s.tmp" % c["form"]))
                res.check(last[0] == c["form"] and (last[1] == os.path.basename(have[-1]) or tmp), key + "restart-file", "%s" % last)
    if c["mode"] == "inter":
        got = [s for ev in f.events if ev.get("ev") == "irun" for s in ev["snaps"]]
        want = predict(tt, first, every, E)[0]
        want = [w for w in want if w[0] > 0]
        if not edge:
            res.check(len(got) == len(want) and all(abs(a[2] - tt[w[0]]) <= 1e-5*tt[E] for a, w in zip(got, want)), key + "interactive-list", "%d snapshots handed over, wanted %d: %s %s" % (len(got), len(want), got[:3], [tt[w[0]] for w in want[:3]]))
    # diagnostics file
    d = np.array([[float(x) for x in l.split()[:2]] for l in open(os.path.join(wd, "OUT.diag"))])
    dueset = [i for i in range(1, E + 1) if ful[i] and nb[i] % c["ndiag"] == 0]
    got = d[:, 1].astype(int).tolist()
    for i in dueset:
        res.check(i in got, key + "diagnostics:missing", lambda: "no row for step %d, rows %s" % (i, got))
    res.check(got[0] == 0 and (got[-1] == E or c["mode"] == "steps"), key + "diagnostics:ends", "%s" % got)
    if c["mode"] in ("run", "steps"):
        extra = [i for i in got if i not in dueset and i not in (0, E)]
        res.check(not extra, key + "diagnostics:extra", "%s" % extra)
        res.check(all(got.count(i) == 1 for i in dueset if i != E), key + "diagnostics:repeated", "%s" % got)
    res.check(all(abs(a - tt[int(b)]*ut) <= 1e-5*tt[E]*ut for a, b in d), key + "diagnostics:time", "")
    res.count("diagnostic rows", len(d))
    # writing does not change the evolution
    if not (c["sim"].startswith("mfv")):
        f = vlib.run_driver(script(c, p, lines) + ["setup", "steps %d" % E, "dump s.dmp"], wd, arrays=arr, timeout=100, name="silent2")
        s = vlib.Dump(os.path.join(wd, "s.dmp"))
        for tb in ("part", "star"):
            if tb in s.t and s.t[tb].n:
                for k in range(p["ndim"]):
                    res.check(np.array_equal(s.t[tb]["rv"[0] + "xyz"[k]], e.t[tb]["r" + "xyz"[k]]), key + "output-changes-evolution", "")
    res.sig = str(sorted((k, str(v)) for k, v in c.items() if k not in ("seed", "cost")))
