"""C07: SPH evolution conserves mass, momentum, angular momentum and energy (ledger kept over every step)."""
import os
import numpy as np
import vlib, vgas

RULE = ("cases = SPH runs (both leapfrogs, all viscosity and conduction modes, open/periodic/mirror box, with and without gravity and stars, common and block "
        "steps) sampled from VERIF_SEED; a ledger of mass, momentum, angular momentum and energy is kept over every step; for common steps without gravity the "
        "change of energy is compared with the exact second-order remainder of the integrator; energy-convergence cases rerun the same flow with the step halved "
        "twice; non-trivial when >=5 steps moved at least 1e-3 of a conserved quantity; distinct = case parameters")
ASSUMPTIONS = ["x86-64, one process, one thread per run", "block-step limits are about 4x the largest drift seen in calibration"]


def cases(tier, seed):
    n = 56 if tier == "quick" else 700
    g = vlib.rng_for("C07", seed)
    out = []
    for i in range(n):
        mode = str(g.choice(["ledger", "block", "grav", "conv"], p=[.5, .17, .18, .15]))
        c = vgas.gen(g, sims=("sph",), levels=(1,) if mode != "block" else (2, 4, 6), bcs=("open", "periodic", "mirror", "mixed"), p_bc=[.45, .3, .15, .1],
                     grav=0.0, p_nd=(.2, .5, .3), dkd=.3)
        c["i"] = i
        c["mode"] = mode
        c["steps"] = {1: 40, 2: 24, 3: 8}[c["nd"]]
        if mode in ("grav", "conv"):
            c["bc"] = "open"
            c["nd"] = int(g.choice([2, 3], p=[.6, .4]))
            c["kernel"] = str(g.choice(["m4", "quintic"]))
        if mode in ("grav", "conv"):
            c["scale"] = 1.0
        if mode == "grav":
            c["grav"] = 1
            c["tree"] = str(g.choice(["bruteforce", "kdtree", "octtree"]))
            c["stars"] = int(g.choice([0, 2, 3])) if not c["dkd"] else 0
            c["build"] = 1
        if mode == "conv":
            c["ic"] = "smooth"
            c["grav"] = int(g.uniform() < .5 and not c["dkd"])   # (drift-kick-drift: the stored potential belongs to the middle of the step)
            c["tree"] = "bruteforce" if c["grav"] else c["tree"]
            c["stars"] = 0
            c["tab"] = 0
            c["kind"] = str(g.choice(["lattice", "jitter"]))
            c["acond"] = "none"
        c["cost"] = c["steps"]*c["nd"]**2*(3 if c["bc"] in ("periodic", "mixed") else 1)*(8 if mode == "conv" else 1)
        out.append(c)
    return out


def totals(d, nd):
    t, s = d.part, d.star
    r = np.concatenate([t.vec("r", nd)] + ([s.vec("r", nd)] if s.n else []))
    v = np.concatenate([t.vec("v", nd)] + ([s.vec("v", nd)] if s.n else []))
    m = np.concatenate([t["m"]] + ([s["m"]] if s.n else []))
    mom = (m[:, None]*v).sum(0)
    if nd == 3:
        L = (m[:, None]*np.cross(r, v)).sum(0)
    elif nd == 2:
        L = np.array([(m*(r[:, 0]*v[:, 1] - r[:, 1]*v[:, 0])).sum()])
    else:
        L = np.zeros(1)
    ekin = .5*(m*(v**2).sum(1)).sum()
    eth = (t["m"]*t["u"]).sum()
    pot = -.5*(t["m"]*t["gpot"]).sum() - (.5*(s["m"]*s["gpot"]).sum() if s.n else 0)
    P = (m*np.sqrt((v**2).sum(1))).sum() + np.sqrt(2*m.sum()*eth)
    return dict(m=m.sum(), p=mom, L=L, ekin=ekin, eth=eth, pot=pot, P=P, E=ekin + eth, Lsc=P*np.abs(r).max())


def load(wd, q, limit):
    try:
        return vlib.Dump(os.path.join(wd, q))
    except (vlib.HarnessError, ValueError):
        if limit:
            return None
        raise


def run_case(c, wd, res):
    res.sig = {k: c[k] for k in c if k not in ("seed", "i", "cost")}
    if c["mode"] == "conv":
        return convergence(c, wd, res)
    extra = {}
    if c["grav"]:
        extra["thetamaxsqd"] = 1e-14
        extra["conservative_sph_star_gravity"] = 0
    s, arr, p = vgas.build(c, N=300 if c["grav"] else None, extra=extra)
    s += ["setup", "dump s000000.dmp", "stepdump %d 1 s" % c["steps"]]
    f = vlib.run_driver(s, wd, arrays=arr, timeout=200)
    fl = f.failure()
    limit = fl and any(q in fl for q in ("pressure > ", "part.u > ", "press", "Smoothing length too large", "half"))
    if fl and not limit:
        res.fail("run:" + fl, f.out[-700:])
        return
    if limit:
        res.count("ended_by_positivity_or_box_limit")
    nd = c["nd"]
    tag = "%s:" % c["mode"]
    open_ = c["bc"] == "open"
    per = [p["boundary_lhs[%d]" % k] == "periodic" or (p["boundary_lhs[%d]" % k] == "open" and p["boundary_rhs[%d]" % k] == "open") for k in range(nd)]
    prev = first = vp = None
    nst = 0
    moved = 0
    for q in sorted(q for q in os.listdir(wd) if q.startswith("s0") and q.endswith(".dmp")):
        d = load(wd, q, limit)
        if d is None:
            break
        if c["mode"] != "block" and not (d.part["nlast"] == d.s["n"]).all():
            continue                                       # drift-kick-drift: the middle of the step
        T = totals(d, nd)
        o = np.argsort(d.part["iorig"])
        if first is None:
            first, ids, m0 = T, d.part["iorig"][o], d.part["m"][o]
            v0 = d.part.vec("v", nd)[o]
            sm0 = d.star["m"].copy() if d.star.n else None
        else:
            nst += 1
            res.check(np.array_equal(d.part["iorig"][o], ids), tag + "identity", "particle set changed")
            res.check(np.array_equal(d.part["m"][o], m0), tag + "particle-mass", "a particle's mass changed")
            if d.star.n:
                res.check(np.array_equal(d.star["m"], sm0), tag + "star-mass", "a star's mass changed")
            P = max(T["P"], first["P"])
            lim = {"ledger": 1e-11, "grav": 1e-10, "block": 3e-3}[c["mode"]]
            for k in range(nd):
                if per[k]:
                    res.bound(tag + "momentum", abs(T["p"][k] - first["p"][k])/P, lim, lambda: "component %d after %d steps" % (k, nst))
            if open_:
                res.bound(tag + "angular-momentum", np.abs(T["L"] - first["L"]).max()/max(T["Lsc"], first["Lsc"]), lim, lambda: "after %d steps" % nst)
            if c["mode"] == "ledger":
                vp = energy_step(prev, d, pT, T, c, p, nd, res, tag, vp)
            elif c["mode"] == "block":
                res.bound(tag + "energy", abs(T["E"] - first["E"])/first["E"], .03, lambda: "after %d steps" % nst)
            moved = max(moved, np.abs(d.part.vec("v", nd)[o] - v0).max()/(P/T["m"]))
        prev, pT = d, T
    res.count("states", nst)
    res.mx("largest velocity change / rms", moved)
    res.nontrivial = nst >= 5 and moved > 1e-3


def energy_step(a, b, Ta, Tb, c, p, nd, res, tag, vp):
    """E(t+dt)-E(t) of a common step equals the exact remainder of the leapfrog (forces balance pairwise)."""
    oa, ob = np.argsort(a.part["iorig"]), np.argsort(b.part["iorig"])
    A, B = a.part.sel(oa), b.part.sel(ob)
    dt = b.s["t"] - a.s["t"]
    m = A["m"]
    for k in range(nd):
        x = A["r" + "xyz"[k]] + dt*A["v" + "xyz"[k]] + .5*dt*dt*A["a" + "xyz"[k]]
        if (p["boundary_lhs[%d]" % k] == "mirror" and (x <= p["boxmin[%d]" % k]).any()) or (p["boundary_rhs[%d]" % k] == "mirror" and (x >= p["boxmax[%d]" % k]).any()):
            res.count("steps_with_reflection")
            return None
    v0, v1, a0, a1 = A.vec("v", nd), B.vec("v", nd), A.vec("a", nd), B.vec("a", nd)
    if vp is None and a.s["Nsteps"] > 0 and not c["dkd"]:
        return v0 + dt*a0
    vp0 = v0 if vp is None else vp                   # velocities the forces of the previous step were evaluated with
    vb = .5*(v0 + v1)
    if c["dkd"]:
        vp1 = v0 + .5*dt*a0
        corr = B["u"] - A["u"] - dt*B["dudt"]
        terms = dt*m*(a1*(vb - vp1)).sum(1)
    else:
        vp1 = v0 + dt*a0
        corr = B["u"] - A["u"] - .5*dt*(A["dudt"] + B["dudt"])
        terms = .5*dt*m*((a0*(vb - vp0)).sum(1) + (a1*(vb - vp1)).sum(1))
    # the forces do work -sum m dudt for the velocities they were evaluated with, so this is the exact change of energy over the step
    rem, scale = terms.sum(), np.abs(terms).sum()
    # (the code replaces the corrected energy by a first-order estimate where it would be negative)
    if np.abs(corr/(np.abs(A["u"]) + np.abs(dt*A["dudt"]))).max() > 1e-9:
        res.count("steps_with_energy_fallback")
        return vp1
    res.count("energy_steps")
    res.bound(tag + "energy-step" + ("-dkd" if c["dkd"] else ""), abs(Tb["E"] - Ta["E"] - rem)/(Ta["E"] + scale), 1e-11, lambda: "step %d: dE %g expected %g" % (b.s["Nsteps"], Tb["E"] - Ta["E"], rem))
    return vp1


def convergence(c, wd, res):
    errs, mom = [], []
    nd = c["nd"]
    n0 = {2: 24, 3: 8}[nd]
    for j, f in enumerate((1., .5, .25)):
        s, arr, p = vgas.build(c, N={2: 256, 3: 343}[nd], extra={"courant_mult": .2*f, "accel_mult": .3*f, "energy_mult": .4*f, "h_converge": 1e-9})
        s += ["setup", "dump a.dmp", "steps %d" % (n0 << j), "dump b.dmp"]
        r = vlib.run_driver(s, os.path.join(wd, "r%d" % j), arrays=arr, timeout=200)
        if r.failure():
            res.fail("run:" + r.failure(), r.out[-700:])
            return
        a, b = (totals(vlib.Dump(os.path.join(wd, "r%d" % j, q)), nd) for q in ("a.dmp", "b.dmp"))
        e0 = a["E"] + a["pot"]
        errs.append(abs(b["E"] + b["pot"] - e0)/(a["E"] + abs(a["pot"])))
        mom.append(np.abs(b["p"] - a["p"]).max()/a["P"])
    res.count("convergence_series")
    tag = "conv:" + ("dkd:" if c["dkd"] else "") + ("grav:" if c["grav"] else "")
    res.mx(tag + "error at full step", errs[0])
    res.mx(tag + "error ratio quarter step", errs[2]/max(errs[0], 1e-30))
    res.bound(tag + "energy-error", errs[0], 2e-2, lambda: str(errs))
    res.bound(tag + "energy-converges", errs[2], max(.5*max(errs[:2]), 1e-6), lambda: "errors with step 1, 1/2, 1/4: %s" % errs)
    res.bound(tag + "momentum", max(mom), 1e-10)
    res.nontrivial = True
