"""C29: at every decision the assigned time-step of every particle and star is within all its criteria (and the system step is their minimum),
recomputed independently from the state the decision is taken from."""
import os
import numpy as np
import vlib, vgas, vgen
import c12

RULE = ("cases = short runs (SPH both leapfrogs, meshless, N-body of every integrator, sinks, mixtures) with random multipliers; the state is recorded right before the steps are decided and after they were, "
        "and every step that begins is compared with the Courant, acceleration, energy, viscous, jerk-based and sink criteria recomputed from that state; global steps must equal the minimum, the largest step at "
        "synchronisation must be the minimum times 2^(levels-1), no particle may be more than one level below its own criterion there; non-trivial when at least 10 decisions with different limiting criteria were seen; distinct = case parameters")
ASSUMPTIONS = ["x86-64, one process, one thread per run", "the meshless signal velocity used for a step is the one of the last gradient evaluation (end of the previous step)"]


def cases(tier, seed):
    g = vlib.rng_for("C29", seed)
    out = []
    for i in range(72 if tier == "quick" else 900):
        what = str(g.choice(["sph", "mfv", "nbody", "sink", "mix"], p=[.34, .26, .16, .12, .12]))
        if what == "sink":
            c = dict(c12.cases("quick", int(g.randint(1 << 30)))[0])
            c.update(seed=int(g.randint(1 << 30)), steps=12)
        else:
            c = vgas.gen(g, sims=("sph", "mfvmuscl"), p_sim=[1, 0] if what == "sph" else [0, 1] if what == "mfv" else None, levels=(1, 1, 3, 6), stars=1. if what == "mix" else 0., grav=1. if what == "mix" else .4,
                         bcs=("open",) if what == "mix" else ("open", "periodic", "mirror", "mixed"), nds=(2, 3) if what == "mix" else (1, 2, 3), p_nd=[.6, .4] if what == "mix" else [.3, .4, .3])
            c["steps"] = {1: 40, 2: 16, 3: 6}[c["nd"]]
        c.update(i=i, what=what, cost=c["nd"]*3)
        c["cour"], c["acc"], c["en"], c["nbm"] = (float(10**g.uniform(-1.5, -.4)) for _ in range(4))
        c["eos"] = str(g.choice(["energy_eqn", "energy_eqn", "isothermal"]))
        c["visc"] = float(10**g.uniform(-3, -.5)) if what == "mfv" and not c["grav"] and g.uniform() < .3 else 0.
        c["vmult"] = float(g.uniform(.1, .5))
        if what in ("sph", "mix") and c["avisc"] == "none":
            c["avisc"] = "mon97"
        if what == "sph" and not c["grav"] and 0:
            pass
        if what == "nbody":
            c.update(sim="nbody", nb=str(g.choice(["lfkdk", "lfdkd", "hermite4", "hermite4ts", "hermite6ts"])), Ns=int(g.choice([3, 10, 25])), steps=40, nd=int(g.choice([2, 3, 3])))
            c["soft"] = int(g.randint(2)) if c["nb"] in ("lfkdk", "lfdkd") else 0
        if what == "mix" and c["kernel"] == "gaussian":
            c["kernel"] = "m4"
        # accelerations larger than pressure: the acceleration criterion decides
        c["ext"] = int(what in ("sph", "mfv") and c["bc"] == "open" and g.uniform() < .25)
        out.append(c)
    return out


def build(c):
    x = dict(courant_mult=c["cour"], accel_mult=c["acc"], energy_mult=c["en"], nbody_mult=c["nbm"])
    if c["what"] == "sink":
        lines, arr, p = c12.build(c)
        p.update(x)
        return vlib.params_script(p) + ["sim", "prepython"] + lines, arr, p
    if c["what"] == "nbody":
        g = vlib.rng_for(c["seed"], "c29")
        n, nd = c["Ns"], c["nd"]
        p = dict(vgen.BASE)
        p.update(ndim=nd, sim="nbody", nbody=c["nb"], nbody_softening=c["soft"], Nstar=n, Nlevels=c["levels"], Npec=1, **x)
        lines, arr = vgen.hydro_arrays(nd, g.uniform(-1, 1, (n, nd)), .4*g.normal(size=(n, nd)), g.uniform(.1, 1, n)/n, None, 10**g.uniform(-3, -.5, n), typ="star")
        return vlib.params_script(p) + ["sim", "prepython"] + lines, arr, p
    x["gas_eos"] = c["eos"] if c["what"] != "mfv" else "energy_eqn"
    if x["gas_eos"] == "isothermal":
        x.update(temp0=1., mu_bar=1.)
    if c["visc"]:
        x.update(shear_visc=c["visc"], visc_mult=c["vmult"])
    if c["ext"]:
        x.update(external_potential="vertical" if c["nd"] > 1 else "none", grav_y=-50.) if 0 else None
    return vgas.build(c, N={1: 100, 2: 250, 3: 400}[c["nd"]] if c["bc"] in ("open", "mirror") else None, extra=x)


def tolerated(fl):
    return fl and any(q in fl for q in ("pressure > ", "part.u > ", "ipress", "irho", "Wleft", "Wright", "Smoothing length too large", "half", "isnormal", "press"))


def gas_dt(c, p, t, nd):
    """criteria of the gas: (Courant incl. viscosity, acceleration, energy)"""
    h, a = t["h"], np.linalg.norm(t.vec("a", nd), axis=1)
    if p["sim"] == "mfvmuscl":
        cr = 2*c["cour"]*h/np.where(t["vsig_max"] > 0, t["vsig_max"], np.nan)
        cr = np.where(np.isfinite(cr), cr, 1e30)
        if c.get("visc"):
            cr = np.minimum(cr, c["vmult"]*.5*h*h/c["visc"])
        ac = c["acc"]*np.sqrt(h/np.sqrt(a*a + 1e-20))
        return np.stack([cr, ac, np.full(len(h), 1e30)])
    cr = c["cour"]*h/(t["sound"] + h*np.abs(t["div_v"]) + 1e-30)
    ac = c["acc"]*np.sqrt(h/(a + 1e-30))
    en = np.full(len(h), 1e30)
    if p["gas_eos"] == "energy_eqn":
        en = c["en"]*t["u"]/(np.abs(t["dudt"]) + 1e-20)
    return np.stack([cr, ac, en])


def star_dt(c, p, s, nd):
    n = s.n
    nb = c.get("nb") or p.get("nbody", "lfkdk")
    A = [np.linalg.norm(s.vec(k, nd), axis=1) for k in ("a", "adot", "a2dot", "a3dot")]
    if nb.startswith("lf"):
        return c["nbm"]*np.sqrt(s["h"]/(A[0] + 1e-30)), np.ones(n, bool)
    with np.errstate(all="ignore"):
        dt = c["nbm"]*np.sqrt((A[0]*A[2] + A[1]**2)/(A[1]*A[3] + A[2]**2))
    ok = (A[1]**2 > 1e-18) & (A[2]**2 > 1e-18)
    return np.where(ok, dt, 1e30), ok


def run_case(c, wd, res):
    s, arr, p = build(c)
    nd, K = c["nd"], c["steps"]
    point = "presubsystem" if c["what"] == "nbody" else "postsink"
    f = vlib.run_driver(s + ["setup", "dump b000000.dmp", "hookdump %s 1 %d q" % (point, K), "stepdump %d 1 s" % K], wd, arrays=arr, timeout=240, name="run")
    fl = f.failure()
    if fl and not tolerated(fl):
        res.fail("run:" + fl, f.out[-600:])
        return
    if fl:
        res.count("limit of the code reached")
    ld = lambda x: vlib.Dump(os.path.join(wd, x))          # noqa
    Q = sorted(x for x in os.listdir(wd) if x.startswith("q") and x.endswith(".dmp"))
    S = sorted(x for x in os.listdir(wd) if x.startswith("s0") and x.endswith(".dmp"))
    st = {"d": 0, "why": set()}
    if os.path.exists(os.path.join(wd, "b000000.dmp")):
        B = ld("b000000.dmp")
        decide(c, p, B, B, res, "setup", st, True, None)
        prev = B
    for k, (a, b) in enumerate(zip(Q, S)):
        try:
            A, B = ld(a), ld(b)
        except (vlib.HarnessError, ValueError):
            if fl:
                break
            raise
        if A.s["t"] != B.s["t"]:
            res.inconclusive = "states of different times"
            return
        decide(c, p, A, B, res, "step %d" % (k + 1), st, False, prev)
        prev = B
        if p["sim"] == "mfvmuscl" and c["what"] == "mfv":
            signal(c, p, B, res, "step %d" % (k + 1))
    res.count("decisions", st["d"])
    for w in st["why"]:
        res.count("cases limited by " + w)
    res.nontrivial = st["d"] >= 10
    res.sig = repr(sorted((k, str(v)) for k, v in c.items() if k not in ("i", "cost")))


def decide(c, p, A, B, res, tag, st, setup, prev):
    nd = c["nd"]
    L = int(c["levels"])
    sync = setup or A.s["n"] == A.s["nresync"]
    step = B.s["timestep"]
    kind = p["sim"] + (":global" if L == 1 else ":block")
    mins, alldead = [], [1e300]
    mono = []
    gas = A.t.get("part")
    if gas is not None and gas.n:
        T, U = A.part, B.part
        if not setup and c["sim"] == "sph" and c.get("dkd"):
            pass
        cr = gas_dt(c, p, T, nd)
        ref = cr.min(0)
        live = T["dead"] == 0
        ended = live & ((T["nlast"] + T["nstep"] == A.s["n"]) if not setup else True)
        if L == 1 and not setup:
            ended = live if sync else live & False
        same = B.part.n == T.n and np.array_equal(T["iorig"], U["iorig"])
        res.check(same, "particles-moved", tag)
        if not same:
            return
        if ended.any():
            new = U["nstep"]*step
            bad = ended & ~(new <= ref*(1 + 1e-6))
            if bad.any():
                j = np.nonzero(bad)[0][0]
                res.fail("exceeds:" + kind + ":" + ("courant", "acceleration", "energy")[int(np.argmin(cr[:, j]))], "%s particle %d type %d: step %g, criteria %s, level %d" % (tag, j, T["ptype"][j], new[j], cr[:, j], U["level"][j]))
            res.mx("step/criterion", (new/ref)[ended].max())
            st["d"] += int(ended.sum())
            st["why"].add(("courant", "acceleration", "energy")[int(np.argmin(cr[:, np.argmin(np.where(ended, ref, 1e300))]))])
            if not setup:
                res.bound("dt-recorded", (np.abs(U["dt"] - new)/new)[ended].max(), 1e-9, tag) if p["sim"] != "mfvrk" else None
        if live.any():
            mins.append(ref[live].min())
            alldead = [ref[np.isfinite(ref) & (ref > 0)].min()]
        if sync and not setup and L > 1 and not (c.get("single") or c["what"] == "sink" or c.get("tsl") == "conservative" and p["sim"] != "sph"):
            # not much finer than needed (levels also rise for neighbours)
            lo = ended & ~((U["nstep"]*step >= ref*.2*(1 - 1e-6)) | (U["level"] == 0) | (U["level"] <= U["levelneib"] - p.get("level_diff_max", 1)))
            res.check(not lo.any(), "too-short:" + kind, "%s: %d: %s" % (tag, lo.sum(), [(U["level"][j], U["nstep"][j]*step/ref[j], cr[:, j]) for j in np.nonzero(lo)[0][:2]]))
    star = A.t.get("star")
    if star is not None and star.n and B.star.n == star.n:
        ref, ok = star_dt(c, p, star, nd)
        if c["what"] == "sink" and prev is not None and not setup:
            for k in range(star.n):
                if k < prev.sink.n and A.sink["macctot"][k] > prev.sink["macctot"][k]:
                    a = np.linalg.norm(star.vec("a", nd)[k])
                    ref[k] = min(ref[k], .4*np.sqrt(A.sink["radius"][k]/(a + 1e-20)))
        ended = (star["nlast"] + star["nstep"] == A.s["n"]) if not setup else np.ones(star.n, bool)
        if L == 1 and not setup:
            ended = np.full(star.n, sync)
        new = B.star["nstep"]*step
        bad = ended & ok & ~(new <= ref*(1 + 1e-6))
        if bad.any():
            j = np.nonzero(bad)[0][0]
            res.fail("exceeds:star:" + (c.get("nb") or str(p.get("nbody"))) + ":" + kind, "%s star %d: step %g, criterion %g" % (tag, j, new[j], ref[j]))
        st["d"] += int((ended & ok).sum())
        if ended.any():
            st["why"].add("star")
        mins.append(ref.min())
        allok = ok.all()
        sinks_own = c["what"] == "sink"
    else:
        allok, sinks_own = True, False
    if sync and mins and allok:
        m = min(mins)
        big = step if L == 1 else B.s["dt_max"]/2.**(L - 1)
        # an earlier accretion leaves a sink's own limit in force
        top = m*(1 + 1e-6)
        low = min([m] + (alldead if L == 1 else []))*(1 - 1e-6)
        if L == 1:
            big = step*B.s["nresync"]
        if c.get("tsl") == "conservative" and p["sim"] == "mfvmuscl" or sinks_own:
            low = 0
        res.check(low <= big <= top, "system-step:" + kind, "%s: %r, minimum %r" % (tag, big, m))
        res.count("system steps")


def signal(c, p, B, res, tag):
    """the signal velocity of an active particle covers every approaching neighbour"""
    if c["levels"] != 1 or c["bc"] != "open":
        return
    nd, T = c["nd"], B.part
    r, v, h, cs = T.vec("r", nd), T.vec("v", nd), T["h"], T["sound"]
    R = {"m4": 2., "quintic": 3.}[c["kernel"]]
    d = r[:, None] - r[None]
    D = np.sqrt((d**2).sum(2)) + 1e-20
    vr = ((v[:, None] - v[None])*d).sum(2)/D
    near = D < R*h[:, None]*(1 - 1e-9)
    ref = np.where(near, cs[:, None] + cs[None] - np.minimum(0, vr), 0).max(1)
    res.bound("signal-velocity", (1 - T["vsig_max"]/ref).max(), 1e-6, tag)
    res.count("signal velocities", len(h))
