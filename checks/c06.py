"""C06: hierarchical block time steps stay synchronised (monitor over the state after every step)."""
import os
import numpy as np
import vlib, vgas, sphref

RULE = ("cases = gas runs (SPH KDK/DKD, meshless MUSCL, optional stars) with 1-8 time-step levels whose particles change level quickly (hot noise, "
        "blast waves, colliding streams), sampled from VERIF_SEED; the state after every step is compared with the state before it; non-trivial when "
        "steps started in the middle of the hierarchy and particles changed level were seen; distinct = case parameters")
ASSUMPTIONS = ["x86-64, one process, one thread per run", "the state dumped by the driver after MainLoop is the state the code continues from"]
EPS = 1e-9


def cases(tier, seed):
    n = 84 if tier == "quick" else 900
    g = vlib.rng_for("C06", seed)
    out = []
    for i in range(n):
        c = vgas.gen(g, p_sim=[.7, .3], levels=(1, 2, 3, 4, 5, 8), stars=.5, p_nd=(.35, .5, .15), grav=.4)
        c["i"] = i
        if c["levels"] == 1 and g.uniform() < .6:
            c["levels"] = 5
        if c["dkd"] and c["nd"] == 1:
            c["grav"] = c["stars"] = 0
        if c["sim"] == "sph" and c["nd"] == 2 and not c["dkd"] and not c["stars"] and g.uniform() < .5:
            # stars among gas whose level structure deepens between two resynchronisations
            c["stars"], c["levels"], c["ic"] = 2, int(g.choice([2, 3, 4])), str(g.choice(["collide", "blast"], p=[.7, .3]))
            c["vel"], c["single"] = float(g.choice([1.5, 4., 8.])), 0
            if c["avisc"] == "none":
                c["avisc"] = "mon97"
        if i % 7 == 3:
            # self-gravitating gas on several levels: its force loops keep their own book of the neighbours' levels
            c.update(sim="sph", nd=2, bc="open", grav=1, dkd=0, single=0, kernel=str(g.choice(["m4", "quintic"])), levels=int(g.choice([4, 5, 8])), ic=str(g.choice(["blast", "noise", "collide"])),
                     avisc="mon97", seed=c["seed"]//3*3)
        c["steps"] = int(g.choice([12, 24, 40] if c["nd"] < 3 else [10, 16]))
        if c["levels"] >= 5 and c["nd"] < 3:
            c["steps"] = 60
        c["cost"] = c["steps"]*c["nd"]**2*(3 if c["bc"] in ("periodic", "mixed") else 1)
        out.append(c)
    return out


def run_case(c, wd, res):
    s, arr, p = vgas.build(c, N={1: 80, 2: None, 3: None}[c["nd"]] if c["bc"] == "open" else None)
    s += ["hookdump forces 1 %d f" % (c["steps"]*8) if c["sim"] == "sph" and c["nd"] < 3 else "nohooks", "setup", "dump s000000.dmp", "stepdump %d 1 s" % c["steps"]]
    f = vlib.run_driver(s, wd, arrays=arr, timeout=200)
    fl = f.failure()
    limit = fl and any(q in fl for q in ("pressure > ", "part.u > ", "press", "Wleft", "Wright", "Smoothing length too large", "half"))
    if fl and not limit:
        res.fail("run:" + fl, f.out[-700:])
        return
    if limit:
        res.count("ended_by_positivity_or_box_limit")
    files = sorted(q for q in os.listdir(wd) if q.startswith("s0") and q.endswith(".dmp"))
    prev = None
    mid = changed = 0
    for k, q in enumerate(files):
        try:
            d = vlib.Dump(os.path.join(wd, q))
        except (vlib.HarnessError, ValueError):
            if limit:
                break
            raise
        if prev is not None:
            m, ch = step(prev, d, c, p, res)
            mid += m
            changed += ch
        else:
            state(d, c, p, res)
        prev = d
        res.count("states")
    res.count("mid_hierarchy_steps", mid)
    res.count("level_changes", changed)
    for q in sorted(os.listdir(wd)):
        if q.startswith("f") and q.endswith(".dmp") and int(c["seed"]) % 3 == 0 and c["levels"] > 1:
            d = vlib.Dump(os.path.join(wd, q))
            if d.s["Nsteps"] > 0 and d.s["Nsteps"] % 4 == 0:
                neighbours(d, c, p, res)
    res.nontrivial = res.obs.get("states", 0) > 4 and (c["levels"] == 1 or (mid > 2 and changed > 5))
    res.sig = {k: c[k] for k in c if k not in ("seed", "i", "cost")}


def state(d, c, p, res):
    """invariants of one state after MainLoop"""
    s = d.s
    n, ts, t = s["n"], s["timestep"], s["t"]
    tag = c["sim"] + ":"
    if c["levels"] > 1:
        res.bound(tag + "timestep-divides", abs(ts*2.0**s["level_step"]/s["dt_max"] - 1), 1e-12)
        res.check(s["nresync"] == 2.0**s["level_step"], tag + "nresync", "nresync %g level_step %g" % (s["nresync"], s["level_step"]))
        res.check(0 <= n < s["nresync"], tag + "n-range", "n %g nresync %g" % (n, s["nresync"]))
    for name in ("part", "star"):
        if name not in d.t or d.t[name].n == 0:
            continue
        q = d.t[name]
        live = q["dead"] == 0 if name == "part" else np.ones(q.n, bool)
        lev, ns, nl, tl = q["level"][live], q["nstep"][live], q["nlast"][live], q["tlast"][live]
        T = tag + name + ":"
        if c["levels"] > 1:
            res.check(((lev >= 0) & (lev <= s["level_max"])).all(), T + "level-range", lambda: "levels %s max %g" % (np.unique(lev), s["level_max"]))
            res.check((ns == 2.0**(s["level_step"] - lev)).all(), T + "step-power-of-two", lambda: "nstep %s" % np.unique(ns))
            res.check((nl % ns == 0).all(), T + "step-starts-aligned", lambda: "nlast %s nstep %s" % (nl[nl % ns != 0][:5], ns[nl % ns != 0][:5]))
            res.check(((nl <= n) & (n < nl + ns)).all(), T + "step-covers-now", lambda: "n %g nlast %s nstep %s" % (n, nl[:5], ns[:5]))
        if c["levels"] > 1 and (name == "part" or s["Nsteps"] > 0):
            dt = q["dt"][live]
            # DKD: a step shortened by the neighbour limiter keeps the longer assigned value until it ends
            eq = np.ones(len(dt), bool) if not c["dkd"] or name == "star" else nl == n
            res.bound(T + "assigned-step", np.where(eq, np.abs(dt - ns*ts), 0).max()/ts, 1e-6, lambda: "dt %s nstep %s timestep %r" % (dt[np.abs(dt - ns*ts) > 1e-6*ts][:3], ns[:3], ts))
        if c["levels"] > 1 or s["integration_step"] == 1:
            res.bound(T + "start-time", np.abs(tl - (t - (n - nl)*ts)).max()/max(t, s["dt_max"] if c["levels"] > 1 else ts), 1e-9)
    if "star" in d.t and d.star.n and d.part.n and c["levels"] > 1:
        live = d.part["dead"] == 0
        res.check(d.star["level"].min() >= d.part["level"][live].max(), tag + "star-level-below-gas",
                  lambda: "star levels %s gas max %g" % (d.star["level"], d.part["level"][live].max()))
    if c["levels"] > 1 and p.get("sph_single_timestep") and c["sim"] != "xx" and n == 0 and c["sim"] == "sph":
        pass


def step(a, b, c, p, res):
    """transition between the states after two consecutive steps"""
    tag = c["sim"] + ":"
    nd = c["nd"]
    ts = a.s["timestep"]
    res.check(b.s["Nsteps"] == a.s["Nsteps"] + 1, tag + "step-count", "%g -> %g" % (a.s["Nsteps"], b.s["Nsteps"]))
    res.check(b.s["t"] == a.s["t"] + ts, tag + "time-is-sum-of-steps", lambda: "%r + %r != %r" % (a.s["t"], ts, b.s["t"]))
    res.check(ts > 0, tag + "positive-step", "timestep %r" % ts)
    resync = a.s["n"] + 1 == a.s["nresync"]
    if resync:
        res.check(b.s["n"] == 0, tag + "resync-resets", "n %g" % b.s["n"])
        res.check(b.s["Nblocksteps"] == a.s["Nblocksteps"] + 1, tag + "blocksteps", "%g -> %g" % (a.s["Nblocksteps"], b.s["Nblocksteps"]))
        res.count("resyncs")
    elif c["levels"] > 1:
        # integer clock may be rescaled, the time since the last synchronisation may not
        res.bound(tag + "clock", abs(b.s["n"]*b.s["timestep"] - (a.s["n"] + 1)*ts)/a.s["dt_max"], 1e-9, lambda: "%r %r" % (a.s, b.s))
        res.check(b.s["dt_max"] == a.s["dt_max"], tag + "dtmax-fixed", "%r -> %r" % (a.s["dt_max"], b.s["dt_max"]))
        res.check(b.s["level_max"] >= a.s["level_max"] - 1, tag + "level-max-drop", "%g -> %g" % (a.s["level_max"], b.s["level_max"]))
    state(b, c, p, res)
    changed = 0
    for name in ("part", "star"):
        if name not in a.t or a.t[name].n == 0:
            continue
        x, y = a.t[name], b.t[name]
        if x.n != y.n:
            res.fail(tag + name + ":count", "%d -> %d" % (x.n, y.n))
            continue
        T = tag + name + ":"
        if name == "part":
            # reordering may happen at tree builds: match by identity
            ix, iy = np.argsort(x["iorig"]), np.argsort(y["iorig"])
            if not np.array_equal(x["iorig"][ix], y["iorig"][iy]):
                res.fail(T + "identity", "iorig sets differ")
                continue
        else:
            ix = iy = np.arange(x.n)
        tl0, tl1 = x["tlast"][ix], y["tlast"][iy]
        ended = y["nlast"][iy]*b.s["timestep"] + (b.s["t"] - b.s["n"]*b.s["timestep"]) > tl0 + 0.5*ts
        dtstep = b.s["t"] - tl0
        dn0 = (a.s["n"] - x["nlast"][ix]) + 1          # elementary steps completed, in the old clock
        due = dn0 == x["nstep"][ix]
        # every due particle ends; a particle ending early must have been shortened by the neighbour limiter
        res.check(ended[due].all(), T + "due-particle-not-ended", lambda: "%d of %d" % ((~ended[due]).sum(), due.sum()))
        early = ended & ~due
        res.count("ended", ended.sum())
        res.count("shortened_by_neighbour_limiter", early.sum())
        if name == "star":
            res.check(not early.any(), T + "ended-early", lambda: "%d stars" % early.sum())
        elif early.any():
            res.check((y["level"][iy][early] > x["level"][ix][early]).all() or c["dkd"], T + "ended-early-without-deeper-level",
                      lambda: "%s -> %s" % (x["level"][ix][early][:5], y["level"][iy][early][:5]))
            res.check((y["level"][iy][early] >= 0).all() and (c["diff"] < c["levels"]), T + "ended-early-with-limiter-idle", "diff %d" % c["diff"])
        if resync:
            res.check(ended.all() and (tl1 == b.s["t"]).all() if name == "part" else ended.all(), T + "resync-all-end", lambda: "%d not" % (~ended).sum())
        if c["levels"] > 1 and not resync:
            up = ended & (y["level"][iy] < x["level"][ix])
            changed += int((y["level"][iy] != x["level"][ix]).sum())
            if up.any():
                res.check((x["level"][ix][up] - y["level"][iy][up] == 1).all(), T + "level-rises-one-at-a-time",
                          lambda: "%s -> %s" % (x["level"][ix][up][:5], y["level"][iy][up][:5]))
            still = ~ended & (y["level"][iy] != x["level"][ix])
            if name == "star":
                res.check(not still.any(), T + "level-changed-mid-step", lambda: "%d" % still.sum())
            # the step never exceeds what was assigned at its beginning
        if name == "part":
            lim = x["dt"][ix]
            bad = ended & (dtstep > lim*(1 + 1e-9)) & (a.s["Nsteps"] > 0)
            if c["levels"] > 1:
                res.check(not bad.any(), T + "step-exceeds-assigned", lambda: "%r > %r" % (dtstep[bad][:3], lim[bad][:3]))
        kinematics(a, b, x.data[ix], y.data[iy], x, ended, dtstep, name, c, p, res, T)
    mid = int(not resync and c["levels"] > 1)
    if not resync and c["levels"] > 1 and b.s["level_max"] > a.s["level_max"] and "star" in b.t and b.star.n:
        res.count("level_growth_with_stars")
        res.count("level_growth_with_stars_in_step", int((b.star["nlast"] < b.s["n"]).any()))
    if b.part.n if "part" in b.t else 0:
        limiter(b, c, p, res, tag)
    return mid, changed


def kinematics(a, b, X, Y, tab, ended, dtstep, name, c, p, res, T):
    """positions and velocities follow the leap-frog integral over exactly the step that elapsed"""
    nd = c["nd"]
    col = tab.ix

    def V(M, pre):
        return np.stack([M[:, col[pre + q]] for q in "xyz"[:nd]], 1)
    if name == "star" or (c["bc"] != "open" and name == "part"):
        return                       # wall reflections rewrite r0/v0: covered by C05; stars: C10
    live = (X[:, col["dead"]] == 0) & (Y[:, col["dead"]] == 0)
    dt = dtstep[:, None]
    r0, v0, a0 = V(X, "r0"), V(X, "v0"), V(X, "a0")
    sc = np.abs(V(X, "r")).max() + np.abs(v0).max()*dt
    if c["sim"] == "sph" and not c["dkd"]:
        ref = r0 + v0*dt + .5*a0*dt*dt
        e = np.abs(V(Y, "r") - ref)/(sc + np.abs(a0)*dt*dt)
        res.bound(T + "kdk-position", e[live].max(), 1e-11)
        k = live & ended
        if k.any():
            ref = v0 + .5*(a0 + V(Y, "a"))*dt
            s2 = np.abs(v0) + (np.abs(a0) + np.abs(V(Y, "a")))*dt + 1e-300
            res.bound(T + "kdk-velocity", (np.abs(V(Y, "v") - ref)/s2)[k].max(), 1e-9,
                      lambda: "ended %d, dt/assigned %s" % (k.sum(), np.unique((dtstep/X[:, col["dt"]])[k])[:6]))
            u0, d0, u1, d1 = X[:, col["u0"]], X[:, col["dudt0"]], Y[:, col["u"]], Y[:, col["dudt"]]
            ref = u0 + .5*(d0 + d1)*dtstep
            alt = u0 + d0*dtstep
            sc = u0 + (np.abs(d0) + np.abs(d1))*dtstep
            gas = k & (Y[:, col["ptype"]] == 0)
            ee = np.minimum(np.abs(u1 - ref), np.where(ref <= 1e-3*u0, np.abs(u1 - alt), 1e300))/sc
            res.bound(T + "kdk-energy", ee[gas].max(), 1e-9)
            for q in ("r", "v", "a"):
                res.check(np.array_equal(V(Y, q)[k], V(Y, q + "0")[k]), T + "kdk-start-of-step-%s0" % q, "")
        k = live & ~ended
        if k.any():
            res.bound(T + "kdk-predicted-velocity", (np.abs(V(Y, "v") - v0 - a0*dt)/(np.abs(v0) + np.abs(a0)*dt + 1e-300))[k].max(), 1e-9)
    elif c["sim"] == "sph":
        due = np.abs(dtstep/X[:, col["dt"]] - 1) < 1e-9
        k = live & due & ended
        if k.any():
            acc = V(X, "a")                 # acceleration computed at the half step
            v1 = v0 + acc*dt
            res.bound(T + "dkd-velocity", (np.abs(V(Y, "v") - v1)/(np.abs(v0) + np.abs(acc)*dt + 1e-300))[k].max(), 1e-9)
            ref = r0 + .5*(v0 + v1)*dt
            res.bound(T + "dkd-position", (np.abs(V(Y, "r") - ref)/(sc + np.abs(acc)*dt*dt))[k].max(), 1e-11)
    else:
        pass


def limiter(d, c, p, res, tag):
    """a particle whose active neighbours are much deeper has been shortened if the clock allowed it"""
    if c["levels"] < 2 or (c["sim"] != "sph"):
        return
    q = d.part
    live = (q["dead"] == 0) & (q["sinkid"] == -1)
    dn = d.s["n"] - q["nlast"]
    over = live & (dn > 0) & (q["levelneib"] - q["level"] > c["diff"])
    if not over.any():
        return
    nn = 2.0**(d.s["level_step"] - (q["levelneib"] - c["diff"]))
    ok = dn % nn != 0
    if c["dkd"]:
        ok &= 2*dn != nn
    res.count("limiter_pending", over.sum())
    # the level clock may have been deepened by this very step
    res.check(ok[over].all(), tag + "limiter-missed", lambda: "level %s levelneib %s dn %s" % (q["level"][over & ~ok][:4], q["levelneib"][over & ~ok][:4], dn[over & ~ok][:4]))


def neighbours(d, c, p, res):
    """levelneib at the force hook covers every active neighbour inside the interaction range"""
    nd = c["nd"]
    q = d.part
    live = q["dead"] == 0
    act = np.nonzero(live & (q["active"] == 1))[0]
    if len(act) == 0 or len(act) == q.n:
        return
    kern = sphref.Kernel(c["kernel"], nd)
    pr = sphref.Pairs(kern, nd, q.vec("r", nd), q.vec("v", nd), q["h"], act, p, live=live, src_ok=live)
    lev, ln = q["level"], q["levelneib"]
    inside = pr.dist < kern.range*np.maximum(q["h"][pr.is_], q["h"][pr.js])*(1 - 1e-9)
    bad = inside & (ln[pr.js] < lev[pr.is_])
    res.count("neighbour_level_pairs", inside.sum())
    res.check(not bad.any(), "sph:levelneib-below-active-neighbour", lambda: "%d pairs" % bad.sum())
    bad = inside & (ln[pr.is_] < lev[pr.js])
    res.check(not bad.any(), "sph:levelneib-below-neighbour", lambda: "%d pairs" % bad.sum())
