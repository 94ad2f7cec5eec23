"""C08: meshless schemes conserve mass, momentum and energy; primitive and conserved variables agree (monitor on every step)."""
import os
import numpy as np
import vlib, vgas

RULE = ("cases = meshless runs (MUSCL/RK, moving/static, mass-carrying/exchanging, exact/HLLC, all limiters, block steps, open/periodic/mirror walls, "
        "gravity) sampled from VERIF_SEED; totals and per-particle consistency are evaluated after every step; non-trivial when >=5 steps were judged and "
        "fluxes moved at least 1e-3 of a conserved quantity; distinct = case parameters")
ASSUMPTIONS = ["x86-64, one process, one thread per run", "smooth initial fields: the schemes themselves are not positivity preserving"]
LIM = ["null", "zeroslope", "tvdscalar", "scalar", "balsara2004", "springel2009", "gizmo"]


def cases(tier, seed):
    n = 60 if tier == "quick" else 700
    g = vlib.rng_for("C08", seed)
    out = []
    for i in range(n):
        c = vgas.gen(g, sims=("mfvmuscl", "mfvrk"), p_sim=[.88, .12], p_nd=(.35, .45, .2), p_bc=[.25, .4, .2, .15], grav=.25, levels=(1, 1, 3, 6),
                     ics=("noise", "blast", "smooth", "collide"))
        c["i"] = i
        c["limiter"] = str(g.choice(LIM))
        c["riemann"] = str(g.choice(["hllc", "exact"], p=[.7, .3]))
        c["steps"] = {1: 40, 2: 24, 3: 10}[c["nd"]] if c["sim"] == "mfvmuscl" else 5
        c["visc"] = int(g.uniform() < .15 and c["sim"] == "mfvmuscl")
        if c["limiter"] in ("null",):
            c["ic"] = "smooth"
        if c["levels"] > 1:
            c["tsl"] = str(g.choice(["conservative", "simple"], p=[.75, .25]))
        c["cost"] = c["steps"]*c["nd"]**2*(3 if c["bc"] in ("periodic", "mixed") else 1)
        out.append(c)
    # recorded defect: the Runge-Kutta variant is unstable on a gentle 1D pressure bump (see known_findings.txt)
    c = dict(out[0], i=n, sim="mfvrk", rkbump=1, nd=1, kernel="m4", tab=1, tree="kdtree", bc="periodic", grav=0, levels=1, limiter="gizmo", riemann="hllc", steps=64, static=0,
             visc=0, zmf=1, cost=5, scale=1.0, mass="equal", kind="lattice", seed=1, stars=0, nleaf=6, build=1, gamma=1.4, vel=0.0, ic="smooth", tsl="simple")
    out.append(c)
    return out


def run_case(c, wd, res):
    extra = {"slope_limiter": c["limiter"], "riemann_solver": c["riemann"]}
    if c["visc"]:
        extra["shear_visc"] = 0.01
    s, arr, p = vgas.build(c, extra=extra)
    if c.get("rkbump"):
        n = 64
        x = (np.arange(n) + .5)/n
        lo, L = p["boxmin[0]"], 1.0
        arr = {"sph_x.raw": lo + x, "sph_vx.raw": 0*x, "sph_m.raw": np.full(n, 1.0/n), "sph_u.raw": 1 + 0.1*np.exp(-((x - .5)/.1)**2)}
        p["Nhydro"] = n
        s = vlib.params_script(p) + ["sim", "prepython"] + ["array sph %s %s" % (q[4:-4], q) for q in arr]
    s += ["hookdump flux 1 3 h", "setup", "dump s000000.dmp", "stepdump %d 1 s" % c["steps"]]
    f = vlib.run_driver(s, wd, arrays=arr, timeout=200)
    fl = f.failure()
    limit = fl and any(q in fl for q in ("pressure > ", "part.u > ", "ipress", "irho", "Wleft", "Wright", "Smoothing length too large", "half", "isnormal"))
    if c.get("rkbump"):
        res.check(not fl, "mfvrk:unstable-on-smooth-bump", "%s" % fl)
        res.nontrivial = True
        return
    if fl and not limit:
        res.fail("run:" + fl, f.out[-700:])
        return
    if limit:
        res.count("ended_by_positivity_or_box_limit")
    files = sorted(q for q in os.listdir(wd) if q.startswith("s0") and q.endswith(".dmp"))
    tot0 = None
    nd = c["nd"]
    moved = 0.0
    nst = 0
    prev = None
    for q in files:
        try:
            d = vlib.Dump(os.path.join(wd, q))
        except (vlib.HarnessError, ValueError):
            if limit:
                break
            raise
        t = d.part
        Q = np.stack([t["Q%d" % k] for k in range(nd + 2)], 1)
        dQ = np.stack([t["dQ%d" % k] for k in range(nd + 2)], 1)
        tot = (Q + dQ).sum(0)
        E = np.abs(Q[:, nd + 1]).sum()
        M = Q[:, nd].sum()
        P = np.sqrt(2*M*E)
        sc = np.array([P]*nd + [M, E])
        tag = c["sim"] + ":"
        if tot0 is None:
            tot0, Q0, id0 = tot, Q[np.argsort(t["iorig"])], np.sort(t["iorig"])
            m0 = t["m"][np.argsort(t["iorig"])]
        else:
            nst += 1
            o = np.argsort(t["iorig"])
            res.check(np.array_equal(t["iorig"][o], id0), tag + "identity", "particle set changed")
            moved = max(moved, float((np.abs(Q[o] - Q0)/(sc/len(Q))).max()))
            closed = all(p["boundary_lhs[%d]" % k] != "mirror" and p["boundary_rhs[%d]" % k] != "mirror" for k in range(nd))
            # a mirror image does not hand its flux back to an inactive source (and the RK state of a mirrored pair is not a mirror image): only synchronous MUSCL runs are exact at walls
            exactly = (closed or (c["levels"] == 1 and c["sim"] != "mfvrk")) and (c["levels"] == 1 or c["tsl"] == "conservative" or c["sim"] == "mfvrk")
            e = np.abs(tot - tot0)/sc
            res.bound(tag + "mass-total", e[nd], 1e-11 if exactly else 2e-2, lambda: "after %d steps" % nst)
            if not c["grav"]:
                res.bound(tag + "energy-total" + ("" if exactly else ":shortened"), e[nd + 1], 1e-11 if exactly else 2e-2, lambda: "after %d steps" % nst)
                for k in range(nd):
                    if p["boundary_lhs[%d]" % k] != "mirror" and p["boundary_rhs[%d]" % k] != "mirror":
                        res.bound(tag + "momentum-total" + ("" if exactly else ":shortened"), e[k], 1e-11 if exactly else 2e-2, lambda: "component %d after %d steps" % (k, nst))
            if c["zmf"]:
                res.check(np.abs(t["m"][o]/m0 - 1).max() < 1e-12, tag + "mass-carrying-particle-mass", lambda: "max rel change %g" % np.abs(t["m"][o]/m0 - 1).max())
        consistency(d, c, p, res, tag)
        prev = d
    res.count("states", nst)
    res.mx("largest relative change of one particle's conserved quantity", moved)
    res.nontrivial = nst >= (5 if c["sim"] == "mfvmuscl" else 2) and moved > 1e-3
    res.sig = {k: c[k] for k in c if k not in ("seed", "i", "cost")}


def consistency(d, c, p, res, tag):
    nd = c["nd"]
    t = d.part
    n = d.s["n"]
    now = (t["nlast"] == n) & (t["dead"] == 0)       # conserved variables are current for particles that just ended their step
    res.check((t["m"] > 0).all() and (t["rho"] > 0).all() and (t["pressure"] > 0).all() and (t["u"] > 0).all(), tag + "positive", lambda: "min m %g rho %g P %g u %g" % (
        t["m"].min(), t["rho"].min(), t["pressure"].min(), t["u"].min()))
    if not now.any():
        return
    Q = np.stack([t["Q%d" % k] for k in range(nd + 2)], 1)[now]
    W = np.stack([t["W%d" % k] for k in range(nd + 2)], 1)[now]
    m, v, u, rho, P, nden = t["m"][now], t.vec("v", nd)[now], t["u"][now], t["rho"][now], t["pressure"][now], t["ndens"][now]
    res.count("particle_consistency", now.sum())
    vs = np.sqrt((v**2).sum(1)) + np.sqrt(u) + 1e-300
    res.bound(tag + "m=Q", np.abs(m - Q[:, nd]).max()/m.max(), 1e-12)
    res.bound(tag + "v=Q/m", (np.abs(v - Q[:, :nd]/m[:, None])/vs[:, None]).max(), 1e-11)
    res.bound(tag + "u=Q", (np.abs(m*u + .5*m*(v**2).sum(1) - Q[:, nd + 1])/(m*vs**2)).max(), 1e-11)
    res.bound(tag + "rho=m*ndens", np.abs(rho/(m*nden) - 1).max(), 1e-11)
    res.bound(tag + "P=(g-1)rho u", np.abs(P/((p["gamma_eos"] - 1)*rho*u) - 1).max(), 1e-10)
    res.bound(tag + "W=v", (np.abs(W[:, :nd] - v)/vs[:, None]).max(), 1e-11)
    res.bound(tag + "W=rho", np.abs(W[:, nd]/rho - 1).max(), 1e-11)
    res.bound(tag + "W=P", np.abs(W[:, nd + 1]/P - 1).max(), 1e-10)
