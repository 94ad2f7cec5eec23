"""C28: external potentials (pairs of runs with and without the field, exact paths and reference orbits of test bodies, energy record)."""
import os
import numpy as np
from scipy.integrate import solve_ivp
import vlib, vgen

DRIVERS = ["gdrv"]
RULE = ("cases = 'pair': the same gas and stars set up with and without a vertical or Plummer field (all integrators, 1-3 dimensions, gas with pressure and self-gravity): differences of acceleration, jerk and potential against the "
        "analytic field, everything else equal; 'path': test bodies (stars, cold gas) compared with the exact parabola or a high-precision orbit; 'cloud': the centre of mass of an interacting cloud in a "
        "uniform field; 'energy': total energy of the record along these runs; 'units': the same field in physical units; non-trivial when >=4 bodies were compared; distinct = case")
ASSUMPTIONS = ["the recorded potential energy is -0.5 sum m*gpot, so an external field enters gpot twice"]
NB = ["lfkdk", "lfdkd", "hermite4", "hermite4ts", "hermite6ts"]


def cases(tier, seed):
    g = vlib.rng_for("C28", seed)
    q = tier == "quick"
    out = []

    def base(job, i):
        return {"job": job, "pot": ["vertical", "plummer"][i % 2], "nd": int(g.choice([1, 2, 3], p=[.2, .4, .4])), "seed": int(g.randint(1 << 30)), "kg": int(g.randint(3)),
                "a": float(g.normal()), "M": float(10**g.uniform(-1, 1)), "R": float(g.uniform(.3, 2.)), "cost": 1}
    for i in range(30 if q else 300):
        c = base("pair", i)
        c.update(sim=["sph", "nbody", "sph", "mfvmuscl"][(i//2) % 4], nb=NB[i % 5], levels=int(g.choice([1, 4])), stars=int(g.choice([0, 3])), grav=int(g.randint(2)))
        c.update(sub=["none", "units"][int(g.uniform() < .3)])
        out.append(c)
    for i in range(40 if q else 400):
        c = base("path", i)
        # massless test stars have no time step of their own in the Hermite schemes without a jerk
        c.update(sim=["nbody", "sph", "nbody"][(i//2) % 3], nb=["lfkdk", "lfdkd", "hermite6ts"][(i//2) % 3] if c["pot"] == "vertical" else "lfkdk", levels=1)
        out.append(c)
    for i in range(16 if q else 100):
        c = base("cloud", 0)
        c.update(sim="sph", nb="lfkdk", levels=1, grav=int(g.randint(2)), dkd=0)
        out.append(c)
    return out


def field(c, nd, r):
    """acceleration and potential (twice minus phi)"""
    if c["pot"] == "vertical":
        a = np.zeros_like(r)
        a[:, c["kg"] % nd] = c["a"]
        return a, 2*c["a"]*(r[:, c["kg"] % nd] - c["lo"])
    s = (r*r).sum(1) + c["R"]**2
    return -c["M"]*r*s[:, None]**-1.5, 2*c["M"]*s**-.5


def jerk(c, nd, r, v):
    if c["pot"] == "vertical":
        return 0*r
    s = ((r*r).sum(1) + c["R"]**2)[:, None]
    return -c["M"]*v*s**-1.5 + 3*c["M"]*(r*v).sum(1)[:, None]*r*s**-2.5


def params(c, nd, **kw):
    p = dict(vgen.BASE)
    p.update(ndim=nd, sim=c["sim"], nbody=c["nb"], Nlevels=c["levels"], gas_eos="energy_eqn", zero_mass_flux=1, nbody_mult=.05)
    p.update(external_potential=c["pot"], kgrav=c["kg"] % nd, avert=c["a"], mplummer_extpot=c["M"], rplummer_extpot=c["R"])
    p.update(vgen.box_params(nd, np.full(nd, c["lo"]), np.full(nd, 60.), ["open"]*nd, ["open"]*nd))
    p.update(kw)
    return p


def run_case(c, wd, res):
    c = dict(c)
    g = np.random.RandomState(c["seed"])
    c["lo"] = float(-50 + g.uniform(-1, 1))
    globals()[c["job"]](c, wd, res, g)
    res.sig = {k: c[k] for k in c if k != "cost"}


def pair(c, wd, res, g):
    nd = c["nd"]
    soft = c["nb"] == "lfkdk" or c["sim"] != "nbody"
    if c["sim"] != "nbody":
        c["nb"] = "lfkdk"
        nd = max(nd, 2)
    n = 0 if c["sim"] == "nbody" else {2: 300, 3: 512}[nd]
    ns = 5 if c["sim"] == "nbody" else (c["stars"] or (3 if c["sim"] == "mfvmuscl" else 0))
    lines, arr = [], {}
    if n:
        r = vgen.positions(g, nd, n, "jitter")*2 - 1
        n = len(r)
        lines, arr = vgen.hydro_arrays(nd, r, .3*g.normal(size=r.shape), np.full(n, 1./n), 1 + g.uniform(0, 1, n))
    if ns:
        l2, a2 = vgen.hydro_arrays(nd, g.normal(size=(ns, nd)), g.normal(size=(ns, nd)), g.uniform(.1, 1, ns), None, np.full(ns, .05), typ="star")
        lines = lines + l2
        arr.update(a2)
    p = params(c, nd, Nhydro=n, Nstar=ns, self_gravity=c["grav"] if c["sim"] != "mfvmuscl" else 1, nbody_softening=int(soft))
    un = {}
    if c["sub"] == "units":
        p["dimensionless"] = 0
        p.update(routunit="pc", moutunit="m_sun", aoutunit=str(g.choice(["km_s2", "m_s2", "cm_s2"])))
    D = {}
    for t in (c["pot"], "none"):
        f = vlib.run_driver(vlib.params_script(dict(p, external_potential=t)) + ["sim", "prepython"] + lines + ["setup", "dump %s.dmp" % t], wd, arrays=arr, name=t)
        if f.failure():
            res.fail("pair:run:" + f.failure(), f.out[-500:])
            return
        D[t] = vlib.Dump(os.path.join(wd, t + ".dmp"))
    A, B = D[c["pot"]], D["none"]
    if c["sub"] == "units":
        # values of parameters are in output units
        s = A.s
        c["a"] /= s["aout"]
        c["M"] /= s["mout"]
        c["R"] /= s["rout"]
        c["lo"] /= s["rout"]
    cnt = 0
    for w in ("part", "star"):
        if not A.t.get(w) or not A.t[w].n:
            continue
        X, Y = A.t[w], B.t[w]
        tag = "%s:%s:%s:" % (c["sim"], w, c["pot"])
        r = X.vec("r", nd)
        res.check(np.array_equal(r, Y.vec("r", nd)), tag + "positions", "")
        a, pot = field(c, nd, r)
        if w == "part" and c["sim"] == "mfvmuscl":
            e = np.abs(X.vec("a", nd) - Y.vec("a", nd) - a).max()/np.abs(a).max()
            res.check(e < 1e-9, "mfv-gas-ignores-field", lambda: "acceleration of the gas off by %g of the field" % e)
            continue
        sa = np.abs(a).max() + np.abs(Y.vec("a", nd)).max()
        res.bound(tag + "acceleration", np.abs(X.vec("a", nd) - Y.vec("a", nd) - a).max()/sa, 1e-12)
        sp = np.abs(pot).max() + np.abs(Y["gpot"]).max()
        res.bound(tag + "potential", np.abs(X["gpot"] - Y["gpot"] - pot).max()/sp, 1e-12)
        if w == "star":
            j = jerk(c, nd, r, X.vec("v", nd))
            if c["nb"].startswith("hermite"):
                res.bound(tag + "jerk", np.abs(X.vec("adot", nd) - Y.vec("adot", nd) - j).max()/(np.abs(j).max() + np.abs(Y.vec("adot", nd)).max() + 1e-30), 1e-12)
        else:
            for k in [q for q in ("h", "rho", "u", "dudt", "div_v") if q in X.ix]:
                res.check(np.array_equal(X[k], Y[k]), tag + "other-" + k, "")
        res.count("bodies", X.n)
        cnt += X.n
    res.nontrivial = cnt >= 3


def path(c, wd, res, g):
    nd = c["nd"]
    star = c["sim"] == "nbody"
    if not star:
        c["nb"] = "lfkdk"
        nd = 2
    n = 6 if star else 64
    r = g.uniform(.5, 2, (n, nd))*g.choice([-1, 1], (n, nd))
    v = .5*g.normal(size=(n, nd))
    T = 1.0
    # (no hermite in a field without jerk: its criterion divides by higher derivatives)
    if c["pot"] == "vertical" and c["nb"] in ("hermite4", "hermite4ts"):
        c["nb"] = "lfkdk"
    e = []
    for k, fac in enumerate((1., .5) if c["pot"] == "plummer" else (1.,)):
        if star:
            lines, arr = vgen.hydro_arrays(nd, r, v, np.full(n, 1e-16), None, np.full(n, .1), typ="star")
            p = params(c, nd, Nstar=n, nbody_softening=int(c["nb"] != "hermite6ts" and nd < 3 or c["nb"] == "lfkdk"), nbody_mult=.05*fac)
        else:
            if c["pot"] == "plummer":
                v = 0*r
            lines, arr = vgen.hydro_arrays(nd, r, v, np.full(n, 1e-16), np.full(n, 1e-24))
            p = params(c, nd, Nhydro=n, hydro_forces=1, avisc="none", accel_mult=.05*fac, courant_mult=.1*fac, energy_mult=1e30)
        f = vlib.run_driver(vlib.params_script(p) + ["sim", "prepython"] + lines + ["setup", "dump a.dmp diag", "until %r 100000" % T, "dump b%d.dmp diag" % k], wd, arrays=arr, name="p%d" % k)
        if f.failure():
            fl = f.failure()
            if any(q in fl for q in ("press", "part.u", "Smoothing", "sound", "amag")):
                res.count("cold_gas_limits")
                return
            res.fail("path:run:" + fl, f.out[-500:])
            return
        A, B = vlib.Dump(os.path.join(wd, "a.dmp")), vlib.Dump(os.path.join(wd, "b%d.dmp" % k))
        X, Y = (A.star, B.star) if star else (A.part, B.part)
        o = np.argsort(Y["iorig"]) if not star else np.arange(n)
        t = B.s["t"]
        if not 0 < t < 3*T:
            res.count("paths_beyond_the_time")
            return
        r0, v0 = X.vec("r", nd), X.vec("v", nd)
        if not star:
            r0 = r0[np.argsort(X["iorig"])]
            v0 = v0[np.argsort(X["iorig"])]
        r1, v1 = Y.vec("r", nd)[o], Y.vec("v", nd)[o]
        tag = "%s:%s:%s:path-" % (c["sim"], c["nb"], c["pot"])
        if c["pot"] == "vertical":
            a, _ = field(c, nd, r0)
            ex, ev = r0 + v0*t + .5*a*t*t, v0 + a*t
            sc = np.abs(ex).max() + 1
            # first step of the drift-kick-drift scheme starts from a zero-length step
            lim = 1e-10 if c["nb"] != "lfdkd" else 1e-4
            if not star:
                lim = 1e-6
            res.bound(tag + "position", np.abs(r1 - ex).max()/sc, lim)
            res.bound(tag + "velocity", np.abs(v1 - ev).max()/sc, lim)
        else:
            err = 0.
            for i in range(n if star else 8):
                y = solve_ivp(lambda s, y: np.concatenate([y[nd:], field(c, nd, y[None, :nd])[0][0]]), (0, t), np.concatenate([r0[i], v0[i]]), rtol=1e-10, atol=1e-12).y[:, -1]
                err = max(err, np.abs(y[:nd] - r1[i]).max(), np.abs(y[nd:] - v1[i]).max())
            e.append((err, B.s["Nsteps"]))
        m = X["m"]
        ke = lambda q: .5*(m*(q.vec("v", nd)**2).sum(1)).sum()                     # noqa
        pe = lambda q: -.5*(m*q["gpot"]).sum()                                       # noqa
        if c["levels"] == 1 and (star or c["pot"] == "vertical"):
            E0, E1 = ke(X) + pe(X), ke(Y) + pe(Y)
            sc = ke(X) + ke(Y) + np.abs(pe(Y) - pe(X)) + 1e-3*abs(pe(X))
            res.bound(tag + "energy", abs(E1 - E0)/sc, 2e-3 if c["pot"] == "plummer" or c["nb"] == "lfdkd" else 1e-6)
            if star and not c["nb"].startswith("hermite"):
                for d, S in ((A, X), (B, Y)):
                    tot = ke(S) + pe(S)
                    if "diag_Etot" in d.s:
                        res.bound(tag + "record", abs(d.s["diag_Etot"] - tot)/(abs(tot) + ke(S) + abs(pe(S))), 1e-9)
    if e:
        res.mx("path-error", e[0][0])
        res.bound(tag + "orbit", e[0][0]/(1 + np.sqrt(c["M"]/c["R"])), .02)
        if e[0][0] > 1e-9:
            res.bound(tag + "orbit-converges", e[1][0]/e[0][0], .6)
    res.count("bodies", n)
    res.nontrivial = True


def cloud(c, wd, res, g):
    nd = max(2, c["nd"])
    r = vgen.positions(g, nd, {2: 200, 3: 400}[nd], "jitter")*2 - 1
    n = len(r)
    m = g.uniform(.5, 1.5, n)/n
    v = .2*g.normal(size=(n, nd))
    c["a"] = 5*c["a"]
    lines, arr = vgen.hydro_arrays(nd, r, v, m, 1 + g.uniform(0, 1, n))
    p = params(c, nd, Nhydro=n, self_gravity=c["grav"], hydro_forces=1, neib_search="kdtree", thetamaxsqd=1e-14, gravity_mac="geometric")
    f = vlib.run_driver(vlib.params_script(p) + ["sim", "prepython"] + lines + ["setup", "dump a.dmp", "steps 25", "dump b.dmp"], wd, arrays=arr)
    if f.failure():
        res.fail("cloud:run:" + f.failure(), f.out[-500:])
        return
    A, B = vlib.Dump(os.path.join(wd, "a.dmp")), vlib.Dump(os.path.join(wd, "b.dmp"))
    t = B.s["t"]
    cm = lambda d, q: (d.part["m"][:, None]*d.part.vec(q, nd)).sum(0)/d.part["m"].sum()        # noqa
    a = np.zeros(nd)
    a[c["kg"] % nd] = c["a"]
    sc = np.abs(a).max()*t + 1
    tol = 1e-9 if not c["grav"] else 1e-7
    res.bound("cloud:velocity", np.abs(cm(B, "v") - cm(A, "v") - a*t).max()/sc, tol)
    res.bound("cloud:position", np.abs(cm(B, "r") - cm(A, "r") - cm(A, "v")*t - .5*a*t*t).max()/(sc*t), tol)
    res.count("bodies", n)
    res.nontrivial = t > 0
