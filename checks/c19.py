"""C19: the equations of state obey their defining relations, agree with each other and are what the particles carry during runs (monitor on calls and on hooked state)."""
import os
import numpy as np
import vlib, vgas, vgen

DRIVERS = ["gdrv"]
RULE = ("cases = seeded equations of state x constants x units; 'call' cases judge thousands of (density, energy, position) states against the defining formulas, "
        "'run' cases judge u, pressure and sound speed of every gas particle at every force calculation (SPH) or step end (meshless) of a real run; "
        "non-trivial when >=1000 states were judged and all branches of the equation of state were visited; distinct = case")
ASSUMPTIONS = ["the sound speed of the (locally) isothermal, barotropic and polytropic equations of state is the isothermal one, sqrt(P/rho), which is what the code documents by construction",
               "temperatures of gas heated by ionisation are judged for the neutral and fully ionised states only",
               "the tabulated equation of state (radws) needs an opacity table that is not part of the repository and is judged by C28's synthetic table"]
KB, MH = 1.3806503e-23, 1.66054e-27
EOSES = ["energy_eqn", "constant_temp", "isothermal", "barotropic", "barotropic2", "polytropic", "locally_isothermal", "disc_locally_isothermal"]


def cases(tier, seed):
    g = vlib.rng_for("C19", seed)
    out = []
    q = tier == "quick"
    for i in range(36 if q else 400):
        eos = EOSES[i % len(EOSES)] if i % 9 != 8 else str(g.choice(["energy_eqn", "isothermal", "barotropic"]))
        c = {"job": "call", "eos": eos, "rad": str(g.choice(["ionisation", "monoionisation"])) if i % 9 == 8 else "none", "nd": int(g.choice([1, 2, 3])), "dim": int(g.uniform() < .5),
             "gamma": float(g.choice([5./3, 1.4, 1.1, 2., g.uniform(1.05, 3)])), "eta": float(g.choice([1.4, 1., g.uniform(1., 2.5)])), "mu": float(g.choice([1., 2.35, g.uniform(.5, 4)])),
             "temp0": float(10**g.uniform(-1, 3)), "rhob": float(10**g.uniform(-2, 2)), "K": float(10**g.uniform(-2, 2)), "templaw": float(g.choice([0., .5, .75, 1.5])),
             "tempmin": float(10**g.uniform(-2, 2)), "q": float(g.uniform(0, 1)), "hr": float(g.uniform(.02, .2)), "rin": float(10**g.uniform(-1, 1)),
             "sim": str(g.choice(["sph", "mfvmuscl"])), "ns": int(g.choice([1, 2, 5])), "n": 1500 if q else 6000, "seed": int(g.randint(1 << 31)), "cost": 1}
        c["units"] = [str(g.choice(["pc", "au", "r_sun", "km"])), str(g.choice(["m_sun", "m_earth", "kg"])), str(g.choice(["myr", "yr", "s"]))]
        out.append(c)
    for i in range(18 if q else 160):
        c = vgas.gen(g, sims=("sph", "mfvmuscl"), p_sim=(.65, .35), bcs=("open", "periodic"), grav=0., nds=(1, 2, 3), p_nd=(.3, .5, .2), ics=("noise", "smooth", "collide"))
        c.update({"job": "run", "eos": EOSES[i % len(EOSES)], "temp0": float(g.uniform(.3, 3)), "mu": float(g.choice([1., 2.35])), "rhob": float(10**g.uniform(-.5, .5)), "K": float(g.uniform(.3, 2)),
                  "eta": float(g.choice([1.4, 1.2, 2.])), "templaw": .5, "tempmin": float(g.uniform(.5, 2)), "q": float(g.uniform(.1, .8)), "hr": float(g.uniform(.3, 1)), "rin": float(g.uniform(.2, 1)),
                  "steps": 12 if q else 30, "cost": 4})
        if c["avisc"] == "none":
            c["avisc"] = "mon97"
        out.append(c)
    return out


def params(c):
    return dict(gas_eos=c["eos"], gamma_eos=c["gamma"], eta_eos=c["eta"], mu_bar=c["mu"], temp0=c["temp0"], rho_bary=c["rhob"], Kpoly=c["K"], templaw=c["templaw"], tempmin=c["tempmin"],
                DiscIcQ=c["q"], DiscIcHr=c["hr"], DiscIcRin=c["rin"])


def expected(c, gam, rho, r, stars, t0, tmin, rhob):
    """-> (u, T, cs) prescribed by the equation of state, None where u is free"""
    eos = c["eos"]
    g1 = gam - 1
    if eos in ("energy_eqn", "constant_temp"):
        return None
    if eos == "isothermal":
        T = np.full(len(rho), t0)
    elif eos == "barotropic":
        T = t0*(1 + (rho/rhob)**g1)
    elif eos == "barotropic2":
        T = t0*np.where(rho < rhob, 1., (rho/rhob)**g1)
    elif eos == "polytropic":
        return c["K"]*rho**(c["eta"] - 1)/g1, c["K"]*rho**(c["eta"] - 1), np.sqrt(c["K"]*rho**(c["eta"] - 1))
    elif eos == "locally_isothermal":
        d = np.sqrt(((r[:, None, :] - stars[None, :, :])**2).sum(2)).min(1)
        T = np.maximum(t0*d**-c["templaw"], tmin)
    else:
        d = np.sqrt(((r - stars[0])**2).sum(1))
        cs = c["hr"]*c["rin"]**-.5*(d/c["rin"])**-c["q"]
        T = c["mu"]*cs*cs
    return T/c["mu"]/g1, T, np.sqrt(T/c["mu"])


def run_case(c, wd, res):
    return (call if c["job"] == "call" else run)(c, wd, res)


def rel(a, b):
    a, b = np.asarray(a), np.asarray(b)
    s = np.abs(b) + 1e-300
    return float(np.max(np.abs(a - b)/s)) if len(a) else 0.0


def call(c, wd, res):
    g = np.random.RandomState(c["seed"])
    nd, ns = c["nd"], c["ns"]
    N = {1: 64, 2: 144, 3: 343}[nd]
    r = vgen.positions(g, nd, N, "jitter")
    N = len(r)
    rs = g.uniform(0, 1, (ns, nd))
    p = dict(vgen.BASE)
    p.update(params(c))
    p.update(ndim=nd, sim=c["sim"], zero_mass_flux=1, Nhydro=N, Nstar=ns, radiation=c["rad"], hydro_forces=1, self_gravity=0)
    if c["dim"]:
        # temperatures and densities in physical units spanning the same ratios
        p.update(dimensionless=0, routunit=c["units"][0], moutunit=c["units"][1], toutunit=c["units"][2], rinunit=c["units"][0], minunit=c["units"][1])
        p["rho_bary"] = c["rhob"]*1e-14
    p.update(vgen.box_params(nd, [0]*nd, [1]*nd, ["open"]*nd, ["open"]*nd))
    # probe states
    n = c["n"]
    R = g.uniform(-.5, 1.5, (n, nd))
    V = g.normal(size=(n, nd))*10**g.uniform(-3, 3, (n, 1))
    rho = 10**g.uniform(-8, 8, n)
    rho[:n//3] = 10**g.uniform(-2, 2, len(rho[:n//3]))
    u = 10**g.uniform(-8, 8, n)
    P = 10**g.uniform(-8, 8, n)
    ion = g.choice([0., 1., .3], n)
    ist = (ion > 0).astype(float)
    l1, a1 = vgen.hydro_arrays(nd, r, np.zeros((N, nd)), np.full(N, 1./N), np.ones(N))
    l2, a2 = vgen.hydro_arrays(nd, rs, np.zeros((ns, nd)), np.full(ns, .1), None, np.full(ns, .05), typ="star")
    a1.update(a2)
    a1["q.raw"] = np.hstack([R, V, rho[:, None], u[:, None], P[:, None], ion[:, None], ist[:, None]])
    # 'process' then set-up of the EOS only (stars placed by prepython are what the EOS sees)
    f = vlib.run_driver(vlib.params_script(p) + ["sim", "prepython"] + l1 + l2 + ["units", "setup", "eoscall q.raw o.raw"], wd, arrays=a1, name="e", timeout=120)
    if f.failure():
        if c["rad"] != "none":
            res.fail("crash:" + f.failure(), f.out[-700:])
        return
    o = np.fromfile(os.path.join(wd, "o.raw")).reshape(-1, 8)
    p_, ent, cs, T, su, ufp, ue, scs = o.T
    ev = f.events
    gam = [e["gamma"] for e in ev if e.get("ev") == "eos"][0]
    un = {e["unit"]: e for e in ev if "unit" in e}
    res.check(abs(gam - c["gamma"]) < 1e-12*gam, "gamma", "%r vs %r" % (gam, c["gamma"]))
    ts = un["temp"]["outscale"] if c["dim"] else 1.0
    rsd = un["rho"]["outscale"]*un["rho"]["outcgs"] if c["dim"] else 1.0
    t0, tmin, rhob = c["temp0"]/ts, c["tempmin"]/ts, p["rho_bary"]/rsd
    g1 = gam - 1
    if c["dim"]:
        # physical meaning of the code temperature: u = k T/(mu mH (gamma-1)) in SI
        uSI = (t0/c["mu"]/g1)*un["u"]["outscale"]*un["u"]["outSI"]
        res.bound("temperature unit", abs(uSI/(KB*c["temp0"]/(c["mu"]*MH*g1)) - 1), 2e-2, "u of temp0 in SI")
        rc = un["m"]["outscale"]*un["m"]["outSI"]*1e3/(un["r"]["outscale"]*un["r"]["outSI"]*1e2)**3
        res.bound("density unit", abs(rsd/rc - 1), 1e-9, "code density in g/cm3")
    stars = rs
    # relations every EOS obeys
    if c["eos"] == "polytropic":
        ex = expected(c, gam, rho, R, stars, t0, tmin, rhob)
        res.bound("pressure", rel(p_, c["K"]*rho**c["eta"]), 1e-11, "P = K rho^eta")
        res.bound("pressure = (gamma-1) rho u", rel(p_, g1*rho*su), 1e-11, "")
    else:
        res.bound("pressure", rel(p_, g1*rho*u), 1e-12, "P = (gamma-1) rho u")
    res.bound("u from pressure", rel(ufp, P/rho/g1), 1e-12, "")
    res.bound("entropic function", rel(ent, g1*u*rho**(1 - gam)), 1e-10, "A = P/rho^gamma")
    res.bound("state energy", rel(ue, rho*(u + .5*(V**2).sum(1))), 1e-12, "")
    res.bound("state sound", rel(scs, cs), 0, "")
    neutral = np.ones(n, bool) if c["rad"] == "none" else ion == 0
    ex = expected(c, gam, rho, R, stars, t0, tmin, rhob)
    if ex is None:
        res.bound("u", rel(su[neutral], u[neutral]), 0, "energy equation keeps u")
        res.bound("sound", rel(cs[neutral], np.sqrt(gam*g1*u)[neutral]), 1e-12, "c = sqrt(gamma P/rho)")
        res.bound("temperature", rel(T[neutral], (c["mu"]*g1*u)[neutral]), 1e-12, "T = mu (gamma-1) u")
    else:
        eu, eT, ecs = ex
        res.bound("u", rel(su[neutral], eu[neutral]), 1e-10, "defining relation of " + c["eos"])
        res.bound("temperature", rel(T[neutral], (eT if c["eos"] != "polytropic" else g1*u)[neutral]), 1e-10, "defining relation of " + c["eos"])
        if c["eos"] == "disc_locally_isothermal":
            res.bound("sound", rel(cs, ecs), 1e-10, "")
        else:
            res.bound("sound", rel(cs[neutral], np.sqrt(g1*u)[neutral]), 1e-12, "c = sqrt(P/rho)")
    if c["rad"] == "monoionisation":
        full = ion == 1
        par = (ion > 0) & (ion < 1)
        uion = su[full][0]
        Tion = T[full][0]
        res.bound("ionised u constant", rel(su[full], np.full(full.sum(), uion)), 1e-12, "")
        res.bound("ionised T-u", abs(Tion/(p.get("mu_ion", .678)*g1*uion) - 1), 1e-10, "T = mu_ion (gamma-1) u")
        res.bound("ionised sound", rel(cs[full], np.full(full.sum(), np.sqrt(g1*uion))), 1e-10, "")
        base = u if ex is None else ex[0]
        res.bound("mixture u", rel(su[par], (ion*uion + (1 - ion)*base)[par]), 1e-10, "mass-weighted mixture")
    elif c["rad"] == "ionisation":
        base = u if ex is None else ex[0]
        res.bound("ionised u", rel(su[~neutral], np.maximum(u, base)[~neutral]), 1e-10, "larger of own and neutral energy")
    res.count("states", n)
    branches = {"barotropic2": min((rho < rhob).sum(), (rho >= rhob).sum()), "barotropic": min((rho < rhob).sum(), (rho >= rhob).sum())}.get(c["eos"], 1)
    if c["eos"] == "locally_isothermal":
        fl = ex[1] <= tmin*(1 + 1e-12)
        res.count("temperature floor states", int(fl.sum()))
    if c["eos"] in ("barotropic", "barotropic2"):
        res.count("states above rho_bary", int((rho >= rhob).sum()))
        res.count("states below rho_bary", int((rho < rhob).sum()))
    res.count("eos:" + c["eos"] + ("+" + c["rad"] if c["rad"] != "none" else ""))
    res.nontrivial = bool(n >= 1000 and branches > 0 or c["dim"])
    res.sig = ("%s %s nd%d %s %d" % (c["eos"], c["rad"], nd, c["sim"], c["seed"]))


def run(c, wd, res):
    nd = c["nd"]
    ext = params(c)
    need_star = c["eos"] in ("locally_isothermal", "disc_locally_isothermal")
    if need_star:
        c = dict(c, stars=1 if c["eos"][0] == "d" else 2)
        ext["nbody_softening"] = 1
    mfv = c["sim"] != "sph"
    if need_star:
        ext["zero_mass_flux"] = 1
    script, arr, p = vgas.build(c, extra=ext)
    pt = "endstep" if mfv else "forces"
    hk = ["hookdump %s 1 400 f_" % pt]
    f = vlib.run_driver(script + hk + ["setup", "steps %d" % c["steps"]], wd, arrays=arr, name="r", timeout=250)
    fl = f.failure()
    if fl and not any(t in f.out for t in ("pressure > ", "part.u > ", "press", "Wleft", "Wright", "Smoothing length too large", "half")):
        res.fail("crash:" + fl, f.out[-700:])
        return
    if fl:
        res.count("runs ended at a documented limit")
    gam, g1 = c["gamma"], c["gamma"] - 1
    ndump = nj = nt = 0
    bran = [0, 0]
    for fn in sorted(os.listdir(wd)):
        if not (fn.startswith("f_") and fn.endswith(".dmp")):
            continue
        d = vlib.Dump(os.path.join(wd, fn))
        ndump += 1
        P = d.part
        s = P["ptype"] == 0
        if mfv:
            # primitive state is refreshed for particles that ended their step
            s &= P["nlast"] == d.s["n"]
        else:
            s &= P["active"] != 0
        if not s.any():
            continue
        rho, u, pr, cs = [P[k][s] for k in ("rho", "u", "pressure", "sound")]
        r = P.vec("r", nd)[s]
        stars = d.star.vec("r", nd) if need_star else None
        res.check(bool((u > 0).all() and (rho > 0).all()), "positive", "u or rho not positive")
        res.bound("run pressure", rel(pr, g1*rho*u), 1e-10, "P = (gamma-1) rho u on particles")
        ex = expected(c, gam, rho, r, stars, c["temp0"], c["tempmin"], c["rhob"])
        if ex is None:
            res.bound("run sound", rel(cs, np.sqrt(gam*g1*u)), 1e-10, "")
            if c["eos"] == "constant_temp" and not mfv:
                res.bound("constant temperature", rel(u, arr["sph_u.raw"][P["iorig"][s].astype(int)]), 1e-13, "u never changes with constant_temp")
        else:
            tol = 1e-9
            if need_star and mfv:
                tol = 1e-3
            res.bound("run u", rel(u, ex[0]), tol, c["eos"])
            res.bound("run sound", rel(cs, ex[2]), tol, c["eos"])
            bran[0] += int((rho < c["rhob"]).sum())
            bran[1] += int((rho >= c["rhob"]).sum())
        nj += int(s.sum())
    res.count("particle states", nj)
    res.count("dumps", ndump)
    res.count("run eos:" + c["eos"])
    res.nontrivial = bool(nj >= 1000 and (min(bran) > 0 or not c["eos"].startswith("baro")))
    res.sig = ("run %s %s nd%d %d" % (c["eos"], c["sim"], nd, c["seed"]))
