"""C21: gas-dust drag. Monitors on the state right before and after every drag evaluation (pairwise sums and interpolation recomputed independently,
momentum and energy exchange), and on whole runs (conservation, decay of a uniform drift, particle paths)."""
import os
import numpy as np
import vlib, vgen, sphref

RULE = ("cases = periodic or open boxes of gas and dust (SPH both leapfrogs, meshless) with all drag laws, stopping times from far below to far above the step, dust-to-gas ratios 0.01-10, full two-fluid and test-particle drag; "
        "the drag of every particle is recomputed from the recorded state before it, and the change of state must equal it; drift runs are judged against the analytic decay, momentum and energy totals; "
        "non-trivial when at least two drag evaluations (or eight steps of a drift run) were judged; distinct = case parameters")
ASSUMPTIONS = ["x86-64, one process, one thread per run", "dust is not supported with mirror boundaries, and full two-fluid drag only with global steps (the code refuses both)"]
EPS = .75*np.sqrt(np.pi/8)


def cases(tier, seed):
    g = vlib.rng_for("C21", seed)
    out = []
    for i in range(60 if tier == "quick" else 800):
        c = {"i": i, "sim": str(g.choice(["sph", "mfvmuscl"], p=[.6, .4])), "nd": int(g.choice([1, 2, 3], p=[.35, .45, .2])), "mode": str(g.choice(["sums", "drift"], p=[.6, .4])),
             "drag": str(g.choice(["full_twofluid", "test_particle"], p=[.65, .35])), "tab": int(g.uniform() < .35), "tree": str(g.choice(["kdtree", "octtree"], p=[.7, .3])),
             "eos": str(g.choice(["energy_eqn", "isothermal"], p=[.75, .25])), "seed": int(g.randint(1 << 30)), "bc": str(g.choice(["periodic", "open"], p=[.75, .25])),
             "mscale": float(g.choice([1., 1., 1e-2, 50.])), "eps": float(10**g.uniform(-2, 1)), "tau": float(10**g.uniform(-2.5, 2.5)), "dkd": int(g.uniform() < .25)}
        c["law"] = str(g.choice(["fixed", "density", "epstein"] + (["LP2012"] if c["drag"] != "test_particle" else [])))
        c["kernel"] = str(g.choice(["m4", "quintic", "gaussian"] if c["sim"] == "sph" else ["m4", "quintic"], p=[.6, .25, .15] if c["sim"] == "sph" else [.7, .3]))
        c["levels"] = 1 if c["drag"] != "test_particle" or c["mode"] == "drift" else int(g.choice([1, 3, 5]))
        c["hc"] = float(g.choice([.01, 1e-5]))
        c["nleaf"] = int(g.choice([1, 6, 12]))
        c["ratio"] = int(g.choice([0, 0, 1]))                 # different numbers of dust and gas particles
        c["sink"] = int(c["mode"] == "sums" and c["drag"] == "test_particle" and c["nd"] > 1 and c["kernel"] != "gaussian" and g.uniform() < .4)
        if c["sink"]:
            c["bc"], c["mscale"] = "open", 1.
        if c["mode"] == "drift":
            c["bc"], c["sink"], c["ratio"] = "periodic", 0, 0
            c["nd"] = min(c["nd"], 2)
            c["steps"] = 40
        else:
            c["steps"] = {1: 16, 2: 9, 3: 3}[c["nd"]]
        if c["dkd"] and c["levels"] > 1:
            c["dkd"] = 0
        c["cost"] = c["nd"]**2*(2 if c["kernel"] != "m4" else 1)
        out.append(c)
    return out


def build(c):
    g = vlib.rng_for(c["seed"], "c21")
    nd = c["nd"]
    wide = c["kernel"] != "m4"
    k = {1: 60, 2: 40 if wide else 28, 3: 13 if not wide else 18}[nd]
    if c["bc"] == "open" and nd == 3:
        k = 9
    x = vgen.positions(g, nd, k**nd, "lattice" if c["mode"] == "drift" else "jitter")
    kd = k if not c["ratio"] else max(k - 5, 6)
    y = vgen.positions(g, nd, kd**nd, "lattice" if c["mode"] == "drift" else "jitter")
    x, y = np.asarray(x, float), np.asarray(y, float)
    if c["mode"] == "drift":
        y = (y + g.uniform(0, 1, nd)/k) % 1.
    n, md = len(x), len(y)
    cs = 1.
    gam = 1.4
    v = np.zeros((n, nd))
    w = np.zeros((md, nd))
    if c["mode"] == "drift":
        c_drift = .2
        w[:, 0] = c_drift
    else:
        kk = 2*np.pi*g.randint(1, 3, nd)
        v += .3*np.sin(x*kk + g.uniform(0, 6, nd)) + .1*g.normal(size=v.shape)
        w += .3*np.cos(y*kk + g.uniform(0, 6, nd)) + .1*g.normal(size=w.shape) + g.normal(size=nd)*.3
    M = c["mscale"]
    mg, mdust = np.full(n, M/n), np.full(md, M*c["eps"]/md)
    if c["mode"] == "sums" and c["sim"] == "sph":
        mg = mg*g.uniform(.8, 1.2, n)
    u = np.full(n, 1./(gam*(gam - 1))) if c["mode"] == "drift" else g.uniform(.5, 1.5, n)
    if c["eos"] == "isothermal":
        u = np.full(n, 1./(gam - 1))
    # coefficient from the wanted stopping time in units of a typical step .15*h/cs
    h = 1.2/k
    ts = c["tau"]*.15*h/2
    rt, rg, rd = M*(1 + c["eps"]), M, M*c["eps"]
    if c["drag"] == "test_particle":
        rt = M
    c["K"] = {"fixed": 1/ts, "density": 1/(rt*ts), "epstein": EPS/(rt*ts), "LP2012": rg*rd/((rg + rd)*ts)}[c["law"]]
    p = dict(vgen.BASE)
    p.update(ndim=nd, sim=c["sim"], kernel=c["kernel"], tabulated_kernel=c["tab"], neib_search=c["tree"], Nhydro=n + md, gas_eos=c["eos"], gamma_eos=gam, dust_forces=c["drag"], drag_law=c["law"], drag_coeff=float(c["K"]),
             self_gravity=0, zero_mass_flux=1, hydro_forces=1, Nlevels=c["levels"], Nleafmax=c["nleaf"], sph_integration="lfdkd" if c["dkd"] and c["sim"] == "sph" else "lfkdk")
    if c["eos"] == "isothermal":
        p.update(temp0=1., mu_bar=1.)
    bt = ["periodic" if c["bc"] == "periodic" else "open"]*nd
    if c["bc"] == "periodic":
        p.update(vgen.box_params(nd, np.zeros(nd), np.ones(nd), bt, bt))
    r = np.concatenate([x, y])
    perm = g.permutation(len(r))
    al = lambda a, b: np.concatenate([a, b])[perm]                # noqa
    lines, arr = vgen.hydro_arrays(nd, r[perm], al(v, w), al(mg, mdust), al(u, np.zeros(md)))
    arr["ptype.raw"] = al(np.zeros(n), np.full(md, 3.))
    p["h_converge"] = c["hc"] if not c["tab"] and c["kernel"] != "gaussian" else .01
    if c["sink"]:
        ns = 2
        l2, a2 = vgen.hydro_arrays(nd, np.stack([np.full(nd, .04), g.uniform(.1, .9, nd)]), np.zeros((ns, nd)), np.full(ns, .5), None, np.full(ns, .06), typ="star")
        lines += l2
        arr.update(a2)
        p.update(Nstar=ns, sink_particles=1, create_sinks=0, nbody="lfdkd" if p["sph_integration"] == "lfdkd" else "lfkdk", nbody_softening=1, self_gravity=int(g.randint(2)), rho_sink=1e10)
    return vlib.params_script(p) + ["sim", "prepython"] + lines + ["ptype ptype.raw"], arr, p


def stopping(c, grho, drho, cs):
    K = c["K"]
    if c["law"] == "fixed":
        return np.full(np.shape(grho + drho), 1/K)
    if c["law"] == "density":
        return 1/((grho + drho)*K)
    if c["law"] == "epstein":
        return EPS/((grho + drho)*cs*K)
    return grho*drho/((grho + drho)*K)


def factors(dt, ts):
    """average over dt of exp(-t/ts)/ts, and of the response to a constant relative acceleration that is already included in the prediction"""
    tau = dt/ts
    with np.errstate(all="ignore"):
        xi = np.where(tau > 1e-6, -np.expm1(-tau)/np.where(dt > 0, dt, 1), (1 - .5*tau)/ts)
        lam = np.where(tau > 1e-4, (dt + ts)*xi - 1, tau/2 - tau*tau/3.)
    # lam = (1+tau)*(1-e^-tau)/tau - 1 = tau/2 - tau^2/3 + ...
    return xi, lam


_norm = {}


def dragnorm(kern, nd):
    if kern.name == "gaussian":
        return 2./nd                  # normalised without the truncation
    if (kern.name, nd) not in _norm:
        s = np.linspace(0, kern.range, 200001)
        f = kern.w(s)*s**2*s**(nd - 1)*{1: 2., 2: 2*np.pi, 3: 4*np.pi}[nd]
        _norm[kern.name, nd] = 1/np.trapezoid(f, s) if hasattr(np, "trapezoid") else 1/np.trapz(f, s)
    return _norm[kern.name, nd]


def judge(c, p, A, B, kern, res, tag):
    """A/B: states right before and after the drag evaluation"""
    nd = c["nd"]
    t, s = A.part, B.part
    sph = c["sim"] == "sph"
    if s.n != t.n or not np.array_equal(t["iorig"], s["iorig"]):
        res.fail("particles-moved", tag)
        return False
    live = t["dead"] == 0
    gas, dust = live & (t["ptype"] == 0), live & (t["ptype"] == 3)
    act = live & (t["active"] > 0)
    if not act.any():
        return False
    r, h, m, rho = t.vec("r", nd), t["h"], t["m"], t["rho"]
    wt = (.5 if p["sph_integration"] == "lfkdk" else 1.) if sph else 1.
    dt = wt*t["dt"] + (1 - wt)*t["dt_next"]
    if sph:
        a, a0, vv = t.vec("a", nd), t.vec("a0", nd), t.vec("v", nd)
        acc = s.vec("a", nd) - a
        scale_a = np.abs(a)
    else:
        D = np.stack([t["dQ%d" % k] for k in range(nd)], 1)
        with np.errstate(all="ignore"):
            ah = np.where(t["dt"][:, None] > 0, D/(m*t["dt"])[:, None], 0)
        a = .5*(t.vec("a", nd) + t.vec("a0", nd)*(t["Q%d" % (nd)]/m)[:, None]) + ah
        a0, vv = np.zeros_like(a), t.vec("v0", nd)
        E = np.stack([s["dQ%d" % k] for k in range(nd)], 1)
        with np.errstate(all="ignore"):
            acc = np.where(dt[:, None] > 0, (E - D)/(m*dt)[:, None], 0)
        dq = np.stack([s["dQdt%d" % k] - t["dQdt%d" % k] for k in range(nd)], 1)/m[:, None]
        if not (dt[act] > 0).all():
            return False
        res.bound("rate-and-change-differ", np.abs(dq - acc)[act].max(), 1e-9*max(np.abs(dq).max(), np.abs(E/(m*dt)[:, None])[act].max(), 1e-30), tag)
    tol = 1e-2 if c["tab"] else 1e-8
    if c["kernel"] == "gaussian":
        tol = max(tol, 3e-4)
    lo, hi, bl, br = sphref.box_of(p, nd)
    exp = np.zeros_like(acc)
    size = np.zeros(t.n)
    exE = np.zeros(t.n)
    szE = np.zeros(t.n)
    if c["drag"] == "full_twofluid":
        gi, di = np.nonzero(gas)[0], np.nonzero(dust)[0]
        reach = kern.range*h[gi].max()*1.001
        R, _, src = sphref.expand(r[di], vv[di], nd, lo, hi, bl, br, reach)
        i, j, d = sphref.pairs(r[gi], kern.range*h[gi], R)
        I, J = gi[i], di[src[j]]
        q = np.sqrt((d*d).sum(1))
        e = d/np.where(q > 0, q, 1)[:, None]
        w = dragnorm(kern, nd)*(q/h[I])**2*kern.w(q/h[I])/h[I]**nd
        dtp = dt[I]
        dv = vv[I] - vv[J] - .5*t["dt"][I][:, None]*(a0[I] - a0[J]) if sph else vv[I] - vv[J]
        dvr, dar = (dv*e).sum(1), ((a[I] - a[J])*e).sum(1)
        ts = stopping(c, rho[I], rho[J], t["sound"][I])
        xi, lam = factors(dtp, ts)
        S = ((dvr + dtp*dar)*xi - dar*lam)/(rho[I] + rho[J])
        f = nd*S*w
        mag = nd*w/(rho[I] + rho[J])*((np.abs(dvr) + dtp*np.abs(dar))*xi + np.abs(dar)*lam)
        # acceleration of the gas towards the velocity of the dust and vice versa (d points from gas to dust; S is even in its sign)
        for k in range(nd):
            exp[:, k] += np.bincount(I, -m[J]*f*e[:, k], t.n) + np.bincount(J, m[I]*f*e[:, k], t.n)
        size += np.bincount(I, m[J]*mag, t.n) + np.bincount(J, m[I]*mag, t.n)
        use_e = p["gas_eos"] != "isothermal"
        if use_e:
            vi = (vv - .5*t["dt"][:, None]*a0 if sph else vv) + a*dt[:, None]
            dE = (exp*(vi + .5*exp*dt[:, None])).sum(1)
            dEs = (np.abs(exp)*(np.abs(vi) + .5*np.abs(exp)*dt[:, None])).sum(1) + size*(np.abs(vi).sum(1) + size*dt)
            norm = np.bincount(J, w*m[I]/rho[I], t.n)
            exE[gas] -= dE[gas]
            with np.errstate(all="ignore"):
                gv, gs = m[J]*w/(norm[J]*rho[I])*dE[J], m[J]*w/(norm[J]*rho[I])*dEs[J]
            okp = norm[J] > 1e-6*np.bincount(J, minlength=t.n).max()**0*1e-6
            exE -= np.bincount(I[okp], gv[okp], t.n)
            szE += dEs + np.bincount(I[okp], gs[okp], t.n)
            few = np.bincount(J, minlength=t.n) < 2
        jud = act & (gas | dust)
        # momentum exchange
        tot = (m[:, None]*acc)[live].sum(0)
        ref = (m[:, None]*np.abs(acc))[live].sum() + (m*size).sum()*1e-6 + 1e-300
        if sph:
            ref += (m[:, None]*np.abs(a))[live].sum()
        else:
            ref += (np.abs(E)/dt[:, None])[act].sum()
        res.bound("momentum", np.abs(tot).max()/ref, 1e-11, "%s: gas and dust exchange %s, scale %g" % (tag, tot, ref))
        if sph and use_e:
            got = s["dudt"] - t["dudt"]
            base = np.abs(t["dudt"])
        elif use_e:
            # energy: the part beyond the work on the gas is the heating
            got = (s["dQ%d" % (nd + 1)] - t["dQ%d" % (nd + 1)])/(m*dt) - np.where(gas, dE, 0)
            base = np.abs(t["dQ%d" % (nd + 1)])/(m*dt)
        if use_e:
            # heat of the dust neighbours goes to gas: compare where every contributing dust particle has several neighbours
            err = np.abs(got - exE)[gas & act]
            lim = tol*(szE + 1e-12*base.max() + 1e-13*base)[gas & act]*4 + 1e-11*base[gas & act] + 1e-14*np.max(szE)
            bad = err > lim
            res.check(not bad.any(), "heating", "%s: %d of %d, heating %s" % (tag, bad.sum(), bad.size, list(zip(got[gas & act][bad][:2], exE[gas & act][bad][:2]))))
            hd = (m*got)[gas & act].sum() + (m*dE)[jud].sum()
            okh = (np.bincount(J, minlength=t.n)[dust] > 0).all()
            if okh:
                res.bound("energy-exchange", abs(hd)/((m*szE)[live].sum() + 1e-4*(m*base)[live].sum()*1e-8 + 1e-300), max(tol, 1e-7) if c["tab"] or c["kernel"] == "gaussian" else 1e-8, "%s: %g" % (tag, hd))
    else:
        gi = np.nonzero(gas)[0]
        sel = np.nonzero(dust & act)[0]
        res.bound("gas-affected", np.abs(acc[gas]).max(), 0, tag)
        for col in ("u", "dudt", "h", "rho", "m", "sound", "pressure"):
            res.check(np.array_equal(t[col][gas], s[col][gas]), "gas-affected", "%s: %s" % (tag, col))
        ina = dust & ~act
        if ina.any():
            res.bound("inactive-affected", np.abs(acc[ina]).max(), 0, tag)
        if not len(sel):
            return False
        hd = s["h_dust"]
        if not (hd[sel] > 0).all():
            res.fail("dust-smoothing-length", tag)
            return False
        reach = kern.range*hd[sel].max()*1.001
        R, _, src = sphref.expand(r[gi], vv[gi], nd, lo, hi, bl, br, reach)
        i, j, d = sphref.pairs(r[sel], kern.range*hd[sel], R)
        I, J = sel[i], gi[src[j]]
        q = np.sqrt((d*d).sum(1) + 1e-20)
        w = kern.w(q/hd[I])/hd[I]**nd
        nn = np.bincount(I, w, t.n)
        grho = np.bincount(I, w*m[J], t.n)
        with np.errstate(all="ignore"):
            hw = 1.2*nn**(-1./nd)
        err = np.abs(hd - hw)[sel]
        res.bound("dust-smoothing-length", (err/(p.get("h_converge", .01) + tol*10*hw[sel] + 1e-9)).max(), 1., tag)
        gs = np.bincount(I, w*m[J]*t["sound"][J], t.n)/np.where(grho > 0, grho, 1)
        dv, da = np.zeros_like(acc), np.zeros_like(acc)
        for k in range(nd):
            x = vv[I, k] - vv[J, k] - .5*t["dt"][I]*(a0[I, k] - a0[J, k])
            dv[:, k] = np.bincount(I, w*m[J]*x, t.n)/np.where(grho > 0, grho, 1)
            da[:, k] = np.bincount(I, w*m[J]*(a[I, k] - a[J, k]), t.n)/np.where(grho > 0, grho, 1)
        ts = np.ones(t.n)
        ts[sel] = stopping(c, grho[sel], 0*grho[sel], gs[sel])
        xi, lam = factors(dt, ts)
        exp[sel] = (-(dv + da*dt[:, None])*xi[:, None] + da*lam[:, None])[sel]
        av = np.zeros(t.n)
        for k in range(nd):
            av += np.bincount(I, w*m[J]*(np.abs(vv[I, k] - vv[J, k]) + (dt + t["dt"])[I]*(np.abs(a[I, k] - a[J, k]) + np.abs(a0[I, k] - a0[J, k]))), t.n)/np.where(grho > 0, grho, 1)
        size = np.zeros(t.n)
        size[sel] = (av*xi)[sel] + (np.abs(da).sum(1)*np.abs(lam))[sel]
        jud = dust & act
        # what the step criterion of the dust will use
        res.bound("dust-sound", (np.abs(s["sound"]*hd/h - gs)/np.where(gs > 0, gs, 1))[sel].max(), max(tol, 1e-8)*3, tag)
    base = np.abs(a).max(1) if sph else np.abs(E/(m*np.where(dt > 0, dt, 1))[:, None]).max(1)
    err = np.abs(acc - exp).max(1)
    lim = tol*4*size + 1e-11*base + 1e-13*size.max()
    bad = jud & (err > lim)
    if bad.any():
        b = np.nonzero(bad)[0][0]
        res.fail("drag:" + c["drag"] + (":gas" if gas[b] else ":dust"), "%s: %d of %d particles, e.g. %d: drag %s, expected %s, scale %g (dt/ts about %g)" % (
            tag, bad.sum(), jud.sum(), b, list(acc[b]), list(exp[b]), size[b], (dt[act]/ts.min()).max()))
    res.mx("drag-error", (err/np.where(lim > 0, lim, 1))[jud].max())
    res.count("drag", int(jud.sum()))
    res.count("with-dead", int((t["dead"] > 0).any()))
    # paths: meshless particles are moved with the new velocity
    return True


def run_case(c, wd, res):
    lines, arr, p = build(c)
    nd = c["nd"]
    sim = c["sim"]
    kern = sphref.Kernel(c["kernel"], nd)
    if c["mode"] == "sums":
        ev = 1 if c["sink"] else 2
        s = lines + ["hookdump predrag %d 6 a" % ev, "hookdump postdrag %d 6 b" % ev, "setup", "steps %d" % c["steps"]]
    else:
        s = lines + ["setup", "dump s0.dmp", "stepdump %d 1 d" % c["steps"]]
    run = vlib.run_driver(s, wd, arrays=arr, timeout=300)
    if not run.ok:
        fl = run.failure()
        if any(q in fl for q in ("pressure > ", "part.u > ", "press", "Wleft", "Wright", "half", "isnormal", "Smoothing length too large")):
            res.count("limit")
            return
        res.fail("crash", fl)
        return
    res.sig = repr(sorted((k, v) for k, v in c.items() if k not in ("i", "cost")))
    if c["mode"] == "sums":
        n = 0
        for q in sorted(os.listdir(wd)):
            if q.startswith("a") and q.endswith(".dmp") and os.path.exists(os.path.join(wd, "b" + q[1:])):
                A, B = vlib.Dump(os.path.join(wd, q)), vlib.Dump(os.path.join(wd, "b" + q[1:]))
                n += bool(judge(c, p, A, B, kern, res, q))
                os.remove(os.path.join(wd, q))
        res.nontrivial = n >= 2 or c["nd"] == 3 and n >= 1
        return
    drift(c, p, wd, res)


def drift(c, p, wd, res):
    nd = c["nd"]
    fs = [os.path.join(wd, "s0.dmp")] + [os.path.join(wd, q) for q in sorted((q for q in os.listdir(wd) if q.startswith("d") and q.endswith(".dmp")), key=lambda q: int("".join(x for x in q if x.isdigit())))]
    ds = [vlib.Dump(q) for q in fs]
    sph = c["sim"] == "sph"
    full = c["drag"] == "full_twofluid"
    t0 = ds[0].part
    gas0, dust0 = t0["ptype"] == 0, t0["ptype"] == 3
    # total momentum, energy and drift over the run
    hist = []
    for D in ds:
        if D.s["n"] != 0 and D.s["n"] != D.s["nresync"]:
            continue
        t = D.part
        g_, d_ = t["ptype"] == 0, t["ptype"] == 3
        m, v, u = t["m"], t.vec("v", nd), t["u"]
        P = (m[:, None]*v).sum(0)
        E = (.5*m*(v*v).sum(1)).sum() + (m*u)[g_].sum()
        K = (.5*m*(v*v).sum(1))
        dv = (m[:, None]*v)[d_].sum(0)/m[d_].sum() - (m[:, None]*v)[g_].sum(0)/m[g_].sum()
        hist.append((D.s["t"], P, E, dv[0], K[d_].sum() + K[g_].sum(), (m[:, None]*v)[g_].sum(0), (m*u)[g_].sum()))
    tt = np.array([x[0] for x in hist])
    dv = np.array([x[3] for x in hist])
    if len(tt) < 5:
        return
    w0 = .2
    M = t0["m"].sum()
    md = t0["m"][dust0].sum()
    if full:
        dP = max(np.abs(x[1] - hist[0][1]).max() for x in hist)
        res.bound("total-momentum", dP/(md*w0), 1e-9, "steps %d" % len(tt))
        if p["gas_eos"] == "energy_eqn":
            E0 = .5*md*w0**2*(M - md)/M               # energy of the drift
            dE = np.array([x[2] for x in hist]) - hist[0][2]
            res.mx("energy-drift", np.abs(dE).max()/E0)
            res.obs["E"] = float(np.abs(dE).max()/E0)
            c["_E"] = np.abs(dE).max()/E0
            res.bound("total-energy", np.abs(dE).max()/E0, .1, "drift %g, law %s" % (c["tau"], c["law"]))
    elif True:
        # the gas of a uniform box at rest stays at rest
        g0 = max(np.abs(x[5]).max() for x in hist)
        res.bound("gas-moved", g0/((M - md)*w0), 1e-9, "")
    # analytic decay with the stopping time of the uniform state
    rg, rd, cs = M - md, md, np.mean(t0["sound"][gas0])
    ts = float(np.ravel(stopping(c, np.array([rg]), np.array([rd if full else 0.]), cs))[0])
    ex = w0*np.exp(-(tt - tt[0])/ts)
    err = np.abs(dv - ex)/w0
    res.mx("decay-error", err.max())
    c["_d"] = err.max()
    res.bound("drift-decay", err.max(), .15, "stopping time %g, steps of %g: %s instead of %s" % (ts, tt[1] - tt[0], dv[np.argmax(err)]/w0, ex[np.argmax(err)]/w0))
    res.bound("drift-reversed", (-dv/w0).max(), .1, "")
    if not sph:
        for A, B in zip(ds[:-1], ds[1:]):
            a, b = A.part, B.part
            if a.n != b.n:
                continue
            ia, ib = np.argsort(a["iorig"]), np.argsort(b["iorig"])
            d = b.vec("r", nd)[ib] - a.vec("r", nd)[ia]
            d -= np.rint(d)
            x = .5*(a.vec("v", nd)[ia] + b.vec("v", nd)[ib])*(B.s["t"] - A.s["t"])
            res.bound("path", np.abs(d - x).max()/((B.s["t"] - A.s["t"])*w0), 1e-7, "t=%g" % B.s["t"])
            res.count("paths", a.n)
    res.count("drifts")
    res.nontrivial = len(tt) >= 8
