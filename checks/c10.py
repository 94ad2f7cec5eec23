"""C10: the star integrators follow their equations of motion (monitor on the state at every force evaluation and after every step,
plus convergence of real runs towards an independent high-precision integration)."""
import os
import numpy as np
import vlib, vgen, sphref

DRIVERS = ["gdrv"]
RULE = ("cases = N-body runs sampled from VERIF_SEED over integrator (lfkdk, lfdkd, hermite4, hermite4ts, hermite6ts), number of P(EC)^n iterations, softening, kernel, dimension, block levels; "
        "'steps' cases recompute every predicted position, direct-summation force (and derivatives) and corrected state of every star from the state at the beginning of its step; "
        "'order' cases measure the order of convergence towards an independent integration; non-trivial when >=40 completed star steps (steps) or three resolutions above rounding (order) were judged; distinct = case")
ASSUMPTIONS = ["the predictor, corrector and force formulas are those documented in the headers of the integrators", "periodic (Ewald) corrections of star-star forces are not followed by the jerk (a documented limit of the code), so open boundaries are used",
               "float precision powf(dt,3) of the correctors bounds the comparison at 1e-6 of the correction"]
NB = ["lfkdk", "lfdkd", "hermite4", "hermite4ts", "hermite6ts"]
ORDER = {"lfkdk": 2, "lfdkd": 2, "hermite4": 4, "hermite4ts": 4, "hermite6ts": 6}


def cases(tier, seed):
    g = vlib.rng_for("C10", seed)
    q = tier == "quick"
    out = []
    for i in range(60 if q else 500):
        nb = NB[i % 5]
        soft = int(g.choice([0, 1]))
        nd = int(g.choice([2, 3, 1], p=[.3, .6, .1]))
        c = {"job": "steps", "nbody": nb, "npec": int(g.choice([1, 2, 3])) if nb.endswith("ts") or g.uniform() < .15 else 1, "soft": soft, "nd": nd if (soft or nd > 1) else 2,
             "kernel": str(g.choice(["m4", "quintic"])), "tab": int(g.choice([0, 1])), "levels": int(g.choice([1, 1, 3, 5, 8])), "n": int(g.choice([2, 3, 6, 14])), "mult": float(g.choice([.02, .1, .3])),
             "hspread": int(g.choice([0, 1])), "steps": 30 if q else 60, "seed": int(g.randint(1 << 31)), "cost": 2}
        if nb.startswith("lf") and c["npec"] > 1:
            c["npec"] = 1
        if soft and nb.startswith("hermite"):
            c["nd"] = 3         # below three dimensions the softened jerk is a known finding (case 'order' with lowdim)
        if c["nbody"] == "hermite6ts" and c["levels"] > 1 and g.uniform() < .3:
            c["levels"] = 1
        out.append(c)
    for i in range(20 if q else 120):
        nb = NB[i % 5]
        soft = int(g.uniform() < .4) if nb != "hermite6ts" else 0
        out.append({"job": "order", "nbody": nb, "npec": 1 if not nb.endswith("ts") else int(g.choice([1, 2, 3])), "soft": soft, "nd": 3 if g.uniform() < .7 or (soft and nb != "lfkdk" and nb != "lfdkd") else 2, "n": int(g.choice([2, 3, 5])),
                    "ecc": float(g.uniform(0, .45)), "seed": int(g.randint(1 << 31)), "cost": 3})
    out.append({"job": "order", "nbody": "hermite4", "npec": 1, "soft": 1, "nd": 2, "n": 2, "ecc": .3, "known": "softened-jerk-below-3D", "seed": 5, "cost": 3})
    out.append({"job": "order", "nbody": "hermite6ts", "npec": 2, "soft": 1, "nd": 3, "n": 2, "ecc": .3, "known": "softened-snap-missing", "seed": 5, "cost": 3})
    return out


def run_case(c, wd, res):
    return (steps if c["job"] == "steps" else order)(c, wd, res)


def params(c, n, h):
    p = dict(vgen.BASE)
    p.update(ndim=c["nd"], sim="nbody", Nstar=n, nbody=c["nbody"], Npec=c["npec"], nbody_softening=c["soft"], kernel=c.get("kernel", "quintic"), tabulated_kernel=c.get("tab", 0),
             Nlevels=c.get("levels", 1), nbody_mult=c["mult"], self_gravity=1)
    return p


def force(r, v, m, h, soft, kern, a=None):
    """direct sums: acceleration, jerk, snap (given the accelerations), potential"""
    n, nd = r.shape
    dr = r[None] - r[:, None]
    dv = v[None] - v[:, None]
    d2 = (dr**2).sum(2)
    np.fill_diagonal(d2, 1.)
    d = np.sqrt(d2)
    mj = np.broadcast_to(m[None], (n, n)).copy()
    np.fill_diagonal(mj, 0.)
    rv = (dr*dv).sum(2)
    if soft:
        hm = .5*(h[:, None] + h[None])
        s = d/hm
        P = mj*kern.wgrav(s)/hm**2/d
        W = 4*np.pi*mj*kern.w(s)/hm**nd
        Q = (W - 3*P)/d2
        Qd = (4*np.pi*mj*kern.dw(s)/hm**(nd + 1)/d - 5*Q)/d2
        pot = (mj*kern.wpot(s)/hm).sum(1)
    else:
        P = mj/d**3
        Q = -3*mj/d**5
        Qd = 15*mj/d**7
        pot = (mj/d).sum(1)
    acc = (P[..., None]*dr).sum(1)
    jerk = (P[..., None]*dv + (Q*rv)[..., None]*dr).sum(1)
    snap = None
    size = [np.linalg.norm(P[..., None]*dr, axis=2).sum(1), (P*np.linalg.norm(dv, axis=2) + np.abs(Q*rv)*d + (np.abs(W) if soft else 0)*np.linalg.norm(dv, axis=2)).sum(1), None]
    if a is not None:
        da = a[None] - a[:, None]
        b = (dv**2).sum(2) + (dr*da).sum(2)
        snap = (P[..., None]*da + 2*(Q*rv)[..., None]*dv + (Q*b + Qd*rv**2)[..., None]*dr).sum(1)
        dan = np.linalg.norm(da, axis=2)
        size[2] = (P*dan + 2*np.abs(Q*rv)*np.linalg.norm(dv, axis=2) + (np.abs(Q)*((dv**2).sum(2) + d*dan) + np.abs(Qd)*rv**2)*d).sum(1)
    return acc, jerk, snap, pot, size


def stars(c, g):
    nd, n = c["nd"], c["n"]
    while 1:
        r = g.normal(0, 1, (n, nd))
        d = np.sqrt(((r[:, None] - r[None])**2).sum(2)) + np.eye(n)*9
        if d.min() > .25:
            break
        if nd == 1 or n > 8:
            r = np.linspace(-1, 1, n)[:, None]*np.ones(nd)*1.5 + .3*g.normal(0, 1, (n, nd))*(nd > 1)
            break
    m = g.uniform(.2, 1, n)*10**g.uniform(-1, .3, n)
    v = g.normal(0, .5, (n, nd))*np.sqrt(m.sum())
    h = np.full(n, .6 if c["soft"] else .1)
    if c.get("hspread"):
        h = h*g.uniform(.3, 1.3, n)
    return r, v, m, h


def predict(nb, S, dt):
    """predictor of every integrator; S: state at the start of the step, dt per star"""
    dt = dt[:, None]
    if nb == "lfdkd":
        return S["r"] + S["v"]*dt, None
    r = S["r"] + S["v"]*dt + .5*S["a"]*dt**2
    v = S["v"] + S["a"]*dt
    if nb != "lfkdk":
        r = r + S["adot"]*dt**3/6
        v = v + .5*S["adot"]*dt**2
    if nb == "hermite6ts":
        r = r + S["a2dot"]*dt**4/24
        v = v + S["a2dot"]*dt**3/6
    return r, v


def correct(nb, S, dt, a, adot, a2dot):
    dt = dt[:, None]
    r0, v0, a0, j0, s0 = (S[q] for q in ("r", "v", "a", "adot", "a2dot"))
    if nb == "lfkdk":
        return r0 + v0*dt + .5*a0*dt**2, v0 + .5*(a0 + a)*dt
    if nb == "lfdkd":
        v = v0 + a*dt
        return r0 + .5*(v0 + v)*dt, v
    if nb == "hermite4":
        a2 = (-6*(a0 - a) - dt*(4*j0 + 2*adot))/dt**2
        a3 = (12*(a0 - a) + 6*dt*(j0 + adot))/dt**3
        r, v = predict(nb, S, dt[:, 0])
        return r + a2*dt**4/24 + a3*dt**5/120, v + a2*dt**3/6 + a3*dt**4/24
    if nb == "hermite4ts":
        v = v0 + .5*(a0 + a)*dt - (adot - j0)*dt**2/12
        return r0 + .5*(v0 + v)*dt - (a - a0)*dt**2/12, v
    v = v0 + .5*(a0 + a)*dt - .1*(adot - j0)*dt**2 + (a2dot + s0)*dt**3/120
    return r0 + .5*(v0 + v)*dt - .1*(a - a0)*dt**2 + (adot + j0)*dt**3/120, v


def get(d, nd):
    s = d.star
    return {q: s.vec(q, nd) for q in ("r", "v", "a", "adot", "a2dot", "a3dot")}


def steps(c, wd, res):
    g = np.random.RandomState(c["seed"])
    nd, nb = c["nd"], c["nbody"]
    r, v, m, h = stars(c, g)
    n = len(m)
    p = params(c, n, h)
    lines, arr = vgen.hydro_arrays(nd, r, v, m, h=h, typ="star")
    npec = c["npec"] if nb.endswith("ts") else 1
    f = vlib.run_driver(vlib.params_script(p) + ["sim", "prepython"] + lines + ["hookdump nbody 1 %d b" % (c["steps"]*npec + 1), "setup", "dump s000000.dmp", "stepdump %d 1 s" % c["steps"]], wd, arrays=arr, timeout=120)
    fl = f.failure()
    have = sorted(q for q in os.listdir(wd) if q.startswith("s0") and q.endswith(".dmp"))
    if fl and not (len(have) > 5 and vlib.Dump(os.path.join(wd, have[-2])).s["t"] > 1e4):   # stars that escaped to infinity overflow kernel tables
        res.fail("%s:run:%s" % (nb, fl), f.out[-500:])
        return
    kern = sphref.Kernel(c["kernel"], nd)
    key = lambda q: "%s:%s:%s" % (nb, "soft" if c["soft"] else "point", q)
    ftol = 1e-10 if not c["soft"] else (3e-2 if c["tab"] else 1e-9)
    hooks = {}
    for q in sorted(x for x in os.listdir(wd) if x.startswith("b") and x.endswith(".dmp")):
        d = vlib.Dump(os.path.join(wd, q))
        hooks.setdefault(int(d.s["Nsteps"]), []).append(d)
    S = None
    done = 0
    hh = m0 = None
    for k in range(c["steps"] + 1):
        fn = os.path.join(wd, "s%06d.dmp" % k)
        d = vlib.Dump(fn)
        if d.s["t"] > 1e4:
            res.count("runs followed until the stars had escaped")
            break
        x = get(d, nd)
        t, tl = d.s["t"], d.star["tlast"]
        if S is None:
            m0, hh = d.star["m"].copy(), d.star["h"].copy()
            res.check((m0 == m).all() and (d.star["istar"] == np.arange(n)).all(), key("loaded"), "%s" % m0)
            for q, ref in (("r", r), ("v", v)):
                res.check((x[q] == ref).all(), key("loaded"), q)
            judge(res, key("setup"), x, range(n), m0, hh, c, kern, nb, ftol, d.star["gpot"])
            S = {q: x[q].copy() for q in x}
            S["t"] = tl.copy()
            continue
        res.check((d.star["m"] == m0).all() and (d.star["h"] == hh).all(), key("mass-constant"), "%s" % d.star["m"])
        dt = t - S["t"]
        hk = hooks.get(k, [])
        if len(hk) != npec:
            res.fail(key("iterations"), "step %d: %d force evaluations, P(EC)^%d" % (k, len(hk), npec))
            return
        ended = d.star["nlast"] == d.s["n"]
        ended = np.abs(tl - t) <= 1e-14*max(t, 1e-300)
        size = np.abs(S["r"]) + (np.abs(S["v"]) + np.abs(x["v"]))*dt[:, None] + 1e-300
        vs = np.linalg.norm(S["v"], axis=1) + np.linalg.norm(S["a"], axis=1)*dt + 1e-300
        rs = np.linalg.norm(S["r"], axis=1) + vs*dt
        pr, pv = predict(nb, S, dt)
        cur_r, cur_v = pr, pv
        act = None
        tol = 1e-11
        for it, b in enumerate(hk):
            y = get(b, nd)
            act = b.star["active"] == 1
            if nb != "lfdkd":
                res.check((act == ended).all(), key("active-at-step-end"), lambda: "active %s ended %s" % (act, ended))
                res.bound(key("predicted position" if it == 0 else "iterated position"), (np.linalg.norm(y["r"] - cur_r, axis=1)/rs).max(), tol, lambda: "step %d iteration %d" % (k, it))
                res.bound(key("predicted velocity" if it == 0 else "iterated velocity"), (np.linalg.norm(y["v"] - cur_v, axis=1)/vs).max(), tol, lambda: "step %d iteration %d" % (k, it))
            else:
                mid = act | ~ended
                if mid.any():
                    res.bound(key("predicted position"), (np.linalg.norm(y["r"] - pr, axis=1)/rs)[mid].max(), tol)
                    res.bound(key("predicted velocity"), (np.linalg.norm(y["v"] - S["v"] - S["a"]*dt[:, None], axis=1)/vs)[mid].max(), tol)
            judge(res, key("force"), y, np.flatnonzero(act), m0, hh, c, kern, nb, ftol, b.star["gpot"])
            if nb == "lfdkd":
                pv = S["v"] + S["a"]*dt[:, None]
                S["a"][act] = y["a"][act]
            cr, cv = correct(nb, S, np.where(act | ended, dt, 1.), y["a"], y["adot"], y["a2dot"])
            cor = ended
            cur_r = np.where(cor[:, None], cr, pr)
            cur_v = np.where(cor[:, None], cv, pv)
            tol = 2e-7 if nb.startswith("hermite") and nb != "hermite4ts" else 1e-11
        res.bound(key("corrected position"), (np.linalg.norm(x["r"] - cur_r, axis=1)/rs).max(), tol, lambda: "step %d" % k)
        res.bound(key("corrected velocity"), (np.linalg.norm(x["v"] - cur_v, axis=1)/vs).max(), tol, lambda: "step %d" % k)
        if c["levels"] == 1 and nb in ("lfkdk", "lfdkd"):
            P0 = (m0[:, None]*S["v"]).sum(0)
            res.bound(key("momentum"), np.abs((m0[:, None]*x["v"]).sum(0) - P0).max()/(m0*vs).sum(), 1e-12)
        for q in ("r", "v", "a", "adot", "a2dot"):
            if nb == "lfdkd" and q == "a":
                continue
            S[q][ended] = x[q][ended]
        S["t"] = np.where(ended, t, S["t"])
        done += ended.sum()
    res.count("completed star steps", int(done))
    res.count("force evaluations", sum(len(q) for q in hooks.values()))
    res.nontrivial = bool(done >= min(40, c["steps"]/2))
    res.sig = str({k: c[k] for k in c if k != "seed"}) + str(c["seed"] % 97)


def judge(res, key, y, act, m, h, c, kern, nb, ftol, gpot):
    act = np.asarray(act, int)
    if not len(act):
        return
    acc, jerk, snap, pot, size = force(y["r"], y["v"], m, h, c["soft"], kern, y["a"])
    res.bound(key + " acceleration", (np.linalg.norm(y["a"] - acc, axis=1)/size[0])[act].max(), ftol)
    res.bound(key + " potential", (np.abs(gpot - pot)/pot)[act].max(), ftol)
    if nb.startswith("hermite"):
        res.bound(key + " jerk", (np.linalg.norm(y["adot"] - jerk, axis=1)/size[1])[act].max(), max(ftol, 2e-7 if c["soft"] else 0))
    if nb == "hermite6ts" and not c["soft"]:    # with softening the code has no second derivative (known finding)
        res.bound(key + " snap", (np.linalg.norm(y["a2dot"] - snap, axis=1)/size[2])[act].max(), ftol)
    if c["nd"] > 0:
        res.count("forces judged", len(act))


def order(c, wd, res):
    from scipy.integrate import solve_ivp
    g = np.random.RandomState(c["seed"])
    nd, nb, n = c["nd"], c["nbody"], c["n"]
    # smooth, well separated orbits: a binary, a binary with a distant companion, a ring
    rot = np.linalg.qr(g.normal(0, 1, (nd, nd)))[0]
    m = g.uniform(.5, 1.5, n)
    h = np.full(n, .05)
    r = np.zeros((n, nd))
    v = np.zeros((n, nd))
    if n < 5:
        M = m[0] + m[1]
        e = c["ecc"]
        r[1, 0] = 1 + e
        v[1, 1] = np.sqrt(M*(1 - e)/(1 + e))
        T = 2.2*np.pi/np.sqrt(M)
        if n == 3:
            r[2, 0], v[2, 1] = -5., -np.sqrt(m.sum()/5.)
    else:
        ph = 2*np.pi*np.arange(n)/n + g.uniform(-.15, .15, n)
        r[:, 0], r[:, 1] = 1.4*np.cos(ph), 1.4*np.sin(ph)
        w = .8*np.sqrt(m.mean()*1.376/1.4**3*1.)
        v[:, 0], v[:, 1] = -w*r[:, 1], w*r[:, 0]
        T = 1.2
    if nd == 3:
        v[:, 2] = g.uniform(-.05, .05, n)
    if c["soft"]:
        h = np.full(n, 1.6)     # everything well inside the kernel
        v *= .5
    r, v = r.dot(rot), v.dot(rot)
    kern = sphref.Kernel("quintic", nd)

    def rhs(t, y):
        rr, vv = y[:n*nd].reshape(n, nd), y[n*nd:].reshape(n, nd)
        return np.concatenate([vv.ravel(), force(rr, vv, m, h, c["soft"], kern)[0].ravel()])
    p0 = ORDER[nb]
    base = {2: .05, 4: .12, 6: .35}[p0]
    errs, mults, nst = [], [], []
    for k, q in enumerate((1., .5, .25)):
        c = dict(c, mult=base*q)
        p = params(c, n, h)
        lines, arr = vgen.hydro_arrays(nd, r, v, m, h=h, typ="star")
        f = vlib.run_driver(vlib.params_script(p) + ["sim", "prepython"] + lines + ["setup", "until %r 200000" % T, "dump e%d.dmp" % k, "steps 1", "dump f%d.dmp" % k], wd, arrays=arr, timeout=120, name="o%d" % k)
        fl = f.failure()
        if fl:
            res.fail("%s:run:%s" % (nb, fl), f.out[-500:])
            return
        d = vlib.Dump(os.path.join(wd, "e%d.dmp" % k))
        if nb == "lfdkd" and d.s["Nsteps"] % 2:      # in the middle of a drift-kick-drift step
            d = vlib.Dump(os.path.join(wd, "f%d.dmp" % k))
        t = d.s["t"]
        sol = solve_ivp(rhs, (0, t), np.concatenate([r.ravel(), v.ravel()]), method="DOP853", rtol=1e-13, atol=1e-14).y[:, -1]
        e = np.sqrt(((d.star.vec("r", nd).ravel() - sol[:n*nd])**2).mean()) + np.sqrt(((d.star.vec("v", nd).ravel() - sol[n*nd:])**2).mean())
        errs.append(max(e, 1e-16))
        nst.append(d.s["Nsteps"])
    res.count("resolutions", 3)
    o = np.log(errs[0]/errs[2])/np.log(nst[2]/nst[0])
    res.mx("%s order" % nb, o)
    fl = 2e-10      # rounding / reference accuracy
    res.sig = str({k: c[k] for k in c})
    res.nontrivial = errs[0] > 30*fl
    key = "%s:%s:" % (nb, "soft" if c["soft"] else "point")
    if c.get("known"):
        key = c["known"] + ":" + key
    res.note = "errors %s steps %s order %.2f" % (errs, nst, o)
    want = p0 if nb != "hermite6ts" or c["npec"] > 1 else 5
    if os.environ.get("C10_PRINT"):
        print(c["nbody"], c["npec"], "soft" if c["soft"] else "", n, nd, "%.2e %.2e %.2e" % tuple(errs), nst, "order %.2f want %d" % (o, want), flush=True)
    res.bound(key + "error at the coarsest resolution", errs[0], .5)
    if c.get("known") and nst[2] == nst[0]:
        o = 0.
    if errs[2] > fl:
        res.bound(key + "order of convergence shortfall", want - o, .6, res.note)
    else:
        res.bound(key + "error at the finest resolution", errs[2], max(fl, errs[0]*4.**-want*4), res.note)
