"""C02: SPH hydro accelerations, heating, divergence and viscosity switch against the pairwise sum over explicit images."""
import glob
import os
import re
import numpy as np
import vlib
import vgen
import sphref

VARIANTS = ["plain"]
RULE = ("random particle sets (distribution x dimension x walls x kernel x tree x leaf size x viscosity x conductivity x time-step levels); every active "
        "particle at the force hook of every recorded step is compared; non-trivial when >=50 particles and >=500 approaching pairs were recomputed")
ASSUMPTIONS = ["state is recorded by the guarded hook immediately after the force loop", "scipy cKDTree reference search",
               "cd2010 switch values are taken from the state, its forces are checked"]
MIN_NONTRIVIAL = 10


def cases(tier, seed):
    n = 56 if tier == "quick" else 800
    g = vlib.rng_for("C02", seed)
    out = []
    for i in range(n):
        c = {"i": i, "nd": int(g.choice([1, 2, 3], p=[.25, .4, .35]))}
        c["kernel"] = str(g.choice(["m4", "quintic", "gaussian"], p=[.5, .3, .2]))
        c["tab"] = int(g.uniform() < 0.2)
        c["tree"] = str(g.choice(["kdtree", "octtree", "bruteforce"], p=[.5, .35, .15]))
        c["nleaf"] = int(g.choice([1, 2, 6, 12, 24]))
        c["kind"] = str(g.choice(vgen.KINDS))
        c["mass"] = str(g.choice(["equal", "random", "wide"]))
        c["bc"] = str(g.choice(["open", "periodic", "mirror", "mixed"], p=[.35, .25, .15, .25]))
        c["avisc"] = str(g.choice(["none", "mon97", "mm97", "cd2010"], p=[.15, .35, .35, .15]))
        c["acond"] = str(g.choice(["none", "wadsley2008", "price2008"], p=[.4, .3, .3]))
        c["eos"] = str(g.choice(["energy_eqn", "isothermal", "barotropic"], p=[.7, .2, .1]))
        c["levels"] = int(g.choice([1, 5]))
        c["grav"] = int(c["bc"] == "open" and g.uniform() < .5 and c["kernel"] != "gaussian")
        c["vel"] = float(g.choice([0.3, 1.0, 5.0]))
        c["scale"] = float(10**g.uniform(-2, 2)) if g.uniform() < .5 else 1.0
        c["steps"] = int(g.choice([3, 9, 15]))
        if c["nd"] == 3 and c["bc"] in ("periodic", "mixed"):
            if c["tree"] == "bruteforce":
                c["tree"] = "kdtree"
            c["steps"] = min(c["steps"], 9)
        c["build"] = int(g.choice([1, 3, 8]))
        c["dkd"] = int(g.uniform() < .15)
        c["stars"] = int(g.uniform() < .15 and c["bc"] == "open")
        c["seed"] = int(g.randint(1 << 30))
        c["cost"] = c["nd"]**3*(1 + c["steps"])
        out.append(c)
    return out


def build(c, fac=1):
    g = vlib.rng_for(c["seed"])
    nd = c["nd"]
    per = c["bc"] in ("periodic", "mixed")
    N = {1: 120, 2: (1500 if c["kernel"] != "m4" else 800) if per else 500, 3: (5832 if c["kernel"] != "m4" else 3000) if per else 900}[nd]
    N *= fac
    kind, mass = c["kind"], c["mass"]
    if per and kind in ("plummer", "shell", "line", "clustered"):
        kind = "jitter" if g.uniform() < .5 else "uniform"
    if per and mass == "wide" and nd > 1:
        mass = "random"
    if per and nd == 3 and kind == "uniform" and c["kernel"] != "m4":
        kind = "jitter"
    if per and nd == 3:
        mass = "equal" if g.uniform() < .5 else "random"
    L = c["scale"]
    r = vgen.positions(g, nd, N, kind)
    N = len(r)
    if kind == "lattice":
        r = np.clip(r + g.normal(size=r.shape)*1e-3, 1e-6, 1-1e-6)
    m = vgen.masses(g, N, mass)
    lo = g.uniform(-1, 1, nd)*L
    bl, br = vgen.choose_boundaries(g, nd, None if c["bc"] == "mixed" else c["bc"])
    LV = L*vlib.rng_for(c["seed"], "aspect").permutation([1.0, 1.04, 1.08])[:nd]          # never cubic
    r = lo + r*LV
    p = dict(vgen.BASE)
    p.update(ndim=nd, sim="sph", kernel=c["kernel"], tabulated_kernel=c["tab"], neib_search=c["tree"], Nleafmax=c["nleaf"], Nhydro=N,
             h_fac=1.2, h_converge=1e-6, Nlevels=c["levels"], gas_eos=c["eos"], gamma_eos=float(g.choice([1.4, 1.667, 1.1])), self_gravity=c["grav"],
             ntreebuildstep=c["build"], sph_integration="lfdkd" if c["dkd"] else "lfkdk", acond=c["acond"],
             avisc="none" if c["avisc"] == "none" else "mon97",
             time_dependent_avisc=c["avisc"] if c["avisc"] in ("mm97", "cd2010") else "none",
             alpha_visc=float(g.choice([1.0, 0.7, 2.0])), beta_visc=float(g.choice([2.0, 3.0, 0.5])), alpha_visc_min=0.1, temp0=1.0, mu_bar=1.0,
             rho_bary=1.0)
    p.update(vgen.box_params(nd, lo, lo + LV, bl, br))
    v = g.normal(size=(N, nd))*c["vel"]
    u = 1.0 + g.uniform(0, 1, N)
    if c["levels"] > 1:
        u *= 10**(1.5*g.uniform(-1, 1, N))
    lines, arr = vgen.hydro_arrays(nd, r, v, m, u)
    if c["stars"]:
        ns = 2
        p["Nstar"] = ns
        p["nbody"] = "lfkdk"
        rs = lo + L*(0.5 + 0.2*g.normal(size=(ns, nd)))
        l2, a2 = vgen.hydro_arrays(nd, rs, np.zeros((ns, nd)), np.full(ns, .1), None, np.full(ns, .05*L), typ="star")
        lines += l2
        arr.update(a2)
    return vlib.params_script(p) + ["sim", "prepython"] + lines + ["hookdump forces %d 4 f" % max(1, c["steps"]//3), "setup"], arr, p


def wdiff(f, s, kern):
    """largest variation of f over one cell of the kernel table around s"""
    e = kern.range/1000*1.01
    ds = kern.range**2/1000*1.01
    f0 = f(s)
    out = np.zeros_like(s)
    for t in (s - e, s + e, np.sqrt(s*s + ds), np.sqrt(np.maximum(s*s - ds, 0))):
        out = np.maximum(out, np.abs(f(np.maximum(t, 0)) - f0))
    return out


def forces(d, p, kern, sel):
    """reference a, dudt, div_v, dalphadt for the particles sel and error scales"""
    nd = p["ndim"]
    t = d.part
    live = t["dead"] == 0
    r, v, h, m, rho, P, cs, u, om = (t.vec("r", nd), t.vec("v", nd), t["h"], t["m"], t["rho"], t["pressure"], t["sound"], t["u"], t["invomega"])
    al = t["alpha"]
    q = sphref.Pairs(kern, nd, r, v, h, sel, p, live=live, src_ok=t["ptype"] == 0)
    i, j = q.is_, q.js
    n = q.d/np.maximum(q.dist, 1e-300)[:, None]
    si, sj = q.dist/h[i], q.dist/h[j]
    wi, wj = kern.dw(si)*h[i]**(-nd - 1.0), kern.dw(sj)*h[j]**(-nd - 1.0)
    ti = tj = 0.0
    if p["tabulated_kernel"]:
        ti, tj = wdiff(kern.dw, si, kern)*h[i]**(-nd - 1.0), wdiff(kern.dw, sj, kern)*h[j]**(-nd - 1.0)
    if p["kernel"] == "gaussian":       # a neighbour exactly at the truncation radius: rounding decides whether it counts
        wc = abs(float(kern.dw(kern.range*(1 - 1e-12))))
        ti = ti + np.where(np.abs(si - kern.range) < 1e-6, wc, 0)*h[i]**(-nd - 1.0)
        tj = tj + np.where(np.abs(sj - kern.range) < 1e-6, wc, 0)*h[j]**(-nd - 1.0)
    # the code regularises the unit vector with an absolute 1e-20 in the squared distance
    eps = np.minimum(2e-20/np.maximum(q.dist, 1e-300)**2, 2.0)
    ti = ti + eps*np.abs(wi)
    tj = tj + eps*np.abs(wj)
    dvdr = (q.dv*n).sum(1)
    ci, cj = P[i]*om[i]/rho[i]**2, P[j]*om[j]/rho[j]**2
    irho = 1/rho[i] + 1/rho[j]
    app = dvdr < 0
    dud = np.zeros(len(i))
    dud_t = np.zeros(len(i))
    vis = np.zeros(len(i))
    if p["avisc"] == "mon97":
        a = np.full(len(i), p["alpha_visc"]) if p["time_dependent_avisc"] == "none" else 0.5*(al[i] + al[j])
        vs = cs[i] + cs[j] - p["beta_visc"]*a*dvdr
        vis = np.where(app, -a*vs*dvdr*0.25*irho, 0.0)          # times (wi+wj)
        dud = dud + 0.5*m[j]*vis*dvdr*(wi + wj)
        dud_t = dud_t + np.abs(0.5*m[j]*vis*dvdr)*(ti + tj)
    if p["acond"] == "wadsley2008":
        x = np.where(app, m[j]*dvdr*(u[j] - u[i]), 0)
        dud = dud + x*(wi/rho[i] + wj/rho[j])
        dud_t = dud_t + np.abs(x)*(ti/rho[i] + tj/rho[j])
    elif p["acond"] == "price2008":
        x = np.where(app, 0.5*m[j]*(u[i] - u[j])*0.25*irho*np.sqrt(0.5*irho*np.abs(P[i] - P[j])), 0)
        dud = dud + x*(wi + wj)
        dud_t = dud_t + np.abs(x)*(ti + tj)
    f = m[j]*(ci*wi + cj*wj + vis*(wi + wj))
    f_t = m[j]*(np.abs(ci)*ti + np.abs(cj)*tj + np.abs(vis)*(ti + tj))
    A = q.sum(f[:, None]*n)
    As = q.sum(np.abs(f)*1e-9 + 3*f_t)
    dv = -q.sum(m[j]*dvdr*wi)/rho[sel]
    # relative velocities near zero: rounding of v
    vabs = np.sqrt((v**2).sum(1))
    dvs = q.sum(m[j]*(1e-9*np.abs(dvdr*wi) + 1e-12*(vabs[i] + vabs[j])*np.abs(wi) + 3*np.abs(dvdr)*ti))/rho[sel]
    du = q.sum(dud) - P[sel]*dv*om[sel]/rho[sel]
    dus = q.sum(np.abs(dud)*1e-9 + 3*dud_t) + np.abs(P[sel]*om[sel]/rho[sel])*dvs + 1e-10*np.abs(P[sel]*dv*om[sel]/rho[sel])
    ad = 0.1*cs[sel]*(p["alpha_visc_min"] - al[sel])/h[sel] + np.maximum(-dv, 0)*(p["alpha_visc"] - al[sel])
    ads = np.abs(p["alpha_visc"] - al[sel])*dvs + 1e-9*np.abs(0.1*cs[sel]/h[sel]) + 1e-9*np.abs(dv)
    return q, A, As, du, dus, dv, dvs, ad, ads, int(app.sum())


def check_state(d, p, res, tag, kern, sel, grav):
    t = d.part
    nd = p["ndim"]
    hydro = t["ptype"][sel] == 0
    sel = sel[hydro]
    if len(sel) == 0:
        return 0, 0
    q, A, As, du, dus, dv, dvs, ad, ads, napp = forces(d, p, kern, sel)
    a = t.vec("a", nd)[sel]
    at = t.vec("atree", nd)[sel]
    ah = a - at

    def judge(name, err, lim, val, ref):
        lim = lim + 1e-300
        k = int(np.argmax(err/lim))
        res.bound(tag + name, err[k]/lim[k], 1.0, lambda: "particle %d %s %s expected %s (pairs %d)" %
                  (sel[k], name, val[k], ref[k], int((q.i == k).sum())))
    judge("acceleration", np.abs(ah - A).max(1), As + 1e-13*np.abs(at).max(1) + 1e-12*np.abs(a).max(1), ah, A)
    judge("div_v", np.abs(t["div_v"][sel] - dv), dvs, t["div_v"][sel], dv)
    judge("dudt", np.abs(t["dudt"][sel] - du), dus, t["dudt"][sel], du)
    if p["time_dependent_avisc"] == "mm97":
        judge("dalphadt", np.abs(t["dalphadt"][sel] - ad), ads, t["dalphadt"][sel], ad)
    # balance: everything active in an open box
    if len(sel) == int((t["dead"] == 0).sum()) and all(p["boundary_%s[%d]" % (s, k)] in ("open", "periodic") for k in range(nd) for s in ("lhs", "rhs")):
        m = t["m"][sel]
        sc = (m*As).sum()*10 + 1e-12*(m[:, None]*np.abs(a)).sum()
        F = (m[:, None]*ah).sum(0)
        res.bound(tag + "total-force", np.abs(F).max(), sc, "sum m a = %s" % F)
        if p["acond"] != "wadsley2008" or True:
            v = t.vec("v", nd)[sel]
            vsq = np.sqrt((v*v).sum(1)).max()
            W = (m*((v*ah).sum(1) + t["dudt"][sel])).sum()
            res.bound(tag + "total-work", abs(W), sc*vsq + 10*(m*dus).sum(), "sum m(v.a+dudt) = %g" % W)
        if nd > 1 and all(p["boundary_%s[%d]" % (s, k)] == "open" for k in range(nd) for s in ("lhs", "rhs")):
            r = t.vec("r", nd)[sel]
            r = r - r.mean(0)
            for x, y in ((0, 1), (1, 2), (2, 0))[:1 if nd == 2 else 3]:
                T = (m*(r[:, x]*ah[:, y] - r[:, y]*ah[:, x])).sum()
                res.bound(tag + "total-torque", abs(T), sc*np.abs(r).max(), "torque %g" % T)
        res.count("balanced_states")
    res.count("particles", len(sel))
    res.count("pairs", len(q.i))
    res.count("approaching_pairs", napp)
    res.count("image_pairs", int((~q.real[q.j]).sum()))
    return len(sel), napp


def run_case(c, wd, res):
    for fac in (1, 2) if c["nd"] < 3 else (1,):
        script, arr, p = build(c, fac)
        script += ["dump s0.dmp", "steps %d" % c["steps"]]
        r = vlib.run_driver(script, wd, "plain", 200, arr)
        f = r.failure()
        if not f or "Smoothing length too large" not in r.out:
            break
    if f:
        if "Smoothing length too large" in r.out:
            res.inconclusive = "half-box limit"
            return
        res.fail("run:" + f, r.out[-800:])
        return
    kern = sphref.Kernel(p["kernel"], c["nd"])
    n = na = 0
    for fn in sorted(glob.glob(os.path.join(wd, "*.dmp"))):
        d = vlib.Dump(fn)
        t = d.part
        live = t["dead"] == 0
        hook = os.path.basename(fn).startswith("f")
        sel = np.nonzero(live & (t["active"] == 1))[0] if hook else np.nonzero(live)[0]
        x, y = check_state(d, p, res, "step:" if hook else "setup:", kern, sel, c["grav"])
        n += x
        na += y
        res.count("states")
        if hook and len(sel) < live.sum():
            res.count("partially_active_states")
    res.nontrivial = n >= 50 and na >= 500
    res.sig = {k: v for k, v in c.items() if k not in ("seed", "i", "cost")}
