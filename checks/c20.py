"""C20: periodic gravity equals the lattice sum (monitor on the correction function and on the accelerations of periodic runs)."""
import os
import numpy as np
import vlib, vgen, ewref, sphref

DRIVERS = ["gdrv"]
RULE = ("cases = seeded boxes (cubic and elongated), every combination of periodic axes; 'table' cases judge the periodic correction at hundreds of separations against an independent lattice sum, "
        "with a tolerance of the trilinear interpolation error of the configured grid; 'run' cases judge every gas particle's acceleration and potential at a force calculation, its sum and its translation invariance; "
        "non-trivial when >=100 separations (table) or >=60 particle accelerations with non-zero periodic part (run) were judged; distinct = case")
ASSUMPTIONS = ["potentials are compared up to one constant per configuration", "box axis ratios between 0.4 and 2.5", "with two periodic axes the mean field of the slab is accepted beyond twice the shorter period (documented far-field approximation)", "multipole cells are judged with the opening angle driven to zero (exact) and loosely otherwise"]


def cases(tier, seed):
    g = vlib.rng_for("C20", seed)
    out = []
    q = tier == "quick"
    pers = [(1, 1, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
    for i in range(21 if q else 140):
        per = pers[i % 7]
        cub = i < 7 if q else g.uniform() < .25
        L = [1., 1., 1.] if cub else [float(x) for x in g.uniform(.5, 1.25, 3)]
        if not cub and g.uniform() < .3:
            L = [float(l*3) for l in L]
        np1 = sum(per) == 1
        out.append({"job": "table", "per": per, "L": L, "ng": 6 if np1 else int(g.choice([8, 12] if q else [8, 12, 16])), "in": 60 if np1 else 100, "mult": float(g.choice([1., .9, 1.15])),
                    "n": 250 if q else 600, "seed": int(g.randint(1 << 31)), "cost": 4 if np1 else 2})
    for i in range(12 if q else 90):
        per = pers[i % 3] if i % 2 else (1, 1, 1)
        if not q and i % 7 == 6:
            per = pers[3]
        out.append({"job": "run", "per": per, "L": [float(x) for x in (g.uniform(.8, 1.2, 3) if i % 3 else (1, 1, 1))], "sim": str(g.choice(["sph", "mfvmuscl"])), "tree": str(g.choice(["kdtree", "octtree", "bruteforce"])),
                    "mpole": str(g.choice(["monopole", "quadrupole", "fast_monopole", "fast_quadrupole"])), "theta": float(g.choice([1e-12, .1])), "nleaf": int(g.choice([1, 6])),
                    "hydro": int(g.choice([0, 1])), "shift": int(i % 2), "mass": str(g.choice(["equal", "random"])), "seed": int(g.randint(1 << 31)), "cost": 6})
    return out


def run_case(c, wd, res):
    return (table if c["job"] == "table" else run)(c, wd, res)


def bnd(per):
    return ["periodic" if p else "open" for p in per]


def table(c, wd, res):
    g = np.random.RandomState(c["seed"])
    L, per = np.array(c["L"]), c["per"]
    n = c["n"]
    lo = g.uniform(-1, 1, 3)
    p = dict(vgen.BASE)
    p.update(ndim=3, sim="sph", Nhydro=10, self_gravity=1, nEwaldGrid=c["ng"], ewald_mult=c["mult"])
    p["in"] = c["in"]
    p.update(vgen.box_params(3, lo, lo + L, bnd(per), bnd(per)))
    d = g.uniform(-.5, .5, (n, 3))*L
    k = n//5
    d[:k] *= 10**g.uniform(-4, 0, (k, 1))          # near the origin
    d[k:k+k//2] = np.round(d[k:k+k//2]/L*4)/4*L    # faces, edges, centres
    d[k:k+k//2][(d[k:k+k//2] == 0).all(1)] = .3*L
    wrapd = np.arange(n) >= n - k                    # not the nearest image along a periodic axis
    for j in range(3):
        if per[j]:
            m = wrapd & (g.uniform(size=n) < .6)
            d[m, j] += L[j]*np.where(d[m, j] > 0, -1, 1)*(np.abs(d[m, j]) > 1e-3*L[j])
        else:
            m = g.uniform(size=n) < .4
            d[m, j] *= 10**g.uniform(0, 1.2, m.sum())
    mass = 10**g.uniform(-2, 2, n)
    f = vlib.run_driver(vlib.params_script(p) + ["sim", "process", "ewaldcall q.raw o.raw"], wd, arrays={"q.raw": np.hstack([mass[:, None], d])}, name="t", timeout=300)
    if f.failure():
        res.fail("crash:" + f.failure(), f.out[-600:])
        return
    o = np.fromfile(os.path.join(wd, "o.raw")).reshape(-1, 4)/mass[:, None]
    psi, a = ewref.corr(d, L, per)
    # interpolation error of a trilinear table of the configured spacing on the smooth field of the nearest image
    dn = d.copy()
    for j in range(3):
        if per[j]:
            dn[:, j] -= L[j]*np.round(dn[:, j]/L[j])
    np_ = [j for j in range(3) if per[j]]
    lz = L[np_[0]] if len(np_) == 1 else max(L[j] for j in np_)
    h = np.array([.5*L[j]/(c["ng"] - 2) if per[j] else 2.*lz/(4*(c["ng"] - 2)) for j in range(3)])
    ta, tp = np.zeros(n), np.zeros(n)
    p0, a0 = ewref.corr(dn, L, per)
    for j in range(3):
        s2a, s2p = np.zeros(n), np.zeros(n)
        e = np.zeros(3)
        e[j] = h[j]
        pp, ap = ewref.corr(dn + e, L, per)
        pm, am = ewref.corr(dn - e, L, per)
        s2a, s2p = np.abs(ap + am - 2*a0).max(1), np.abs(pp + pm - 2*p0)
        for off in (e, -e):
            p1, a1 = ewref.corr(dn + off, L, per)
            p2, a2 = ewref.corr(dn + 2*off, L, per)
            s2a, s2p = np.maximum(s2a, np.abs(a2 + a0 - 2*a1).max(1)), np.maximum(s2p, np.abs(p2 + p0 - 2*p1))
        ta += s2a/8
        tp += s2p/8
    l2 = min(L[j] for j in np_)
    ta, tp = 1.5*ta + 2e-4/l2**2, 1.5*tp + 2e-4/l2
    if len(np_) == 2:
        # beyond twice the first period the slab is replaced by its mean field: the neglected terms decay with the longer period
        z = np.abs(d[:, [j for j in range(3) if not per[j]][0]])
        lx = max(L[j] for j in np_)
        far = np.where(z > 1.9*min(L[j] for j in np_), 4*np.exp(-2*np.pi*z/lx), 0)*2*np.pi/(L[np_[0]]*L[np_[1]])
        ta += far
        tp += far*lx/2/np.pi
    tp += 2*np.median(tp)   # the common constant is estimated from the same values
    tag = "%dp" % sum(per)
    da = np.abs(o[:, :3] - a).max(1)
    i = int(np.argmax(da/ta))
    res.bound("%s:acceleration" % tag, float((da/ta)[i]), 1.0, "d=%s of box %s: %s expected %s tolerance %.2g" % (d[i], L, o[i, :3], a[i], ta[i]))
    off = np.median(o[:, 3] - psi)
    dp = np.abs(o[:, 3] - psi - off)
    i = int(np.argmax(dp/tp))
    res.bound("%s:potential" % tag, float((dp/tp)[i]), 1.0, "d=%s of box %s: %s expected %s tolerance %.2g" % (d[i], L, o[i, 3], psi[i] + off, tp[i]))
    res.count("separations", n)
    res.count("separations:" + tag, n)
    res.count("not nearest image", int((np.abs(dn - d) > 0).any(1).sum()))
    res.count("outside the box along an open axis", int(sum(((np.abs(d[:, j]) > .5*L[j]) & (not per[j])) for j in range(3)).astype(bool).sum()))
    res.mx("typical tolerance / acceleration", float(np.median(ta/np.abs(a).max(1))))
    res.nontrivial = n >= 100
    res.sig = "table %s %s %d" % (per, c["L"], c["seed"])


def run(c, wd, res):
    g = np.random.RandomState(c["seed"])
    L, per = np.array(c["L"]), c["per"]
    mfv = c["sim"] != "sph"
    r = vgen.positions(g, 3, 3375, "jitter")
    N = len(r)
    lo = g.uniform(-1, 1, 3)
    m = vgen.masses(g, N, "equal" if mfv else c["mass"])
    r = lo + r*L
    hydro = 1 if mfv else c["hydro"]
    np1 = sum(per) == 1
    p = dict(vgen.BASE)
    p.update(ndim=3, sim=c["sim"], kernel="m4", tabulated_kernel=0, neib_search=c["tree"], Nleafmax=c["nleaf"], Nhydro=N, h_fac=1.2, h_converge=1e-3, Nlevels=1, gas_eos="energy_eqn", gamma_eos=1.4,
             self_gravity=1, hydro_forces=hydro, multipole=c["mpole"], gravity_mac="geometric", thetamaxsqd=c["theta"], zero_mass_flux=1, nEwaldGrid=6 if np1 else 8)
    p["in"] = 60
    p.update(vgen.box_params(3, lo, lo + L, bnd(per), bnd(per)))
    x = 2*np.pi*(r - lo)/L
    lines, arr = vgen.hydro_arrays(3, r, .1*np.sin(np.roll(x, 1, axis=1)), m, 5 + np.sin(x[:, 0]))
    hk = "gravity" if mfv else "forces"
    f = vlib.run_driver(vlib.params_script(p) + ["sim", "prepython"] + lines + ["hookdump %s 1 2 f" % hk, "setup", "steps 1"], wd, arrays=arr, name="r", timeout=400)
    if f.failure() and "Smoothing length too large" in f.out:
        res.count("runs ended at the half-box limit")
        return
    if f.failure():
        res.fail("crash:" + f.failure(), f.out[-600:])
        return
    kern = sphref.Kernel("m4", 3)
    fn = sorted(q for q in os.listdir(wd) if q.startswith("f") and q.endswith(".dmp"))
    d = vlib.Dump(os.path.join(wd, fn[-1]))
    t = d.part
    rr, h, mm, z = t.vec("r", 3), t["h"], t["m"], t["zeta"]
    at, gp = t.vec("atree", 3), t["gpot"]
    src = np.arange(len(mm))
    sel = np.sort(g.choice(len(mm), 80, replace=False))
    dr = rr[None, :, :] - rr[sel][:, None, :]
    Lp = np.where(per, L, 0)
    for k in range(3):
        if per[k]:
            dr[:, :, k] -= L[k]*np.round(dr[:, :, k]/L[k])
    self_ = sel[:, None] == src[None, :]
    q = np.hstack([np.tile(mm, len(sel))[:, None], dr.reshape(-1, 3)])
    f = vlib.run_driver(vlib.params_script(p) + ["sim", "process", "ewaldcall q.raw o.raw"], wd, arrays={"q.raw": q}, name="t", timeout=300)
    if f.failure():
        res.fail("crash:" + f.failure(), f.out[-600:])
        return
    o = np.fromfile(os.path.join(wd, "o.raw")).reshape(len(sel), len(mm), 4)
    EA, EP = o[:, :, :3], o[:, :, 3]
    d2 = (dr**2).sum(2)
    drm = np.sqrt(d2 + 1e-20)
    nv = dr/drm[:, :, None]
    hi, hj = h[sel][:, None], h[None, :]
    si, sj = drm/hi, drm/hj
    hf = h**-4.0
    mj = mm[None, :]
    w1, w2 = kern.dw(si), kern.dw(sj)
    zf = mj if not mfv else 1/mm[sel][:, None]
    fo = .5*(mj*(kern.wgrav(si)/hi**2 + kern.wgrav(sj)/hj**2) + zf*(z[sel][:, None]*hf[sel][:, None]*w1 + (z*hf)[None, :]*w2))
    fa = .5*(mj*(kern.wgrav(si)/hi**2 + kern.wgrav(sj)/hj**2) + zf*np.abs(z[sel][:, None]*hf[sel][:, None]*w1 + (z*hf)[None, :]*w2))
    po = .5*mj*(kern.wpot(si)/hi + kern.wpot(sj)/hj)
    fo[self_] = 0
    fa[self_] = 0
    po[self_] = 0
    A = (fo[:, :, None]*nv).sum(1) + EA.sum(1)
    # corrections of separations at exactly half the box may take either image: generic positions do not have them
    G = po.sum(1) + mm[sel]/h[sel]*kern.wpot(np.array([0.]))[0] + np.where(self_, 0, EP).sum(1)
    Gself = EP[self_]
    S = (fa + np.abs(EA).sum(2)).sum(1)
    P = (po + np.abs(EP)).sum(1)
    eA = np.sqrt(((at[sel] - A)**2).sum(1))
    eG = np.minimum(np.abs(gp[sel] - G), np.abs(gp[sel] - G - Gself))
    exact = c["theta"] < 1e-6 or c["tree"] == "bruteforce"
    tag = "sph:" if not mfv else "mfv:"
    if exact:
        k = int(np.argmax(eA/S))
        res.bound(tag + "acceleration", float((eA/S)[k]), 1e-9, "particle %d a %s expected %s" % (sel[k], at[sel][k], A[k]))
        k = int(np.argmax(eG/P))
        res.bound(tag + "potential", float((eG/P)[k]), 1e-9, "particle %d %.12g expected %.12g" % (sel[k], gp[sel][k], G[k]))
        F = (mm[:, None]*at).sum(0)
        res.bound(tag + "net force", float(np.abs(F).max()/(mm.sum()*S.mean())), 1e-10, "total force %s" % F)
    else:
        from c03 import LIMITS
        la, lg = LIMITS[(c["mpole"].replace("quadrupole", "monopole"), c["theta"])]   # the lattice correction of a cell is that of its monopole
        S2 = (mj/np.maximum(d2, (.5*h[None, :])**2)).sum(1)
        P2 = (mj/np.sqrt(np.maximum(d2, (.5*h[None, :])**2))).sum(1)
        res.bound(tag + "approx acceleration rms", float(np.sqrt((eA**2).mean()/(S2**2).mean())), 2*la, c["mpole"])
        res.bound(tag + "approx potential rms", float(np.sqrt((eG**2).mean()/(P2**2).mean())), 2*lg, c["mpole"])
    nz = np.sqrt((EA.sum(1)**2).sum(1)) > 1e-3*np.sqrt((A**2).sum(1))
    res.count("accelerations", len(sel))
    res.count("accelerations with a periodic part above 0.1%", int(nz.sum()))
    res.count("exact runs" if exact else "approximate runs")
    res.nontrivial = bool(nz.sum() >= 60)
    res.sig = "run %s %s %s %s %g %d" % (per, c["sim"], c["tree"], c["mpole"], c["theta"], c["seed"])
