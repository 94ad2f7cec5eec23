"""C03: self-gravity (gas, gas-star, star-gas, star-star) against the direct kernel-softened double sum."""
import glob
import os
import re
import numpy as np
import vlib
import vgen
import sphref
from c02 import wdiff

VARIANTS = ["plain"]
RULE = ("random self-gravitating mixtures (scheme x distribution x dimension x kernel x tree x leaf size x multipole x opening criterion x particle types x "
        "stars x time-step levels); every active particle and star at the force hook of sampled steps is compared; non-trivial when >=50 particles were "
        "compared; distinct = distinct configuration")
ASSUMPTIONS = ["open boundaries (periodic gravity is decided by C20)", "smoothing lengths and zeta are read from the state and decided by C01",
               "limits for finite opening angles are set from the multipole remainder, three times the largest ratio measured on the generator"]
MIN_NONTRIVIAL = 10


def cases(tier, seed):
    n = 64 if tier == "quick" else 900
    g = vlib.rng_for("C03", seed)
    out = []
    for i in range(n):
        c = {"i": i, "nd": int(g.choice([1, 2, 3], p=[.12, .23, .65]))}
        c["sim"] = str(g.choice(["sph", "mfvmuscl", "mfvrk"], p=[.6, .3, .1]))
        c["exact"] = int(g.uniform() < .5)
        c["kernel"] = str(g.choice(["m4", "quintic"], p=[.7, .3]))
        c["tab"] = int(g.uniform() < 0.15)
        c["tree"] = str(g.choice(["kdtree", "octtree", "bruteforce"], p=[.5, .35, .15]))
        c["nleaf"] = int(g.choice([1, 2, 6, 12, 24]))
        c["kind"] = str(g.choice(vgen.KINDS))
        c["mass"] = str(g.choice(["equal", "random", "wide"]))
        c["multi"] = str(g.choice(["monopole", "quadrupole", "fast_monopole", "fast_quadrupole"]))
        c["mac"] = "geometric" if c["exact"] else str(g.choice(["geometric", "gadget2", "eigenmac"], p=[.5, .25, .25]))
        c["theta"] = 1e-14 if c["exact"] else float(g.choice([0.02, 0.1, 0.3]))
        c["hydro"] = int(c["sim"] != "sph" or g.uniform() < .7)
        c["types"] = int(c["sim"] == "sph" and c["hydro"] and g.uniform() < .25)
        c["levels"] = 1 if c["sim"] == "mfvrk" else int(g.choice([1, 5]))
        c["stars"] = int(g.choice([0, 1, 3], p=[.6, .15, .25]))
        c["soft"] = int(g.uniform() < .6)
        c["consv"] = int(g.uniform() < .5)
        c["nbody"] = "lfkdk" if c["sim"] != "sph" else str(g.choice(["lfkdk", "lfdkd", "hermite4"]))
        c["selfg"] = int(not (c["stars"] and c["hydro"] and g.uniform() < .15 and c["sim"] != "mfvrk"))
        c["scale"] = float(10**g.uniform(-2, 2)) if g.uniform() < .3 else 1.0
        c["steps"] = int(g.choice([3, 9]))
        c["build"] = int(g.choice([1, 3, 8]))
        c["dkd"] = int(g.uniform() < .15)
        c["seed"] = int(g.randint(1 << 30))
        c["cost"] = c["nd"]**3*(1 + c["steps"])
        out.append(c)
    # a compact clump seen by tiny far satellites: the order of the expansion is visible
    for i in range(n//4):
        c = {"i": n + i, "far": 1, "nd": int(g.choice([1, 2, 3], p=[.1, .3, .6])), "exact": 0, "tab": 0, "mac": "geometric", "theta": .02, "scale": 1.0, "types": 0, "selfg": 1}
        c["sim"] = str(g.choice(["sph", "mfvmuscl"], p=[.7, .3]))
        c["kernel"] = str(g.choice(["m4", "quintic"], p=[.8, .2]))
        c["tree"] = ["kdtree", "octtree"][i % 2]
        c["nleaf"] = int(g.choice([1, 2, 6, 12, 24]))
        c["multi"] = ["quadrupole", "fast_quadrupole", "quadrupole", "monopole", "fast_monopole"][i//2 % 5]
        c["hydro"] = 1
        c["levels"] = int(g.choice([1, 4]))
        c["stars"] = int(g.choice([0, 2]))
        c["steps"] = int(g.choice([2, 5]))
        c["build"] = int(g.choice([1, 3]))
        c["seed"] = int(g.randint(1 << 30))
        c["cost"] = c["nd"]**3*(1 + c["steps"])
        out.append(c)
    return out


def build_far(c):
    g = vlib.rng_for(c["seed"])
    nd = c["nd"]
    wide = c["kernel"] != "m4"
    n0 = {1: 60, 2: 200, 3: 700 if wide else 400}[nd]
    n1 = {1: 40, 2: 100, 3: 500 if wide else 250}[nd]
    size = 10**g.uniform(-2.7, -2.2)
    shape = np.array([1.0, 0.4, 0.2])[g.permutation(3)][:nd] if nd > 1 else np.ones(1)
    a = g.normal(size=(nd, nd))
    rot = np.linalg.qr(a)[0]

    def blob(n, sz):
        x = g.normal(size=(n, nd)).clip(-2, 2)*sz
        return x
    c0 = g.uniform(-.1, .1, nd)
    if nd == 1:      # (random points on a line can be too uneven for the h iteration)
        line = lambda n, sz: ((np.arange(n) + g.uniform(-.25, .25, n))/n*2 - 1)[:, None]*sz
        r = [c0 + line(n0, size)]
    else:
        r = [c0 + (blob(n0, size)*shape).dot(rot)]
    m = [g.uniform(.5, 1.5, n0)]
    m[0] /= m[0].sum()
    for k in range({1: 2, 2: 4, 3: 4}[nd]):
        d = g.normal(size=nd)
        d *= g.uniform(.8, 1.2)/np.sqrt((d*d).sum())
        r.append(c0 + d + (line(n1, 4e-6) if nd == 1 else g.uniform(-4e-6, 4e-6, (n1, nd))))
        m.append(np.full(n1, 1e-17))
    r, m = np.concatenate(r), np.concatenate(m)
    N = len(r)
    p = dict(vgen.BASE)
    p.update(ndim=nd, sim=c["sim"], kernel=c["kernel"], tabulated_kernel=0, neib_search=c["tree"], Nleafmax=c["nleaf"], Nhydro=N, h_fac=1.2, h_converge=1e-6,
             Nlevels=c["levels"], gas_eos="energy_eqn", gamma_eos=1.4, self_gravity=1, hydro_forces=1, ntreebuildstep=c["build"], sph_integration="lfkdk",
             multipole=c["multi"], gravity_mac="geometric", thetamaxsqd=c["theta"], nbody="lfkdk", nbody_softening=1, conservative_sph_star_gravity=1, zero_mass_flux=1)
    p.update(vgen.box_params(nd, -3*np.ones(nd), 3*np.ones(nd), ["open"]*nd, ["open"]*nd))
    # pressure only of the order of gravity, so that nothing moves noticeably
    u = np.where(np.arange(N) < n0, 1.0/size, 1e-8 if c["levels"] == 1 else 3e-2)
    lines, arr = vgen.hydro_arrays(nd, r, np.zeros((N, nd)), m, u)
    if c["stars"]:
        ns = p["Nstar"] = c["stars"]
        d = g.normal(size=(ns, nd))
        d *= g.uniform(.8, 1.2, (ns, 1))/np.sqrt((d*d).sum(1))[:, None]
        l2, a2 = vgen.hydro_arrays(nd, c0 + d, np.zeros((ns, nd)), np.full(ns, 1e-17), None, np.full(ns, 1e-4), typ="star")
        lines += l2
        arr.update(a2)
    hooks = ["hookdump %s 1 6 f" % ("forces" if c["sim"] == "sph" else "gravity")]
    return vlib.params_script(p) + ["sim", "prepython"] + lines + hooks + ["setup"], arr, p


def judge_far(d, p, c, kern, res):
    """relative deviation of the far satellites' gravity: bounded by the first neglected moment of the clump"""
    nd = p["ndim"]
    t = d.part
    m, r = t["m"], t.vec("r", nd)
    cl = m > 1e-10
    sel = np.nonzero(~cl & (t["active"] == 1))[0]
    if not len(sel):
        return 0
    com = (m[cl][:, None]*r[cl]).sum(0)/m[cl].sum()
    dd = np.sqrt(((r[cl] - com)**2).sum(1))
    D = np.sqrt(((r[sel] - com)**2).sum(1))
    k = 3 if "quadrupole" in c["multi"] else 2
    lim = 4*(m[cl]*dd**k).sum()/m[cl].sum()/D.min()**k + 1e-9
    A, AS, G, GS = gas_gravity(d, p, kern, sel, t["dead"] == 0, c["sim"] == "sph")
    a, gp = t.vec("atree", nd)[sel], t["gpot"][sel]
    if d.star.n:
        G = G + star_part(d, p, kern, r[sel], t["h"][sel], "stars")[1].sum(1)
    eA = np.sqrt(((a - A)**2).sum(1))/np.sqrt((A**2).sum(1))
    name = c["tree"] + ":" + c["multi"]
    # what two satellites do to each other is far below; their own self-gravity is bounded by its size
    own = 1e-17*len(sel)/(2e-6)**2*.5 + 0*D
    eG = np.abs(gp - G)/G
    if c["multi"].startswith("fast") and c["tree"] == "kdtree":
        # a leaf of the balanced tree can hold particles of two blobs: expanding about its centre is then only as good as theta
        for q, e, o in (("acceleration", eA, own*.2), ("potential", eG, 2e-7)):
            res.bound("far:%s-mixed:" % q + name, e.max(), 10*c["theta"])
            res.bound("far:%s-median:" % q + name, np.median(e/(lim + o)), 1.0)
    else:
        i = int(np.argmax(eA))
        res.bound("far:acceleration:" + name, eA[i]/(lim + own[i]*.2), 1.0, lambda: "particle %d a %s expected %s (relative %.3g, clump moment ratio gives %.3g)" % (sel[i], a[i], A[i], eA[i], lim))
        i = int(np.argmax(eG))
        res.bound("far:potential:" + name, eG[i]/(lim + 1e-6*.2), 1.0, lambda: "particle %d gpot %.12g expected %.12g" % (sel[i], gp[i], G[i]))
    res.count("far_particles", len(sel))
    return len(sel)


def build(c):
    if c.get("far"):
        return build_far(c)
    g = vlib.rng_for(c["seed"])
    nd = c["nd"]
    N = {1: 80, 2: 300, 3: 600}[nd]
    if not c["exact"]:
        N = {1: 300, 2: 900, 3: 1500}[nd]
    r = vgen.positions(g, nd, N, c["kind"])
    N = len(r)
    L = c["scale"]
    m = vgen.masses(g, N, c["mass"])
    lo = g.uniform(-1, 1, nd)*L
    r = lo + r*L
    p = dict(vgen.BASE)
    p.update(ndim=nd, sim=c["sim"], kernel=c["kernel"], tabulated_kernel=c["tab"], neib_search=c["tree"], Nleafmax=c["nleaf"], Nhydro=N,
             h_fac=1.2, h_converge=1e-6, Nlevels=c["levels"], gas_eos="energy_eqn", gamma_eos=1.4, self_gravity=c["selfg"], hydro_forces=c["hydro"],
             ntreebuildstep=c["build"], sph_integration="lfdkd" if c["dkd"] else "lfkdk", multipole=c["multi"], gravity_mac=c["mac"],
             thetamaxsqd=c["theta"], macerror=1e-4, nbody=c["nbody"], nbody_softening=c["soft"], conservative_sph_star_gravity=c["consv"],
             zero_mass_flux=1, Nlevelmaxdiff=1)
    p.pop("Nlevelmaxdiff")
    p.update(vgen.box_params(nd, lo - L, lo + 2*L, ["open"]*nd, ["open"]*nd))
    if c["sim"] == "sph":
        v = g.normal(size=(N, nd))*0.3
        u = np.ones(N)
        if c["levels"] > 1:
            u *= 10**(1.5*g.uniform(-1, 1, N))
    else:
        x = 2*np.pi*(r - lo)/L
        u = (5.0/L)*(1.0 + 0.3*np.sin(x[:, 0]))
        if c["levels"] > 1:
            u = u*10**(0.6*np.cos(x).sum(1)/nd)
        v = 0.1*np.sin(np.roll(x, 1, axis=1))
    lines, arr = vgen.hydro_arrays(nd, r, v, m, u)
    if c["types"]:
        arr["pt.raw"] = g.choice([0.0, 2.0], N)
        lines.append("ptype pt.raw")
    if c["stars"]:
        ns = c["stars"]
        p["Nstar"] = ns
        rs = lo + L*(0.5 + 0.25*g.normal(size=(ns, nd)))
        l2, a2 = vgen.hydro_arrays(nd, rs, np.zeros((ns, nd)), 10**g.uniform(-2, 0, ns), None, 10**g.uniform(-2.5, -.8, ns)*L, typ="star")
        lines += l2
        arr.update(a2)
    hk = "forces" if c["sim"] == "sph" else "gravity"
    hooks = ["hookdump %s %d 3 f" % (hk, max(1, c["steps"]//3))]
    if c["stars"]:
        hooks.append("hookdump nbody 1 4 b")
    return vlib.params_script(p) + ["sim", "prepython"] + lines + hooks + ["setup"], arr, p


def gas_gravity(d, p, kern, sel, grav_ok, sph):
    """acceleration and potential of particles sel due to all particles with grav_ok (and themselves), error scales, sum |F|, sum |pot|"""
    nd = p["ndim"]
    t = d.part
    r, h, m, z = t.vec("r", nd), t["h"], t["m"], t["zeta"]
    src = np.nonzero(grav_ok)[0]
    A = np.zeros((len(sel), nd)); AS = np.zeros(len(sel)); G = np.zeros(len(sel)); GS = np.zeros(len(sel)); S = np.zeros(len(sel))
    hf = h**(-nd - 1.0)
    for b in range(0, len(sel), 200):
        i = sel[b:b+200]
        dr = r[src][None, :, :] - r[i][:, None, :]
        d2 = (dr**2).sum(2)
        self_ = i[:, None] == src[None, :]
        drm = np.sqrt(d2 + 1e-20)
        n = dr/drm[:, :, None]
        hi, hj = h[i][:, None], h[src][None, :]
        si, sj = drm/hi, drm/hj
        mj = m[src][None, :]
        zi, zj = z[i][:, None]*hf[i][:, None], (z*hf)[src][None, :]
        g1, g2 = kern.wgrav(si)/hi**2, kern.wgrav(sj)/hj**2
        w1, w2 = kern.dw(si), kern.dw(sj)
        zf = mj if sph else 1.0/m[i][:, None]
        f = 0.5*(mj*(g1 + g2) + zf*(zi*w1 + zj*w2))
        fa = 0.5*(mj*(np.abs(g1) + np.abs(g2)) + zf*(np.abs(zi*w1) + np.abs(zj*w2)))
        q = 0.5*mj*(kern.wpot(si)/hi + kern.wpot(sj)/hj)
        ft = qt = 0.0
        if p["tabulated_kernel"]:
            ft = 0.5*(mj*(wdiff(kern.wgrav, si, kern)/hi**2 + wdiff(kern.wgrav, sj, kern)/hj**2)
                      + zf*(np.abs(zi)*wdiff(kern.dw, si, kern) + np.abs(zj)*wdiff(kern.dw, sj, kern)))
            qt = 0.5*mj*(wdiff(kern.wpot, si, kern)/hi + wdiff(kern.wpot, sj, kern)/hj)
            # the table switches to the analytic form at its last entry
        reg = np.minimum(1e-20/np.maximum(d2, 1e-300), 1.0)
        for x in (f, fa, q):
            x[self_] = 0
        A[b:b+200] = (f[:, :, None]*n).sum(1)
        AS[b:b+200] = (np.where(self_, 0, ft + fa*(1e-9 + 2*reg))).sum(1)
        G[b:b+200] = q.sum(1) + m[i]/h[i]*kern.wpot(np.array([0.0]))[0]
        GS[b:b+200] = np.where(self_, 0, qt + q*(1e-9 + reg)).sum(1) + (1e-9 + 2e-2*bool(p["tabulated_kernel"]))*m[i]/h[i]
        S[b:b+200] = np.where(self_, 0, mj/d2.clip(1e-300)*(si > 0)).clip(0, 1e290).sum(1)
    return A, AS, G, GS


def star_part(d, p, kern, ri, hi, which):
    """gas/star pair terms: which='gas' sources are stars, returns (a, pot, scales) at ri; symmetric mean smoothing length"""
    nd = p["ndim"]
    s = d.star
    src = s if which == "stars" else d.part
    rj, mj, hj = src.vec("r", nd), src["m"], src["h"]
    dr = rj[None, :, :] - ri[:, None, :]
    dm = np.sqrt((dr**2).sum(2) + 1e-20)
    ih = 2.0/(hi[:, None] + hj[None, :])
    x = dm*ih
    f = mj*ih**2*kern.wgrav(x)
    q = mj*ih*kern.wpot(x)
    ft = qt = 0
    if p["tabulated_kernel"]:
        ft = mj*ih**2*wdiff(kern.wgrav, x, kern)
        qt = mj*ih*wdiff(kern.wpot, x, kern)
    return f, q, ft, qt, dr/dm[:, :, None]


# largest |error|/S over the generator, by (kind of cell expansion): limits are three times these
def theta_limit(p):
    th = np.sqrt(p["thetamaxsqd"])
    return th


def check_gas(d, p, c, kern, sel, res, tag):
    nd = p["ndim"]
    t = d.part
    sph = p["sim"] == "sph"
    live = t["dead"] == 0
    if p["self_gravity"]:
        A, AS, G, GS = gas_gravity(d, p, kern, sel, live, sph)
    else:
        A, AS, G, GS = np.zeros((len(sel), nd)), np.zeros(len(sel)), np.zeros(len(sel)), np.zeros(len(sel))
    Ag, Gg = A.copy(), G.copy()
    if d.star.n:
        f, q, ft, qt, n = star_part(d, p, kern, t.vec("r", nd)[sel], t["h"][sel], "stars")
        A = A + (f[:, :, None]*n).sum(1)
        AS = AS + (np.abs(f)*1e-9 + ft).sum(1)
        G = G + q.sum(1)
        GS = GS + (q*1e-9 + qt).sum(1)
    at, gp = t.vec("atree", nd)[sel], t["gpot"][sel]
    eA, eG = np.sqrt(((at - A)**2).sum(1)), np.abs(gp - G)
    if c["exact"] or not p["self_gravity"] or p["neib_search"] == "bruteforce":
        k = int(np.argmax(eA/(AS + 1e-300)))
        res.bound(tag + "acceleration", eA[k]/(AS[k] + 1e-300), 1.0, lambda: "particle %d type %d a %s expected %s" % (sel[k], t["ptype"][sel[k]], at[k], A[k]))
        k = int(np.argmax(eG/(GS + 1e-300)))
        res.bound(tag + "potential", eG[k]/(GS[k] + 1e-300), 1.0, lambda: "particle %d type %d gpot %.12g expected %.12g" % (sel[k], t["ptype"][sel[k]], gp[k], G[k]))
        if len(sel) == live.sum():
            m = t["m"]
            if not d.star.n:
                F = (m[sel][:, None]*at).sum(0)
                res.bound(tag + "momentum", np.abs(F).max(), 1.0*(m[sel]*AS).sum(), "total self-gravity force %s" % F)
                res.count("balanced_states")
        res.count("exact_particles", len(sel))
    else:
        # S: sum of m/d^2 over everything outside the kernels, the scale every accepted cell's remainder is relative to
        r, m = t.vec("r", nd), t["m"]
        S = np.zeros(len(sel)); P = np.zeros(len(sel))
        for b in range(0, len(sel), 300):
            dr2 = ((r[None, live, :] - r[sel[b:b+300]][:, None, :])**2).sum(2)
            hh = t["h"][live][None, :]
            inv = 1.0/np.maximum(dr2, (0.5*hh)**2)
            S[b:b+300] = (m[live]*inv).sum(1)
            P[b:b+300] = (m[live]*np.sqrt(inv)).sum(1)
        eA = np.maximum(eA - AS, 0)
        eG = np.maximum(eG - GS, 0)
        name = "%s:%s:%g:" % (c["multi"], c["mac"], c["theta"])
        la, lg = LIMITS[(c["multi"], c["theta"])]
        res.bound(tag + "approx:a-rms:" + name, np.sqrt((eA**2).mean()/(S**2).mean()), la)
        res.bound(tag + "approx:g-rms:" + name, np.sqrt((eG**2).mean()/(P**2).mean()), lg)
        if not c["multi"].startswith("fast"):
            res.bound(tag + "approx:a-max:" + name, (eA/S).max(), 0.1)
            res.bound(tag + "approx:g-max:" + name, (eG/P).max(), 0.1)
        res.count("approx_particles", len(sel))


# rms limits on the relative deviation from direct summation: 4 x the largest seen over 300 calibration cases
LIMITS = {("monopole", .02): (1.5e-3, 4e-3), ("monopole", .1): (.014, .03), ("monopole", .3): (.026, .05),
          ("quadrupole", .02): (1e-4, 1e-4), ("quadrupole", .1): (1.6e-3, 1.6e-3), ("quadrupole", .3): (.013, .017),
          ("fast_monopole", .02): (6e-3, .012), ("fast_monopole", .1): (.02, .04), ("fast_monopole", .3): (.045, .09),
          ("fast_quadrupole", .02): (4e-3, .011), ("fast_quadrupole", .1): (.012, .022), ("fast_quadrupole", .3): (.012, .022)}


def check_stars(d, p, c, kern, res):
    nd = p["ndim"]
    s = d.star
    act = np.nonzero(s["active"] == 1)[0]
    if not len(act):
        return
    live = d.part["dead"] == 0
    rs, hs, ms = s.vec("r", nd), s["h"], s["m"]
    A = np.zeros((len(act), nd)); AS = np.zeros(len(act)); G = np.zeros(len(act)); GS = np.zeros(len(act))
    if p["self_gravity"]:
        f, q, ft, qt, n = star_part(d, p, kern, rs[act], hs[act], "gas")
        f, q, n = f[:, live], q[:, live], n[:, live]
        A += (f[:, :, None]*n).sum(1)
        tf = ft[:, live] if p["tabulated_kernel"] else 0
        tq = qt[:, live] if p["tabulated_kernel"] else 0
        AS += (np.abs(f)*1e-9 + tf).sum(1)
        G += q.sum(1)
        GS += (q*1e-9 + tq).sum(1)
        th = 0 if (c["exact"] or p["neib_search"] == "bruteforce") else 1
        AS += th*0.25*np.abs(f).sum(1)
        GS += th*0.1*q.sum(1)
    for a, i in enumerate(act):
        for j in range(s.n):
            if i == j:
                continue
            dr = rs[j] - rs[i]
            dm = np.sqrt((dr**2).sum())
            ih = 2.0/(hs[i] + hs[j])
            if p["nbody_softening"]:
                x = np.array([dm*ih])
                f, q = ms[j]*ih**2*kern.wgrav(x)[0], ms[j]*ih*kern.wpot(x)[0]
                tf, tq = (ms[j]*ih**2*wdiff(kern.wgrav, x, kern)[0], ms[j]*ih*wdiff(kern.wpot, x, kern)[0]) if p["tabulated_kernel"] else (0, 0)
            else:
                f, q, tf, tq = ms[j]/dm**2, ms[j]/dm, 0, 0
            A[a] += f*dr/dm
            AS[a] += abs(f)*1e-9 + tf
            G[a] += q
            GS[a] += q*1e-9 + tq
    a_, g_ = s.vec("a", nd)[act], s["gpot"][act]
    k = int(np.argmax(np.abs(a_ - A).max(1)/(AS + 1e-300)))
    res.bound("star:acceleration", np.abs(a_ - A).max(1)[k]/(AS[k] + 1e-300), 1.0, lambda: "star %d a %s expected %s" % (act[k], a_[k], A[k]))
    k = int(np.argmax(np.abs(g_ - G)/(GS + 1e-300)))
    res.bound("star:potential", np.abs(g_ - G)[k]/(GS[k] + 1e-300), 1.0, lambda: "star %d gpot %.12g expected %.12g" % (act[k], g_[k], G[k]))
    res.count("stars_compared", len(act))


def run_case(c, wd, res):
    script, arr, p = build(c)
    script += ["steps %d" % c["steps"]]
    r = vlib.run_driver(script, wd, "plain", 200, arr)
    f = r.failure()
    if f:
        import c01
        if c["sim"] != "sph" and c01.positivity(f):
            res.count("ended_by_positivity_limit")
        else:
            res.fail("run:" + f, r.out[-800:])
            return
    kern = sphref.Kernel(p["kernel"], c["nd"])
    n = 0
    for fn in sorted(glob.glob(os.path.join(wd, "*.dmp"))):
        d = vlib.Dump(fn)
        t = d.part
        if os.path.basename(fn).startswith("b"):
            check_stars(d, p, c, kern, res)
            continue
        sel = np.nonzero((t["dead"] == 0) & (t["active"] == 1))[0]
        if not len(sel):
            continue
        if c.get("far"):
            n += judge_far(d, p, c, kern, res)
            res.count("states")
            continue
        if not np.isfinite(t.vec("r", c["nd"])).all():
            res.fail("finite", "non-finite positions")
            return
        check_gas(d, p, c, kern, sel, res, c["sim"] + ":")
        n += len(sel)
        res.count("states")
        if len(sel) < (t["dead"] == 0).sum():
            res.count("partially_active_states")
    if n == 0:
        res.inconclusive = f or "no state"
    res.nontrivial = n >= 50
    res.sig = {k: v for k, v in c.items() if k not in ("seed", "i", "cost")}
