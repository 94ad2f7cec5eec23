"""C01: density / number density / smoothing length / correction factors against the direct kernel sum."""
import glob
import os
import re
import numpy as np
import vlib
import vgen
import sphref

VARIANTS = ["plain"]
RULE = ("random particle sets (distribution x dimension x boundaries x kernel x tree x leaf size x scheme); a case is non-trivial when the gather "
        "sums of at least 50 particles with neighbours were recomputed over explicit images; distinct = distinct configuration")
ASSUMPTIONS = ["double precision build, open/periodic/mirror walls", "scipy cKDTree for the reference neighbour search",
               "tabulated kernels are bracketed by the variation of the exact kernel over one table cell"]
MIN_NONTRIVIAL = 10


def case_params(g, i, tier):
    c = {"i": i}
    c["nd"] = int(g.choice([1, 2, 3], p=[.25, .35, .4]))
    c["sim"] = str(g.choice(["sph", "mfvmuscl", "mfvrk"], p=[.5, .3, .2]))
    c["kernel"] = str(g.choice(["m4", "quintic"] + (["gaussian"] if c["sim"] == "sph" else [])))
    c["tab"] = int(g.uniform() < 0.2)
    c["tree"] = str(g.choice(["kdtree", "octtree", "bruteforce"], p=[.5, .35, .15]))
    c["nleaf"] = int(g.choice([1, 2, 4, 6, 10, 24]))
    c["kind"] = str(g.choice(vgen.KINDS))
    c["mass"] = str(g.choice(["equal", "random", "wide"]))
    c["bc"] = str(g.choice(["open", "periodic", "mirror", "mixed"], p=[.25, .3, .15, .3]))
    c["scale"] = float(10**g.uniform(-3, 3)) if g.uniform() < 0.5 else 1.0
    c["hfac"] = float(g.choice([1.0, 1.2, 1.4]))
    c["gamma"] = 1.4
    c["levels"] = 1 if c["sim"] == "mfvrk" else int(g.choice([1, 4]))    # mfvrk with block steps: known finding under C06
    c["grav"] = int(c["bc"] == "open" and g.uniform() < 0.4 and c["kernel"] != "gaussian")
    c["steps"] = int(g.choice([0, 6, 16]))
    c["build"] = int(g.choice([1, 1, 4, 8]))
    c["dkd"] = int(c["sim"] == "sph" and g.uniform() < 0.15)
    c["vel"] = float(g.choice([0.0, 0.3, 3.0]))
    return c


def cases(tier, seed):
    n = 60 if tier == "quick" else 900
    g = vlib.rng_for("C01", seed)
    out = []
    for i in range(n):
        c = case_params(g, i, tier)
        c["seed"] = int(g.randint(1 << 30))
        # sink particles: the smoothing length has a floor set by the sink density
        c["floor"] = int(c["sim"] == "sph" and not c["dkd"] and g.uniform() < .25)
        # stars add their own term to zeta (conservative star-gas gravity)
        if i % 8 == 3 and c["nd"] > 1:
            c.update(sim="sph", tab=0, kernel="m4" if c["kernel"] == "gaussian" else c["kernel"], bc="open", floor=0, stars=4)
        c["soft"] = int(g.randint(2))
        c["cost"] = c["nd"]**3*(1 + c["steps"])
        out.append(c)
    return out


def build(c, N=None):
    """-> script, arrays, params, state of a gas case"""
    g = vlib.rng_for(c["seed"])
    nd = c["nd"]
    per = c["bc"] in ("periodic", "mixed")
    wide = c["kernel"] != "m4" or c["hfac"] > 1.3
    N = N or {1: 150, 2: 900 if wide else 600, 3: (4500 if per and wide else 2600 if per else 1000)}[nd]
    kind = c["kind"]
    if per and kind in ("plummer", "shell", "line", "clustered"):
        kind = "jitter" if g.uniform() < .5 else "uniform"     # half-box limit on h in periodic boxes
    if per and c["mass"] == "wide" and nd > 1:
        c = dict(c, mass="random")
    L = c["scale"]
    r = vgen.positions(g, nd, N, kind)
    N = len(r)
    m = vgen.masses(g, N, c["mass"])
    lo = g.uniform(-1, 1, nd)*L
    bl, br = vgen.choose_boundaries(g, nd, None if c["bc"] == "mixed" else c["bc"])
    LV = L*vlib.rng_for(c["seed"], "aspect").permutation([1.0, 1.04, 1.08])[:nd]          # never cubic
    r = lo + r*LV
    p = dict(vgen.BASE)
    p.update(ndim=nd, sim=c["sim"], kernel=c["kernel"], tabulated_kernel=c["tab"], neib_search=c["tree"], Nleafmax=c["nleaf"],
             Nhydro=N, h_fac=c["hfac"], h_converge=1e-10, Nlevels=c["levels"], gas_eos="energy_eqn", gamma_eos=c["gamma"],
             self_gravity=c["grav"], ntreebuildstep=c["build"], sph_integration="lfdkd" if c.get("dkd") else "lfkdk")
    if c["sim"] != "sph":
        p["zero_mass_flux"] = 1 if c["grav"] else int(g.randint(2))
        if c["sim"] == "mfvmuscl":
            p["static_particles"] = int(g.uniform() < 0.2)
    p.update(vgen.box_params(nd, lo, lo + LV, bl, br))
    if c.get("floor"):
        p.update(sink_particles=1, create_sinks=0, nbody="lfkdk", rho_sink=float(m.sum()/L**nd*g.choice([.3, 1., 3.])))
    if c["sim"] == "sph":
        u = np.full(N, 1.0)*(1 + g.uniform(0, 1, N)*(c["vel"] > 0))
        if c["levels"] > 1:
            u *= 10**(1.5*g.uniform(-1, 1, N))
        v = g.normal(size=(N, nd))*c["vel"]
    else:
        # the meshless schemes are not positivity preserving for arbitrarily rough states: smooth fields
        x = 2*np.pi*(r - lo)/LV
        u = 1.0 + 0.3*np.sin(x[:, 0])
        if c["levels"] > 1:
            u = u*10**(0.6*np.cos(x).sum(1)/nd)
        v = 0.2*c["vel"]*np.sin(np.roll(x, 1, axis=1) + g.uniform(0, 6, nd))
    h = 0.05*L*np.ones(N)
    lines, arr = vgen.hydro_arrays(nd, r, v, m, u, h if g.uniform() < .5 else None)
    ns = c.get("stars", 0)
    if ns:
        p.update(Nstar=ns, nbody="lfkdk", self_gravity=1, nbody_softening=c["soft"])
        gs = vlib.rng_for(c["seed"], "stars")
        # among the gas, with softening lengths from well below to several times its smoothing lengths
        rs = r[gs.choice(N, ns, replace=False)] + 0.02*L*gs.normal(size=(ns, nd))
        l2, a2 = vgen.hydro_arrays(nd, rs, 0.1*gs.normal(size=(ns, nd)), m.sum()*10**gs.uniform(-2, 0, ns), None, 10**gs.uniform(-2, -.3, ns)*L, typ="star")
        lines = lines + l2
        arr.update(a2)
    return vlib.params_script(p) + ["sim", "prepython"] + lines + ["setup"], arr, p


def positivity(f):
    """the documented limits of the meshless schemes: abort on a negative reconstructed state"""
    return re.search(r"W(left|right)\[(irho|ipress)\] > 0|part\.u > \(FLOAT\) 0|part\.pressure > \(FLOAT\) 0|Negative pressure|press\w* > 0", f) is not None


def active_mask(d, p):
    t = d.part
    live = t["dead"] == 0
    if d.s["n"] == 0 and d.s["Nsteps"] == 0:
        return live
    if p["sph_integration"] == "lfdkd":
        return live & (2*(d.s["n"] - t["nlast"]) == t["nstep"])
    return live & (t["nlast"] == d.s["n"])


def check_density(d, p, res, tag, kern=None):
    nd = p["ndim"]
    sph = p["sim"] == "sph"
    kern = kern or sphref.Kernel(p["kernel"], nd)
    t = d.part
    sel = np.nonzero(active_mask(d, p))[0]
    if len(sel) == 0:
        return 0
    live = t["dead"] == 0
    if not res.check(np.all(np.isfinite(t["h"])) and np.all(t["h"][live] > 0), tag + "h-positive", "h not positive"):
        return 0
    r, h, m = t.vec("r", nd), t["h"], t["m"]
    N = sphref.Neigh(kern, nd, r, h, sel, p, factor=1.02)
    # (the meshless density loop adds an absolute 1e-20 to squared distances)
    dist = N.dist if sph else np.sqrt(N.dist**2 + 1e-20)
    s = dist/h[sel][N.i]
    mj = m[N.src[N.j]]
    hs = h[sel]
    floor = p["h_fac"]*(m[sel]/p["rho_sink"])**(1.0/nd) if p.get("sink_particles") else np.zeros(len(sel))
    w = np.ones_like(mj) if not sph else mj
    inv = hs**(-nd)
    den = t["rho"][sel] if sph else t["ndens"][sel]
    # particles whose kernel reaches an image of a neighbour with much smaller h: the ghost range is a multiple of
    # the neighbour's own kernel radius, so that image may be missing (known finding, judged under its own key)
    ig = N.j >= len(r)
    short = np.zeros(len(sel), bool)
    if ig.any():
        lo_, hi_, _, _ = sphref.box_of(p, nd)
        src = N.src[N.j[ig]]
        off = N.R[N.j[ig]]
        out = np.maximum(np.maximum(lo_ - off, off - hi_), 0).max(1)      # how far outside the wall the image lies
        bad = (out > 2.4*kern.range*h[src]) & (s[ig] < kern.range)
        short[N.i[ig][bad]] = True
    if p["tabulated_kernel"]:
        ds = kern.range**2/1000*1.001
        s_hi, s_lo = np.sqrt(np.maximum(s*s - ds, 0)), np.sqrt(s*s + ds)
    else:
        s_hi = s_lo = s
    # upper and lower value of the sum (kernel truncation, table cells): equal for smooth kernels
    win = 1e-6
    if p["kernel"] == "gaussian":        # a shell of (lattice) neighbours crossing the cut-off moves h by up to this fraction
        win = np.minimum(0.01, 100*w.max()*float(kern.w(kern.range*(1 - 1e-12)))*inv/den + 1e-6)[N.i]
    hi = N.sum(w*np.where(s < kern.range*(1 + win), kern.w(np.minimum(s_hi, kern.range*(1 - 1e-12))), 0))*inv
    lo = N.sum(w*np.where(s_lo < kern.range*(1 - win), kern.w(s_lo), 0))*inv
    gap = (hi - lo)/den
    # h is h_fac*(m/rho)^(1/nd) of the last sum: it may differ from the h that sum used by the jump itself
    dev = np.maximum(den - hi, lo - den)/den - 2*gap
    hx = p["h_fac"]*((m[sel]/den) if sph else 1.0/den)**(1.0/nd)
    hx = np.maximum(hx, floor)
    herr = np.abs(hs - hx)/hx
    for cls, msk in (("", ~short), (":ghost-range", short)):
        if not msk.any():
            continue
        q = np.nonzero(msk)[0]
        k = q[int(np.argmax(dev[q]))]
        res.bound(tag + "density" + cls, dev[k], 3e-8,
                  lambda: "particle %d density %.12g expected [%.12g, %.12g] h %.6g" % (sel[k], den[k], lo[k], hi[k], hs[k]))
        k2 = q[int(np.argmax((herr - gap)[q]))]
        res.bound(tag + "h-relation" + cls, (herr - gap)[k2], 1e-9,
                  lambda: "particle %d h %.12g expected %.12g" % (sel[k2], hs[k2], hx[k2]))
    res.count("ghost_range_particles", short.sum())
    if not sph:
        res.bound(tag + "rho=m*n", (np.abs(t["rho"][sel] - m[sel]*den)/t["rho"][sel]).max(), 1e-9 if not d.s["Nsteps"] else 1e-9)
    res.bound(tag + "hfactor", np.abs(t["hfactor"][sel]*hs**(nd + 1) - 1).max(), 1e-9)
    res.bound(tag + "hrange", np.abs(t["hrangesqd"][sel]/(kern.range*hs)**2 - 1).max(), 1e-9)
    if not p["tabulated_kernel"]:
        om = 1.0/(1.0 + hs/(nd*den)*N.sum(w*kern.womega(s))*inv/hs)
        good = (np.abs(om) < 50) & ~short & (gap < 1e-9)
        err = np.abs(t["invomega"][sel] - om)[good]/np.maximum(1, np.abs(om[good]))**2
        res.bound(tag + "invomega", err.max() if len(err) else 0, 1e-6)
        if p["kernel"] != "gaussian" and not (p.get("static_particles") and d.s["Nsteps"]):     # (not recomputed for static particles)
            # the self and neighbour contributions of d(phi)/dh
            z = -hs/(nd*den)*N.sum(mj*kern.wzeta(s))/hs**2*om*(1.0 if sph else m[sel])
            sc = np.abs(hs/(nd*den)*N.sum(mj*np.abs(kern.wzeta(s)))/hs**2)*(1.0 if sph else m[sel])
            if sph and d.star.n:
                # stars contribute as point sources softened with the mean of the two smoothing lengths (or with h/2)
                ok = t["sinkid"][sel] == -1
                for k in range(d.star.n):
                    ih = 2.0/(hs + d.star["h"][k]) if p["nbody_softening"] else 2.0/hs
                    ss = np.sqrt(((r[sel] - d.star.vec("r", nd)[k])**2).sum(1))*ih
                    zs = -hs/(nd*den)*d.star["m"][k]*kern.wzeta(ss)*ih**2*om*ok
                    z = z + zs
                    sc = sc + np.abs(zs)
                    res.count("star_zeta_terms", np.count_nonzero(zs))
            err = (np.abs(t["zeta"][sel] - z)/sc)[good]/np.maximum(1, np.abs(om[good]))**2
            res.bound(tag + "zeta", err.max() if len(err) else 0, 1e-6)
    res.count("particles", len(sel))
    res.count("pairs", len(N.j))
    res.count("images", N.nimage)
    res.count("particles_with_image_neighbours", len(np.unique(N.i[N.j >= len(r)])))
    return len(sel)


def run_case(c, wd, res):
    script, arr, p = build(c)
    script.append("dump d0.dmp")
    if c["steps"]:
        script.append("stepdump %d %d s" % (c["steps"], max(1, c["steps"]//3)))
    r = vlib.run_driver(script, wd, "plain", 200, arr)
    f = r.failure()
    if f:
        if "Smoothing length too large" in r.out:
            res.inconclusive = "half-box limit"
            return
        if positivity(f):
            res.count("ended_by_positivity_limit")       # the states dumped so far are still judged
        else:
            res.fail("run:" + f, r.out[-800:])
            return
    n = 0
    for i, fn in enumerate(sorted(glob.glob(os.path.join(wd, "*.dmp")))):
        d = vlib.Dump(fn)
        if not np.all(np.isfinite(d.part.vec("r", c["nd"]))):
            res.inconclusive = "non-finite positions"
            return
        n += check_density(d, p, res, "%s:%s:" % (c["sim"], "setup" if d.s["Nsteps"] == 0 else "step"))
        res.count("states")
        if d.s["Nsteps"] > 0 and d.s["level_max"] > 0:
            res.count("multilevel_states")
    if n == 0:
        res.inconclusive = f or "no state"
    res.nontrivial = n >= 50
    res.sig = {k: v for k, v in c.items() if k not in ("seed", "i", "cost")}
