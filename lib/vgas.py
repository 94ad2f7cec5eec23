"""Shared generator of complete gas runs (SPH and meshless) for the trace monitors."""
import numpy as np
import vgen, vlib

KERN_P = {"sph": (["m4", "quintic", "gaussian"], [.6, .25, .15]), "mfv": (["m4", "quintic"], [.7, .3])}


def gen(g, sims=("sph", "mfvmuscl"), p_sim=None, bcs=("open", "periodic", "mirror", "mixed"), p_bc=None, grav=0.3, nds=(1, 2, 3), p_nd=(.25, .45, .3),
        ics=("noise", "blast", "smooth", "collide"), levels=(1, 2, 4, 8), dkd=.15, stars=0.0):
    c = {"sim": str(g.choice(sims, p=p_sim)), "nd": int(g.choice(nds, p=p_nd))}
    kk = KERN_P["sph" if c["sim"] == "sph" else "mfv"]
    c["kernel"] = str(g.choice(kk[0], p=kk[1]))
    c["tab"] = int(g.uniform() < .3)
    c["tree"] = str(g.choice(["kdtree", "octtree", "bruteforce"], p=[.55, .35, .1]))
    c["nleaf"] = int(g.choice([1, 4, 6, 12]))
    c["bc"] = str(g.choice(bcs, p=p_bc))
    c["grav"] = int(c["bc"] == "open" and g.uniform() < grav and c["kernel"] != "gaussian" and c["nd"] > 1)
    c["ic"] = str(g.choice(ics))
    c["levels"] = 1 if c["sim"] == "mfvrk" else int(g.choice(levels))
    c["dkd"] = int(c["sim"] == "sph" and g.uniform() < dkd)
    c["mass"] = str(g.choice(["equal", "random"]))
    c["kind"] = str(g.choice(["jitter", "uniform", "lattice", "clustered", "shell"], p=[.4, .25, .1, .15, .1]))
    c["build"] = int(g.choice([1, 1, 3, 8]))
    c["diff"] = int(g.choice([1, 1, 2, 4]))
    c["single"] = int(g.uniform() < .1)
    c["gamma"] = float(g.choice([1.4, 1.6667]))
    c["avisc"] = str(g.choice(["none", "mon97", "mm97", "cd2010"], p=[.1, .5, .3, .1]))
    c["acond"] = str(g.choice(["none", "wadsley2008", "price2008"], p=[.6, .2, .2]))
    c["tsl"] = str(g.choice(["simple", "conservative"])) if c["sim"] == "mfvmuscl" else "simple"
    c["zmf"] = 1 if c["grav"] else int(g.randint(2))
    c["static"] = int(c["sim"] == "mfvmuscl" and g.uniform() < .2)
    c["stars"] = int(c["grav"] and g.uniform() < stars)*2
    c["vel"] = float(g.choice([.3, 1., 3.]))
    c["scale"] = float(10**g.uniform(-2, 2)) if g.uniform() < .3 else 1.0
    c["seed"] = int(g.randint(1 << 30))
    return c


def build(c, N=None, extra=None):
    """-> script lines up to (not including) setup, arrays, parameter dict"""
    g = vlib.rng_for(c["seed"])
    nd = c["nd"]
    per = c["bc"] in ("periodic", "mixed")
    wide = c["kernel"] != "m4"
    if N is None:
        N = {1: 120, 2: (1500 if wide else 700) if per else 400, 3: (5832 if wide else 2744) if per else 800}[nd]
    kind = c["kind"]
    if per and kind in ("clustered", "shell"):
        kind = "jitter"
    if (per and nd == 3) or c["sim"] != "sph":
        kind = "jitter" if kind != "lattice" else kind
    L = c["scale"]
    # boxes are never cubic, so that a length taken from the wrong dimension is always visible
    LV = L*vlib.rng_for(c["seed"], "aspect").permutation([1.0, 1.04, 1.08])[:nd]
    r = vgen.positions(g, nd, N, kind)
    N = len(r)
    if kind == "lattice" and c["sim"] == "sph":
        r = np.clip(r + g.normal(size=r.shape)*1e-3, 1e-6, 1 - 1e-6)
    m = vgen.masses(g, N, c["mass"] if not (c["sim"] != "sph") else "equal")
    x = r.copy()
    u = np.ones(N)
    v = np.zeros((N, nd))
    ic = c["ic"]
    if c["sim"] != "sph":
        ph = g.uniform(0, 6, (nd, nd))
        wave = np.stack([np.sin(2*np.pi*x + ph[k]).sum(1) for k in range(nd)], 1)
        v = 0.25*c["vel"]/1.0*wave/nd
        u = 1.5*(1 + 0.3*np.sin(2*np.pi*x[:, 0] + g.uniform(0, 6)))
        if ic == "blast":
            u = u*(1 + 6*np.exp(-((x - 0.5)**2).sum(1)/0.15**2))
        elif ic == "collide":
            v[:, 0] += 0.7*np.sin(2*np.pi*x[:, 0])
    else:
        if ic == "noise":
            v = g.normal(size=(N, nd))*c["vel"]
            u = 10**(1.5*g.uniform(-1, 1, N))
        elif ic == "blast":
            u = np.where(((x - 0.5)**2).sum(1) < 0.1**2, 200.0, 0.5)
            v = 0.1*g.normal(size=(N, nd))
        elif ic == "smooth":
            v = 0.3*c["vel"]*np.sin(2*np.pi*x)
            u = 1 + .5*np.cos(2*np.pi*x[:, 0])
        else:
            v[:, 0] = np.where(x[:, 0] < .5, 1., -1.)*c["vel"]*1.5
            u = np.where(x[:, 0] < .5, .2, 1.)
    lo = g.uniform(-1, 1, nd)*L
    bl, br = vgen.choose_boundaries(g, nd, None if c["bc"] == "mixed" else c["bc"])
    r = lo + r*LV
    p = dict(vgen.BASE)
    p.update(ndim=nd, sim=c["sim"], kernel=c["kernel"], tabulated_kernel=c["tab"], neib_search=c["tree"], Nleafmax=c["nleaf"], Nhydro=N,
             Nlevels=c["levels"], level_diff_max=c["diff"], gas_eos="energy_eqn", gamma_eos=c["gamma"], self_gravity=c["grav"],
             ntreebuildstep=c["build"], ntreestockstep=1, sph_integration="lfdkd" if c["dkd"] else "lfkdk",
             avisc="none" if c["avisc"] == "none" else "mon97", time_dependent_avisc=c["avisc"] if c["avisc"] in ("mm97", "cd2010") else "none",
             acond=c["acond"], time_step_limiter=c["tsl"], zero_mass_flux=c["zmf"], static_particles=c["static"], hydro_forces=1)
    p["sph_single_timestep"] = c["single"]
    p.update(vgen.box_params(nd, lo, lo + LV, bl, br))
    if extra:
        p.update(extra)
    lines, arr = vgen.hydro_arrays(nd, r, v, m, u)
    if c["stars"]:
        ns = c["stars"]
        p["Nstar"] = ns
        p["nbody"] = "lfkdk"
        p["nbody_softening"] = 1
        rs = lo + LV*(0.5 + 0.2*g.normal(size=(ns, nd)))
        l2, a2 = vgen.hydro_arrays(nd, rs, 0.3*g.normal(size=(ns, nd)), np.full(ns, .1), None, np.full(ns, .05*L), typ="star")
        lines += l2
        arr.update(a2)
    return vlib.params_script(p) + ["sim", "prepython"] + lines, arr, p


def boxlen(p, nd):
    """periodic lengths (0 where not periodic)"""
    return np.array([p["boxmax[%d]" % k] - p["boxmin[%d]" % k] if p["boundary_lhs[%d]" % k] == "periodic" else 0.0 for k in range(nd)])


def wrap(dr, L):
    """nearest image of difference vectors"""
    out = dr.copy()
    for k in range(len(L)):
        if L[k] > 0:
            out[:, k] -= L[k]*np.round(out[:, k]/L[k])
    return out
