"""C22: reported diagnostics equal sums over the particles (monitor: sums over the dumped state against the diagnostics record, its file and the energy error)."""
import os
import numpy as np
import vlib, vgen, vgas

DRIVERS = ["gdrv"]
RULE = ("cases = runs (SPH, meshless, N-body; with stars, accreting sinks, removed particles) x block levels x dimension x units; at the start and after several steps (also in the middle of blocks) the diagnostics record is compared with sums over "
        "the dumped live particles, stars and sink spins made in extended precision, the rows of the diagnostics file with the record in output units, the energy error with the initial record, and at the start the potential energy with a direct sum over pairs; "
        "non-trivial when >=3 records of >=2 bodies were judged; distinct = configuration")
ASSUMPTIONS = ["the count of gas particles in the record includes the dead ones listed separately", "potentials of the two-step leapfrog belong to the middle of the step"]
K3 = "xyz"


def cases(tier, seed):
    g = vlib.rng_for("C22", seed)
    out = []
    for i in range(60 if tier == "quick" else 900):
        z = g.uniform()
        if z < .2:
            c = {"sim": "nbody", "nd": int(g.choice([2, 3])), "levels": int(g.choice([1, 5])), "n": int(g.choice([2, 5, 30])), "seed": int(g.randint(1 << 30)), "nbody": str(g.choice(["hermite4", "lfkdk", "hermite4ts", "lfdkd"])), "soft": int(g.choice([0, 1])), "grav": 1, "bc": "open", "stars": 1}
        else:
            c = vgas.gen(g, sims=("sph", "mfvmuscl"), p_sim=(.6, .4), bcs=("open", "periodic", "mirror"), nds=(1, 2, 3), p_nd=(.2, .4, .4), grav=.6, ics=("smooth", "collide"), levels=(1, 4, 8), stars=.6)
            if i >= 54:
                c = vgas.gen(g, sims=("sph", "mfvmuscl"), p_sim=(.8, .2), bcs=("open",), nds=(3,), p_nd=(1,), grav=1, ics=("smooth", "collide"), levels=(1, 4), stars=1)
            if c["dkd"] and c["nd"] == 1:
                c["dkd"] = 0
        c.update(job="diag", dim=int(g.uniform() < .4 and c["bc"] == "open"), sinks=int(c["stars"] and c["sim"] == "sph" and c["nd"] == 3 and g.uniform() < .6), kill=int(g.choice([0, 0, 1, 7])), binary=int(g.uniform() < .2 and c["nd"] == 3 and c["stars"]), cost=2,
                 units={"r": str(g.choice(["pc", "au"])), "m": str(g.choice(["m_sun", "m_jup"])), "t": str(g.choice(["yr", "myr"])), "E": str(g.choice(["erg", "J"])), "mom": "m_sunkm_s", "angmom": "m_sunkm2_s", "v": str(g.choice(["km_s", "cm_s"])), "f": str(g.choice(["N", "dyn"]))})
        if i >= 54:
            c.update(sinks=1, wide=1, dkd=0, stars=2, grav=1)
        out.append(c)
    return out


def sums(d, nd):
    """-> dict of sums and of the sums of absolute contributions (rounding scale)"""
    L = np.longdouble
    S, A = {}, {}
    rows = []
    nh = ndead = ns = 0
    u = L(0)
    ua = L(0)
    if "part" in d.t and d.t["part"].n:
        t = d.t["part"]
        live = t["dead"] == 0
        nh, ndead = t.n, int((~live).sum())
        rows.append([t["m"][live], t.vec("r", nd)[live], t.vec("v", nd)[live], t.vec("a", nd)[live], t["gpot"][live]])
        w = t["m"][live].astype(L)*t["u"][live]
        u, ua = w.sum(), abs(w).sum()
    if "star" in d.t and d.t["star"].n:
        t = d.t["star"]
        ns = t.n
        rows.append([t["m"], t.vec("r", nd), t.vec("v", nd), t.vec("a", nd), t["gpot"]])
    m = np.concatenate([x[0] for x in rows]).astype(L)
    r, v, a = (np.concatenate([x[k] for x in rows]).astype(L) for k in (1, 2, 3))
    gp = np.concatenate([x[4] for x in rows]).astype(L)
    full = lambda x: np.concatenate([x, np.zeros((len(x), 3 - nd))], 1)         # noqa
    lr = np.cross(full(r).astype(float), full(v).astype(float))*m.astype(float)[:, None]
    lr = np.stack([m*(full(r)[:, (k + 1) % 3]*full(v)[:, (k + 2) % 3] - full(r)[:, (k + 2) % 3]*full(v)[:, (k + 1) % 3]) for k in range(3)], 1)
    add = lambda k, x: (S.__setitem__(k, x.sum(0)), A.__setitem__(k, abs(x).sum(0)))        # noqa
    add("mtot", m)
    add("ketot", .5*m*(v**2).sum(1))
    add("gpetot", -.5*m*gp)
    add("rcom", m[:, None]*r/m.sum())
    add("vcom", m[:, None]*v/m.sum())
    add("mom", m[:, None]*v)
    add("force", m[:, None]*a)
    add("angmom", lr)
    if "sink" in d.t and d.t["sink"].n:
        spin = np.stack([d.t["sink"]["L" + k] for k in K3], 1)
        S["angmom"] = S["angmom"] + spin.sum(0)
        A["angmom"] = A["angmom"] + abs(spin).sum(0)
    S["utot"], A["utot"] = u, ua
    S["Nhydro"], S["Nstar"], S["Ndead"] = nh, ns, ndead
    return S, A


def judge(d, c, p, res, tag, scale, row):
    nd = p["ndim"]
    S, A = sums(d, nd)
    g = d.s
    hydro, grav = c["sim"] != "nbody" and p.get("hydro_forces", 1), S["Nstar"] > 0 or p.get("self_gravity", 0) == 1
    S["Etot"] = S["ketot"] + (S["utot"] if hydro else 0) + (S["gpetot"] if grav else 0)
    A["Etot"] = A["ketot"] + (A["utot"] if hydro else 0) + (A["gpetot"] if grav else 0)
    n = S["Nhydro"] + S["Nstar"]
    for k in ("Nhydro", "Nstar", "Ndead"):
        res.check(g["diag_" + k] == S[k], tag + k, "%s, wanted %s" % (g["diag_" + k], S[k]))
    tol = 4e-16*(n + 10)

    def have(k, i=None):
        return g["diag_" + k if i is None else "diag_" + k + (K3[i] if ("diag_" + k + K3[i]) in g else str(i))]
    F = []
    for k in ("mtot", "Etot", "ketot", "utot", "gpetot"):
        F.append(have(k))
        res.bound(tag + k, float(abs(F[-1] - S[k])/(tol*A[k] + L0)), 1.0, "%r, wanted %r" % (F[-1], float(S[k])))
    for k in ("angmom", "rcom", "vcom", "mom", "force"):
        for i in range(3 if k == "angmom" else nd):
            F.append(have(k, i))
            if k == "angmom" and nd == 1:
                continue
            res.bound(tag + k, float(abs(F[-1] - S[k][i])/(tol*A[k][i] + tol*np.max(A[k]) + L0)), 1.0, "%r, wanted %r" % (F[-1], float(S[k][i])))
    # the file
    u = [scale[x] for x in ["m", "E", "E", "E", "E"] + ["angmom"]*3 + ["r"]*nd + ["v"]*nd + ["mom"]*nd + ["f"]*nd]
    w = [g["t"]*scale["t"], g["Nsteps"], g["timestep"]*scale["t"], None, None, None, S["Nhydro"], S["Nstar"], S["Ndead"]] + [a*b for a, b in zip(F, u)]
    ok = res.check(len(row) == len(w), tag + "file:columns", "%d, wanted %d" % (len(row), len(w)))
    for i, (a, b) in enumerate(zip(row, w)):
        if b is not None and ok:
            if not res.check(abs(a - b) <= 1.1e-5*abs(b) + 1e-300, tag + "file:column%d" % i, "%r, wanted %r" % (a, b)):
                break
    return S


L0 = 1e-300


def run_case(c, wd, res):
    if c["sim"] == "nbody":
        g = np.random.RandomState(c["seed"])
        nd = c["nd"]
        p = dict(vgen.BASE)
        p.update(sim="nbody", ndim=nd, nbody=c["nbody"], nbody_softening=c["soft"], Nlevels=c["levels"], Nstar=c["n"], nbody_mult=.05)
        lines, arr = vgen.hydro_arrays(nd, g.normal(0, 1, (c["n"], nd)), g.normal(0, .3, (c["n"], nd)), g.uniform(.2, 1, c["n"]), h=np.full(c["n"], .05), typ="star")
    else:
        sc, arr, p = vgas.build(c)
        lines = [x for x in sc if x.startswith("array ")]
        nd = c["nd"]
        if c["sinks"]:
            p.update(sink_particles=1, create_sinks=0, smooth_accretion=0, rho_sink=1e9 if not c["dim"] else 1e12, nbody="lfkdk")
            if c.get("wide"):
                arr["star_h.raw"] = 2*arr["star_h.raw"]
    p["binary_stats"] = c["binary"]
    if c["dim"]:
        p.update({k + "outunit": v for k, v in c["units"].items()})
        p["dimensionless"] = 0
    stops = [0, 1, 3, 9]
    sc = vlib.params_script(p) + ["sim", "prepython"] + lines + ["units", "setup", "dump d0.dmp diag"]
    for a, b in zip(stops, stops[1:]):
        sc += ["steps %d" % (b - a)]
        if b == 9 and c["kill"] and c["sim"] != "nbody":
            sc += ["kill " + " ".join(str(5*k) for k in range(c["kill"]))]
        sc += ["dump d%d.dmp diag" % b]
    f = vlib.run_driver(sc, wd, arrays=arr, timeout=100, name="run")
    fl = f.failure()
    if fl:
        if any(z in fl for z in ("part.u > ", "press", "Wleft", "Wright", "Smoothing length too large", "half")):
            res.inconclusive = "limit of the code reached: " + fl
        else:
            res.fail("run:" + fl, f.out[-300:])
        return
    scale = {e["unit"]: e["outscale"] for e in f.events if "unit" in e}
    rows = [[float(x) for x in l.split()] for l in open(os.path.join(wd, "V.diag"))]
    first = rows[0]
    rows = rows[-len(stops):]                       # one row per dump, after those of the setup
    E0 = None
    for b, row in zip(stops, rows):
        d = vlib.Dump(os.path.join(wd, "d%d.dmp" % b))
        S = judge(d, c, p, res, "start:" if b == 0 else "step:", scale, row)
        if b == 0:
            E0 = S["Etot"]
            for k in ("mtot", "Etot", "ketot", "utot", "gpetot"):
                res.check(d.s["diag0_" + k] == d.s["diag_" + k], "initial-record:" + k, "%r, now %r" % (d.s["diag0_" + k], d.s["diag_" + k]))
            res.check(all(abs(x - y) <= 1.1e-5*abs(y) for x, y in zip(first, row) if abs(y) < 1e290), "file:first-row", "%s, %s" % (first[:12], row[:12]))
            pairs(d, c, p, res)
        else:
            res.check(abs(d.s["diag0_Etot"] - float(E0)) <= 1e-12*abs(float(E0)) + 1e-300, "initial-record:kept", "")
        res.count("records")
        if c.get("sinks"):
            if b == 0:
                ms = d.t["star"]["m"].sum()
            elif d.t["star"]["m"].sum() > ms:
                res.count("records with accreted mass")
    res.nontrivial = True
    res.sig = str(sorted((k, str(v)) for k, v in c.items() if k not in ("seed", "cost")))


def pairs(d, c, p, res):
    """potential energy by a direct sum (unsoftened stars only: others are judged through each potential by C03 and C10)"""
    if c["sim"] == "nbody" and not c["soft"]:
        nd = p["ndim"]
        t = d.t["star"]
        r, m = t.vec("r", nd), t["m"]
        i, j = np.triu_indices(len(m), 1)
        E = -(m[i]*m[j]/np.linalg.norm(r[i] - r[j], axis=1)).sum()
        res.bound("start:pairs", abs(d.s["diag_gpetot"]/E - 1), 1e-10)
        res.count("pair sums")
