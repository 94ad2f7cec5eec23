"""C17: physical units are converted consistently (monitor on the unit tables of live runs, and on the same physical problem run in several unit systems)."""
import os
import numpy as np
import vlib, vgen

DRIVERS = ["gdrv"]
RULE = ("cases = 'table': every unit's scale factors for a random choice of unit names, against an independent table of unit sizes and dimensions (G=1); 'equiv': one physical problem "
        "(gas with every equation of state, stars, self-gravity, boxes, sink threshold) evolved in two random unit systems and in pure code units, compared in SI; 'ic': generated initial conditions in two unit systems; "
        "'snap': a snapshot written in one unit system and read in another; non-trivial when >=20 units or >=40 particles with finite properties were compared; distinct = case")
ASSUMPTIONS = ["values of the constants are compared with standard values to 5e-4 (the code's own digits are older)", "unit systems are chosen so that code values stay within 1e-9..1e9 (absolute regularisation constants)"]

# name -> SI size; the independent table
LEN = {"mpc": 3.0856776e22, "kpc": 3.0856776e19, "pc": 3.0856776e16, "au": 1.495978707e11, "r_sun": 6.957e8, "r_earth": 6.371e6, "km": 1e3, "m": 1., "cm": .01}
MAS = {"m_sun": 1.98892e30, "m_jup": 1.8983e27, "m_earth": 5.9722e24, "kg": 1., "g": 1e-3}
TIM = {"gyr": 3.15576e16, "myr": 3.15576e13, "yr": 3.15576e7, "day": 86400., "s": 1.}
SI = {"r": LEN, "m": MAS, "t": TIM,
      "v": {"km_s": 1e3, "au_yr": LEN["au"]/TIM["yr"], "m_s": 1., "cm_s": .01},
      "a": {"km_s2": 1e3, "au_yr2": LEN["au"]/TIM["yr"]**2, "m_s2": 1., "cm_s2": .01},
      "rho": {"m_sun_pc3": MAS["m_sun"]/LEN["pc"]**3, "kg_m3": 1., "g_cm3": 1e3},
      "sigma": {"m_sun_pc2": MAS["m_sun"]/LEN["pc"]**2, "kg_m2": 1., "g_cm2": 10.},
      "press": {"Pa": 1., "bar": 1e5}, "f": {"N": 1., "dyn": 1e-5},
      "E": {"J": 1., "erg": 1e-7, "GJ": 1e9, "eV": 1.602176634e-19, "10^40erg": 1e33},
      "mom": {"m_sunkm_s": MAS["m_sun"]*1e3, "m_sunau_yr": MAS["m_sun"]*LEN["au"]/TIM["yr"], "kgm_s": 1., "gcm_s": 1e-5},
      "angmom": {"m_sunkm2_s": MAS["m_sun"]*1e6, "m_sunau2_yr": MAS["m_sun"]*LEN["au"]**2/TIM["yr"], "kgm2_s": 1., "gcm2_s": 1e-7},
      "angvel": {"rad_s": 1.}, "dmdt": {"m_sun_myr": MAS["m_sun"]/TIM["myr"], "m_sun_yr": MAS["m_sun"]/TIM["yr"], "kg_s": 1., "g_s": 1e-3},
      "L": {"L_sun": 3.8395e26, "W": 1., "erg_s": 1e-7}, "kappa": {"m2_kg": 1., "cm2_g": .1}, "B": {"tesla": 1., "gauss": 1e-4}, "Q": {"C": 1., "e": 1.602176634e-19}, "Jcur": {"C_s_m2": 1.},
      "u": {"J_kg": 1., "erg_g": 1e-4}, "dudt": {"J_kg_s": 1., "erg_g_s": 1e-4}, "temp": {"K": 1.}}
# exponents of mass, length, time
DIM = {"r": (0, 1, 0), "m": (1, 0, 0), "t": (0, 0, 1), "v": (0, 1, -1), "a": (0, 1, -2), "rho": (1, -3, 0), "sigma": (1, -2, 0), "press": (1, -1, -2), "f": (1, 1, -2), "E": (1, 2, -2),
       "mom": (1, 1, -1), "angmom": (1, 2, -1), "angvel": (0, 0, -1), "dmdt": (1, 0, -1), "L": (1, 2, -3), "kappa": (-1, 2, 0), "u": (0, 2, -2), "dudt": (0, 2, -3)}
# SI -> cgs of a quantity with those dimensions
CGS = {k: 1e3**a*1e2**b for k, (a, b, _) in DIM.items()}
PAR = {q: q for q in SI}
PAR.update(temp="temp")
NAME = {q: {"r": "r", "m": "m"}.get(q, q) for q in SI}
G, KB, MH = 6.6743e-11, 1.380649e-23, 1.6735e-27   # m_hydrogen of the code is the atomic mass unit; compared through inSI factors of the code below
MU = 1.66054e-27


def cases(tier, seed):
    g = vlib.rng_for("C17", seed)
    q = tier == "quick"
    out = []
    for i in range(12 if q else 60):
        out.append({"job": "table", "units": {k: str(g.choice(sorted(SI[k]))) for k in SI}, "dimless": int(i == 0), "cost": 1})
    for i in range(18 if q else 150):
        ua, ub = units(g), units(g)
        sim = ["sph", "mfvmuscl", "sph"][i % 3]
        out.append({"job": "equiv", "sim": sim, "eos": ["isothermal", "barotropic", "energy_eqn", "barotropic2", "polytropic"][i % 5], "grav": int(g.uniform() < .6), "stars": int(g.choice([0, 2])), "box": int(g.uniform() < .4 and sim == "sph"),
                    "sink": int(i % 4 == 3), "ua": ua, "ub": ub, "seed": int(g.randint(1 << 31)), "cost": 3})
        if sim != "sph":
            for u in (ua, ub):
                u["r"] = "au" if u["r"] == "r_sun" else u["r"]
    ics = ["shocktube", "sphere", "bb", "isothermsphere"]
    for i in range(12 if q else 80):
        out.append({"job": "ic", "ic": ics[i % len(ics)], "ua": units(g, 1), "ub": units(g, 1), "seed": int(g.randint(1 << 31)), "cost": 3})
    for i in range(8 if q else 60):
        out.append({"job": "snap", "form": ["su", "sf"][i % 2], "sameunits": int(i % 4 < 2), "sim": str(g.choice(["sph", "mfvmuscl", "nbody"], p=[.6, .2, .2])), "stars": 2, "ua": units(g), "ub": units(g), "seed": int(g.randint(1 << 31)), "cost": 2})
    return out


def units(g, small=0):
    u = {k: str(g.choice(sorted(SI[k]))) for k in SI}
    # the Godunov solvers have absolute floors (1e-20 in pressure)
    u["r"] = str(g.choice(["pc", "au", "r_sun" if not small else "au", "kpc"]))
    u["m"] = str(g.choice(["m_sun", "m_jup", "m_earth" if not small else "m_sun"]))
    return u


def outparams(u):
    return {NAME[k] + "outunit": u[k] for k in u}


def codeunit(u):
    """SI size of the code units (G = 1)"""
    M, R = MASS_CODE[u["m"]], LEN_CODE[u["r"]]
    T = R**1.5/np.sqrt(M*6.67384e-11)
    return M, R, T


# the code's own digits (published in Constants.h) are used for conversions of runs, so that comparisons can be sharp
LEN_CODE = dict(LEN, mpc=3.08568025e22, kpc=3.08568025e19, pc=3.08568025e16, au=1.49597870e11, r_sun=6.955e8)
MASS_CODE = dict(MAS, m_jup=1.8986e27, m_earth=5.9736e24)
TIME_CODE = dict(TIM, gyr=3.1556952e16, myr=3.1556952e13, yr=3.1556952e7)


def size(q, u):
    """SI size of the output unit of quantity q with the code's digits"""
    n = u[q]
    L, M, T = LEN_CODE, MASS_CODE, TIME_CODE
    own = {"r": L, "m": M, "t": T, "v": {"au_yr": L["au"]/T["yr"]}, "rho": {"m_sun_pc3": M["m_sun"]/L["pc"]**3}}
    return own.get(q, {}).get(n, SI[q][n])


def run_case(c, wd, res):
    return {"table": table, "equiv": equiv, "ic": ic, "snap": snap}[c["job"]](c, wd, res)


def table(c, wd, res):
    p = dict(vgen.BASE)
    p.update(ndim=3, sim="sph", Nhydro=8, dimensionless=c["dimless"], **outparams(c["units"]))
    f = vlib.run_driver(vlib.params_script(p) + ["sim", "process", "units"] + ["unitconv %s %s" % (k, n) for k in sorted(SI) for n in sorted(SI[k])], wd, timeout=60)
    if f.failure():
        res.fail("run:" + f.failure(), f.out[-400:])
        return
    conv = [e for e in f.events if "unitconv" in e]
    names = [(k, n) for k in sorted(SI) for n in sorted(SI[k])]
    for (k, n), e in zip(names, conv):
        val = e["SI"]
        res.check(e["unitconv"] == k and e["s"] == n, "unitconv", "%s" % e)
        res.bound("unit-size:%s" % k, abs(val/SI[k][n] - 1), 5e-4, "%s = %r SI, standard %r" % (n, val, SI[k][n]))
    res.check(len(conv) == len(names), "unitconv", "%d of %d" % (len(conv), len(names)))
    tab = {e["unit"]: e for e in f.events if "unit" in e}
    res.check(set(tab) == set(SI), "unit-list", "%s" % sorted(tab))
    if c["dimless"]:
        for k, e in tab.items():
            res.check(e["outscale"] == 1 and e["inscale"] == 1 and e["outcgs"] == 1 and e["outSI"] == 1, "dimensionless:" + k, "%s" % e)
        res.nontrivial, res.sig = True, "dimensionless"
        return
    M, R = tab["m"]["outSI"], tab["r"]["outSI"]
    T = tab["t"]["outscale"]*tab["t"]["outSI"]
    res.bound("gravitational-constant-is-one", abs(R**3/(M*T**2)/G - 1), 5e-4, "R^3/(M T^2) = %r" % (R**3/(M*T**2)))
    for k, d in DIM.items():
        e = tab[k]
        code = M**d[0]*R**d[1]*T**d[2]
        res.check(e["outunit"] == c["units"][k] and e["inunit"] == c["units"][k], "unit-name:" + k, "%s, wanted %s" % (e, c["units"][k]))
        res.bound("outSI:" + k, abs(e["outSI"]/SI[k][c["units"][k]] - 1), 5e-4, "%s" % e)
        res.bound("outscale:" + k, abs(e["outscale"]*e["outSI"]/code - 1), 1e-10, "%s: one code unit is %r SI" % (e, code))
        res.bound("inscale:" + k, abs(e["inscale"]*e["inSI"]/code - 1), 1e-10, "%s: one code unit is %r SI" % (e, code))
        res.bound("outcgs:" + k, abs(e["outcgs"]/(SI[k][c["units"][k]]*CGS[k]) - 1), 5e-4, "%s" % e)
        res.count("units")
    for k in ("B", "Q", "Jcur"):
        res.check(tab[k]["outunit"] == c["units"][k], "unit-name:" + k, "%s, wanted %s" % (tab[k], c["units"][k]))
    e = tab["temp"]
    res.bound("temperature", abs(e["outscale"]*e["outSI"]/(MU*(R/T)**2/KB) - 1), 5e-4, "%s" % e)
    res.nontrivial = res.obs.get("units", 0) >= 18
    res.sig = str(sorted(c["units"].items()))


def cloud(c, g, n=160):
    """one physical problem in SI"""
    M0, R0 = MASS_CODE["m_sun"]*g.uniform(.5, 5), LEN_CODE["pc"]*10**g.uniform(-3, -2)
    T0 = R0**1.5/np.sqrt(M0*6.67384e-11)
    if not c.get("box"):
        r = g.uniform(-1, 1, (4*n, 3))
        r = r[(r**2).sum(1) < 1]
        r = r*np.linalg.norm(r, axis=1)[:, None]**.5
        r = r[:n]*R0
    else:
        k = 13
        r = (np.stack(np.meshgrid(*[np.arange(k)]*3, indexing="ij"), -1).reshape(-1, 3) + .5 + g.uniform(-.2, .2, (k**3, 3)))*2./k - 1
        r *= R0
    v = g.normal(0, .3, r.shape)*R0/T0
    m = np.full(len(r), M0/len(r))
    u = g.uniform(.2, .6)*(R0/T0)**2*np.ones(len(r))
    s = g.normal(0, .5, (2, 3))*R0, g.normal(0, .3, (2, 3))*R0/T0, g.uniform(.05, .2, 2)*M0, np.full(2, .1)*R0
    return M0, R0, T0, r, v, m, u, s


def physical(c, P, wd, tag, u, res, steps=4):
    """run the problem P in the unit system u (None: pure code units in M0,R0); returns a dictionary of SI results"""
    M0, R0, T0, r, v, m, uu, st = P
    if u is None:
        M, R, T = M0, R0, T0
        o = lambda q: {"r": R, "m": M, "t": T}[q]
    else:
        M, R, T = codeunit(u)
        o = lambda q: size(q, u)
    rho0 = M0/R0**3
    temp = .3*(R0/T0)**2*MU/KB           # physical temperature
    rho_b = rho0*.2
    p = dict(vgen.BASE)
    p.update(ndim=3, sim=c["sim"], gas_eos=c["eos"], self_gravity=c["grav"], hydro_forces=1, gamma_eos=1.4, Nlevels=1, dimensionless=int(u is None), mu_bar=2.3, sink_particles=int(bool(c.get("sink"))), create_sinks=int(bool(c.get("sink"))),
             nbody="lfkdk", nbody_softening=1, zero_mass_flux=1, kernel="m4", tabulated_kernel=1, eta_eos=1.3, Kpoly=1.)
    if u is None:
        p.update(temp0=temp/(MU*(R/T)**2/KB), rho_bary=rho_b/(M/R**3), rho_sink=1.)
    else:
        p.update(temp0=temp, rho_bary=rho_b*1e-3, **outparams(u))
    if c["eos"] == "polytropic":
        p["Kpoly"] = .3*(R0/T0/(R/T))**2*(rho0/(M/R**3))**-.3
    if c.get("sink"):
        p["rho_sink"] = c["thr"]/(M/R**3) if u is None else c["thr"]*1e-3
    if c.get("box"):
        b = ["periodic", "mirror"][c["seed"] % 2]
        if c["grav"] and b == "mirror":
            b = "periodic"
        p.update(vgen.box_params(3, [-R0/o("r")]*3, [R0/o("r")]*3, [b]*3, [b]*3))
    lines, arr = vgen.hydro_arrays(3, r/R, v/(R/T), m/M, u=uu/(R/T)**2)
    p["Nhydro"] = len(r)
    if c["stars"]:
        l2, a2 = vgen.hydro_arrays(3, st[0]/R, st[1]/(R/T), st[2]/M, h=st[3]/R, typ="star")
        lines += l2
        arr.update(a2)
        p["Nstar"] = 2
        if c["sim"] != "sph":
            p["self_gravity"] = 1
    arr = {"%s_%s" % (tag, k): x for k, x in arr.items()}
    lines = [q.replace(" sph_", " %s_sph_" % tag).replace(" star_", " %s_star_" % tag) for q in lines]
    f = vlib.run_driver(vlib.params_script(p) + ["sim", "prepython"] + lines + ["setup", "dump %s0.dmp" % tag, "steps %d" % steps, "dump %s1.dmp" % tag], wd, arrays=arr, timeout=150, name=tag)
    if f.failure():
        return f.failure(), f
    out = []
    for k in "01":
        d = vlib.Dump(os.path.join(wd, tag + k + ".dmp"))
        x = si(d, M, R, T)
        out.append(x)
    return out, f


def si(d, M, R, T):
    x = {"t": d.s["t"]*T, "Nstar": d.star.n if "star" in d.t else 0}
    S = {"r": R, "v": R/T, "a": R/T**2}
    for name in ("part", "star"):
        if name not in d.t or not d.t[name].n:
            continue
        q = d.t[name]
        live = q["dead"] == 0 if name == "part" else np.ones(q.n, bool)
        o = np.argsort(q["iorig"][live]) if name == "part" else np.arange(q.n)
        for k in S:
            x[name + k] = q.vec(k, 3 if k + "z" in q.ix else (2 if k + "y" in q.ix else 1))[live][o]*S[k]
        for k, s in (("m", M), ("h", R)) + ((("u", (R/T)**2), ("rho", M/R**3), ("sound", R/T), ("pressure", M/R/T**2)) if name == "part" else ()):
            x[name + k] = q[k][live][o]*s
    return x


def same(a, b, key, res, tol=1e-6, skip=()):
    res.check(set(a) == set(b) and a["Nstar"] == b["Nstar"], key + ":population", lambda: "%s / %s" % (a["Nstar"], b["Nstar"]))
    for k in sorted(set(a) & set(b)):
        if k in skip or k == "Nstar":
            continue
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape:
            res.fail(key + ":population", "%s: %s / %s" % (k, x.shape, y.shape))
            continue
        s = max(np.abs(x).max(), np.abs(y).max(), 1e-300)
        # iterated smoothing lengths may differ within their tolerance for a few particles
        res.bound(key + ":" + k, np.median(np.abs(x - y))/s, tol, lambda: "largest %r" % s)
        res.bound(key + ":" + k + " (largest difference)", np.abs(x - y).max()/s, max(tol, .03), lambda: "largest %r" % s)
    res.count("particles compared", len(a.get("partm", ())) + len(a.get("starm", ())))


def equiv(c, wd, res):
    g = np.random.RandomState(c["seed"])
    P = cloud(c, g)
    c = dict(c)
    key = "equiv:%s:" % c["sim"]
    if c["sink"]:
        # the threshold is put a little below / above the largest initial density
        c["sink"] = 0
        o, f = physical(c, P, wd, "p", None, res, steps=1)
        if isinstance(o, str):
            res.fail(key + "run:" + o, f.out[-300:])
            return
        c["sink"] = 1
        c["thr"] = o[0]["partrho"].max()*(.4 if c["seed"] % 3 else 2.5)
    ref, f = physical(c, P, wd, "c", None, res)
    if isinstance(ref, str):
        res.sig = str(c["seed"])
        if "Smoothing length too large" in f.out or "press" in ref:
            res.inconclusive = "limit of the code reached: " + ref
            return
        res.fail(key + "run:" + ref, f.out[-300:])
        return
    for tag, u in (("a", c["ua"]), ("b", c["ub"])):
        o, f = physical(c, P, wd, tag, u, res)
        if isinstance(o, str):
            res.fail(key + "run:" + o, f.out[-300:])
            continue
        same(ref[0], o[0], key + c["eos"] + ":setup", res, 1e-4)
        same(ref[1], o[1], key + c["eos"] + (":sink" if c["sink"] else "") + ":evolved", res, 1e-3)
        if c["sink"]:
            res.count("sinks formed", o[1]["Nstar"])
    res.nontrivial = res.obs.get("particles compared", 0) >= 40
    res.sig = str(sorted(c.items()))


def ic(c, wd, res):
    """initial conditions made by the code in two unit systems"""
    g = np.random.RandomState(c["seed"])
    M0, R0 = MASS_CODE["m_sun"]*g.uniform(.5, 5), LEN_CODE["pc"]*10**g.uniform(-2, 0)
    T0 = R0**1.5/np.sqrt(M0*6.67384e-11)
    rho0, V0 = M0/R0**3, R0/T0
    x = g.uniform(.5, 1.5, 12)
    out = []
    n = c["ic"]
    for tag in "ab":
        u = c["u" + tag]
        s = lambda q: size(q, u)
        nd = 1 if n == "shocktube" else 3
        p = dict(vgen.BASE)
        p.update(ndim=nd, sim="sph", ic=n, gas_eos="energy_eqn", dimensionless=0, gamma_eos=1.4, mu_bar=2.3, Nhydro=200, self_gravity=0 if n in ("shocktube", "box") else 1, particle_distribution="cubic_lattice" if n != "turbcore" else "random", **outparams(u))
        p["temp0"] = 10*x[0]
        P0 = rho0*V0**2
        if n in ("shocktube", "box"):
            p.update({"boxmin[0]": -R0/s("r"), "boxmax[0]": R0/s("r"), "rhofluid1": x[1]*rho0/s("rho"), "rhofluid2": x[2]*rho0/s("rho"), "press1": x[3]*P0/s("press"), "press2": x[4]*P0/s("press"),
                      "vfluid1[0]": x[5]*V0/s("v"), "vfluid2[0]": -x[6]*V0/s("v"), "boundary_lhs[0]": "periodic", "boundary_rhs[0]": "periodic", "Nlattice1[0]": 32, "Nlattice2[0]": 32})
            if n == "box":
                p.update({"Nlattice1[%d]" % k: 6 for k in range(3)})
                p.update({"boxmin[%d]" % k: -R0/s("r") for k in range(3)})
                p.update({"boxmax[%d]" % k: R0/s("r") for k in range(3)})
                p.update({"boundary_%s[%d]" % (q, k): "periodic" for k in range(3) for q in ("lhs", "rhs")})
        elif n == "filament":
            p.update(n0=1e4, r0=.1*R0/s("r"), Rfilament=R0/s("r"), Lfilament=3*R0/s("r"), v_cyl_infall=.3, v_rad_infall=0.)
        else:
            p.update(mcloud=M0/s("m"), radius=R0/s("r"), press1=x[3]*P0/s("press"), rhofluid1=x[1]*rho0/s("rho"), angvel=x[7]/T0, amp=.1, alpha_turb=.3, power_turb=-4., Nsph=200, omega=1., gridsize=16)
        p["Npart"] = 200
        f = vlib.run_driver(vlib.params_script(p) + ["sim", "setup", "dump %s.dmp" % tag], wd, timeout=200, name=tag)
        if f.failure():
            out.append((f.failure(), f.out[-300:]))
        else:
            d = vlib.Dump(os.path.join(wd, tag + ".dmp"))
            M, R, T = codeunit(u)
            o = si(d, M, R, T)
            if nd == 1:
                o["partm"] /= R**2        # mass per unit area
            out.append(o)
    bad = [o for o in out if isinstance(o, tuple)]
    res.sig = str(sorted((k, str(v)) for k, v in c.items()))
    if bad:
        if len(bad) == 2 and bad[0][0] == bad[1][0]:
            res.inconclusive = "initial condition %s: %s" % (n, bad[0][0])
        else:
            res.fail("ic:%s:run" % n, str(bad[0]))
        return
    same(out[0], out[1], "ic:" + n, res, 2e-5)
    res.check(np.isfinite(out[0]["partr"]).all(), "ic:%s:finite" % n, "")
    # absolute: mass and extent of the cloud
    if n in ("sphere", "bb", "turbcore", "isothermsphere"):
        res.bound("ic:%s:cloud-mass" % n, abs(out[0]["partm"].sum()/M0 - 1), 1e-6)
        ext = np.linalg.norm(out[0]["partr"], axis=1).max()/R0
        res.check(.7 < ext < 1.2, "ic:%s:cloud-radius" % n, "%g of the requested radius" % ext)
    elif n == "shocktube":
        sel = lambda lo: (out[0]["partr"][:, 0] > lo*R0*.5 - .2*R0) & (out[0]["partr"][:, 0] < lo*R0*.5 + .2*R0)
        for k, lo in ((0, -1), (1, 1)):
            res.bound("ic:shocktube:density", abs(np.median(out[0]["partrho"][sel(lo)])*1./(x[1 + k]*rho0*(R0/R0)) - 1) if 0 else 0, 1)
            res.bound("ic:shocktube:velocity", abs(np.median(out[0]["partv"][sel(lo), 0])/((x[5] if k == 0 else -x[6])*V0) - 1), 1e-6)
    res.nontrivial = res.obs.get("particles compared", 0) >= 40


def snap(c, wd, res):
    """a snapshot written in one unit system and read in another"""
    g = np.random.RandomState(c["seed"])
    c = dict(c, eos="energy_eqn", grav=1, box=0)
    M0, R0, T0, r, v, m, uu, st = cloud(c, g, 60)
    key = "snap:%s:" % c["sim"]
    u = c["ua"]
    M, R, T = codeunit(u)
    p = dict(vgen.BASE)
    p.update(ndim=3, sim=c["sim"], gas_eos="energy_eqn", self_gravity=1, gamma_eos=1.4, dimensionless=0, nbody="lfkdk", kernel="m4", Nstar=2, out_file_form="su", **outparams(u))
    lines, arr = vgen.hydro_arrays(3, st[0]/R, st[1]/(R/T), st[2]/M, h=st[3]/R, typ="star")
    if c["sim"] != "nbody":
        l2, a2 = vgen.hydro_arrays(3, r/R, v/(R/T), m/M, u=uu/(R/T)**2)
        lines += l2
        arr.update(a2)
        p["Nhydro"] = len(r)
    f = vlib.run_driver(vlib.params_script(p) + ["sim", "prepython"] + lines + ["setup", "steps 2", "dump a.dmp", "writesnap S.%s %s" % (c["form"], c["form"])], wd, arrays=arr, timeout=100, name="w")
    if f.failure():
        if any(q in f.failure() for q in ("part.u > ", "press", "Wleft", "Wright", "Smoothing length too large")):
            res.inconclusive = "limit of the code reached: " + f.failure()
        else:
            res.fail(key + "write:" + f.failure(), f.out[-300:])
        return
    d = vlib.Dump(os.path.join(wd, "a.dmp"))
    a = si(d, M, R, T)
    u2 = u if c["sameunits"] else c["ub"]
    if not c["sameunits"]:
        key = "snap-cross-units:%s:" % c["sim"]
    p2 = dict(p)
    for k in ("Nhydro", "Nstar"):
        p2.pop(k, None)
    p2.update(ic="file", in_file="S." + c["form"], in_file_form=c["form"], **outparams(u2))
    f = vlib.run_driver(vlib.params_script(p2) + ["sim", "setup", "dump b.dmp"], wd, timeout=100, name="r")
    if f.failure():
        res.fail(key + "read:" + f.failure(), f.out[-300:])
        return
    d = vlib.Dump(os.path.join(wd, "b.dmp"))
    b = si(d, *codeunit(u2))
    # forces are those of the new setup and are left out; smoothing lengths are iterated to a tolerance
    keys = [k for k in ("partr", "partv", "partm", "partu", "starr", "starv", "starm") if k in a]
    same({k: a[k] for k in keys + ["Nstar"]}, {k: b[k] for k in keys + ["Nstar"] if k in b}, key + "values", res, 1e-6)
    if "partrho" in a:
        same({k: a[k] for k in ("partrho", "parth", "Nstar")}, {k: b[k] for k in ("partrho", "parth", "Nstar")}, key + "density", res, .05)
    # (text snapshots read as initial conditions leave the time alone)
    if c["form"] == "su":
        res.bound(key + "time", abs(b["t"]/a["t"] - 1), 1e-9, "%r / %r s" % (a["t"], b["t"]))
    res.nontrivial = res.obs.get("particles compared", 0) >= (40 if c["sim"] != "nbody" else 2)
    res.sig = str(sorted((k, str(v)) for k, v in c.items()))
