"""C27: covariance (the same run from transformed initial states)."""
import os
import numpy as np
import vlib, vgen

DRIVERS = ["gdrv"]
RULE = ("cases = one initial state (SPH and meshless schemes, 1-3 dimensions, open or periodic boxes, gas with and without self-gravity, stars) evolved as it is and after a reflection, permutation of the axes, general rotation, "
        "translation, boost or rescaling of mass, length and time; every particle compared after the inverse transformation; non-trivial when >=20 bodies were compared after >=3 steps; distinct = case")
ASSUMPTIONS = ["one time-step level, so that rounding cannot move a body to another level", "gravity with every cell opened, so that the tree's axes do not enter"]
T = ["reflect", "permute", "rotate", "translate", "boost", "scale"]


def cases(tier, seed):
    g = vlib.rng_for("C27", seed)
    q = tier == "quick"
    out = []
    for i in range(216 if q else 2000):
        sim = ["sph", "mfvmuscl", "nbody", "sph", "sph", "mfvrk"][(i//6) % 6]
        if sim.startswith("mfv") and T[i % 6] == "boost":
            sim = "sph"
        nd = int(g.choice([1, 2, 3], p=[.2, .4, .4]))
        out.append({"t": T[i % 6], "sim": sim, "nd": nd, "per": int(g.uniform() < .5), "grav": int(g.uniform() < .5), "visc": str(g.choice(["mon97", "mon97mm97", "mon97cd2010"])), "seed": int(g.randint(1 << 30)), "cost": 1 + (nd == 3),
                    "tree": str(g.choice(["kdtree", "octtree", "bruteforce"])), "nb": str(g.choice(["lfkdk", "hermite4", "hermite6ts"]))})
    return out


def run_case(c, wd, res):
    c = dict(c)
    g = np.random.RandomState(c["seed"])
    nd, sim, t = c["nd"], c["sim"], c["t"]
    if t in ("permute", "rotate"):
        nd = max(nd, 2)
    star = sim == "nbody"
    if star:
        nd = 3
    per = c["per"] and not star and t != "rotate"
    grav = c["grav"] and sim == "sph" and not per and nd == 3 or star
    if star:
        n = 30
        r = g.normal(size=(n, nd))
    else:
        r = vgen.positions(g, nd, {1: 60, 2: 200, 3: 343}[nd], "jitter")*2 - 1
        n = len(r)
    lo, hi = np.full(nd, -1. if per else -40.), np.full(nd, 1. if per else 40.)
    v = .4*g.normal(size=(n, nd))
    m = g.uniform(.5, 1.5, n)/n
    u = 1 + g.uniform(0, 1, n)
    # transformation: r -> L*O r + D, v -> L/S O v + V, m -> M m
    O, L, S, M, D, V = np.eye(nd), 1., 1., 1., np.zeros(nd), np.zeros(nd)
    if t == "reflect":
        O = np.diag(np.where(np.arange(nd) == g.randint(nd), -1., g.choice([-1., 1.], nd)))
    elif t == "permute":
        O = np.eye(nd)[np.roll(np.arange(nd), 1 + g.randint(nd - 1))]
    elif t == "rotate":
        if sim.startswith("mfv"):
            # the limiters of the meshless schemes work on components
            O = np.eye(nd)
            O[:2, :2] = [[0, -1], [1, 0]]
        else:
            O = np.linalg.qr(g.normal(size=(nd, nd)))[0]
    elif t == "translate":
        D = g.uniform(-5, 5, nd)
    elif t == "boost":
        V = g.normal(size=nd)
    else:
        L, S, M = [float(2.**g.randint(-4, 5)) for _ in range(3)]
        if grav:
            # G = 1 ties the units together
            S = float(2.**g.randint(-2, 3))
            L = S*S
            M = L**3/S**2
    us = (L/S)**2
    R = [(r, v, m, u, lo, hi)]
    r2 = L*(r @ O.T) + D
    R.append((r2, L/S*(v @ O.T) + V, M*m, us*u, lo*L + D, hi*L + D))
    F = []
    for k, (x, w, mm, uu, l, h) in enumerate(R):
        lines, arr = vgen.hydro_arrays(nd, x, w, mm, None if star else uu, np.full(n, .1*(L if k else 1.)) if star else None, typ="star" if star else "sph")
        p = dict(vgen.BASE)
        p.update(ndim=nd, sim=sim, Nlevels=1, gas_eos="energy_eqn", Nhydro=0 if star else n, Nstar=n if star else 0, nbody=c["nb"] if star else "lfkdk", neib_search=c["tree"], self_gravity=int(grav), thetamaxsqd=1e-14,
                 gravity_mac="geometric", multipole="monopole", h_converge=1e-9, tabulated_kernel=0, zero_mass_flux=1, nbody_softening=int(star and c["nb"] == "lfkdk"), time_dependent_avisc="none")
        if sim == "sph":
            p.update(avisc="mon97")
            if c["visc"] == "mon97mm97":
                p.update(time_dependent_avisc="mm97")
        b = ["periodic" if per else "open"]*nd
        p.update(vgen.box_params(nd, l, h, b, b))
        f = vlib.run_driver(vlib.params_script(p) + ["sim", "prepython"] + lines + ["setup", "steps 4", "dump %d.dmp" % k], wd, arrays=arr, name="r%d" % k)
        if f.failure():
            if any(q in f.failure() for q in ("Smoothing length too large", "part.u", "press")):
                res.count("limits_of_the_scheme")
                return
            res.fail("run:%s:%s" % (sim, f.failure()), f.out[-500:])
            return
        d = vlib.Dump(os.path.join(wd, "%d.dmp" % k))
        X = d.star if star else d.part
        o = np.arange(X.n) if star else np.argsort(X["iorig"])
        F.append((d.s["t"], X, o))
    (ta, A, oa), (tb, B, ob) = F
    tag = "%s:%s:" % (sim, t)
    if not res.check(A.n == B.n, tag + "number", "%d %d" % (A.n, B.n)):
        return
    lim = 1e-7
    res.bound(tag + "time", abs(tb/S - ta)/ta, lim)
    x = ((B.vec("r", nd)[ob] - D - V*tb) @ O)/L
    dx = x - A.vec("r", nd)[oa]
    if per:
        dx -= 2*np.round(dx/2)
    res.bound(tag + "position", np.abs(dx).max(), lim)
    res.bound(tag + "velocity", np.abs(((B.vec("v", nd)[ob] - V) @ O)/(L/S) - A.vec("v", nd)[oa]).max(), lim)
    acc = A.vec("a", nd)[oa]
    res.bound(tag + "acceleration", np.abs((B.vec("a", nd)[ob] @ O)/(L/S**2) - acc).max()/(np.abs(acc).max() + 1e-3), 10*lim)
    if not star:
        for k, s in (("h", L), ("rho", M/L**nd), ("u", us), ("m", M)):
            res.bound(tag + k, np.abs(B[k][ob]/s/A[k][oa] - 1).max(), lim)
    res.count("bodies", A.n)
    res.nontrivial = A.n >= 20 and ta > 0
    res.sig = {k: c[k] for k in c if k != "cost"}
