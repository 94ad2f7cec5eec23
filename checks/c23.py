"""C23: the same problem gives the same bits again (other memory contents, earlier work in the process, output in between) and, to
rounding, the same state whatever the order of the particles, the tree or its leaf size."""
import os
import numpy as np
import vlib, vgas, vgen
import c12

VARIANTS = ["plain", "pat"]
RULE = ("cases = pairs of runs; 'repeat' = the same run with other heap contents, environment size and (build with pattern-initialised automatic variables) stack contents, "
        "'after' = alone / after another simulation in the same process, 'output' = without / with snapshots, diagnostics, restart files and interactive stepping in between: bit-identical particles and stars; "
        "'permute' = input order shuffled, 'struct' = other tree and leaf size: equal to rounding; non-trivial when particles moved and both runs reached the same step; distinct = case parameters")
ASSUMPTIONS = ["x86-64, one process, one thread per run", "a pair compared to rounding is followed for a few steps with global time steps (block levels are assigned per tree cell)"]
UP = ("MALLOC_PERTURB_", "VERIF_PAD")


def cases(tier, seed):
    g = vlib.rng_for("C23", seed)
    out = []
    n = 72 if tier == "quick" else 900
    for i in range(n):
        mode = str(g.choice(["repeat", "after", "output", "permute", "struct"], p=[.25, .15, .15, .25, .2]))
        what = str(g.choice(["gas", "sink", "nbody", "ic", "dust"], p=[.5, .15, .12, .11, .12])) if mode not in ("permute", "struct") else str(g.choice(["gas", "nbody"], p=[.85, .15])) if mode == "permute" else "gas"
        exact = mode not in ("permute", "struct")
        if what == "sink":
            c = dict(c12.cases("quick", int(g.randint(1 << 30)))[0])
            c["seed"] = int(g.randint(1 << 30))
        else:
            c = vgas.gen(g, sims=("sph", "mfvmuscl", "mfvrk"), p_sim=[.55, .37, .08], levels=(1, 2, 4, 8) if exact else (1,), stars=.5, grav=.45)
        c.update(i=i, pair=mode, what=what, steps={1: 20, 2: 8, 3: 4}[c["nd"]], cost=4*c["nd"])
        if what == "gas":
            if not exact:
                c["kind"] = str(g.choice(["jitter", "uniform", "clustered"]))
                c["tab"] = 0
                c["kernel"] = "m4" if c["kernel"] == "gaussian" else c["kernel"]
                c["steps"] = {1: 8, 2: 5, 3: 3}[c["nd"]]
            if c["avisc"] == "none":
                c["avisc"] = "mon97"
            if c["sim"] == "mfvrk":
                c["steps"], c["ic"] = 3, "smooth"
            if mode == "struct":
                c["nleaf2"] = int(g.choice([x for x in (1, 2, 6, 8, 16) if x != c["nleaf"]]))
                c["tree2"] = str(g.choice(["kdtree", "octtree"] if c["grav"] else ["kdtree", "octtree", "bruteforce"]))
                if c["grav"]:
                    c["tree"] = "kdtree"
        elif what == "nbody":
            c.update(nd=3, sim="nbody", nb=str(g.choice(["lfkdk", "lfdkd", "hermite4", "hermite4ts", "hermite6ts"])), soft=int(g.randint(2)), Ns=int(g.choice([3, 8, 20])), levels=int(g.choice([1, 4])) if exact else 1, steps=12)
        elif what == "ic":
            c.update(ic=str(g.choice(["noh", "sedov", "box", "sphere", "plummer", "shearflow", "soundwave", "bb"])), levels=int(g.choice([1, 4])), steps=3, cost=9)
            c["sim"] = "sph" if c["ic"] in ("plummer", "bb") else c["sim"] if c["sim"] != "mfvrk" else "mfvmuscl"
        elif what == "dust":
            c.update(sim=str(g.choice(["sph", "mfvmuscl"])), drag=str(g.choice(["full_twofluid", "test_particle"])), law=str(g.choice(["fixed", "density", "epstein"])), nd=int(g.choice([1, 2])), bc="periodic", grav=0, stars=0, kernel="m4", levels=1, static=0)
        out.append(c)
    return out


def build(c, wd):
    """-> lines before setup, arrays"""
    if c["what"] == "sink":
        lines, arr, p = c12.build(c)
        return vlib.params_script(p) + ["sim", "prepython"] + lines, arr, p
    g = vlib.rng_for(c["seed"], "c23")
    if c["what"] == "gas":
        # neighbours in range, not the tolerance of the tree, are compared: open every cell
        x = dict(h_converge=1e-9 if c["pair"] in ("permute", "struct") else .01)
        if c["pair"] == "struct" and c["grav"]:
            x.update(thetamaxsqd=1e-10, multipole="monopole")
        return vgas.build(c, N={1: 100, 2: 300, 3: 500}[c["nd"]] if c["bc"] == "open" or c["bc"] == "mirror" else None, extra=x)
    if c["what"] == "nbody":
        n, nd = c["Ns"], c["nd"]
        p = dict(vgen.BASE)
        r, v, m, h = g.uniform(-1, 1, (n, nd)), .4*g.normal(size=(n, nd)), g.uniform(.1, 1, n)/n, np.full(n, .1)
        p.update(ndim=nd, sim="nbody", nbody=c["nb"], nbody_softening=c["soft"], Nstar=n, Nlevels=c["levels"], Npec=2)
        lines, arr = vgen.hydro_arrays(nd, r, v, m, None, h, typ="star")
        return vlib.params_script(p) + ["sim", "prepython"] + lines, arr, p
    if c["what"] == "dust":
        nd = c["nd"]
        k = {1: 60, 2: 24}[nd]
        x = vgen.positions(g, nd, k**nd, "jitter")
        y = vgen.positions(g, nd, k**nd, "jitter")
        r = np.concatenate([x, y])
        n = len(x)
        v = np.concatenate([.3*np.sin(2*np.pi*x), .1 + 0*y])
        m = np.concatenate([np.full(n, 1./n), np.full(n, .3/n)])
        p = dict(vgen.BASE)
        p.update(ndim=nd, sim=c["sim"], kernel="m4", neib_search=c["tree"] if c["tree"] != "bruteforce" else "kdtree", Nhydro=2*n, gas_eos="energy_eqn", gamma_eos=1.4, dust_forces=c["drag"], drag_law=c["law"], drag_coeff=float(10**g.uniform(-2, 1)), self_gravity=0, zero_mass_flux=1, hydro_forces=1)
        p.update(vgen.box_params(nd, np.zeros(nd), np.ones(nd), ["periodic"]*nd, ["periodic"]*nd))
        lines, arr = vgen.hydro_arrays(nd, r, v, m, np.concatenate([np.full(n, 1.), np.zeros(n)]))
        arr["ptype.raw"] = np.concatenate([np.zeros(n), np.full(n, 3.)])
        return vlib.params_script(p) + ["sim", "prepython"] + lines + ["ptype ptype.raw"], arr, p
    # built-in initial conditions, random ones included
    ic, nd = c["ic"], c["nd"]
    p = dict(vgen.BASE)
    p.update(sim=c["sim"], neib_search="kdtree", gas_eos="energy_eqn", gamma_eos=1.4, Nlevels=c["levels"], randseed=int(g.randint(1 << 20)), rand_algorithm=str(g.choice(["xorshift", "none"])), zero_mass_flux=1, avisc="mon97")
    per = lambda nd: vgen.box_params(nd, np.zeros(nd), np.ones(nd), ["periodic"]*nd, ["periodic"]*nd)          # noqa
    if ic in ("noh", "sphere"):
        nd = 3 if ic == "sphere" else int(g.choice([2, 3]))
        p.update(ndim=nd, ic=ic, Nhydro=400, particle_distribution="random" if ic == "sphere" else "hexagonal_lattice", self_gravity=0)
        p.update(vgen.box_params(nd, -2*np.ones(nd), 2*np.ones(nd), ["open"]*nd, ["open"]*nd))
        p.update(mcloud=1, radius=1, rhofluid1=1, press1=1)
    elif ic == "plummer":
        nd = 3
        p.update(ndim=3, ic="plummer", Nhydro=300, Nstar=20, nbody="lfkdk", nbody_softening=1, self_gravity=1, gasfrac=.5, starfrac=.5, rplummer=1., mplummer=1., radius=.5, sink_particles=0)
        p["gas_eos"] = "energy_eqn"
        p["gamma_eos"] = 5./3.
    elif ic == "bb":
        nd = 3
        p.update(ndim=3, ic="bb", Nhydro=400, particle_distribution="random", self_gravity=1, mcloud=1, radius=1, amp=.1, angvel=.1, temp0=10, mu_bar=2.)
    elif ic == "box":
        nd = int(g.choice([1, 2]))
        p.update(ndim=nd, ic="box", Nhydro=900, particle_distribution=str(g.choice(["random", "cubic_lattice"])), rhofluid1=1., press1=1.)
        p.update(per(nd))
        p.update({"Nlattice1[%d]" % k: 30 for k in range(nd)})
    elif ic == "sedov":
        nd = 2
        p.update(ndim=2, ic="sedov", particle_distribution="hexagonal_lattice", kefrac=0, smooth_ic=1, rhofluid1=1.)
        p.update(per(2))
        p["boxmax[1]"] = 1.154700538379252
        p.update({"Nlattice1[0]": 32, "Nlattice1[1]": 32*1})
    elif ic == "shearflow":
        nd = 2
        p.update(ndim=2, ic="shearflow", amp=.3, rhofluid1=1., press1=1., Nhydro=1024)
        p.update(per(2))
        p.update({"Nlattice1[0]": 32, "Nlattice1[1]": 32})
    else:
        nd = 1
        p.update(ndim=1, ic="soundwave", amp=.1, rhofluid1=1., press1=1., temp0=1., mu_bar=1., Nhydro=64)
        p.update(per(1))
        p["Nlattice1[0]"] = 64
    c["ndim"] = nd
    return vlib.params_script(p) + ["sim"], {}, p


def tolerated(fl):
    return fl and any(q in fl for q in ("pressure > ", "part.u > ", "ipress", "irho", "Wleft", "Wright", "Smoothing length too large", "half", "isnormal", "press"))


def last(wd):
    f = sorted(x for x in os.listdir(wd) if x.startswith("s") and x.endswith(".dmp"))
    return vlib.Dump(os.path.join(wd, f[-1])) if f else None


SKIP = {"idx", "istar"}          # istar: only used to find stars of sinks


def same(res, A, B, key):
    """bit for bit, every recorded quantity"""
    for T in ("part", "star", "sink"):
        a, b = A.t.get(T), B.t.get(T)
        if a is None:
            continue
        if not res.check(a.n == b.n, key + ":number", "%s %d %d" % (T, a.n, b.n)):
            return
        for k in a.ix:
            if k in SKIP or (T, k) == ("star", "radius"):      # never set nor used (sinks have their own)
                continue
            x, y = a[k].view(np.uint64), b[k].view(np.uint64)
            ok = (x == y) | (np.isnan(a[k]) & np.isnan(b[k]))
            if T == "part" and k.startswith(("grad", "alim", "B")):
                ok |= a["ptype"] == 3          # only gas has slopes
            if not ok.all():
                j = np.nonzero(~ok)[0]
                res.fail(key, "%s.%s differs for %d of %d, first %d: %r %r" % (T, k, len(j), a.n, j[0], a[k][j[0]], b[k][j[0]]))
    for k in ("t", "n", "nresync", "Nsteps", "timestep", "dt_max", "level_max", "Nhydro"):
        if k in A.s:
            res.check(A.s[k] == B.s[k], key + ":" + k, "%r %r" % (A.s[k], B.s[k]))
    res.count("bit-identical tables compared")


def moved(c, A):
    p = A.t["part"] if "part" in A.t and A.t["part"].n else A.t["star"]
    nd = sum(1 for k in ("rx", "ry", "rz") if k in p.ix)
    return p.n > 0 and np.abs(p.vec("v", nd)).max() > 0


def run_case(c, wd, res):
    try:
        s, arr, p = build(c, wd)
    except KeyError:
        raise
    st = ["setup", "dump s000000.dmp", "steps %d" % c["steps"], "dump s000001.dmp"]
    mode = c["pair"]
    go = lambda name, script, arrays, **k: vlib.run_driver(script, os.path.join(wd, name), arrays=arrays, timeout=240, name="run", **k)   # noqa
    e1, e2 = {"MALLOC_PERTURB_": "85"}, {"MALLOC_PERTURB_": "170", "VERIF_PAD": "x"*4011}
    fa = go("a", s + st, arr, env=e1 if mode == "repeat" else None)
    fl = fa.failure()
    if fl and not tolerated(fl):
        res.fail("run:" + fl, fa.out[-500:])
        return
    if fl:
        res.count("limit of the code reached")
    if mode == "repeat":
        fb = go("b", s + st, arr, env=e2, variant="pat")
    elif mode == "after":
        g = vlib.rng_for(c["seed"], "first")
        d = vgas.gen(g, sims=("sph", "mfvmuscl"), levels=(1, 4), stars=.5)
        d.update(avisc="mon97", bc="open", zmf=1, grav=int(d["nd"] > 1 and d["kernel"] != "gaussian"))
        t, arr2, _ = vgas.build(d, N=150)
        t = [x.replace("sph_", "first_sph_").replace("star_", "first_star_") if x.startswith("array") else x for x in t]
        arr2 = {"first_" + k: v for k, v in arr2.items()}
        arr2.update(arr)
        fb = go("b", t + ["setup", "steps 2", "destroy", "newparams"] + s + st, arr2)
    elif mode == "output":
        q = ["param run_id v", "param ndiagstep 1", "param dt_snap 1e-9", "param tsnapfirst 0", "param litesnap 1", "param dt_litesnap 1e-9", "param nrestartstep 1", "param tend 1e30", "param noutputstep 1", "param diag 1"]
        k = [i for i, x in enumerate(s) if x == "sim"][0]
        fb = go("b", s[:k] + q[:-2] + s[k:] + ["setup", "dump s000000.dmp", "run %d" % c["steps"], "dump s000001.dmp"], arr)
    elif mode == "permute":
        N = len(arr["star_m.raw" if c["what"] == "nbody" else "sph_m.raw"])
        perm = vlib.rng_for(c["seed"], "perm").permutation(N)
        b = {k: (v[perm] if k.startswith("star_" if c["what"] == "nbody" else "sph_") else v) for k, v in arr.items()}
        fb = go("b", s + st, b)
    else:
        k = [i for i, x in enumerate(s) if x == "sim"][0]
        fb = go("b", s[:k] + ["param neib_search %s" % c["tree2"], "param Nleafmax %d" % c["nleaf2"]] + s[k:] + st, arr)
    f2 = fb.failure()
    if f2 and not tolerated(f2):
        res.fail("run-b:" + f2, fb.out[-500:])
        return
    if mode in ("repeat", "after", "output"):
        res.check((fl or "") == (f2 or "") or bool(fl and f2), mode + ":ending", "%s / %s" % (fl, f2))
    for q in ("s000000.dmp", "s000001.dmp"):
        fns = [os.path.join(wd, w, q) for w in "ab"]
        if not all(os.path.exists(x) for x in fns):
            continue
        A, B = (vlib.Dump(x) for x in fns)
        if moved(c, A) and q == "s000001.dmp":
            res.nontrivial = True
        if mode in ("repeat", "after", "output"):
            same(res, A, B, mode)
        else:
            close(res, c, A, B, perm if mode == "permute" else None, q)
    res.count(c["what"] + " pairs " + mode)
    res.sig = repr(sorted((k, str(v)) for k, v in c.items() if k not in ("i", "cost")))


def close(res, c, A, B, perm, q):
    nd = c["nd"]
    tag = "%s %s %s" % (q, c["pair"], c["what"])
    for T, names in (("part", ("r", "v", "a", "m", "h", "rho", "u", "press", "dudt")), ("star", ("r", "v", "a", "m"))):
        a, b = A.t.get(T), B.t.get(T)
        if a is None or a.n == 0:
            continue
        if not res.check(a.n == b.n, "number", tag):
            return
        if T == "part":
            # iorig of the permuted run counts its own input order
            o1, o2 = np.argsort(a["iorig"]), np.argsort(b["iorig"])
            if perm is not None:
                inv = np.argsort(perm)
                o2 = o2[inv]
        else:
            o1 = np.arange(a.n)
            o2 = np.argsort(perm) if perm is not None and c["what"] == "nbody" else o1
        for k in names:
            if k in "rva":
                x, y = a.vec(k, nd)[o1], b.vec(k, nd)[o2]
            elif k in a.ix:
                x, y = a[k][o1], b[k][o2]
            else:
                continue
            sc = np.abs(x).max() + 1e-30
            d = np.abs(x - y).max()/sc
            res.bound("%s:%s" % (c["pair"], k), d, 1e-5, lambda: "%s %s: %g" % (tag, T, d))
            res.count("fields compared to rounding")
    res.bound("time", abs(A.s["t"] - B.s["t"])/(abs(A.s["t"]) + 1e-30), 1e-6, tag)
