"""C12: sink creation and accretion (monitor: state before and after the sink stage of every step, compared body by body)."""
import glob
import os
import numpy as np
import vlib, vgen, sphref

DRIVERS = ["gdrv"]
RULE = ("cases = collapsing clumps / gas around existing, overlapping, crowded or boundary-crossing sinks x SPH (both leapfrogs) / meshless x smooth or whole-particle accretion x block levels x 2D/3D x open or periodic boxes x the three sink-radius rules; "
        "the state is recorded before and after the sink stage of every step: created sinks are compared with an independent search by the documented criteria, and mass, momentum, centre of mass, acceleration and orbital+spin angular momentum are balanced for every sink "
        "against exactly the gas recorded as lying inside it; gas outside sinks, or in sinks whose step has not ended, must be untouched bit for bit; total mass over the whole run, and densities of the survivors after accretion; "
        "non-trivial when >=1 particle was accreted or >=1 sink created; distinct = configuration")
ASSUMPTIONS = ["candidates within 1e-9 of a threshold of a criterion make the creation order of that step undecided (not judged)", "a particle inside several sinks may go to any one of them",
               "the flag marking potential minima is compared with neighbours' potentials allowing for their change over one step"]
X = 3


def cases(tier, seed):
    g = vlib.rng_for("C12", seed)
    out = []
    for i in range(56 if tier == "quick" else 700):
        nd = int(g.choice([3, 3, 3, 2]))
        c = {"job": "sink", "sim": str(g.choice(["sph", "sph", "mfvmuscl"])), "nd": nd, "N": int(g.choice([250, 500, 800])), "seed": int(g.randint(1 << 30)), "levels": int(g.choice([1, 1, 3, 6])), "smooth": int(g.uniform() < .4),
             "create": int(g.uniform() < .6), "mode": str(g.choice(["hmult", "fixed", "range"])), "rmult": float(g.choice([1., 2., 3.])), "bc": "periodic" if nd == 3 and g.uniform() < .3 else "open", "nclump": int(g.choice([1, 2, 3])),
             "dkd": 0, "nfix": int(g.choice([-1, -1, -1, 1, 2])), "tree": str(g.choice(["kdtree", "octtree"])), "kernel": str(g.choice(["m4", "quintic"])), "tab": int(g.choice([0, 1])), "stars": int(g.choice([0, 1, 2, 4])), "cost": 3}
        if not c["create"]:
            c["stars"] = max(1, c["stars"])
        if c["sim"] == "sph" and g.uniform() < .15:
            c["dkd"] = 1
        c["crowd"] = int(g.uniform() < .3)
        out.append(c)
    return out


def build(c):
    g = np.random.RandomState(c["seed"])
    nd, N = c["nd"], c["N"]
    cen = g.uniform(.25, .75, (c["nclump"], nd)) if c["bc"] == "open" else g.uniform(0, 1, (c["nclump"], nd))
    nb = N//3
    w = .03 + .05*g.uniform(size=c["nclump"])
    k = g.randint(0, c["nclump"], N - nb)
    q = g.normal(size=(N - nb, nd))
    q *= (np.abs(g.normal(size=(N - nb, 1)))**.5)
    x = np.concatenate([cen[k] + w[k, None]*q, g.uniform(0, 1, (nb, nd))])
    if c["bc"] == "periodic":
        x = x % 1.
    v = .2*g.normal(size=(N, nd)) + (-.6*(x - .5) if c["bc"] == "open" else 0)
    m = np.full(N, 1./N)
    if g.uniform() < .3:
        m = m*g.uniform(.5, 2, N)
    u = np.full(N, 10**g.uniform(-3, -1))
    h = 1.2*(1./N)**(1./nd)
    p = dict(vgen.BASE)
    b = c["bc"]
    d = np.linalg.norm(x[:, None] - x[None], axis=2)
    d.sort(1)
    rho = 8./N/(1e-30 + (4.19 if nd == 3 else 3.14)*d[:, 8]**nd)
    rs = np.sort(rho)[-max(2, N//12)]
    p.update(ndim=nd, sim=c["sim"], kernel=c["kernel"], tabulated_kernel=c["tab"], neib_search=c["tree"], Nhydro=N, Nlevels=c["levels"], gas_eos="energy_eqn", gamma_eos=1.4, self_gravity=1, h_converge=1e-6,
             nbody="lfdkd" if c["dkd"] else "lfkdk", sph_integration="lfdkd" if c["dkd"] else "lfkdk", sink_particles=1, create_sinks=c["create"], smooth_accretion=c["smooth"], Nsinkfixed=c["nfix"],
             sink_radius_mode=c["mode"], sink_radius=c["rmult"] if c["mode"] != "fixed" else c["rmult"]*.5*np.median(d[:, 12]), rho_sink=rs, Nstar=c["stars"], nbody_softening=1, hydro_forces=1, thetamaxsqd=.2)
    p.update(vgen.box_params(nd, np.zeros(nd), np.ones(nd), [b]*nd, [b]*nd))
    lines, arr = vgen.hydro_arrays(nd, x, v, m, u)
    if c["stars"]:
        ns = c["stars"]
        rx = np.array([x[i] for i in g.randint(0, N, ns)]) + .2*h*g.normal(size=(ns, nd))
        if ns > 1 and g.uniform() < .5:
            rx[1] = rx[0] + .3*h*g.normal(size=nd)
        if c["bc"] == "periodic" and g.uniform() < .7:
            rx[0, g.randint(nd)] = g.choice([.01, .99])
        rx = np.clip(rx, .003, .997)
        hs = h*10**g.uniform(-.8, .1, ns)
        if c["crowd"]:
            hs[0] = .12
        l2, a2 = vgen.hydro_arrays(nd, rx, .3*g.normal(size=(ns, nd)), g.uniform(.02, .2, ns), None, hs, typ="star")
        lines += l2
        arr.update(a2)
    return lines, arr, p


def cross(r, v):
    f = lambda x: np.concatenate([x, np.zeros((len(x), 3 - x.shape[1]))], 1)         # noqa
    return np.cross(f(r), f(v))


def search(P, p, c):
    """the documented search for new sinks -> list of (particle, radius); None when undecided"""
    nd = p["ndim"]
    t, s = P.t["part"], P.t["star"]
    r, v, a = t.vec("r", nd), t.vec("v", nd), t.vec("a", nd)
    S = [(s.vec("r", nd)[k], s.vec("v", nd)[k], s.vec("a", nd)[k], P.t["sink"]["radius"][k]) for k in range(s.n)]
    rad = {"hmult": p["sink_radius"]*t["h"], "fixed": np.full(t.n, float(p["sink_radius"])), "range": (2. if c["kernel"] == "m4" else 3.)*t["h"]}[c["mode"]]
    alive = t["dead"] == 0
    base = alive & ((t["flags"].astype(int) & 8) != 0) & (P.s["n"] % t["nstep"].astype(int) == 0)
    if np.any(base & (abs(t["rho"]/p["rho_sink"] - 1) < 1e-9)):
        return None
    cand = [i for i in np.nonzero(base & (t["rho"] >= p["rho_sink"]))[0]]
    new = []
    while not (p["Nsinkfixed"] != -1 and len(S) >= p["Nsinkfixed"]):
        good = []
        for i in cand:
            ok = True
            for (sr, sv, sa, R) in S:
                dr, dv, da = r[i] - sr, v[i] - sv, a[i] - sa
                d2 = dr@dr
                e = [d2 - (rad[i] + R)**2, t["rho"][i] + (dr@da)/d2]
                if abs(e[0]) < 1e-9*d2 or abs(e[1]) < 1e-9*t["rho"][i]:
                    return None
                if e[0] < 0 or e[1] < 0:
                    ok = False
                tff = .5/np.sqrt(t["rho"][i])
                if dr@dv < 0:
                    if abs(tff*abs(dr@dv)/d2 - 1) < 1e-9:
                        return None
                    if tff > -d2/(dr@dv):
                        ok = False
            if ok:
                good.append(i)
        if not good:
            break
        q = t["rho"][good]
        i = good[int(np.argmax(q))]
        if len(q) > 1 and np.sort(q)[-2] > q.max()*(1 - 1e-12):
            return None
        new.append((i, rad[i]))
        S.append((r[i], v[i], a[i], rad[i]))
        cand.remove(i)
    return new


def judge(P, Q, prev, p, c, res):
    nd = p["ndim"]
    t, q = P.t["part"], Q.t["part"]
    s, z = P.t["star"], Q.t["star"]
    so, sn = P.t["sink"], Q.t["sink"]
    n = int(P.s["n"])
    tag = "p%g:" % n
    if not res.check(t.n == q.n and z.n >= s.n, "arrays", tag):
        return
    # ---- creation
    nnew = z.n - s.n
    made = []
    if c["create"]:
        want = search(P, p, c)
        if want is None:
            res.count("undecided searches")
            if nnew:
                return
        else:
            res.count("searches")
            res.check(len(want) == nnew, "creation:number", "%d sinks created, the criteria select %d (Nsink before %d)" % (nnew, len(want), s.n))
            if len(want) != nnew:
                return
            for k, (i, R) in enumerate(want):
                res.check(q["dead"][i] == 1 and q["m"][i] == 0, "creation:particle-removed", "particle %d m %r" % (i, q["m"][i]))
                res.check(abs(sn["radius"][s.n + k] - R) <= 1e-12*R, "creation:radius", "%r, wanted %r" % (sn["radius"][s.n + k], R))
                res.count("sinks created")
                made.append(i)
                # a genuine potential minimum
                if prev is not None and t["iorig"][i] in prev:
                    j = np.nonzero((np.linalg.norm(t.vec("r", nd) - t.vec("r", nd)[i], axis=1) < .98*(2 if c["kernel"] == "m4" else 3)*t["h"][i]) & (t["dead"] == 0))[0]
                    top = max([min(prev.get(t["iorig"][x], 0), t["gpot"][x]) for x in j if x != i] + [0])
                    res.bound("creation:potential-minimum", top/max(prev[t["iorig"][i]], t["gpot"][i]) - 1, .02, "particle %d" % i)
    else:
        res.check(nnew == 0, "creation:disabled", "%d" % nnew)
    # ---- stars as they were when accretion began
    col = lambda T, k: np.concatenate([s[k] if T is s else so[k], t[k][made] if T is s else np.zeros(len(made))])       # noqa
    m0 = col(s, "m")
    r0, v0, a0 = (np.concatenate([s.vec(x, nd), t.vec(x, nd)[made].reshape(len(made), nd)]) for x in "rva")
    nst = col(s, "nstep").astype(int)
    R = sn["radius"][:z.n]
    L0 = np.stack([np.concatenate([so["L" + x], np.zeros(len(made))]) for x in "xyz"], 1)
    L1 = np.stack([sn["L" + x] for x in "xyz"], 1)
    mP, deadP = t["m"].copy(), t["dead"].copy() != 0
    mP[made] = 0
    deadP[made] = True
    if made:
        res.check(abs(t["m"][made] - m0[s.n:]).max() == 0, "creation:mass", "")
    live = np.nonzero(~deadP)[0]
    r, v, a = t.vec("r", nd), t.vec("v", nd), t.vec("a", nd)
    for k in ("r", "v", "a"):
        res.check(np.array_equal(t.vec(k, nd), q.vec(k, nd)), "gas:%s-unchanged" % k, tag)
    for k in ("u", "h", "rho", "gpot"):
        res.check(np.array_equal(t[k], q[k]), "gas:%s-unchanged" % k, tag)
    res.check(np.all(q["dead"][deadP] == 1), "gas:dead-stay-dead", tag)
    dm = mP - q["m"]
    res.check(np.all(dm[deadP] == 0), "gas:dead-have-no-mass", tag)
    if len(live) == 0 or len(r0) == 0:
        return
    dr = r[live][:, None] - r0[None]
    if c["bc"] == "periodic":
        dr -= np.round(dr)
    home = np.all((r0 >= 0) & (r0 <= 1), axis=1) & (R < .45)
    D = np.linalg.norm(dr, axis=2)
    inside, deep = D <= R*(1 + 1e-9), D <= R*(1 - 1e-9)
    sid = q["sinkid"][live].astype(int)
    bad = live[(sid >= 0) & ~inside[np.arange(len(live)), np.maximum(sid, 0)]]
    if c["bc"] == "open":
        res.check(len(bad) == 0, "region:assigned-outside", "%s" % bad[:5])
        res.check(not np.any(deep.any(1) & (sid == -1)), "region:inside-not-assigned", "%s" % live[deep.any(1) & (sid == -1)][:5])
    took = dm[live] != 0
    res.check(np.all(dm[live] >= 0), "gas:mass-grew", tag)
    res.check(not np.any(took & ~inside.any(1)), "region:accreted-outside", "%s" % live[took & ~inside.any(1)][:5])
    due = n % np.maximum(nst, 1) == 0
    if c["bc"] == "periodic" and not c["smooth"]:
        own = np.argmax(inside, 1)
        # stars are not wrapped: the images next to a star that left the box are not all there
        only = (inside.sum(1) == 1) & home[own]
        sid = np.where(only, own, sid)
        res.check(not np.any(deep.any(1) & only & due[own] & (q["dead"][live] == 0)), "accretion:left-inside", "%s" % live[deep.any(1) & only & due[own] & (q["dead"][live] == 0)][:5])
    res.check(np.array_equal(q["dead"][live] == 1, q["m"][live] == 0), "gas:dead-iff-massless", tag)
    if c["bc"] == "periodic":
        # who took the mass of a particle near a wall is not recorded on the particle itself: whole-step balance
        img = sid
    for k in range(z.n):
        mine = (sid == k) if c["bc"] == "open" else (took & inside[:, k])
        mine_idx = np.nonzero(mine)[0]
        if c["bc"] == "periodic" and (np.any(inside[mine].sum(1) > 1) or not home[k]):
            res.count("sinks sharing gas or outside the box (not judged one by one)")
            continue
        if not due[k]:
            res.check(not took[mine].any(), "accretion:step-not-ended", "sink %d" % k)
        x = dm[live][mine]
        # the image of the gas next to the sink
        ra = r0[k] + dr[mine_idx, k]
        va, aa = v[live][mine], a[live][mine]
        M = m0[k] + x.sum()
        res.bound("balance:mass", abs(z["m"][k]/M - 1), 1e-12, "sink %d: %r, wanted %r" % (k, z["m"][k], M))
        rn, vn, an = (m0[k]*r0[k] + x@ra)/M, (m0[k]*v0[k] + x@va)/M, (m0[k]*a0[k] + x@aa)/M
        for nm, got, want, sc in (("position", z.vec("r", nd)[k], rn, 1.), ("velocity", z.vec("v", nd)[k], vn, np.abs(v).max()), ("acceleration", z.vec("a", nd)[k], an, np.abs(a0[k]).max() + (np.abs(aa).max() if len(aa) else 0) + 1e-30)):
            res.bound("balance:" + nm, np.abs(got - want).max()/sc, 1e-11, "sink %d: %s, wanted %s" % (k, got, want))
        spin = L0[k] + m0[k]*cross((r0[k] - rn)[None], (v0[k] - vn)[None])[0] + (x[:, None]*cross(ra - rn, va - vn)).sum(0)
        sc = np.abs(L0[k]).max() + m0[k]*np.linalg.norm(r0[k] - rn)*np.linalg.norm(v0[k] - vn) + (x*np.linalg.norm(ra - rn, axis=1)*np.linalg.norm(va - vn, axis=1)).sum() + 1e-14*M*np.abs(v).max()
        res.bound("balance:spin", np.abs(L1[k] - spin).max()/sc, 1e-9, "sink %d: %s, wanted %s" % (k, L1[k], spin))
        if due[k] and mine.any():
            if not c["smooth"]:
                res.check(np.all(q["dead"][live][mine] == 1), "accretion:left-inside", "sink %d n %d" % (k, n))
            elif c["bc"] == "open":
                # nearest first, and (when less than everything) about the mass set by the accretion time
                o = np.argsort(D[mine_idx, k])
                f = np.nonzero(x[o] == 0)[0]
                res.check(len(f) == 0 or not np.any(x[o][f[0]:] > 0), "accretion:nearest-first", "sink %d" % k)
                res.bound("accretion:enclosed-mass", abs(sn["menc"][k]/mP[live][mine].sum() - 1), 1e-12, "sink %d" % k)
                wantm = sn["dmdt"][k]*nst[k]*P.s["timestep"]
                if np.isfinite(wantm):
                    res.check(wantm >= 0 and wantm <= sn["menc"][k]*(1 + 1e-9), "accretion:amount", "%r of %r" % (wantm, sn["menc"][k]))
                    res.check(x.sum() >= wantm*(1 - 1e-9) - 1e-15 and x.sum() - wantm <= mP[live][mine].max()*(1 + 1e-9), "accretion:rate", "took %r, wanted %r" % (x.sum(), wantm))
                else:
                    res.check(False, "accretion:rate-not-finite", "sink %d" % k)
        if x.sum() > 0:
            res.count("accretions")
            res.count("particles accreted", int((x > 0).sum()))
            if len(x) > 100:
                res.count("accretions of more than 100 particles")
        res.bound("record:accreted-total", abs(sn["macctot"][k] - (so["macctot"][k] if k < s.n else 0) - x.sum())/M, 1e-12, "sink %d: %r, wanted %r more than %r" % (k, sn["macctot"][k], x.sum(), so["macctot"][k] if k < s.n else 0))
    res.bound("balance:total-mass", abs((q["m"].sum() + z["m"].sum())/(t["m"].sum() + s["m"].sum()) - 1), 1e-12, tag)


def density(d, p, c, res):
    """survivors' densities contain nothing of the removed particles"""
    nd = p["ndim"]
    t = d.t["part"]
    live = t["dead"] == 0
    if t.n == c["N"] and live.all() or live.sum() < 60 or c["dkd"]:
        return
    kern = sphref.Kernel(c["kernel"], nd)
    if c["sim"] != "sph":
        sel = np.nonzero(live & (t["sinkid"] == -1) & (t["nlast"] == d.s["n"]))[0]
    else:
        sel = np.nonzero(live & (t["sinkid"] == -1) & (d.s["n"] % t["nstep"].astype(int) == 0))[0]
        hf = 1.2*(t["m"]/p["rho_sink"])**(1./nd)
        sel = sel[t["h"][sel] > 1.05*hf[sel]]
    if len(sel) == 0:
        return
    r = t.vec("r", nd)
    w = t["m"][live] if c["sim"] == "sph" else np.ones(live.sum())
    R, I = r[live], np.arange(live.sum())
    if c["bc"] == "periodic":
        lo, hi, bl, br = sphref.box_of(p, nd)
        R, _, I = sphref.expand(r[live] % 1., t.vec("v", nd)[live], nd, lo, hi, bl, br, kern.range*t["h"][sel].max())
        if kern.range*t["h"][sel].max() > .49:
            return
    want = sphref.kernel_sum(r[sel], t["h"][sel], R, w[I], kern, nd)
    got = t["rho"][sel] if c["sim"] == "sph" else t["ndens"][sel]
    res.count("densities of survivors", len(sel))
    res.bound("survivors:density", float(np.median(abs(got/want - 1))), 6e-3 if c["tab"] else 1e-4)
    res.bound("survivors:density-any", float(np.max(abs(got/want - 1))), 5e-2 if c["tab"] else 3e-3)


def clumped(wd):
    """the state before a breakdown has degenerate smoothing lengths (dh/drho singular): not a matter of sinks"""
    F = sorted(glob.glob(os.path.join(wd, "a*.dmp")))
    if not F:
        return False
    t = vlib.Dump(F[-1]).t["part"]
    w = t["invomega"][t["dead"] == 0]
    return bool(w.max() > 20 or w.min() < 0)


def run_case(c, wd, res):
    lines, arr, p = build(c)
    steps = 14
    f = vlib.run_driver(vlib.params_script(p) + ["sim", "prepython"] + lines + ["hookdump presink 1 %d a" % steps, "hookdump postsink 1 %d b" % steps, "setup", "stepdump %d 1 s" % steps], wd, arrays=arr, timeout=200, name="run")
    fl = f.failure()
    if fl and any(x in fl for x in ("Smoothing length too large", "half", "pressure > ", "part.u > ", "press", "Wleft", "Wright")):
        res.count("limit of the code reached: " + fl[:60])
    elif fl and "part.a[k] == part.a[k]" in fl and clumped(wd):
        res.count("density gradient degenerate (clumped pairs)")
    elif fl:
        res.fail("run:" + fl, f.out[-300:])
        return
    A = sorted(glob.glob(os.path.join(wd, "a*.dmp")))
    B = sorted(glob.glob(os.path.join(wd, "b*.dmp")))
    M = None
    prev = None
    for fa, fb in zip(A, B):
        P, Q = vlib.Dump(fa), vlib.Dump(fb)
        tot = sum(x.t[k]["m"].sum() for x in (P,) for k in ("part", "star") if k in x.t)
        M = tot if M is None else M
        res.bound("run:total-mass", abs(tot/M - 1), 1e-11)
        judge(P, Q, prev, p, c, res)
        if c["sim"] == "sph" and P.s["Nsteps"] % 4 == 3:
            density(P, p, c, res)
        prev = dict(zip(P.t["part"]["iorig"], P.t["part"]["gpot"]))
        os.unlink(fa)
        os.unlink(fb)
    for fs in sorted(glob.glob(os.path.join(wd, "s*.dmp")))[::4]:
        if c["sim"] != "sph":
            density(vlib.Dump(fs), p, c, res)
    res.nontrivial = bool(res.obs.get("particles accreted", 0) or res.obs.get("sinks created", 0)) if hasattr(res, "obs") else True
    res.sig = str(sorted((k, str(v)) for k, v in c.items() if k not in ("seed", "cost")))
