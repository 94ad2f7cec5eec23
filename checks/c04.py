"""C04: every tree is a faithful partition with enclosing cells (structure and cell contents recomputed at force evaluations)."""
import os
import numpy as np
import vlib, vgas, sphref

RULE = ("cases = SPH / meshless runs (k-d tree, octree, brute force; leaf sizes, distributions, boundaries, rebuild intervals, opening criteria, particles killed "
        "between rebuilds) sampled from VERIF_SEED; after setup and at sampled force evaluations the whole tree is dumped by a hook and every cell is recomputed from "
        "the particles below it; non-trivial when >=3 trees with >=3 cells were judged; distinct = case parameters")
ASSUMPTIONS = ["x86-64, one process, one thread per run", "ntreestockstep=1 for the geometric part (extrapolated cells are approximate by design)"]


def cases(tier, seed):
    n = 72 if tier == "quick" else 900
    g = vlib.rng_for("C04", seed)
    out = []
    for i in range(n):
        c = vgas.gen(g, sims=("sph", "mfvmuscl"), p_sim=[.65, .35], levels=(1, 1, 3, 5), grav=.6, stars=.2, p_bc=(.4, .25, .1, .25))
        c["i"] = i
        if c["sim"] == "sph":
            c["kind"] = str(g.choice(["jitter", "uniform", "lattice", "clustered", "shell", "line", "plummer"]))
        c["tree"] = str(g.choice(["kdtree", "octtree", "bruteforce"], p=[.45, .45, .1]))
        c["nleaf"] = int(g.choice([1, 2, 3, 6, 8, 20]))
        c["build"] = int(g.choice([1, 2, 5, 9]))
        c["mac"] = str(g.choice(["geometric", "eigenmac", "gadget2"]))
        c["pole"] = str(g.choice(["monopole", "quadrupole", "fast_quadrupole"]))
        c["theta"] = float(g.choice([.05, .1, .4]))
        c["kill"] = int(c["sim"] == "sph" and g.uniform() < .35)
        c["N"] = int(g.choice([20, 57, 128, 300])) if c["bc"] == "open" and g.uniform() < .6 else 0
        c["same"] = int(g.uniform() < .12 and c["sim"] == "sph" and c["bc"] == "open" and not c["grav"])
        c["steps"] = {1: 20, 2: 12, 3: 6}[c["nd"]]
        c["cost"] = c["steps"]*c["nd"]**2*(3 if c["bc"] in ("periodic", "mixed") else 1)
        out.append(c)
    return out


def run_case(c, wd, res):
    res.sig = {k: c[k] for k in c if k not in ("seed", "i", "cost")}
    extra = {"gravity_mac": c["mac"], "multipole": c["pole"], "thetamaxsqd": c["theta"], "macerror": 1e-4}
    s, arr, p = vgas.build(c, N=c["N"] or None, extra=extra)
    if c["same"]:                                  # a few exactly coincident coordinates / nearly coincident particles
        g = vlib.rng_for(c["seed"], 5)
        n = len(arr["sph_x.raw"])
        j = g.choice(n, size=(max(2, n//10), 2))
        for k in range(c["nd"]):
            f = "sph_%s.raw" % "xyz"[k]
            arr[f][j[:, 0]] = arr[f][j[:, 1]] + (1e-9*g.normal(size=len(j)) if k == 0 else 0)
    point = "forces" if c["sim"] == "sph" else "gravity"
    s += ["hooktree %s 1 40 t" % point, "hooktree %s 1 40 g ghost" % point, "setup", "tree s0.dmp", "tree sg.dmp ghost", "steps %d" % (c["steps"]//2)]
    if c["kill"]:
        g = vlib.rng_for(c["seed"], 7)
        s += ["kill " + " ".join(str(q) for q in sorted(set(g.randint(0, p["Nhydro"], 5))))]
    s += ["steps %d" % (c["steps"]//2)]
    f = vlib.run_driver(s, wd, arrays=arr, timeout=200)
    fl = f.failure()
    limit = fl and any(q in fl for q in ("pressure > ", "part.u > ", "press", "Wleft", "Wright", "Smoothing length too large", "half"))
    if fl and not limit:
        res.fail("run:" + fl, f.out[-700:])
        return
    if limit:
        res.count("ended_by_positivity_or_box_limit")
    n = 0
    prev = None
    for q in sorted(os.listdir(wd)):
        if not q.endswith(".dmp"):
            continue
        try:
            d = vlib.Dump(os.path.join(wd, q))
        except (vlib.HarnessError, ValueError):
            if limit:
                continue
            raise
        ghost = q.startswith("g") or q == "sg.dmp"
        if not (prev is not None and q.startswith("t") and prev.s["Nsteps"] == d.s["Nsteps"] - 1 and prev.s["Nhydro"] == d.s["Nhydro"]):
            prev = None
        n += judge(d, c, p, res, ghost, q.startswith("s"), prev.part if prev is not None else None)
        if q.startswith("t"):
            prev = d
    res.nontrivial = n >= 3


def judge(d, c, p, res, ghost, setup, prev=None):
    nd, s = c["nd"], d.s
    N = int(s["Nhydro"])
    P, C, L = d.part, d.cell, d.leafpart
    tag = c["tree"] + ":" + ("ghost:" if ghost else "")
    if ghost:
        own = np.arange(N, P.n)
        if not len(own):
            return 0
    else:
        own = np.arange(0, N)
    live = own[(P["dead"][own] == 0)]
    nc = C.n
    cn, co = C["cnext"].astype(int), C["copen"].astype(int)
    N_ = C["N"].astype(int)
    res.count("trees" if not ghost else "ghost_trees")
    res.count("cells", nc)
    # ---- every live particle in exactly one leaf
    idx = L["idx"].astype(int)
    lc = L["c"].astype(int)
    cnt = np.bincount(idx - own[0], minlength=len(own)) if len(idx) and idx.min() >= own[0] and idx.max() <= own[-1] else None
    if not res.check(cnt is not None, tag + "leaf-index", lambda: "particle index outside the tree's range"):
        return 0
    lv = P["dead"][own] == 0
    if not ghost or True:
        res.check((cnt[lv] == 1).all(), tag + "partition", lambda: "particles %s appear %s times" % (own[lv][cnt[lv] != 1][:5], cnt[lv][cnt[lv] != 1][:5]))
        if not c["kill"]:
            res.check((cnt[~lv] == 0).all(), tag + "dead-in-tree", "dead particle in tree")
    # ---- walk structure: root reaches every leaf with particles exactly once
    members = [None]*nc
    order = np.argsort(lc, kind="stable")
    bounds = np.searchsorted(lc[order], np.arange(nc + 1))
    for k in range(nc):
        members[k] = idx[order[bounds[k]:bounds[k + 1]]]
    seen, k, guard = [], 0, 0
    while 0 <= k < nc and guard <= nc:
        seen.append(k)
        guard += 1
        k = co[k] if co[k] != -1 else cn[k]
    res.check(guard <= nc and len(set(seen)) == len(seen), tag + "walk", "walk visits cells repeatedly or does not end")
    leafcells = np.unique(lc)
    res.check(np.isin(leafcells, seen).all(), tag + "walk-misses-leaf", lambda: "leaf cells %s unreachable" % leafcells[~np.isin(leafcells, seen)][:5])
    # ---- members of every cell = union of its children: cells from copen up to cnext
    alive = P["dead"] == 0
    full = [None]*nc
    stack = sorted(seen, reverse=True, key=lambda q: C["level"][q])
    bad = None
    for q in stack:
        if co[q] == -1:
            full[q] = members[q]
            continue
        ch, k, gd = [], co[q], 0
        while k != cn[q] and 0 <= k < nc and gd <= nc:
            ch.append(k)
            k = cn[k]
            gd += 1
        if any(full[k] is None for k in ch):
            bad = q
            break
        full[q] = np.concatenate([full[k] for k in ch]) if ch else np.zeros(0, int)
    if not res.check(bad is None, tag + "level-order", lambda: "children of cell %s are not on a deeper level" % bad):
        return 0
    # ---- leaf occupancy
    nl = int(p["Nleafmax"])
    for q in leafcells:
        if len(members[q]) > nl:
            if c["tree"] == "octtree":
                x = P.vec("r", nd)[members[q]]
                sep = np.ptp(x, axis=0).max()
                res.check(sep < 1e-2*np.ptp(P.vec("r", nd), axis=0).max(), tag + "leaf-occupancy", lambda: "leaf of %d separable particles (limit %d)" % (len(members[q]), nl))
            else:
                res.check(False, tag + "leaf-occupancy", lambda: "%d particles in a leaf (limit %d)" % (len(members[q]), nl))
    # ---- contents of every cell
    r, v, m, h = P.vec("r", nd), P.vec("v", nd), P["m"], P["h"]
    types = P["ptype"].astype(int)
    kr = {"m4": 2.0, "quintic": 3.0, "gaussian": 3.0}[c["kernel"]]
    scale = np.abs(r[live]).max() + h.max()
    vs = np.abs(v).max() + 1e-30
    M = {k: C[k] for k in C.cols}
    grav = c["grav"]
    tol = 1e-12
    dev = {}

    def mxd(k, x):
        dev[k] = max(dev.get(k, 0.0), float(x)) if x == x else float("nan")
    for q in seen:
        f = full[q]
        f = f[alive[f]]
        if N_[q] != len(f):
            res.fail(tag + "N", "cell %d N=%d, holds %d" % (q, N_[q], len(f)))
            continue
        if not len(f):
            continue
        x, w = r[f], m[f]
        for k in range(nd):
            a = "xyz"[k]
            mxd("bb", abs(M["bbmin" + a][q] - x[:, k].min())/scale)
            mxd("bb", abs(M["bbmax" + a][q] - x[:, k].max())/scale)
            mxd("rcell", abs(M["rcell" + a][q] - .5*(x[:, k].min() + x[:, k].max()))/scale)
            if not setup:
                mxd("vbox", abs(M["vbmin" + a][q] - v[f, k].min())/vs)
                mxd("vbox", abs(M["vbmax" + a][q] - v[f, k].max())/vs)
            if not ghost:
                lo, hi = (x[:, k] - kr*h[f]).min(), (x[:, k] + kr*h[f]).max()
                mxd("hbox", abs(M["hbmin" + a][q] - lo)/scale)
                mxd("hbox", abs(M["hbmax" + a][q] - hi)/scale)
        if not ghost:
            mxd("hmax", abs(M["hmax"][q]/h[f].max() - 1))
        W = w.sum()
        com = (w[:, None]*x).sum(0)/W
        mxd("mass", abs(M["m"][q]/W - 1))
        ext = np.ptp(x, axis=0)
        for k in range(nd):
            mxd("com", abs(M["r" + "xyz"[k]][q] - com[k])/scale)
            if not setup:
                mxd("vcom", abs(M["v" + "xyz"[k]][q] - (w*v[f, k]).sum()/W)/vs)
        rm = .5*np.sqrt((ext**2).sum())
        mxd("rmax", abs(M["rmax"][q] - rm)/scale)
        if (c["pole"] != "monopole" and not (nd == 1 and c["tree"] == "bruteforce")) or (grav and c["mac"] == "eigenmac"):      # (kept with or without gravity)
            y = x - com
            r2 = (y**2).sum(1)
            Q = [(w*(3*y[:, 0]**2 - r2)).sum()]
            if nd > 1:
                Q += [(3*w*y[:, 0]*y[:, 1]).sum(), (w*(3*y[:, 1]**2 - r2)).sum()]
            if nd == 3:
                Q += [(3*w*y[:, 2]*y[:, 0]).sum(), (3*w*y[:, 2]*y[:, 1]).sum()]
            sc = W*(rm*rm + scale*scale*1e-3) + 1e-300
            for k in range(len(Q)):
                mxd("quadrupole", abs(M["q%d" % k][q] - Q[k])/sc)
            if grav and c["mac"] == "eigenmac":
                if nd == 3:
                    pp = Q[0]*Q[2] - (Q[0] + Q[2])**2 - Q[1]**2 - Q[3]**2 - Q[4]**2    # largest eigenvalue bound
                    lam = 2*np.sqrt(max(0., -pp)/3)
                elif nd == 2:
                    lam = .5*max(Q[0] + Q[2] + np.sqrt((Q[0] - Q[2])**2 + 4*Q[1]**2), 0)
                else:
                    lam = abs(Q[0])
                mxd("mac", abs(M["mac"][q]**1.5*p["macerror"]/.5 - lam)/sc)
        cd = M["cdistsqd"][q]*p["thetamaxsqd"]
        if not setup and not ghost:
            # stocked before this step's sound speeds are known: the largest of this or of the previous evaluation
            ref = [P["sound"][f].max()] + ([prev["sound"][f].max()] if prev is not None else [])
            lo, hi = min(ref), max(ref)
            mxd("maxsound" if prev is not None else "maxsound-first", max(lo/M["maxsound"][q], M["maxsound"][q]/hi) - 1)
        mxd("cdist-low", (rm*rm - cd)/scale**2)
        if cd > rm*rm*(1 + 1e-9) + 1e-12*scale**2:
            mxd("cdist-high", max(0, cd/h[f].max()**2/9 - 1) if not setup else 0)
    lim = {"bb": tol, "rcell": tol, "vbox": tol, "hbox": tol, "hmax": tol, "mass": 1e-11, "com": 1e-11, "vcom": 1e-10, "rmax": 1e-11, "quadrupole": 1e-9, "mac": 1e-8, "maxsound": 1e-6, "maxsound-first": 30., "cdist-low": 1e-11, "cdist-high": 1e-9}
    for k in dev:
        res.bound(tag + k, dev[k], lim[k], lambda: "t=%g Nsteps=%d" % (s["t"], s["Nsteps"]))
    # ---- active counts of leaves
    if not ghost and not setup:
        act = P["active"]
        for q in leafcells:
            a = int((act[members[q]][alive[members[q]]] == 1).sum())
            if int(C["Nactive"][q]) != a:
                res.fail(tag + "Nactive", "cell %d Nactive=%d, %d active particles" % (q, C["Nactive"][q], a))
                break
        res.count("active_counted", int(act[live].sum()))
    return 1 if nc >= 3 else 0
