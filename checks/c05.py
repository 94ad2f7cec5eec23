"""C05: particles stay inside the box, the step across a wall is the exact wrap/reflection, ghosts are exact images, and periodic
translation / mirror doubling leave the evolution unchanged."""
import os
import numpy as np
import vlib, vgas, vgen
import sphref

RULE = ("cases = runs in every boundary mixture (SPH both leapfrogs, MUSCL, RK); 'walls' follows every particle over every step, 'ghosts' compares every ghost "
        "with its source and the set of ghosts with the complete list of images in kernel range at sampled force evaluations, 'shift' reruns the flow "
        "translated in a periodic box, 'double' reruns a mirror problem as the explicitly doubled problem; non-trivial when particles crossed a wall / ghosts "
        "of ghosts were present / the two runs moved; distinct = case parameters")
ASSUMPTIONS = ["x86-64, one process, one thread per run", "paired runs agree to 1e-7 of the field's scale over the few steps compared"]
DIST = dict(sims=("sph", "mfvmuscl", "mfvrk"), bcs=("periodic", "mirror", "mixed"), p_bc=[.4, .25, .35], grav=0.0, p_nd=(.25, .45, .3), dkd=.3)


def cases(tier, seed):
    n = 64 if tier == "quick" else 700
    g = vlib.rng_for("C05", seed)
    out = []
    for i in range(n):
        mode = str(g.choice(["walls", "ghosts", "shift", "double", "block"], p=[.24, .24, .17, .2, .15]))
        lv = (1,) if mode == "walls" else (4, 6) if mode == "block" else (1, 1, 3, 5)
        c = vgas.gen(g, p_sim=[.5, .42, .08] if mode != "double" else [.55, .45, 0], levels=lv, **DIST)
        c["i"] = i
        c["mode"] = mode
        c["steps"] = {1: 40, 2: 16, 3: 6}[c["nd"]]
        c["fast"] = float(g.choice([0, 0, 3, 1e3])) if mode == "walls" else float(g.choice([0, 2]))
        if mode == "block":
            c.update(dkd=0, diff=8, single=0, static=0, ic="blast", fast=float(g.choice([3, 8])))
            c["sim"] = "sph" if c["sim"] == "mfvrk" or g.uniform() < .5 else c["sim"]
            c["steps"] = {1: 60, 2: 40, 3: 12}[c["nd"]]
            c["bc"] = str(g.choice(["mirror", "mixed", "periodic"], p=[.6, .3, .1]))
        # hard walls instead of mirrors (no image particles): particles do reach them
        c["wall"] = int(mode == "block" and g.uniform() < .75 or mode == "walls" and g.uniform() < .3)
        if c["sim"] == "mfvrk":
            c["steps"] = 4
            c["ic"] = "smooth"
        if mode in ("shift", "double"):
            c["bc"] = "periodic" if mode == "shift" else "double"
            c["kernel"] = "m4" if c["kernel"] == "gaussian" else c["kernel"]    # the truncated gaussian is discontinuous at its edge
            c["kind"] = "jitter"
            c["steps"] = {1: 10, 2: 6, 3: 3}[c["nd"]]
            c["tab"] = 0
            c["ic"] = "smooth" if c["sim"] != "sph" else str(g.choice(["smooth", "noise", "collide"]))
            c["build"] = 1 if mode == "double" else c["build"]
            c["levels"] = 1        # block levels see neighbours through tree cells, which legitimately differ between the two runs
            c["one"] = int(g.uniform() < .4)      # 'double': only one mirror wall (other side open)
        if c["avisc"] == "none":
            c["avisc"] = "mon97"       # interpenetrating flows without viscosity run into negative energies
        if c["fast"] == 1e3:
            c["bc"] = "periodic"
        c["cost"] = c["steps"]*c["nd"]**2*3*(3 if mode in ("shift", "double") else 1)
        out.append(c)
    return out


def bnd(res, value, limit, key, detail=""):
    return res.bound(key, value, limit, detail)


def tolerated(fl):
    return fl and any(q in fl for q in ("pressure > ", "part.u > ", "ipress", "irho", "Wleft", "Wright", "Smoothing length too large", "half", "isnormal"))


def run_case(c, wd, res):
    {"walls": walls, "ghosts": ghosts, "shift": shift, "double": double, "block": block}[c["mode"]](c, wd, res)


def launch(c, wd, res, script, arr, name="run"):
    f = vlib.run_driver(script, wd, arrays=arr, timeout=240, name=name)
    fl = f.failure()
    if fl and not tolerated(fl):
        res.fail("run:" + fl, f.out[-700:])
        return None
    if fl:
        res.count("ended_by_positivity_or_box_limit")
    return "limit" if fl else "ok"


def bulk(c, arr, nd):
    """add a bulk velocity so that particles cross the walls"""
    if c["fast"]:
        g = vlib.rng_for(c["seed"], "bulk")
        for k in range(nd):
            arr["sph_v%s.raw" % "xyz"[k]] = arr["sph_v%s.raw" % "xyz"[k]] + c["fast"]*g.choice([-1, 1])*g.uniform(.5, 1)


def hard(c, s):
    return [x.replace(" mirror", " wall") if x.startswith("param boundary") else x for x in s] if c.get("wall") else s


# ------------------------------------------------------------------------------------------------ walls with block time steps
def block(c, wd, res):
    """every particle, every elementary step: positions and velocities continue the particle's own step, folded at the walls"""
    s, arr, p = vgas.build(c, extra=dict(gas_eos="energy_eqn"))
    s = hard(c, s)
    nd = c["nd"]
    bulk(c, arr, nd)
    st = launch(c, wd, res, s + ["setup", "dump s000000.dmp", "stepdump %d 1 s" % c["steps"]], arr)
    if st is None:
        return
    lo, hi, bl, br = box(p, nd)
    L = np.max(hi - lo)
    prev, crossed, midcross, n = None, 0, 0, 0
    sph = c["sim"] == "sph"
    for q in sorted(x for x in os.listdir(wd) if x.startswith("s0") and x.endswith(".dmp")):
        try:
            d = vlib.Dump(os.path.join(wd, q))
        except (vlib.HarnessError, ValueError):
            if st == "limit":
                break
            raise
        t = d.part
        o = np.argsort(t["iorig"])
        cur = {k: t.vec(k, nd)[o] for k in ("r", "v", "a", "r0", "v0", "a0")}
        cur["mid"], cur["t"], cur["tl"] = (t["nlast"] != d.s["n"])[o], d.s["t"], t["tlast"][o]
        if not sph:
            cur["Q0"], cur["dQdt"] = (np.stack([t[w + "%d" % k][o] for k in range(nd + 1)], 1) for w in ("Q", "dQdt"))
        for k in range(nd):
            x = cur["r"][:, k]
            res.check(((x >= lo[k]) | (bl[k] == "open")).all() and ((x <= hi[k]) | (br[k] == "open")).all(), "outside-block", "%s dim %d" % (q, k))
        n += 1
        mid = cur["mid"]
        if mid.any():
            dt = (cur["t"] - cur["tl"])[:, None]
            vs = np.abs(cur["v"]).max() + 1e-30
            if sph:
                ev = np.abs(cur["v"] - cur["v0"] - cur["a0"]*dt)[mid].max()
                er = np.abs(cur["r"] - cur["r0"] - cur["v0"]*dt - .5*cur["a0"]*dt*dt)[mid].max()
            else:
                # mass and momentum of the particle within its step (no accelerations here)
                m = (cur["Q0"] + cur["dQdt"]*dt)[:, nd:nd + 1] if nd + 1 <= cur["Q0"].shape[1] else None
                pk = (cur["Q0"] + cur["dQdt"]*dt)[:, :nd]
                ev = np.abs(cur["v"] - pk/m)[mid].max() if not c["zmf"] else np.abs(cur["v"]*cur["Q0"][:, nd:nd + 1] - cur["Q0"][:, :nd] - cur["dQdt"][:, :nd]*dt)[mid].max()/cur["Q0"][:, nd].max()
                er = np.abs(cur["r"] - cur["r0"] - .5*(cur["v0"] + cur["v"])*dt)[mid].max()
                ev0 = np.abs(cur["v0"] - cur["Q0"][:, :nd]/cur["Q0"][:, nd:nd + 1])[mid].max()
                bnd(res, ev0/vs, 1e-9, "mfv-start-of-step-velocity", q)
            bnd(res, ev/vs, 1e-9, "velocity-within-step", lambda: "%s: %g of %g" % (q, ev, vs))
            bnd(res, er/(L + vs*dt.max()), 1e-11, "position-within-step", lambda: "%s: %g" % (q, er))
        if prev is not None:
            dt = (cur["t"] - prev["tl"])[:, None]
            cont = mid & (np.abs(cur["tl"] - prev["tl"]) <= 1e-12*max(cur["t"], 1e-300))
            if sph:
                w, sgn, moved = bring(prev["r0"] + prev["v0"]*dt + .5*prev["a0"]*dt*dt, lo, hi, bl, br)
                # r0 of a reflected particle is itself an image; one more bounce at most per elementary step
                e = np.abs(w - cur["r"])
                for k in range(nd):
                    if bl[k] == "periodic":
                        e[:, k] = np.minimum(e[:, k], np.abs(e[:, k] - (hi[k] - lo[k])))
                bnd(res, e.max()/(L + np.abs(prev["v0"]*dt).max()), 1e-11, "position-across-wall", lambda: "%s particle %d expected %s found %s" % (
                    q, int(np.argmax(e.max(1))), w[np.argmax(e.max(1))], cur["r"][np.argmax(e.max(1))]))
                if cont.any():
                    ev = np.abs(cur["v"] - sgn*(prev["v0"] + prev["a0"]*dt))[cont].max()
                    bnd(res, ev/(np.abs(prev["v0"]).max() + 1e-30), 1e-9, "velocity-across-wall", q)
                crossed += int(moved.any(1).sum())
                midcross += int((moved.any(1) & cont).sum())
            else:
                # a particle that turned round stays turned round: its momentum now points away from the wall
                for k in range(nd):
                    if bl[k] in ("mirror", "wall") or br[k] in ("mirror", "wall"):
                        f = cont & (np.sign(prev["Q0"][:, k])*np.sign(cur["Q0"][:, k]) < 0)
                        res.check((np.abs(np.abs(prev["Q0"][:, k]) - np.abs(cur["Q0"][:, k]))[cont] <= 1e-13*np.abs(prev["Q0"]).max()).all(), "mfv-momentum-within-step", q)
                        midcross += int(f.sum())
                        crossed += int(f.sum())
                    if bl[k] == "periodic":
                        crossed += int((np.abs(cur["r"][:, k] - prev["r"][:, k]) > .5*(hi[k] - lo[k])).sum())
                # at the end of a step the reflection persists: compare with the velocity the fluxes can explain
                end = ~mid & ~cont
                out = np.zeros(len(mid), bool)
                for k in range(nd):
                    pr = prev["r0"][:, k] + prev["v0"][:, k]*dt[:, 0]
                    for wl, b, sg in ((lo[k], bl[k], -1), (hi[k], br[k], 1)):
                        if c["wall"] and b == "mirror":
                            big = np.abs(prev["v0"][:, k]) > .5*np.abs(prev["v0"][:, k]).max()
                            h = end & big & (sg*(pr - wl) > 1e-3*np.abs(prev["v0"][:, k])*dt[:, 0]) & (sg*prev["v0"][:, k] > 0)
                            crossed += int(h.sum())
                            out |= h & (sg*cur["v"][:, k] > .7*np.abs(prev["v0"][:, k]))
                res.check(not out.any(), "mfv-reflection-lost", lambda: "%s: %d particles still move into the wall after being reflected" % (q, out.sum()))
        prev = cur
    res.count("block_states", n)
    res.count("wall_crossings_block", crossed)
    res.count("wall_crossings_within_a_step", midcross)
    res.nontrivial = n > 5 and crossed > 0
    res.sig = "block:%s:%s:%d:%d:%d" % (c["sim"], c["bc"], c["wall"], nd, c["seed"])


# ------------------------------------------------------------------------------------------------ walls
def walls(c, wd, res):
    s, arr, p = vgas.build(c)
    s = hard(c, s)
    nd = c["nd"]
    bulk(c, arr, nd)
    st = launch(c, wd, res, s + ["setup", "dump s000000.dmp", "stepdump %d 1 s" % c["steps"]], arr)
    if st is None:
        return
    lo, hi, bl, br = box(p, nd)
    prev, crossed, n = None, 0, 0
    for q in sorted(x for x in os.listdir(wd) if x.startswith("s0") and x.endswith(".dmp")):
        try:
            d = vlib.Dump(os.path.join(wd, q))
        except (vlib.HarnessError, ValueError):
            if st == "limit":
                break
            raise
        t = d.part
        if c["dkd"] and (t["nlast"] != d.s["n"]).any():
            r = t.vec("r", nd)
            for k in range(nd):
                res.check(((r[:, k] >= lo[k]) | (bl[k] == "open")).all() and ((r[:, k] <= hi[k]) | (br[k] == "open")).all(), "outside-half-step", "%s dim %d" % (q, k))
            continue       # drift-kick-drift: this call ended in the middle of the step
        r, v, a = t.vec("r", nd), t.vec("v", nd), t.vec("a", nd)
        L = np.max(hi - lo)
        for k in range(nd):
            if bl[k] != "open":
                res.check((r[:, k] >= lo[k]).all(), "outside-left", "%s dim %d: min %.17g < %.17g" % (q, k, r[:, k].min(), lo[k]))
            if br[k] != "open":
                res.check((r[:, k] <= hi[k]).all(), "outside-right", "%s dim %d: max %.17g > %.17g" % (q, k, r[:, k].max(), hi[k]))
        n += 1
        if prev is not None:
            pt, dt = prev.part, d.s["t"] - prev.s["t"]
            o0, o1 = np.argsort(pt["iorig"]), np.argsort(t["iorig"])
            if not res.check(len(o0) == len(o1) and (pt["iorig"][o0] == t["iorig"][o1]).all(), "identity", "%s: iorig set changed" % q):
                return
            if c["sim"] == "sph" or c["static"]:
                res.check((pt["m"][o0] == t["m"][o1]).all() or c["sim"] != "sph", "mass", "%s: mass of a particle changed" % q)
            pr, pv, pa = pt.vec("r", nd)[o0], pt.vec("v", nd)[o0], pt.vec("a", nd)[o0]
            r, v, a = r[o1], v[o1], a[o1]
            if c["sim"] == "sph":
                new = pr + pv*dt + (.5*pa*dt*dt if not c["dkd"] else 0)
                if c["dkd"]:
                    # drift-kick-drift: the full step uses the mean of the velocities, whose change is the half-step acceleration
                    new = None
                if new is not None:
                    w, sgn, moved = bring(new, lo, hi, bl, br)
                    crossed += int(moved.any(1).sum())
                    e = np.abs(w - r)
                    for k in range(nd):
                        if bl[k] == "periodic":
                            e[:, k] = np.minimum(e[:, k], np.abs(e[:, k] - (hi[k] - lo[k])))   # a particle exactly on the edge may sit on either side
                    scale = L + np.abs(pv*dt).max()
                    bnd(res, e.max()/scale, 3e-12, "position-after-step", lambda: "%s particle %d: expected %s found %s" % (
                        q, int(np.argmax(e.max(1))), w[np.argmax(e.max(1))], r[np.argmax(e.max(1))]))
                    # velocity: v' = s v + 1/2 dt (s a + a')
                    a1 = a
                    ev = np.abs(v - (sgn*(pv + .5*dt*pa) + .5*dt*a1)).max()
                    bnd(res, ev/(np.abs(pv).max() + np.abs(pa*dt).max()), 1e-11, "velocity-after-step", q)
                    res.check((np.abs(t.vec("v0", nd)[o1] - v) <= 1e-13*(1 + np.abs(v))).all(), "v0-after-step", q)
                else:
                    # drift-kick-drift: r' - r = 1/2 dt (v + v') with the sign flips of the walls: compare modulo images
                    vmean = .5*(pv + v)
                    for k in range(nd):
                        if bl[k] == "periodic" or bl[k] == br[k] == "open":
                            dr = r[:, k] - pr[:, k] - vmean[:, k]*dt
                            Lk = hi[k] - lo[k]
                            if bl[k] == "periodic":
                                nb = np.round(dr/Lk)
                                crossed += int((nb != 0).sum())
                                dr = dr - nb*Lk
                            bnd(res, np.abs(dr).max()/(L + np.abs(vmean*dt).max()), 3e-12, "position-after-step", "%s dim %d" % (q, k))
                        else:
                            # mirror: either r' = r + 1/2dt(v+v') or, after one bounce, 2w - r' = r + 1/2 dt (v - v')
                            cand = [r[:, k] - pr[:, k] - vmean[:, k]*dt]
                            for wll, b in ((lo[k], bl[k]), (hi[k], br[k])):
                                if b == "mirror":
                                    cand.append(2*wll - r[:, k] - pr[:, k] - .5*(pv[:, k] - v[:, k])*dt)
                            cand = np.abs(np.stack(cand))
                            crossed += int((cand.argmin(0) > 0).sum())
                            bnd(res, cand.min(0).max()/(L + np.abs(vmean*dt).max()), 3e-12, "position-after-step", "%s dim %d (mirror)" % (q, k))
            else:
                dr = r - pr
                for k in range(nd):
                    if bl[k] == "periodic":
                        Lk = hi[k] - lo[k]
                        nb = np.round((dr[:, k] - pv[:, k]*dt)/Lk)
                        crossed += int((nb != 0).sum())
                        dr[:, k] -= nb*Lk
                if c["static"]:
                    res.check(np.abs(dr).max() == 0, "static-moved", q)
                else:
                    lim = (np.abs(pv).max(0) + np.abs(v).max(0) + 2*np.abs(pa).max(0)*dt)*dt + 1e-12*L
                    for k in range(nd):
                        if c["ic"] == "smooth" or bl[k] == "periodic":
                            res.check((np.abs(dr[:, k]) <= 1.05*lim[k]).all(), "displacement", "%s dim %d moved %g, limit %g" % (q, k, np.abs(dr[:, k]).max(), lim[k]))
                        flip = (np.sign(pv[:, k])*np.sign(v[:, k]) < 0) & (np.abs(pv[:, k]) > .2*np.abs(pv[:, k]).max())
                        crossed += int(flip.sum()) if bl[k] == "mirror" or br[k] == "mirror" else 0
        prev = d
    res.count("steps", n)
    res.count("wall_crossings", crossed)
    res.mx("crossings_per_run", crossed)
    res.nontrivial = n > 3 and (crossed > 0 or c["static"])
    res.sig = "walls:%s:%s:%s:%d:%d" % (c["sim"], c["bc"], c["dkd"], nd, c["seed"])


def box(p, nd):
    lo = np.array([p["boxmin[%d]" % k] for k in range(nd)])
    hi = np.array([p["boxmax[%d]" % k] for k in range(nd)])
    return lo, hi, [p["boundary_lhs[%d]" % k] for k in range(nd)], [p["boundary_rhs[%d]" % k] for k in range(nd)]


def bring(x, lo, hi, bl, br):
    """independent wrap / reflection into the box -> positions, velocity signs, crossed"""
    w, sgn = x.copy(), np.ones_like(x)
    for k in range(x.shape[1]):
        L = hi[k] - lo[k]
        if bl[k] == "periodic":
            w[:, k] = lo[k] + np.mod(x[:, k] - lo[k], L)
        else:
            for _ in range(8):
                if bl[k] == "mirror":
                    o = w[:, k] < lo[k]
                    w[o, k] = 2*lo[k] - w[o, k]
                    sgn[o, k] *= -1
                if br[k] == "mirror":
                    o = w[:, k] > hi[k]
                    w[o, k] = 2*hi[k] - w[o, k]
                    sgn[o, k] *= -1
    L = np.max(hi - lo)
    return w, sgn, np.abs(w - x) > 1e-9*L


# ------------------------------------------------------------------------------------------------ ghosts
MFV_SCAL = ["ptype"]        # the number-density sums read positions only; fluxes and gradients build images from the sources (double/shift)
SPH_SCAL = ["m", "u", "ptype"]      # what the density sums read; forces build their images on the fly from the sources (C02)


def ghosts(c, wd, res):
    s, arr, p = vgas.build(c)
    nd = c["nd"]
    bulk(c, arr, nd)
    g = vlib.rng_for(c["seed"], "types")
    pts = {"sph": ["forces"], "mfvmuscl": ["endstep"], "mfvrk": ["flux"]}[c["sim"]]
    s += ["hookdump %s %d 5 g%d_ ghosts" % (q, 1 if c["nd"] == 3 else 3, i) for i, q in enumerate(pts)]
    st = launch(c, wd, res, s + ["setup", "steps %d" % c["steps"]], arr)
    if st is None:
        return
    lo, hi, bl, br = box(p, nd)
    kr = sphref.Kernel(c["kernel"], nd).range
    tot = multi = states = 0
    for q in sorted(x for x in os.listdir(wd) if x.startswith("g") and x.endswith(".dmp")):
        try:
            d = vlib.Dump(os.path.join(wd, q))
        except (vlib.HarnessError, ValueError):
            if st == "limit":
                break
            raise
        t, gh = d.part, d.ghost
        pt = pts[int(q[1])]
        N, G = t.n, gh.n
        states += 1
        if not G:
            res.check(not needs_image(t, nd, lo, hi, bl, br, kr), "no-ghosts", q)
            continue
        src = gh["iorig"].astype(int)
        if not res.check((src >= 0).all() and (src < N + np.arange(G)).all(), "ghost-source", "%s: source index out of range" % q):
            return
        root, level = src.copy(), np.ones(G, int)
        for _ in range(4):
            o = root >= N
            level[o] += 1
            root[o] = src[root[o] - N]
        res.check((gh["dead"] == 0).all() and (t["dead"][root] == 0).all(), "ghost-of-dead", q)
        res.check((gh["active"] == 0).all(), "ghost-active", q)
        R, X = t.vec("r", nd)[root], gh.vec("r", nd)
        sg = np.ones((G, nd))
        used = np.zeros(G, int)
        L = np.max(hi - lo)
        code = np.zeros((G, nd))
        amb_any = False
        for k in range(nd):
            cand = [R[:, k]]
            sig, cd = [1.0], [0]
            if bl[k] == "periodic":
                cand += [R[:, k] + hi[k] - lo[k], R[:, k] - (hi[k] - lo[k])]
                sig += [1., 1.]
                cd += [1, 2]
            if bl[k] == "mirror":
                cand.append(2*lo[k] - R[:, k])
                sig.append(-1.)
                cd.append(3)
            if br[k] == "mirror":
                cand.append(2*hi[k] - R[:, k])
                sig.append(-1.)
                cd.append(4)
            e = np.abs(np.stack(cand) - X[:, k])
            b = e.argmin(0)
            # a particle sitting on the wall: prefer the image that the ghost's velocity shows
            bnd(res, e.min(0).max()/L, 1e-13, "ghost-position", lambda: "%s dim %d ghost %d" % (q, k, int(e.min(0).argmax())))
            near = e < 1e-12*L
            sig, cd = np.array(sig), np.array(cd)
            vk, gv = t["v" + "xyz"[k]][root], gh["v" + "xyz"[k]]
            amb = near.sum(0) > 1
            if amb.any():
                amb_any = True
                for m in np.nonzero(amb)[0]:
                    for b2 in np.nonzero(near[:, m])[0]:
                        if sig[b2]*vk[m] == gv[m] and b2 > 0:
                            b[m] = b2
            sg[:, k], code[:, k] = sig[b], cd[b]
            used += (b > 0)
            for f in ("v",) if c["sim"] == "sph" else ():     # (accelerations are accumulated after the ghosts have been made)
                x, y = t[f + "xyz"[k]][root]*sg[:, k], gh[f + "xyz"[k]]
                res.check(same(x, y, c), "ghost-" + f, lambda: "%s dim %d: %d ghosts differ" % (q, k, (x != y).sum()))
        res.check((used == level).all() or c["sim"] != "sph" and amb_any, "ghost-generation", lambda: "%s: %d ghosts whose image directions do not match their generation" % (q, (used != level).sum()))
        key = np.concatenate([root[:, None], code], 1)
        res.check(len(np.unique(key, axis=0)) == G, "ghost-duplicate", "%s: %d ghosts, %d distinct images" % (q, G, len(np.unique(key, axis=0))))
        for f in (SPH_SCAL if c["sim"] == "sph" else MFV_SCAL):
            x, y = t[f][root], gh[f]
            res.check(same(x, y, c), "ghost-" + f, lambda: "%s (%s): %d ghosts differ, e.g. %r vs %r" % (
                q, pt, (x != y).sum(), x[np.argmax(x != y)], y[np.argmax(x != y)]))
        # completeness: every image closer to the box than the kernel support must be there
        have = set(map(tuple, key.astype(int)))
        need = needs_image(t, nd, lo, hi, bl, br, kr)
        miss = [w for w in need if w not in have]
        res.check(not miss, "ghost-missing", lambda: "%s: %d of %d images in kernel range missing, e.g. particle %d directions %s" % (
            q, len(miss), len(need), miss[0][0], miss[0][1:]))
        tot += G
        multi += int((level > 1).sum())
    res.count("ghost_states", states)
    res.count("ghosts", tot)
    res.count("ghosts_of_ghosts", multi)
    res.nontrivial = states > 0 and tot > 0
    res.sig = "ghosts:%s:%s:%d:%d" % (c["sim"], c["bc"], nd, c["seed"])


def same(x, y, c):
    if c["sim"] == "sph":
        return (x == y).all()
    return (np.abs(x - y) <= 1e-12*np.abs(x).max()).all()      # recomputed for the source after the copy: equal up to rounding


def needs_image(t, nd, lo, hi, bl, br, kr):
    """(index, code per dimension) of every image within the source's kernel support of the box in every crossed direction"""
    r, h = t.vec("r", nd), t["h"]
    live = t["dead"] == 0
    per = []
    for k in range(nd):
        l = [(0, np.ones(len(r), bool))]
        if bl[k] == "periodic":
            l.append((1, r[:, k] < lo[k] + kr*h))
            l.append((2, r[:, k] > hi[k] - kr*h))
        if bl[k] == "mirror":
            l.append((3, r[:, k] < lo[k] + kr*h))
        if br[k] == "mirror":
            l.append((4, r[:, k] > hi[k] - kr*h))
        per.append(l)
    combos = [((), live)]
    for l in per:
        combos = [(s + (cd,), m & w) for s, m in combos for cd, w in l]
    out = []
    for s, m in combos:
        if any(s):
            out += [(int(i),) + s for i in np.nonzero(m)[0]]
    return out


# ------------------------------------------------------------------------------------------------ paired runs
def fields(c, d, o=None):
    nd = c["nd"]
    t = d.part
    o = np.argsort(t["iorig"]) if o is None else o
    out = {"r": t.vec("r", nd)[o], "v": t.vec("v", nd)[o], "u": t["u"][o], "h": t["h"][o], "rho": t["rho"][o], "m": t["m"][o]}
    if c["sim"] != "sph":
        for k in range(nd + 2):
            out["W%d" % k] = t["W%d" % k][o]
    return out


def pairlim(res):
    return 1e-7


def shift(c, wd, res):
    nd = c["nd"]
    s, arr, p = vgas.build(c, extra={"h_converge": 1e-10})
    bulk(c, arr, nd)
    g = vlib.rng_for(c["seed"], "shift")
    lo, hi, bl, br = box(p, nd)
    L = hi - lo
    by = g.uniform(0, 1, nd)*L
    if g.uniform() < .3:
        by = by*(g.uniform(size=nd) < .5)
    arr2 = dict(arr)
    for k in range(nd):
        x = arr["sph_%s.raw" % "xyz"[k]]
        arr2["sph_%s.raw" % "xyz"[k]] = lo[k] + np.mod(x + by[k] - lo[k], L[k])
    D = {}
    for nm, a in (("a", arr), ("b", arr2)):
        w = os.path.join(wd, nm)
        os.makedirs(w, exist_ok=True)
        st = launch(c, w, res, s + ["setup", "dump s0.dmp", "steps %d" % c["steps"], "dump s1.dmp"], a)
        if st is None:
            return
        D[nm] = (st, w)
    if D["a"][0] != "ok" or D["b"][0] != "ok":
        res.check(D["a"][0] == D["b"][0] or True, "x", "")
        res.inconclusive = "positivity/box limit"
        return
    for q in ("s0.dmp", "s1.dmp"):
        A, B = [vlib.Dump(os.path.join(D[nm][1], q)) for nm in "ab"]
        if not same_clock(res, A, B, q):
            return
        fa, fb = fields(c, A), fields(c, B)
        compare(res, c, fa, fb, by, L, q, "shift")
    res.count("pairs")
    res.nontrivial = True
    res.sig = "shift:%s:%d:%s:%d" % (c["sim"], nd, c["kernel"], c["seed"])


def same_clock(res, A, B, q):
    return bnd(res, abs(A.s["t"] - B.s["t"])/max(A.s["t"], 1e-300), 1e-6, "paired-clock", "%s t %r vs %r" % (q, A.s["t"], B.s["t"]))


def compare(res, c, fa, fb, by, L, q, what):
    vs = np.abs(fa["v"]).max() + np.sqrt(np.abs(fa["u"]).max())
    for f in fa:
        if f == "r":
            e = (fb["r"] - fa["r"] - by)
            e = np.abs(e - np.round(e/L)*L if L is not None else e).max()/np.max(L if L is not None else 1)
        elif f in ("v",) or (f[0] == "W" and int(f[1:]) < c["nd"]):
            e = np.abs(fb[f] - fa[f]).max()/vs
        else:
            e = np.abs(fb[f] - fa[f]).max()/np.abs(fa[f]).max()
        bnd(res, e, pairlim(res), "%s-%s" % (what, "W" if f[0] == "W" else f), "%s %s" % (q, f))


def double(c, wd, res):
    """mirror wall(s) in one dimension against the explicitly mirrored problem"""
    nd = c["nd"]
    g = vlib.rng_for(c["seed"], "double")
    k = int(g.randint(nd))
    c2 = dict(c, bc="periodic")
    N = {1: 100, 2: 1500 if c["kernel"] != "m4" else 700, 3: 5832 if c["kernel"] != "m4" else 2744}[nd]
    s, arr, p = vgas.build(c2, N=N, extra={"h_converge": 1e-10})
    lo, hi, _, _ = box(p, nd)
    L = hi - lo
    X = "xyz"[k]
    one = c["one"]
    left = int(g.randint(2)) if one else 0
    pa, pb = dict(p), dict(p)
    wall = lo[k] if (not one or left) else hi[k]
    if one:
        pa["boundary_lhs[%d]" % k] = "mirror" if left else "open"
        pa["boundary_rhs[%d]" % k] = "open" if left else "mirror"
        pb["boundary_lhs[%d]" % k] = pb["boundary_rhs[%d]" % k] = "open"
    else:
        pa["boundary_lhs[%d]" % k] = pa["boundary_rhs[%d]" % k] = "mirror"
    if left or not one:
        pb["boxmin[%d]" % k] = lo[k] - L[k]
    else:
        pb["boxmax[%d]" % k] = hi[k] + L[k]
    arr = dict(arr)
    if c["sim"] != "sph":
        # fields compatible with the walls: no flow through them
        x = (arr["sph_%s.raw" % X] - lo[k])/L[k]
        arr["sph_v%s.raw" % X] = arr["sph_v%s.raw" % X]*np.sin(np.pi*x)**2
    n = len(arr["sph_m.raw"])
    arr2 = {}
    for q, x in arr.items():
        y = x
        if q == "sph_%s.raw" % X:
            y = 2*wall - x
        if q == "sph_v%s.raw" % X:
            y = -x
        arr2[q] = np.concatenate([x, y])
    pb["Nhydro"] = 2*n
    names = [q for q in arr]
    D = {}
    for nm, a, pp in (("a", arr, pa), ("b", arr2, pb)):
        w = os.path.join(wd, nm)
        os.makedirs(w, exist_ok=True)
        sc = vlib.params_script(pp) + ["sim", "prepython"] + [l for l in s if l.startswith("array ")]
        st = launch(c, w, res, sc + ["setup", "dump s0.dmp", "steps %d" % c["steps"], "dump s1.dmp"], a)
        if st is None:
            return
        D[nm] = (st, w)
    if D["a"][0] != "ok" or D["b"][0] != "ok":
        res.inconclusive = "positivity/box limit"
        return
    cross = 0
    for q in ("s0.dmp", "s1.dmp"):
        A, B = [vlib.Dump(os.path.join(D[nm][1], q)) for nm in "ab"]
        if not same_clock(res, A, B, q):
            return
        fa, fb = fields(c, A), fields(c, B)
        if not res.check(len(fb["m"]) == 2*n and len(fa["m"]) == n, "double-count", q):
            return
        # the doubled run stays symmetric; particle i of the mirror run is whichever of i, i+n is on the original side
        xb = fb["r"][:, k]
        inside = ((xb[:n] >= wall) if left else (xb[:n] <= wall)) if one else (xb[:n] >= lo[k]) & (xb[:n] <= hi[k])
        cross += int((~inside).sum())
        pick = np.where(inside, np.arange(n), np.arange(n) + n)
        fb = {f: x[pick] for f, x in fb.items()}
        Lp = np.where([pb["boundary_lhs[%d]" % m] == "periodic" for m in range(nd)], L*np.where(np.arange(nd) == k, 2, 1), 1e30*L)
        e = fb["r"] - fa["r"]
        e = np.abs(e - np.round(e/Lp)*Lp)
        fb["r"] = fa["r"] + e
        compare(res, c, fa, fb, np.zeros(nd), L*1e0 if False else L, q, "double")
    res.count("pairs")
    res.count("double_crossings", cross)
    res.nontrivial = True
    res.sig = "double:%s:%d:%d:%s:%d" % (c["sim"], nd, one, c["kernel"], c["seed"])
