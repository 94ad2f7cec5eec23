"""C13: snapshots written and read back reproduce the state (monitor: independent parser of the files, and the state before writing against the state after reading)."""
import os
import struct
import numpy as np
import vlib, vgen

DRIVERS = ["gdrv"]
RULE = ("cases = format (column, sf, su, lite) x scheme (SPH, meshless, N-body) x dimension x particle types x dead particles x stars/sinks x units x earlier content of the reading simulation; a state after a few steps is written, "
        "the file is parsed independently (header, unit strings, array table, types, exact length), read back and compared with the state before, read header-only, and written again; "
        "non-trivial when >=20 particle (or >=2 star) records were compared; distinct = configuration")
ASSUMPTIONS = ["column files hold 6 digits and no particle types, sf files 10 digits after the point, su files are exact", "sink spins and histories are not part of the formats", "icm particles (which GANDALF cannot evolve and reads as gas) are not generated", "a text (sf) file used as initial conditions (not a restart) leaves the time alone"]
TYPES = {0: "gas", 1: "icm", 2: "cdm", 3: "dust"}
ORDER = [1, 0, 2, 3]            # order of the types in the files
UNITS = [("r", ["pc", "au", "r_sun"]), ("m", ["m_sun", "m_jup", "g"]), ("t", ["yr", "myr", "s"]), ("v", ["km_s", "cm_s"]), ("rho", ["g_cm3", "m_sun_pc3", "kg_m3"]), ("u", ["erg_g", "J_kg"]), ("dudt", ["erg_g_s", "J_kg_s"])]


def cases(tier, seed):
    g = vlib.rng_for("C13", seed)
    n = 160 if tier == "quick" else 3000
    out = []
    for i in range(n):
        sim = ["sph", "mfvmuscl", "sph", "nbody"][i//4 % 4]
        c = {"job": "snap", "form": ["column", "sf", "su", "lite"][i % 4], "sim": sim, "nd": int(g.choice([1, 2, 3], p=[.2, .3, .5])), "N": int(g.choice([30, 77, 200])), "stars": int(g.choice([0, 1, 3])),
             "types": str(g.choice(["gas", "gas", "gas+cdm", "gas+dust", "gas+cdm+dust"])), "dead": int(g.choice([0, 1, 5])), "dim": int(g.uniform() < .5), "steps": int(g.choice([0, 3])),
             "units": {k: str(g.choice(v)) for k, v in UNITS}, "prior": int(g.choice([0, 1, 2])), "restart": int(g.uniform() < .6), "seed": int(g.randint(1 << 31)), "cost": 1}
        if sim == "nbody":
            c.update(nd=3, N=0, stars=int(g.choice([2, 7])), dead=0, types="gas")
        if c["form"] == "column" or sim == "mfvmuscl":
            c["types"] = "gas"
        if c["nd"] < 3 and sim != "nbody":
            c["stars"] = 0
        out.append(c)
    return out


def params(c, dim=True):
    p = dict(vgen.BASE)
    p.update(ndim=c["nd"], sim=c["sim"], gas_eos="energy_eqn", gamma_eos=1.4, self_gravity=int(c["stars"] > 0 or c["types"] != "gas"), hydro_forces=1, nbody="lfkdk", nbody_softening=1, zero_mass_flux=1, kernel="m4", sink_particles=int(c["stars"] > 0 and c["N"] > 0),
             create_sinks=0, rho_sink=1e9 if not c["dim"] else 1e12, mu_bar=2.3, dimensionless=int(not c["dim"]))
    if c["dim"]:
        p.update({k + "outunit": v for k, v in c["units"].items()})
    return p


def state(c, g, N):
    """-> lines, arrays, ptype"""
    nd = c["nd"]
    r = g.uniform(-1, 1, (N, nd))
    lines, arr = ([], {})
    if N:
        lines, arr = vgen.hydro_arrays(nd, r, g.normal(0, .1, (N, nd)), g.uniform(.5, 1.5, N)/N, u=g.uniform(1, 2, N))
    if c["stars"]:
        n = c["stars"]
        l2, a2 = vgen.hydro_arrays(nd, g.normal(0, 1, (n, nd)), g.normal(0, .3, (n, nd)), g.uniform(.1, .4, n), h=g.uniform(.01, .05, n), typ="star")
        lines += l2
        arr.update(a2)
    t = np.zeros(N)
    if c["types"] != "gas":
        pool = {"gas+cdm": [0, 2], "gas+dust": [0, 3], "gas+cdm+dust": [0, 2, 3]}[c["types"]]
        t = g.choice(pool, N).astype(float)
    return lines, arr, t


def scales(f):
    return {e["unit"]: e for e in f.events if "unit" in e}


class Parsed:
    pass


def parse_su(raw, lite):
    P = Parsed()
    F, fs = ("f", 4) if lite else ("d", 8)
    o = [0]

    def take(fmt):
        n = struct.calcsize("<" + fmt)
        v = struct.unpack_from("<" + fmt, raw, o[0])
        o[0] += n
        return v

    def text():
        o[0] += 20
        return raw[o[0] - 20:o[0]].decode("latin1").strip()
    P.tag = text()
    P.prec, P.nd, P.nd2, P.nd3 = take("4i")
    P.idata, P.ilp = take("50i"), take("50q")
    P.rdata, P.ddata = take("50" + F), take("50d")
    P.units = [text() for _ in range(P.idata[19])]
    P.ids = [text() for _ in range(P.idata[20])]
    P.table = [take("5i") for _ in P.ids]
    N, P.arrays, P.stars = P.idata[0], {}, []
    for k in P.ids:
        if k == "sink_v1":
            n = 12 + 2*P.nd
            P.sinkhead = take("6i")
            for i in range(P.idata[1]):
                a = take("4i")
                P.stars.append((a, take("%d%s" % (n, F))))
        elif k == "porig":
            P.arrays[k] = np.array(take("%di" % N))
        elif k in ("r", "v"):
            P.arrays[k] = np.array(take("%d%s" % (N*P.nd, F))).reshape(N, P.nd)
        else:
            P.arrays[k] = np.array(take("%d%s" % (N, F)))
    P.left = len(raw) - o[0]
    return P


def parse_sf(txt):
    P = Parsed()
    w = txt.split()
    o = [0]

    def take(n, f=float):
        o[0] += n
        return [f(x) for x in w[o[0] - n:o[0]]]
    P.tag = take(1, str)[0]
    P.prec, P.nd, P.nd2, P.nd3 = take(4, int)
    P.idata, P.ilp, P.rdata, P.ddata = take(50, int), take(50, int), take(50), take(50)
    P.units = take(P.idata[19], str)
    P.ids = take(P.idata[20], str)
    P.table = [take(5, int) for _ in P.ids]
    N, P.arrays, P.stars = P.idata[0], {}, []
    for k in P.ids:
        if k == "sink_v1":
            P.sinkhead = take(6, int)
            for i in range(P.idata[1]):
                fl = ""                  # two flags, possibly glued together
                while len(fl) < 2:
                    fl += take(1, str)[0]
                assert fl == "TT", fl
                a = [1, 1] + take(2, int)
                P.stars.append((a, take(12 + 2*P.nd)))
        elif k in ("r", "v"):
            P.arrays[k] = np.array(take(N*P.nd)).reshape(N, P.nd)
        else:
            P.arrays[k] = np.array(take(N, int if k == "porig" else float))
    P.left = len(w) - o[0]
    return P


def parse_column(txt, nd):
    P = Parsed()
    w = txt.split()
    N, S, P.nd = int(w[0]), int(w[1]), int(w[2])
    P.idata = [N, S]
    P.t = float(w[3])
    v = np.array([float(x) for x in w[4:]])
    P.left = len(v) - (N + S)*(2*nd + 4)
    q = v[:N*(2*nd + 4)].reshape(N, 2*nd + 4)
    P.arrays = {"r": q[:, :nd], "v": q[:, nd:2*nd], "m": q[:, 2*nd], "h": q[:, 2*nd + 1], "rho": q[:, 2*nd + 2], "u": q[:, 2*nd + 3]}
    q = v[N*(2*nd + 4):(N + S)*(2*nd + 4)].reshape(S, 2*nd + 4)
    P.starq = q
    return P


def near(res, key, a, b, tol, atol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if not res.check(a.shape == b.shape, key + ":count", lambda: "%s, wanted %s" % (a.shape, b.shape)) or not a.size:
        return
    e = np.abs(a - b)
    i = int(np.argmax(e/(np.abs(b)*tol + atol + 1e-300)))
    res.bound(key, (e/(np.abs(b)*tol + atol + 1e-300)).flat[i], 1.0, lambda: "%r, wanted %r (element %d)" % (a.flat[i], b.flat[i], i))


def table(d, name):
    return d.t[name] if name in d.t and d.t[name].n else None


def run_case(c, wd, res):
    g = np.random.RandomState(c["seed"])
    form, nd = c["form"], c["nd"]
    file = "S." + form
    lines, arr, typ = state(c, g, c["N"])
    p = params(c)
    p.update(Nhydro=c["N"], Nstar=c["stars"])
    arr["typ.raw"] = typ
    kill = sorted(set(g.choice(c["N"], c["dead"], replace=False).tolist())) if c["dead"] else []
    sc = vlib.params_script(p) + ["sim", "prepython"] + lines + (["ptype typ.raw"] if c["types"] != "gas" else []) + ["units", "setup", "steps %d" % c["steps"]]
    if kill:
        sc.append("kill " + " ".join(map(str, kill)))
    f = vlib.run_driver(sc + ["dump a.dmp", "writesnap %s %s" % (file, {"lite": "slite"}.get(form, form))], wd, arrays=arr, timeout=60, name="w")
    key = "%s:" % form
    if f.failure():
        if any(q in f.failure() for q in ("part.u > ", "press", "Wleft", "Wright", "Smoothing length too large")) or "timestep too large" in f.failure() and c["types"] != "gas":
            # (collisionless particles without gravity are never accelerated: no step can be chosen)
            res.inconclusive = "limit of the code reached: " + f.failure()
            return
        res.fail(key + "write:" + f.failure(), f.out[-300:])
        return
    a = vlib.Dump(os.path.join(wd, "a.dmp"))
    u = scales(f)
    S = {k: (u[k]["outscale"] if u else 1.0) for k in ("r", "m", "t", "v", "rho", "u")} if u else None
    if S is None:
        res.inconclusive = "no unit table"
        return
    raw = open(os.path.join(wd, file), "rb").read()
    ap, asx = table(a, "part"), table(a, "star")
    # expected content, in the order of the file
    if ap is not None:
        live = ap["dead"] == 0
        idx = np.concatenate([np.nonzero(live & (ap["ptype"] == t))[0] for t in ORDER]) if form in ("sf", "su") else np.nonzero(live)[0]
        E = {"porig": ap["iorig"][idx], "r": ap.vec("r", nd)[idx]*S["r"], "v": ap.vec("v", nd)[idx]*S["v"], "m": ap["m"][idx]*S["m"], "h": ap["h"][idx]*S["r"], "rho": ap["rho"][idx]*S["rho"], "u": ap["u"][idx]*S["u"]}
        counts = [int((live & (ap["ptype"] == t)).sum()) for t in ORDER]
    else:
        idx, E, counts = np.zeros(0, int), {}, [0]*4
    tol = {"column": 6e-6, "sf": 6e-11, "su": 1e-15, "lite": 1.2e-7}[form]
    nst = asx.n if asx is not None else 0
    try:
        P = parse_column(raw.decode(), nd) if form == "column" else parse_sf(raw.decode()) if form == "sf" else parse_su(raw, form == "lite")
    except Exception as e:
        res.fail(key + "file-malformed", "%s: %s" % (type(e).__name__, e))
        return
    res.check(P.left == 0, key + "file-length", "%d items left over" % P.left)
    res.check(P.idata[0] == len(idx) and P.idata[1] == nst, key + "file-counts", "%d particles %d stars, wanted %d %d" % (P.idata[0], P.idata[1], len(idx), nst))
    if form == "column":
        near(res, key + "file-time", [P.t], [a.s["t"]*S["t"]], tol)
    else:
        res.check(P.tag.startswith("SERENBINARYDUMP") or P.tag.startswith("SERENASCIIDUMP"), key + "file-tag", P.tag)
        res.check((P.nd, P.nd2, P.nd3) == (nd,)*3 and P.prec == (4 if form in ("lite", "sf") else 8), key + "file-header", "%s" % ((P.prec, P.nd, P.nd2, P.nd3),))
        res.check(list(P.idata[3:7]) == counts, key + "file-types", "%s, wanted %s" % (P.idata[3:7], counts))
        near(res, key + "file-time", [P.ddata[0]], [a.s["t"]*S["t"]], tol if form == "sf" else 1e-15)
        near(res, key + "file-lastsnap", [P.ddata[1]], [a.s["tsnaplast"]*S["t"]], 1e-10)
        res.check(P.ilp[0] == a.s["Noutsnap"] and P.ilp[1] == a.s["Nsteps"], key + "file-numbers", "%s" % (P.ilp[:2],))
        want = [] if not c["dim"] else [c["units"][k] for k in ("r", "m", "t", "v")]
        res.check(list(P.units[:4]) == want and (not want or (P.units[5] == c["units"]["rho"] and P.units[19] == c["units"]["u"])), key + "file-units", "%s" % (P.units,))
        for k, tb in zip(P.ids, P.table):
            w = nd if k in ("r", "v") else 1
            res.check(tb[0] == w and tb[1] == 1 and tb[2] == (nst if k == "sink_v1" else len(idx)), key + "file-table", "%s %s" % (k, tb))
            if want and k in E and k != "porig":
                res.check(P.units[tb[4] - 1] == c["units"]["r" if k == "h" else k], key + "file-array-unit", "%s: unit %d (%s)" % (k, tb[4], P.units[tb[4] - 1]))
    for k in E:
        if k in P.arrays:
            near(res, key + "file:" + k, P.arrays[k], E[k], tol, 1e-37 if form == "lite" else 0.0)
        else:
            res.check(form in ("column", "lite") and k in ("porig", "v") or not len(idx), key + "file-array-missing", k)
    if nst:
        er, ev, em, eh = asx.vec("r", nd)*S["r"], asx.vec("v", nd)*S["v"], asx["m"]*S["m"], asx["h"]*S["r"]
        if form == "column":
            near(res, key + "file:star-r", P.starq[:, :nd], er, tol)
            near(res, key + "file:star-v", P.starq[:, nd:2*nd], ev, tol)
            near(res, key + "file:star-m", P.starq[:, 2*nd], em, tol)
            near(res, key + "file:star-h", P.starq[:, 2*nd + 1], eh, tol)
        else:
            s = np.array([x[1] for x in P.stars]).reshape(nst, 12 + 2*nd)
            near(res, key + "file:star-r", s[:, 1:1 + nd], er, tol)
            near(res, key + "file:star-v", s[:, 1 + nd:1 + 2*nd], ev, tol)
            near(res, key + "file:star-m", s[:, 1 + 2*nd], em, tol)
            near(res, key + "file:star-h", s[:, 2 + 2*nd], eh, tol)
            near(res, key + "file:star-radius", s[:, 3 + 2*nd], asx["radius"]*S["r"], tol)
            res.check([x[0][2] for x in P.stars] == list(range(1, nst + 1)), key + "file:star-ids", "")
    res.count("records", len(idx) + nst)
    res.nontrivial = len(idx) >= 20 or nst >= 2
    res.sig = str(sorted((k, str(v)) for k, v in c.items() if k not in ("seed", "cost")))
    if form == "lite":
        return
    # read back
    sc = vlib.params_script(params(dict(c))) + ["sim", "process"]
    if c["prior"]:
        # the reading simulation has held other particles before
        c2 = dict(c, stars=5 if c["prior"] == 1 or not c["N"] else 1, types="gas")
        l2, a2, _ = state(c2, g, 0 if not c["N"] else 300 if c["prior"] == 1 else 25)
        p2 = params(c2)
        p2.update(Nhydro=0 if not c["N"] else 300 if c["prior"] == 1 else 25, Nstar=c2["stars"])
        if nd == 3 or not c["N"]:
            sc = vlib.params_script(p2) + ["sim", "prepython"] + [x.replace(" sph_", " z_sph_").replace(" star_", " z_star_") for x in l2] + ["setup"]
            arr2 = {"z_" + k: v for k, v in a2.items()}
        else:
            arr2 = {}
    else:
        arr2 = {}
    rs = ["restart"] if c["restart"] else []
    f = vlib.run_driver(sc + rs + ["header %s %s" % (file, form), "readsnap %s %s" % (file, form), "convert", "dump b.dmp", "writesnap S2.%s %s" % (form, form)], wd, arrays=arr2, timeout=60, name="r")
    if f.failure():
        res.fail(key + "read:" + f.failure(), f.out[-300:])
        return
    b = vlib.Dump(os.path.join(wd, "b.dmp"))
    h = [e for e in f.events if e.get("ev") == "header"][0]
    res.check(h["Nhydro"] == len(idx) and h["Nstar"] == nst and h["ndim"] == nd, key + "header-only", "%s" % h)
    near(res, key + "header-only:time", [h["t"]], [a.s["t"]], max(tol, 1e-14))
    bp, bs = table(b, "part"), table(b, "star")
    if not res.check((bp.n if bp is not None else 0) == len(idx) and (bs.n if bs is not None else 0) == nst, key + "read-counts", "%d particles, %d stars, wanted %d, %d" % (bp.n if bp is not None else 0, bs.n if bs is not None else 0, len(idx), nst)):
        return
    rtol = max(tol, 4e-15)*1.5
    if form != "sf" or c["restart"]:
        near(res, key + "read:time", [b.s["t"]], [a.s["t"]], rtol)
    if c["restart"] and form != "column":
        for k in ("Noutsnap", "Nsteps", "Noutlitesnap"):
            res.check(b.s[k] == a.s[k], key + "restart:" + k, "%s, wanted %s" % (b.s[k], a.s[k]))
        near(res, key + "restart:tsnaplast", [b.s["tsnaplast"]], [a.s["tsnaplast"]], rtol)
    if bp is not None:
        for k in ("r", "v"):
            near(res, key + "read:" + k, bp.vec(k, nd), ap.vec(k, nd)[idx], rtol)
        for k in ("m", "h", "rho", "u"):
            near(res, key + "read:" + k, bp[k], ap[k][idx], rtol)
        res.check(not bp["dead"].any(), key + "read:dead", "")
        if form != "column":
            res.check(np.array_equal(bp["iorig"], ap["iorig"][idx]), key + "read:iorig", "")
        bad = bp["ptype"] != ap["ptype"][idx]
        res.check(not bad.any(), key + "read:ptype", lambda: "%d particles, e.g. type %d read as %d" % (bad.sum(), ap["ptype"][idx][bad][0], bp["ptype"][bad][0]))
    if bs is not None:
        for k in ("r", "v"):
            near(res, key + "read:star-" + k, bs.vec(k, nd), asx.vec(k, nd), rtol)
        for k in ("m", "h") + (("radius",) if form != "column" else ()):
            near(res, key + "read:star-" + k, bs[k], asx[k], rtol)
    # and written again
    raw2 = open(os.path.join(wd, "S2." + form), "rb").read()
    if not c["dim"] and (c["restart"] or form == "column") and c["types"] in ("gas", "gas+cdm", "gas+dust"):
        same = raw2 == raw
        if not same and form == "column":
            same = raw2.split() == raw.split()
        res.check(same, key + "rewritten", lambda: "differs at byte %d" % next((i for i in range(min(len(raw), len(raw2))) if raw[i] != raw2[i]), -1))
        res.count("files rewritten identically")
