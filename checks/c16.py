"""C16: parameter files are parsed faithfully or rejected (reference parser against the values the code holds after reading random files)."""
import os
import numpy as np
import vlib, vgen

DRIVERS = ["gdrv"]
RULE = ("cases = 'file': random parameter files (random subset, order, notation, white space, labels, comments, repeated entries, unknown entries) read by the code and compared with a reference parser, every parameter not in the "
        "file compared with its default; 'record': parameters recorded to run_id.param and read again; 'bad': ill-typed values, missing files, missing run_id, unknown option values must end in an error; 'use': the parameters "
        "consumed by set-up and steps of a random configuration are all known to the file reader, the simulation holds the values of the file, and set/get through the simulation interface round-trips; "
        "non-trivial when >=100 values were compared or an error was provoked; distinct = case")
ASSUMPTIONS = ["trailing characters after a number are tolerated", "options that the chosen configuration never consults are not validated"]

# option parameters whose unknown values must be reported, per simulation type
COMMON = ["sim", "nbody", "ic", "kernel", "gas_eos", "energy_integration", "external_potential", "neib_search", "gravity_mac", "multipole", "rand_algorithm", "dust_forces", "drag_law", "supernova_feedback",
          "boundary_lhs[0]", "boundary_rhs[1]", "routunit", "moutunit"]
OPTS = {"sph": COMMON + ["avisc", "acond", "time_dependent_avisc", "radiation", "sph_integration"],
        "mfvmuscl": COMMON + ["riemann_solver", "slope_limiter", "time_step_limiter"]}


def cases(tier, seed):
    g = vlib.rng_for("C16", seed)
    q = tier == "quick"
    out = []
    for i in range(60 if q else 600):
        out.append({"job": "file", "frac": float(g.choice([.02, .1, .5, 1.])), "seed": int(g.randint(1 << 30)), "cost": 1})
    for i in range(25 if q else 250):
        out.append({"job": "record", "seed": int(g.randint(1 << 30)), "cost": 1})
    for t in ["int", "float", "run_id", "missing", "sm2012sph"]:
        for i in range(4 if q else 30):
            out.append({"job": "bad", "type": t, "seed": int(g.randint(1 << 30)), "cost": 1})
    for sim in OPTS:
        for o in OPTS[sim]:
            for i in range(1 if q else 4):
                out.append({"job": "bad", "type": "option", "sim": sim, "opt": o, "seed": int(g.randint(1 << 30)), "cost": 2})
    for i in range(40 if q else 300):
        out.append({"job": "use", "seed": int(g.randint(1 << 30)), "i": i, "cost": 3})
    return out


def rows(run):
    """-> list of parameter tables printed by the driver"""
    out, cur, seen = [], {}, set()
    for e in run.events:
        if "p" in e and "k" in e:
            if (e["p"], e["k"]) in seen:
                out.append(cur)
                cur, seen = {}, set()
            seen.add((e["p"], e["k"]))
            cur.setdefault(e["p"], []).append((e["k"], float(e["v"]) if e["k"] == "f" else e["v"]))
    if cur:
        out.append(cur)
    return out


def same(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and (x[1] == y[1] or (x[1] != x[1] and y[1] != y[1])) for x, y in zip(a, b))


def squeeze(s):
    return "".join(q for q in s if q not in " \t\r\n\v\f")


def known(wd):
    f = vlib.run_driver(["newparams", "printparams"], wd, name="def")
    if not f.ok:
        raise vlib.HarnessError("defaults: %s" % f.failure())
    return rows(f)[0]


def value(g, kind):
    """-> (text in the file, value the code must hold)"""
    if kind == "i":
        v = int(g.choice([0, 1, -1, 7, 99999999, -2147483648, 2147483647, g.randint(-1000, 1000), g.randint(1 << 30)]))
        t = str(v)
        if v >= 0 and g.uniform() < .2:
            t = "+" + t
        if 0 <= v < 1000 and t[0] != "+" and g.uniform() < .1:
            t = "00" + t
        return t, v
    if kind == "f":
        v = float(g.choice([0., 1., -1., g.normal(), g.normal()*10**g.uniform(-30, 30), 10**g.uniform(-8, 8), float(g.randint(1000)), 9.9e30, 1e-300, 1/3.]))
        t = str(g.choice(["%r", "%.17g", "%.6e", "%.3E", "%g", "%f"])) % v
        if g.uniform() < .1 and t[0] not in "+-":
            t = "+" + t
        if t.startswith("0.") and g.uniform() < .5:
            t = t[1:]
        return t, float(t)
    t = str(g.choice(["sph", "kdtree", "M4_Kernel", "a-b/c.d", "run#2", "x=y", "some file name", "1.5", "none", "../dir/file.dat", "UPPER", "x;y,z", "(a)", ""], p=[.09]*10 + [.025]*4))
    return t, squeeze(t)


def decorate(g, k, t):
    """one line of a parameter file giving k the value text t"""
    ws = lambda: str(g.choice(["", " ", "  ", "\t", " \t "]))                    # noqa
    lab = str(g.choice(["", "", "Label ", "Number of things (in units)", "a label # with hash", "long label, with. punctuation!"]))
    kk = k
    if g.uniform() < .05 and len(k) > 3:
        j = g.randint(1, len(k))
        kk = k[:j] + " " + k[j:]                                                 # white space anywhere is removed
    s = ws() + (lab + ws() + ":" if lab else "") + ws() + kk + ws() + "=" + ws() + t + ws()
    return s


def makefile(g, D, frac, bad_keys=0):
    """-> text, {key: value}, [unknown keys]"""
    keys = sorted(D)
    lines, want, unknown = [], {}, []
    ent = []
    for k in keys:
        if k == "sim":
            continue
        if g.uniform() < frac:
            for _ in range(1 if g.uniform() < .93 else 2):                       # repeated entries: the last one counts
                ent.append((g.uniform(), k))
    if not any(k == "run_id" for _, k in ent):
        ent.append((g.uniform(), "run_id"))
    for _, k in sorted(ent):
        kind = D[k][0][0]
        t, v = value(g, kind)
        if k == "run_id":
            t = v = "R%d" % g.randint(1000)
        if t and ":" in t:
            continue
        lines.append(decorate(g, k, t))
        want[k] = (kind, v)
        if g.uniform() < .15:
            z = str(g.choice(keys))
            lines.append(str(g.choice(["", "   ", "# comment", "#%s = 77" % z, "  # %s = 78" % z, "just some text", "---------", "Header text :", "\t"])))
    for i in range(bad_keys):
        u = str(g.choice(["nosuchkey%d", "Ndims%d", "TEND%d", "tend %dx", "sph%d"])) % g.randint(100)
        unknown.append(squeeze(u))
        lines.insert(g.randint(len(lines) + 1), u + " = " + str(g.choice(["1", "1.5", "abc"])))
    end = "\r\n" if g.uniform() < .2 else "\n"
    return end.join(lines) + (end if g.uniform() < .7 else ""), want, unknown


def compare(res, got, want, D, tag):
    bad = [k for k in D if k not in got]
    res.check(not bad, tag + "-lost", lambda: str(bad[:5]))
    bad = [k for k in got if k not in D]
    res.check(not bad, tag + "-invented", lambda: str(bad[:5]))
    for k in D:
        if k not in got:
            continue
        w = [want[k]] if k in want else D[k]
        res.check(same(got[k], w), tag + ("-value" if k in want else "-default"), lambda: "%s is %r, expected %r" % (k, got[k], w))
    res.count("values_compared", len(D))


def run_case(c, wd, res):
    g = np.random.RandomState(c["seed"])
    D = known(wd)
    multi = [k for k in D if len(D[k]) > 1]
    res.check(not multi, "two-types", lambda: str(multi))
    globals()[c["job"]](c, wd, res, g, D)
    res.sig = {k: c[k] for k in c if k != "cost"}


def file(c, wd, res, g, D):
    text, want, unknown = makefile(g, D, c["frac"], int(g.randint(3)))
    with open(os.path.join(wd, "a.dat"), "wb") as f:
        f.write(text.encode())
    # what was in memory before does not matter
    pre = ["param Nhydro 123", "fparam tend 77.5"] if g.uniform() < .5 else []
    f = vlib.run_driver(pre + ["paramfile a.dat", "printparams"], wd)
    if f.failure():
        res.fail("file:run:" + f.failure(), f.out[-500:])
        return
    compare(res, rows(f)[0], want, D, "file")
    for u in unknown:
        # reported, by name
        res.check(any(u in q and "ecogni" in q for q in f.out.splitlines()), "file-unknown-silent", lambda: u)
        res.count("unknown_reported")
    res.check(f.out.count("not recognized") == len(unknown), "file-known-reported-unknown", lambda: f.out[-300:])
    res.count("entries", len(want))
    res.nontrivial = len(D) > 100


def record(c, wd, res, g, D):
    s, want = ["newparams"], {}
    for k in sorted(D):
        kind = D[k][0][0]
        if k in ("sim", "run_id") or g.uniform() < .4:
            continue
        if kind == "f":
            v = float(g.choice([g.normal()*10**g.uniform(-12, 12), g.normal(), g.uniform(), 10**g.uniform(-300, 300), float(g.randint(1 << 40)), 0., 1e22, 1/3.]))
            s.append("fparam %s %r" % (k, v))
        elif kind == "i":
            v = int(g.randint(-(1 << 31), (1 << 31) - 1))
            s.append("param %s %d" % (k, v))
        else:
            v = str(g.choice(["abc", "x/y.dat", "none", "A_b-c"]))
            s.append("param %s %s" % (k, v))
        want[k] = (kind, v)
    s += ["param run_id REC", "printparams", "record", "newparams", "paramfile REC.param", "printparams"]
    want["run_id"] = ("s", "REC")
    f = vlib.run_driver(s, wd)
    if f.failure():
        res.fail("record:run:" + f.failure(), f.out[-500:])
        return
    a = rows(f)
    if len(a) != 2:
        raise vlib.HarnessError("tables: %d" % len(a))
    compare(res, a[0], want, D, "memory")
    compare(res, a[1], want, D, "record")
    # the record is itself a parameter file that the reference parser reads to the same values
    txt = open(os.path.join(wd, "REC.param")).read()
    seen = set()
    for q in txt.splitlines():
        if "=" in q:
            k, v = q.split("=", 1)
            k, v = squeeze(k), squeeze(v)
            if not res.check(k in D, "record-unknown-line", lambda: q):
                continue
            seen.add(k)
            kind = D[k][0][0]
            w = want.get(k, D[k][0])[1]
            x = int(v) if kind == "i" else float(v) if kind == "f" else v
            res.check(x == w, "record-text", lambda: "%s recorded as %r, is %r" % (k, v, w))
    res.check(seen == set(D), "record-incomplete", lambda: str(sorted(set(D) - seen)[:5]))
    res.nontrivial = True


def bad(c, wd, res, g, D):
    t = c["type"]
    if t == "option":
        return option(c, wd, res, g)
    text, want, _ = makefile(g, D, float(g.choice([.02, .3])))
    lines = text.replace("\r", "").split("\n")
    key = None
    if t in ("int", "float"):
        key = str(g.choice([k for k in sorted(D) if D[k][0][0] == t[0]]))
        v = str(g.choice(["abc", "", "none", "--3", "x12", "e5", ".", "+", "true", "?"]))
        lines = [q for q in lines if squeeze(q.split("=")[0].split(":")[-1]) != key]
        lines.insert(g.randint(len(lines) + 1), "%s = %s" % (key, v))
    elif t == "run_id":
        lines = [q for q in lines if squeeze(q.split("=")[0].split(":")[-1]) != "run_id"]
    elif t == "sm2012sph":
        lines.append("sim = sm2012sph")
    with open(os.path.join(wd, "a.dat"), "w") as f:
        f.write("\n".join(lines) + "\n")
    f = vlib.run_driver(["paramfile %s" % ("nosuch.dat" if t == "missing" else "a.dat"), "printparams"], wd)
    if not res.check(not f.ok and not rows(f), t + "-accepted", lambda: "%s %s: no error" % (t, key)):
        return
    if t in ("int", "float"):
        res.check(any(key in q for q in f.out.splitlines()), t + "-error-without-name", lambda: "%s: %s" % (key, f.out[-300:]))
    if t == "missing":
        res.check("nosuch.dat" in f.out, "missing-error-without-name", lambda: f.out[-300:])
    crash(res, f, t)
    res.count("errors_provoked")
    res.nontrivial = True


def crash(res, f, t):
    res.check(f.rc > 0, t + "-crash", lambda: "exit %s: %s" % (f.rc, f.out[-300:]))


def base(g, sim, nd=2, n=300, **kw):
    r = vgen.positions(g, nd, n, "jitter")
    N = len(r)
    p = dict(vgen.BASE)
    p.update(ndim=nd, sim=sim, Nhydro=N, self_gravity=1, zero_mass_flux=1, gas_eos="energy_eqn", **vgen.box_params(nd, -np.ones(nd), 2*np.ones(nd), ["open"]*nd, ["open"]*nd))
    p.update(kw)
    lines, arr = vgen.hydro_arrays(nd, r, 0*r, np.ones(N)/N, np.ones(N))
    return p, lines, arr


def option(c, wd, res, g):
    o = c["opt"]
    p, lines, arr = base(g, c["sim"])
    if "unit" in o:
        p["dimensionless"] = 0
    if o in ("dust_forces", "drag_law"):
        p.update(dust_forces="test_particle", drag_law="fixed", drag_coeff=1.)
    run = lambda q, n: vlib.run_driver(vlib.params_script(q) + ["sim", "prepython"] + lines + ["setup", "steps 1"], wd, arrays=arr, name=n)       # noqa
    f = run(p, "good")
    if f.failure():
        raise vlib.HarnessError("valid configuration fails: %s %s" % (f.failure(), f.out[-300:]))
    v = str(g.choice(["bogus", "nosuchoption", "KDTREE", "None", "m 4", "1"])).replace(" ", "")
    f = run(dict(p, **{o: v}), "bad")
    if res.check(not f.ok, "option-accepted:" + o, lambda: "%s %s=%s: no error" % (c["sim"], o, v)):
        crash(res, f, "option:" + o)
    res.count("errors_provoked")
    res.nontrivial = True


def use(c, wd, res, g, D):
    """every parameter the code asks for while it sets up and runs exists in the table that files are read into"""
    sim = ["sph", "mfvmuscl", "sph", "nbody", "mfvrk"][c["i"] % 5]
    nd = int(g.choice([2, 3]))
    p, lines, arr = base(g, sim, nd, 300 if nd == 2 else 512)
    pick = lambda *a: str(g.choice(a))                                           # noqa
    feat = pick("plain", "dust", "sinks", "sn", "ic", "extpot", "radws", "eos", "units")
    if sim == "nbody":
        p.update(Nhydro=0, Nstar=8, nbody=pick("lfkdk", "lfdkd", "hermite4", "hermite4ts", "hermite6ts"), sub_systems=0)
        lines, arr = vgen.hydro_arrays(nd, g.normal(size=(8, nd)), g.normal(size=(8, nd))*.1, np.ones(8)/8, None, np.full(8, .01), typ="star")
        feat = pick("plain", "ic", "extpot")
    if feat == "dust" and sim == "mfvrk":
        feat = "plain"
    if feat == "dust":
        p.update(dust_forces=pick("test_particle", "full_twofluid"), drag_law=pick("fixed", "density", "epstein"), drag_coeff=1., self_gravity=0, gas_eos=pick("energy_eqn", "isothermal"))
        arr["ptype.raw"] = np.where(np.arange(p["Nhydro"]) % 4 == 0, 3., 0.)
        lines = lines + ["ptype ptype.raw"]
    elif feat == "sinks":
        p.update(sink_particles=1, create_sinks=1, smooth_accretion=int(g.randint(2)), nbody="lfkdk", rho_sink=1e10)
    elif feat == "sn":
        p.update(supernova_feedback=pick("single", "random", "silcc"))
        if sim == "mfvrk":
            p["supernova_feedback"] = "none"
    elif feat == "extpot":
        p.update(external_potential=pick("plummer", "vertical", "silcc"))
        if sim == "nbody" and p["external_potential"] == "silcc":
            p["external_potential"] = "plummer"
    elif feat == "eos":
        p.update(gas_eos=pick("isothermal", "barotropic", "barotropic2", "polytropic", "constant_temp"), dimensionless=1)
    elif feat == "units":
        p.update(dimensionless=0)
    elif feat == "ic" and sim != "nbody":
        nd = 3
        p, lines, arr = base(g, sim, 3, 512)
        ic = pick("isothermsphere", "rotisothermsphere", "sphere", "box", "plummer")
        p.update(ic=ic, Nhydro=300, mcloud=1., radius=1., press1=1., omega=1., angvel=.1, Nstar=0, gasfrac=1., starfrac=0., particle_distribution="random" if ic in ("sphere", "plummer") else "cubic_lattice")
        if ic == "box":
            p.update({"Nlattice1[0]": 8, "Nlattice1[1]": 8, "Nlattice1[2]": 8, "Nhydro": 512})
        lines, arr = None, {}
    elif feat == "ic":
        p.update(ic=pick("binary", "triple", "quadruple") if nd == 3 else "binary", Nstar=4, ndim=nd)
        lines, arr = None, {}
    # keys set with fparam/param that the table does not have would be created by the harness: give them through a file instead
    txt = "".join("%s = %s\n" % (k, "%r" % v if isinstance(v, float) else v) for k, v in p.items() if k in D)
    txt += "run_id = U\n"
    with open(os.path.join(wd, "u.dat"), "w") as f:
        f.write(txt)
    p["run_id"] = "U"
    fk = [k for k in sorted(D) if D[k][0][0] == "f" and k.startswith("DiscIc")]   # not consulted by these runs
    ik = ["DiscIcPlanet", "ilNR", "nside"]
    k1, k2 = str(g.choice(fk)), str(g.choice(ik))
    v1, v2 = float(g.normal()*10**g.uniform(-5, 5)), int(g.randint(-1000, 1000))
    setget = ["setparamd %s %r" % (k1, v1), "getparam " + k1, "setparami %s %d" % (k2, v2), "getparam " + k2]
    s = ["paramfile u.dat", "sim", "simparams"] + setget
    s += ["prepython"] + lines if lines is not None else []
    s += ["setup", "steps 2", "simparams"]
    f = vlib.run_driver(s, wd, arrays=arr)
    a = rows(f)
    fl = f.failure()
    if not a:
        raise vlib.HarnessError("no simulation: %s %s" % (fl, f.out[-300:]))
    want = {k: (D[k][0][0], squeeze(v) if isinstance(v, str) else v) for k, v in p.items() if k in D}
    for j, t in enumerate(a[:2]):
        extra = sorted(set(t) - set(D))
        for k in extra:
            res.check(False, "consumed-but-not-settable:" + k, lambda: "%s %s" % (sim, feat))
        multi = sorted(k for k in t if k in D and len(t[k]) != 1)
        for k in multi:
            res.check(False, "consumed-with-two-types:" + k, lambda: "%s" % (t[k],))
        res.count("values_compared", len(t))
        if j == 0:
            compare(res, {k: t[k] for k in t if k in D and k not in multi}, {k: want[k] for k in want if k not in multi}, {k: D[k] for k in D if k not in multi}, "simulation")
    if fl:
        res.count("configurations_that_stop")
        res.count("stops:" + fl[:80])
    else:
        q = [e for e in f.events if "getparam" in e]
        res.check(len(q) == 2 and float(q[0]["v"]) == v1, "get-float", lambda: "%s set to %r, got %s" % (k1, v1, q))
        res.check(len(q) == 2 and int(q[1]["v"]) == v2, "get-int", lambda: "%s set to %r, got %s" % (k2, v2, q))
        res.count("configurations_run")
    res.nontrivial = len(a[0]) > 100
